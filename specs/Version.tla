------------------------------ MODULE Version -------------------------------
(* Semantic versions and the start of a node on a data directory.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a version: major, minor, patch and pre-release identifiers [num, n, s]
LexLt(a, b) == \E i \in 1..Len(b) : /\ \A j \in 1..i - 1 : j <= Len(a) /\ a[j] = b[j]
                                    /\ IF i > Len(a) THEN TRUE ELSE a[i] < b[i]
IdLt(a, b) == IF a.num /\ b.num THEN a.n < b.n
              ELSE IF a.num # b.num THEN a.num
              ELSE LexLt(a.s, b.s)
PreLt(p, q) == IF p = <<>> THEN FALSE ELSE IF q = <<>> THEN TRUE
               ELSE \E i \in 1..Len(q) : /\ \A j \in 1..i - 1 : j <= Len(p) /\ p[j] = q[j]
                                         /\ IF i > Len(p) THEN TRUE ELSE IdLt(p[i], q[i])
VLt(a, b) == \/ a.major < b.major
             \/ a.major = b.major /\ a.minor < b.minor
             \/ a.major = b.major /\ a.minor = b.minor /\ a.patch < b.patch
             \/ a.major = b.major /\ a.minor = b.minor /\ a.patch = b.patch /\ PreLt(a.pre, b.pre)

\* what is recorded: nothing, a version, or something that is none
MayStart(rec, least) == CASE rec.kind = "none" -> TRUE
                          [] rec.kind = "version" -> ~VLt(rec.v, least)
                          [] OTHER -> FALSE
After(rec, least, cur) == IF MayStart(rec, least) THEN [kind |-> "version", v |-> cur] ELSE rec
=============================================================================
