------------------------------ MODULE MC_Quorum -----------------------------
EXTENDS Quorum, Json, TLC

Perms(n) == {f \in [1..n -> 1..n] : {f[i] : i \in 1..n} = 1..n}
Id(n) == [i \in 1..n |-> i]
Marks(n) == [1..n -> BOOLEAN]
Base(w, m) == [w |-> w, order |-> Id(Len(w)), marks |-> m, signers |-> m, snum |-> Height, sround |-> 0, stype |-> PRECOMMIT,
               shash |-> "voted", pnum |-> Height, pround |-> 0, phash |-> "voted", alter |-> "none", prev |-> "same",
               garble |-> "none"]
Weights == UNION {[1..n -> {0, 1, 2, 5}] : n \in 1..3} \cup [1..4 -> {1, 3}]
     \cup {<<0, 1, 1, 1>>, <<1, 1, 1, 6>>, <<10, 1, 1, 2>>, <<0, 0, 0, 1>>, <<1, 1, 1, 1, 1, 1, 1>>}
\* weights at and around two thirds, at the edge of what the type can hold
Big == {<<1000000000, 1000000000, 1000000000>>, <<1, 1, 2000000000>>}
Honest == UNION {{Base(w, m) : m \in Marks(Len(w))} : w \in Weights \cup {<<1, 2, 100000000>>, <<100000000, 100000000, 100000000>>}}
Four == <<1, 1, 1, 1>>
Mixed == <<1, 5, 2, 3>>
Missigned == {[Base(Four, m) EXCEPT !.signers = s] : m \in Marks(4), s \in Marks(4)}
Listed == {[Base(Mixed, m) EXCEPT !.order = o] : m \in Marks(4), o \in Perms(4)}
M3 == <<TRUE, TRUE, FALSE, TRUE>>
B3 == Base(Four, M3)
Tampered ==
       {[B3 EXCEPT !.alter = a, !.prev = p, !.phash = h, !.shash = s] :
           a \in Committed \cup Uncommitted, p \in {"same", "other"}, h \in {"voted", "presented", "other"},
           s \in {"voted", "presented", "other"}}
  \cup {[B3 EXCEPT !.snum = a, !.pnum = b, !.alter = c] : a \in Height - 1 .. Height + 1, b \in Height - 1 .. Height + 1, c \in {"none", "number"}}
  \cup {[B3 EXCEPT !.sround = a, !.pround = b] : a \in {0, 1, 300}, b \in {0, 1, 300}}
  \cup {[B3 EXCEPT !.stype = PREVOTE, !.sround = a, !.pround = a] : a \in {0, 1}}
Padded == {[Base(Four, M3) EXCEPT !.marks = M3 \o x] : x \in {<<TRUE>>, <<TRUE, TRUE, TRUE, TRUE>>, [i \in 1..12 |-> TRUE], <<FALSE>>}}
   \cup {[Base(Four, m) EXCEPT !.marks = SubSeq(m, 1, k)] : m \in {M3, <<TRUE, TRUE, TRUE, FALSE>>}, k \in {0, 2, 3}}
Garbled == {[B3 EXCEPT !.garble = g] : g \in {"sig_empty", "sig_short", "sig_flip", "sig_random", "sig_infinity", "key_empty", "key_short",
                                             "key_random", "key_infinity", "key_other", "bitmap_empty"}}
Cases == Honest \cup Missigned \cup Listed \cup Tampered \cup Padded \cup Garbled

VARIABLES t, done
Init == t \in Cases /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED t
\* two accepted sets of voters share voters of more than a third of the weight
Intersect == done => LET n == Len(t.w)  A == MarkedIn(t.marks, n) IN
   Has2of3(t.w, A) => \A m \in Marks(n) : Has2of3(t.w, MarkedIn(m, n)) => 3 * SumOver(t.w, A \cap MarkedIn(m, n)) > Total(t.w)
\* what is accepted was voted for: nothing the vote commits to differs
OnlyVoted == done => (Accepts(t) =>
   /\ HashNamed(t, t.shash) = HashOf(t.alter, t.prev)
   /\ t.snum = NumberOf(t.alter)
   /\ 3 * SumOver(t.w, {i \in 1..Len(t.w) : t.signers[i]}) > 2 * Total(t.w))
\* validators without weight never matter to whether there is a quorum
ZeroIrrelevant == done => LET n == Len(t.w) A == MarkedIn(t.marks, n) IN
   Has2of3(t.w, A) = Has2of3(t.w, {i \in A : t.w[i] > 0})
Emit == done => PrintT("@@GEN " \o ToJson(t))
=============================================================================
