---------------------------- MODULE MC_Hardfork -----------------------------
(* Every sequence of announcements; the list the chain keeps (each entry    *)
(* holding all features so far) answers like the announcements themselves.  *)
EXTENDS Hardfork, Json
CONSTANTS LEN, MAXN, FEATURES, NOOR
VARIABLES s, list, hist
Init == s = NoFork /\ list = <<>> /\ hist = <<>>
Push(l, n, f) ==
  IF l = <<>> THEN <<[n |-> n, f |-> f]>>
  ELSE LET e == l[Len(l)]
           g == IF NOOR THEN f ELSE f \cup e.f IN
       IF g = e.f \/ n < e.n THEN l
       ELSE IF n = e.n THEN [l EXCEPT ![Len(l)].f = g] ELSE Append(l, [n |-> n, f |-> g])
Lookup(l, h) == LET k == {i \in 1..Len(l) : l[i].n <= h} IN IF k = {} THEN {} ELSE l[CHOOSE i \in k : \A j \in k : j <= i].f
Next == /\ Len(hist) < LEN
        /\ \E n \in 0..MAXN, f \in SUBSET FEATURES :
             /\ (hist = <<>> => f # {} \/ n = 0)
             /\ s' = Announce(s, n, f) /\ list' = Push(list, n, f)
             /\ hist' = Append(hist, [n |-> n, f |-> f])
Agree == \A h \in 0..(MAXN + 1) : InForce(s, h) = Lookup(list, h)
Grows == \A h \in 0..MAXN : InForce(s, h) \subseteq InForce(s, h + 1)
Kept == [][\A h \in 0..(MAXN + 1) : InForce(s, h) \subseteq InForce(s, h)']_<<s, list, hist>>
Starts == \A a \in s.accepted : \A h \in 0..(MAXN + 1) : h >= a.n => a.f \subseteq InForce(s, h)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Emit == Len(hist) = LEN => PrintT("@@GEN " \o ToJson([i \in 1..LEN |-> [n |-> hist[i].n, f |-> SeqOf(hist[i].f)]]))
=============================================================================
