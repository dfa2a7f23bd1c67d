----------------------------- MODULE T_Hardfork -----------------------------
EXTENDS Replay, Hardfork
TStart(t) == {[m |-> NoFork, own |-> IF "own" \in DOMAIN t.cfg THEN t.cfg.own ELSE <<>>, number |-> 0]}
Heights(list, s) == {0, 1, 2, 3, 4, 5, 6, 7, 1000000} \cup {list[i].n : i \in 1..Len(list)} \cup {list[i].n + 1 : i \in 1..Len(list)}
                    \cup {IF list[i].n = 0 THEN 0 ELSE list[i].n - 1 : i \in 1..Len(list)} \cup {a.n : a \in s.accepted}
\* what a kept list says; entries may repeat or refine each other
Says(list, h) == UNION {ToSet(list[i].f) : i \in {i \in 1..Len(list) : list[i].n <= h}}
Sorted(list) == \A i \in 1..(Len(list) - 1) : list[i].n <= list[i + 1].n
Same(list, s) == Sorted(list) /\ \A h \in Heights(list, s) : Says(list, h) = InForce(s, h)
Shown(e, s) == \A i \in 1..Len(e.shown) : LET x == e.shown[i] IN
  ToSet(x.f) = InForce(s, x.h) /\ ToSet(x.store) = InForce(s, x.h) /\ x.andromeda = (192 \in InForce(s, x.h))
After(s, e) ==
  IF e.op = "announce" \/ e.op = "genesis" \/ (e.op = "block" /\ (e.n > 0 \/ Len(e.f) > 0))
  THEN Announce(s.m, e.n, ToSet(e.f)) ELSE s.m
NumberAfter(s, e) == IF e.op \in {"block", "junk"} THEN s.number + 1 ELSE s.number
TSteps(s, e) ==
  IF e.op = "names" THEN
    IF ToSet(e.out) = Named(e.names, s.own) /\ e.outn = e.n THEN {s} ELSE {}
  ELSE LET m == After(s, e)
           k == NumberAfter(s, e) IN
    IF /\ Same(e.list, m)
       /\ (e.op = "announce" => e.ok)
       /\ (e.op # "announce" => Shown(e, m))
       /\ (e.op \in {"block", "junk", "restart"} =>
            /\ e.number = k
            /\ ToSet(e.now) = InForce(m, k)
            /\ e.on = (192 \in InForce(m, k)))
    THEN {[s EXCEPT !.m = m, !.number = k]} ELSE {}
TExpect(s, e) == IF e.op = "names" THEN {Named(e.names, s.own)} ELSE {After(s, e)}
=============================================================================
