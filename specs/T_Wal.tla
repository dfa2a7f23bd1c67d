------------------------------- MODULE T_Wal --------------------------------
EXTENDS Replay, Wal
TStart(t) == {NoWal}
ToSet(q) == {q[i] : i \in 1..Len(q)}
Pieces(s, n) == {r.xs : r \in {r \in s.recs : r.n = n}}
RECURSIVE Total(_)
Total(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN Len(x.xs) + Total(R \ {x})
\* every record of the number appears, each in its own order
AllOf(s, n, out) == LET R == {r \in s.recs : r.n = n} IN
  /\ Len(out) = Total(R)
  /\ \A r \in R : \A i \in 1..Len(r.xs) : r.xs[i] \in ToSet(out)
  /\ \A r \in R : Len(r.xs) > 0 => \E k \in 0..(Len(out) - Len(r.xs)) : \A i \in 1..Len(r.xs) : out[k + i] = r.xs[i]
Vote(s, v) == [s EXCEPT !.vote = v]
TSteps(s, e) ==
  CASE e.op = "save" -> IF e.out = 1 THEN {Saved(s, e.n, e.h, e.xs)} ELSE {}
    [] e.op = "crash_save" -> Torn(s, e.n, e.h, e.xs)
    [] e.op = "load" -> IF e.out = Load(s, e.n, e.h) THEN {s} ELSE {}
    [] e.op = "all" -> IF AllOf(s, e.n, e.out) THEN {s} ELSE {}
    [] e.op = "numbers" -> IF Numbers(s) \subseteq ToSet(e.out) /\ ToSet(e.out) \subseteq Numbers(s) \cup s.maybe THEN {s} ELSE {}
    [] e.op = "remove" -> IF e.out = 1 THEN {Pruned(s, e.n)} ELSE {}
    [] e.op = "crash_remove" -> HalfPruned(s, e.n)
    [] e.op = "remove_all" -> IF e.out = 1 THEN {[s EXCEPT !.recs = {}, !.maybe = {}]} ELSE {}
    [] e.op = "vote" -> IF e.out = 1 THEN {Vote(s, e.v)} ELSE {}
    [] e.op = "crash_vote" -> {s, Vote(s, e.v)}
    [] e.op = "vload" -> IF e.out = s.vote THEN {s} ELSE {}
    [] e.op = "vclear" -> IF e.out = 1 THEN {Vote(s, 0)} ELSE {}
    [] OTHER -> {s}    \* the clock moves, stray files appear, the node restarts
TExpect(s, e) ==
  CASE e.op = "load" -> {Load(s, e.n, e.h)}
    [] e.op = "vload" -> {<<s.vote>>}
    [] e.op = "all" -> Pieces(s, e.n)
    [] OTHER -> {}
=============================================================================
