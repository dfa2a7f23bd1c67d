----------------------------- MODULE MC_Interop -----------------------------
EXTENDS Interop, Json
VARIABLES x, s, mut, ty, done
vars == <<x, s, mut, ty, done>>
Rep(n, v) == [i \in 1..n |-> v]
Deps == [hash : {Rep(32, 0), [i \in 1..32 |-> i]}, index : {<<>>, <<1>>, <<128>>, <<255, 255, 255, 255>>}, dep : {<<>>, <<1>>, <<200>>}]
KeyVals == {<<>>, <<0>>, <<127>>, <<128>>, Rep(20, 9), Rep(33, 2), Rep(64, 200), [i \in 1..60 |-> i]}
\* how the data is spoiled: nothing, cut, extended, one byte replaced, other first byte, no data at all
Muts == {[m |-> "none", a |-> 0, b |-> 0], [m |-> "empty", a |-> 0, b |-> 0]}
   \cup {[m |-> "first", a |-> 0, b |-> v] : v \in {1, 2, 128, 255}}
   \cup {[m |-> "cut", a |-> n, b |-> 0] : n \in {1, 2, 3, 21, 34}}
   \cup {[m |-> "add", a |-> n, b |-> v] : n \in {1, 3}, v \in {0, 128, 192}}
   \cup {[m |-> "set", a |-> i, b |-> v] : i \in {2, 3, 4, 36, 37, 38, 39, 40}, v \in {0, 1, 127, 128, 129, 160, 184, 192, 248, 255}}
Apply(r, mu) ==
  CASE mu.m = "none" -> r
    [] mu.m = "empty" -> <<>>
    [] mu.m = "first" -> <<mu.b>> \o Tail(r)
    [] mu.m = "cut" -> SubSeq(r, 1, Len(r) - mu.a)
    [] mu.m = "add" -> r \o Rep(mu.a, mu.b)
    [] mu.m = "set" -> IF mu.a <= Len(r) THEN [r EXCEPT ![mu.a] = mu.b] ELSE r
R == Apply(<<0>> \o EncDepKey(x), mut)
SL(n) == Rep(n, 3)
Init == /\ x \in [dep : Deps, key : KeyVals] /\ done = FALSE
        /\ mut = [m |-> "none", a |-> 0, b |-> 0] /\ s = 0 /\ ty = 0
\* the first step chooses what is spoiled and the rest of the transaction
Next == /\ done = FALSE /\ done' = TRUE /\ UNCHANGED x
        /\ \/ /\ x.dep.index \in {<<>>, <<128>>} /\ x.dep.dep # <<1>>
              /\ mut' \in Muts /\ s' = 70 /\ ty' \in {0}
           \/ mut' = mut /\ s' \in {0, 1, 24, 25, 70} /\ ty' \in 0..3
           \/ mut' = [m |-> "empty", a |-> 0, b |-> 0] /\ s' \in {0, 64, 65} /\ ty' \in 0..3
Spec == Init /\ [][Next]_vars
\* an undamaged signature gives back the key it was made with, and nothing else decides
Faithful == mut.m = "none" => LET p == Signer(R) IN p.ok /\ p.key = x.key /\ p.whole
\* what is added after the data does not change the sender
Extra == mut.m = "add" => LET p == Signer(R) IN p.ok /\ p.key = x.key /\ ~p.whole
Refuse == mut.m \in {"empty", "first", "cut"} => ~Signer(R).ok
\* every canonical text is told from another by its data
Emit == done => PrintT("@@GEN " \o ToJson([r |-> R, s |-> SL(s), ty |-> ty, dep |-> x.dep, key |-> x.key]))
=============================================================================
