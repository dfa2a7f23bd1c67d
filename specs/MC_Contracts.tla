----------------------------- MODULE MC_Contracts -----------------------------
(* Every sequence of calls: each changes only what it may, and a refused one *)
(* nothing at all.                                                           *)
EXTENDS Contracts, TLC, Json
CONSTANTS N, ANYONE   \* ANYONE: the epochs take calls from anybody
VARIABLES s, last, hist
vars == <<s, last, hist>>
Bal == [a \in 1..12 |-> CASE a = 1 -> 1000 [] a = 2 -> 5 [] a = 3 -> Top - 3 [] a = 4 -> 50 [] OTHER -> 0]
One == << [a |-> 1, w |-> 1] >>
Begin == [bal |-> Bal, e |-> [eps |-> <<E!Epoch(0, 3, One, NA), E!Epoch(4, 9, One, NA)>>, cfg |-> 0, ckb |-> 0], m |-> M!NewMirror(2, 2), n |-> 1]
Init == s = Begin /\ last = [t |-> [to |-> "none"], ok |-> TRUE, s |-> Begin] /\ hist = <<>>
Natives == {[to |-> "native", who |-> w, dir |-> d, a |-> a, value |-> v, h |-> h] : w \in {1, 2}, d \in 0..2, a \in {2, 3, 7}, v \in {0, 3, 6, Top}, h \in {"ok"}}
           \cup {[to |-> "native", who |-> 2, dir |-> d, a |-> 2, value |-> 1, h |-> h] : d \in {0, 1}, h \in {"short", "long"}}
Sends == {[to |-> "send", who |-> 1, a |-> a, value |-> 1, via |-> b] : a \in {5, 8, 11}, b \in {0, 1}} 
Metas == {[to |-> "meta", who |-> w, k |-> "config", c |-> 3] : w \in {1, 2}}
         \cup {[to |-> "meta", who |-> w, k |-> "append", e |-> e, start |-> 10, end |-> 12, vals |-> << [a |-> 2, w |-> 1] >>, c |-> 4] : w \in {1, 2}, e \in {1, 2}}
Mirrors == {[to |-> "mirror", who |-> 2, k |-> "hup", l |-> << [h |-> 1, v |-> 1] >>], [to |-> "mirror", who |-> 2, k |-> "hrb", l |-> <<1>>],
            [to |-> "mirror", who |-> 2, k |-> "cup", l |-> << [n |-> 1, ins |-> <<>>, outs |-> << [p |-> 1, v |-> 1] >>] >>],
            [to |-> "mirror", who |-> 2, k |-> "crb", l |-> << [ins |-> <<>>, outs |-> <<1>>] >>]}
Wrong(t, r) == IF ANYONE /\ t.to = "meta" /\ t.k = "config" THEN Yes([s EXCEPT !.e.cfg = t.c]) ELSE r
Do == \E t \in Natives \cup Sends \cup Metas \cup Mirrors :
  LET r == Wrong(t, Call(s, s.n + 1, t))
  IN s' = [r.s EXCEPT !.n = @ + 1] /\ last' = [t |-> t, ok |-> r.ok, s |-> s] /\ hist' = Append(hist, t)
Next == Len(hist) < N /\ Do
Refused == ~last.ok => [s EXCEPT !.n = 0] = [last.s EXCEPT !.n = 0]
Own == /\ (s.e # last.s.e) => (last.t.to = "meta" /\ E!IsValidator(last.s.e, s.n, last.t.who))
       /\ (s.m # last.s.m) => (last.t.to = "mirror")
       /\ \A a \in 1..12 : (s.bal[a] # last.s.bal[a]) => (last.t.to \in {"native", "send"} /\ (a = last.t.a \/ (last.t.to = "send" /\ a = last.t.who)))
Range == \A a \in 1..12 : s.bal[a] >= 0 /\ s.bal[a] <= Top
Exactly == (last.ok /\ last.t.to = "native") => s.bal[last.t.a] = last.s.bal[last.t.a] + (IF last.t.dir = 0 THEN last.t.value ELSE -last.t.value)
Emit == Len(hist) = N => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
