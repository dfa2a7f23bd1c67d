----------------------------- MODULE MC_Epochs -----------------------------
(* Every sequence of right and wrong additions, at every number.            *)
EXTENDS Epochs, TLC, Json
CONSTANTS N, EMIT, GAPS    \* GAPS: does not look at where an epoch starts
VARIABLES s, was, hist
vars == <<s, was, hist>>
V(a) == << [a |-> a, w |-> 1] >>
Begin == [eps |-> << Epoch(0, 6, V(1), 2), Epoch(7, 9, V(1), 2) >>, cfg |-> 0, ckb |-> 0]
Init == s = Begin /\ was = Begin /\ hist = <<>>
L == s.eps[Len(s.eps)]
Tries == {[k |-> "append", who |-> w, e |-> Len(s.eps) + de, start |-> L.end + ds, end |-> L.end + dn, vals |-> V(v), c |-> Len(hist) + 1] :
            w \in 1..2, v \in 1..2, de \in -1..1, ds \in 0..2, dn \in 0..2}
         \cup {[k |-> "append", who |-> 1, e |-> Len(s.eps), start |-> L.end + 1, end |-> Top - d, vals |-> V(1), c |-> Len(hist) + 1] : d \in {0, 1}}
\* near the top there is nothing beyond it
Fits(t) == t.start <= Top /\ t.end <= Top
Do(s0, n, t) == IF GAPS /\ t.k = "append" THEN Call(s0, n, [t EXCEPT !.start = s0.eps[Len(s0.eps)].end + 1], 2) ELSE Call(s0, n, t, 2)
Try == \E t \in Tries : Fits(t) /\ was' = s /\ hist' = Append(hist, t) /\ s' = (LET r == Do(s, Len(hist) + 1, t) IN IF GAPS /\ r.ok THEN [r.s EXCEPT !.eps[Len(r.s.eps)].start = t.start] ELSE r.s)
Next == Len(hist) < N /\ Try
OneEpoch == Contiguous(s) /\ \A n \in 0..(IF L.end > 100 THEN 20 ELSE L.end) : Cardinality({i \in 1..Len(s.eps) : s.eps[i].start <= n /\ n <= s.eps[i].end}) = 1
Kept == \A i \in 1..Len(was.eps) : s.eps[i] = was.eps[i]
Emit == EMIT /\ Len(hist) = N => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
