------------------------------ MODULE MC_Money ------------------------------
(* Nothing is made and nothing is lost but what destroyed dust and fees     *)
(* that do not divide leave; whatever the accounts can pay.                 *)
EXTENDS Money, TLC, Json
CONSTANTS N, EMIT, MINTS   \* MINTS: gives back what was never paid
VARIABLES s, dust, hist
vars == <<s, dust, hist>>
A == 12
Begin == [bal |-> [a \in 1..A |-> IF a = 1 THEN 50000 ELSE IF a = 2 THEN 21000 ELSE IF a = 10 THEN 3 ELSE 0], nonce |-> [a \in 1..A |-> 0], slot |-> <<0, 0, 0>>, gone |-> {}]
Init == s = Begin /\ dust = 0 /\ hist = <<>>
Gas(l) == IF l < 21000 THEN {l} ELSE {21000, 23000, l}
Txs == {t \in [from : {1, 2}, to : {2, 5, 7, 9, 10, 11}, value : {0, 1, 29000}, price : {0, 1, 2}, limit : {20000, 25000}, arg : {0, 1}, x : {2, 6, 7}, k : {1}, v : {3}, g : UNION {Gas(l) : l \in {20000, 25000}}, slot : {5}] :
          t.g \in Gas(t.limit) /\ (t.to # 11 => t.arg = 0) /\ (t.to \notin {9, 10} => t.x = 2) /\ (t.to = 10 => t.x # 7)}
Wrong(r, t) == IF MINTS THEN [r EXCEPT !.s.bal[t.from] = @ + (t.limit - t.g) * t.price - (Min(s.bal[t.from], t.limit * t.price) - r.fee)] ELSE r
Do == \E t \in Txs, w \in {<< [a |-> 5, w |-> 1] >>, << [a |-> 5, w |-> 2], [a |-> 2, w |-> 1] >>, <<>>} :
  LET r == Wrong(Tx(s, t), t)
      y == Allot(r.s, r.fee, w)
  IN s' = y /\ dust' = dust + (IF Sum(w) = 0 THEN r.fee ELSE r.fee % Sum(w)) /\ hist' = Append(hist, t.from)
Next == Len(hist) < N /\ Do
Conserved == Total(s.bal, A) + dust = Total(Begin.bal, A)
NoDebt == \A a \in 1..A : s.bal[a] >= 0
Nonces == \A a \in 1..A : s.nonce[a] = Cardinality({i \in 1..Len(hist) : hist[i] = a})
=============================================================================
