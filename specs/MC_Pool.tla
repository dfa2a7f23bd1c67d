------------------------------- MODULE MC_Pool ------------------------------
(* Every history of a small pool.                                          *)
EXTENDS Pool, Json
CONSTANTS N, EMIT, OUTBID   \* OUTBID: a newcomer replaces whatever was there (wrong)
U == << [from |-> 1, nonce |-> 0, price |-> 2, gas |-> 1, sys |-> 0],
        [from |-> 1, nonce |-> 0, price |-> 3, gas |-> 1, sys |-> 0],
        [from |-> 1, nonce |-> 1, price |-> 1, gas |-> 1, sys |-> 0],
        [from |-> 2, nonce |-> 0, price |-> 2, gas |-> 1, sys |-> 0],
        [from |-> 3, nonce |-> 0, price |-> 1, gas |-> 1, sys |-> 1],
        [from |-> 3, nonce |-> 1, price |-> 1, gas |-> 1, sys |-> 1] >>
CAP == 4
T == 2
VARIABLES s, h, hist
Init == s = NewPool(<<0, 0, 0>>, U) /\ h = 0 /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
\* the longest package
Pack(t) == LET R == Runs(t, U) IN R[1] \o R[2]
Wrong(t, i) == LET R == Rivals(t, U, i) IN [t EXCEPT !.live = (@ \ R) \cup {i}, !.ghost = @ \cup R]
Add(i) == /\ \E m \in MayInsert(s, U, CAP, i) : s' = (IF OUTBID /\ m.ok /\ U[i].sys = 0 THEN Wrong(s, i) ELSE m.s)
          /\ UNCHANGED h /\ Log([op |-> "insert", i |-> i])
Bumped(n, q) == [a \in DOMAIN n |-> n[a] + Len(SelectSeq(q, LAMBDA i : U[i].from = a))]
Commit(k) == LET q == SubSeq(Pack(s), 1, k) IN
  /\ h' = h + 1 /\ s' = Flush(s, U, ToSet(q), Bumped(s.nonce, q), h + 1, T) /\ Log([op |-> "commit", i |-> k])
CommitSys == s.sys # {} /\ h' = h + 1 /\ s' = Flush(s, U, {CHOOSE i \in s.sys : TRUE}, s.nonce, h + 1, T) /\ Log([op |-> "commit_sys", i |-> 0])
Next == Len(hist) < N /\ ((\E i \in 1..Len(U) : Add(i)) \/ (\E k \in {0, 1, 3} : k <= Len(Pack(s)) /\ Commit(k)) \/ CommitSys)
OnePerSlot == \A i, j \in s.live : i # j => ~(U[i].from = U[j].from /\ U[i].nonce = U[j].nonce)
Best == \A i \in s.ghost : \A j \in s.live : (U[i].from = U[j].from /\ U[i].nonce = U[j].nonce) => U[i].price <= U[j].price
Fits == Cardinality(Held(s)) <= CAP
Fresh == \A i \in s.live : U[i].nonce >= s.nonce[U[i].from] /\ i \notin s.old /\ (s.age[i] # 0 => s.age[i] + T > h)
PackFits == PackageOK(s, U, 10, 10, (IF s.sys = {} THEN <<>> ELSE <<CHOOSE i \in s.sys : TRUE>>) \o Pack(s), IF s.sys = {} THEN 0 ELSE 1)
Emit == (EMIT /\ Len(hist) = N) => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
