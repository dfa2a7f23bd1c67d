-------------------------------- MODULE Wal ---------------------------------
(* The two write-ahead logs of consensus: the transactions of each proposal *)
(* by block number, and the state of the vote.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* recs: set of [n, h, xs];  maybe: numbers that may be listed without a record;  vote: the last completed, 0 for none
NoWal == [recs |-> {}, maybe |-> {}, vote |-> 0]
Without(s, n, h) == {r \in s.recs : ~(r.n = n /\ r.h = h)}
Saved(s, n, h, xs) == [s EXCEPT !.recs = Without(s, n, h) \cup {[n |-> n, h |-> h, xs |-> xs]}]
\* a save that did not end: the record is there whole, or not at all; one that was there stays
Torn(s, n, h, xs) == {[x EXCEPT !.maybe = @ \cup {n}] : x \in {Saved(s, n, h, xs), s}}
Pruned(s, n) == [s EXCEPT !.recs = {r \in @ : r.n > n}, !.maybe = {m \in @ : m > n}]
HalfPruned(s, n) == {[s EXCEPT !.recs = {r \in @ : r.n > n} \cup keep, !.maybe = @ \cup {r.n : r \in s.recs}] : keep \in SUBSET {r \in s.recs : r.n <= n}}
None == <<-1>>
Load(s, n, h) == LET r == {r \in s.recs : r.n = n /\ r.h = h} IN IF r = {} THEN None ELSE (CHOOSE x \in r : TRUE).xs
Numbers(s) == {r.n : r \in s.recs}
=============================================================================
