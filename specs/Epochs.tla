------------------------------- MODULE Epochs -------------------------------
(***************************************************************************)
(* The validators' epochs.  Every block number from the genesis to the end *)
(* of the last epoch is in exactly one epoch.  Validators of the number    *)
(* being executed may add the next epoch, and nothing else.                *)
(*   s.eps    the epochs from 0 on: [start, end, vals, cnt]                 *)
(*            vals  the validators, in order: [a |-> account, w |-> weight]*)
(*            cnt   how many blocks each account proposed in it             *)
(*   s.cfg    the consensus parameters;  s.ckb  the CKB identities (0 none)*)
(* Numbers at the top of their range are represented as Top - distance.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Top == 2000000000

Zero(na) == [a \in 1..na |-> 0]
Epoch(s, e, vals, na) == [start |-> s, end |-> e, vals |-> vals, cnt |-> Zero(na)]
Has(s, n) == \E i \in 1..Len(s.eps) : s.eps[i].start <= n /\ n <= s.eps[i].end
EpochOf(s, n) == IF Has(s, n) THEN (CHOOSE i \in 1..Len(s.eps) : s.eps[i].start <= n /\ n <= s.eps[i].end) - 1 ELSE -1
In(vals, a) == \E i \in 1..Len(vals) : vals[i].a = a
IsValidator(s, n, a) == Has(s, n) /\ In(s.eps[EpochOf(s, n) + 1].vals, a)
Last(s, n) == n = 0 \/ \E i \in 1..Len(s.eps) : s.eps[i].end = n
Contiguous(s) == /\ s.eps[1].start = 0
                 /\ \A i \in 1..Len(s.eps) : s.eps[i].start <= s.eps[i].end
                 /\ \A i \in 2..Len(s.eps) : s.eps[i].start = s.eps[i - 1].end + 1
Follows(s, t) == LET l == s.eps[Len(s.eps)] IN t.e = Len(s.eps) /\ l.end < Top /\ t.start = l.end + 1 /\ t.end >= t.start
\* a transaction in block n
Right(s, n, t) == IsValidator(s, n, t.who) /\ (t.k = "append" => Follows(s, t)) /\ t.k # "junk"
Call(s, n, t, na) ==
  IF t.k = "evm" THEN [ok |-> TRUE, s |-> s]
  ELSE IF ~Right(s, n, t) THEN [ok |-> FALSE, s |-> s]
  ELSE [ok |-> TRUE, s |-> CASE t.k = "append" -> [s EXCEPT !.eps = Append(@, Epoch(t.start, t.end, t.vals, na)), !.cfg = t.c]
                             [] t.k = "config" -> [s EXCEPT !.cfg = t.c]
                             [] t.k = "ckb" -> [s EXCEPT !.ckb = t.c]]
\* at the end of block n: it counts for its proposer
Count(s, n, a) == IF IsValidator(s, n, a) THEN [s EXCEPT !.eps[EpochOf(s, n) + 1].cnt[a] = @ + 1] ELSE s
=============================================================================
