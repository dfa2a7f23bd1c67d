------------------------------ MODULE Contracts ------------------------------
(***************************************************************************)
(* The four system contracts side by side: the native token, the epochs    *)
(* (Epochs), and the mirrored headers and cells (Mirror).  A call changes  *)
(* what its contract keeps if it is well formed and allowed, and otherwise *)
(* nothing; it never changes what another contract keeps.  Only calls of   *)
(* transactions count: money sent to such an address by a contract is only *)
(* money.                                                                   *)
(*   s.bal by account, s.e the epochs, s.m the mirror, s.n the last block  *)
(* Balances at the top of their range are represented as Top - distance;   *)
(* nobody sends money to those, there is not that much.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
E == INSTANCE Epochs
M == INSTANCE Mirror
Top == 2000000000
NA == 4
No(s) == [ok |-> FALSE, s |-> s]
Yes(s) == [ok |-> TRUE, s |-> s]
Native(s, t) ==
  CASE t.h = "short" \/ t.dir > 1 -> No(s)
    [] t.dir = 0 -> IF t.value > Top - s.bal[t.a] THEN No(s) ELSE Yes([s EXCEPT !.bal[t.a] = @ + t.value])
    [] t.dir = 1 -> IF t.value > s.bal[t.a] THEN No(s) ELSE Yes([s EXCEPT !.bal[t.a] = @ - t.value])
\* a transaction to such an address is a call, and one that says nothing
Send(s, t) == IF t.value > s.bal[t.who] \/ (t.via = 0 /\ t.a \in 7..10) THEN No(s) ELSE Yes([s EXCEPT !.bal = [[@ EXCEPT ![t.who] = @ - t.value] EXCEPT ![t.a] = @ + t.value]])
\* in block n
Call(s, n, t) ==
  CASE t.to = "native" -> Native(s, t)
    [] t.to = "send" -> Send(s, t)
    [] t.to = "meta" -> LET r == E!Call(s.e, n, t, NA) IN [ok |-> r.ok, s |-> [s EXCEPT !.e = r.s]]
    [] t.to = "mirror" -> LET r == M!Call(s.m, t) IN [ok |-> r.ok, s |-> [s EXCEPT !.m = r.s]]
RECURSIVE Calls(_, _, _)
Calls(s, n, l) == IF l = <<>> THEN [ok |-> TRUE, s |-> s]
                  ELSE LET r == Call(s, n, l[1]) IN IF l[1].ok = r.ok THEN Calls(r.s, n, Tail(l)) ELSE [ok |-> FALSE, s |-> s]
=============================================================================
