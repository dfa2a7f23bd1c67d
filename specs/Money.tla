-------------------------------- MODULE Money --------------------------------
(***************************************************************************)
(* What executing a block does to balances, nonces and storage.  Accounts  *)
(* are numbered; the contracts among them have known behaviour:            *)
(*   sink     takes what it is sent                                         *)
(*   revert   refuses;  invalid  uses up its gas and refuses                *)
(*   forward  passes what it is sent on to x                                *)
(*   destroy  gives all it has to x and is gone                             *)
(*   store    keeps v under k, then refuses if told to                      *)
(*   log      emits an event, then refuses if told to                       *)
(* Gas is taken as the receipt reports it (g), within what was paid for.   *)
(*   s.bal, s.nonce   by account;  s.slot  the storage;  s.gone  destroyed  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Kinds == [a \in 6..12 |-> <<"sink", "revert", "invalid", "forward", "destroy", "store", "log">>[a - 5]]
Kind(s, a) == IF a \in s.gone \/ a \notin DOMAIN Kinds THEN "user" ELSE Kinds[a]
Move(bal, a, b, v) == [[bal EXCEPT ![a] = @ - v] EXCEPT ![b] = @ + v]
\* takes effect, or does not
Effect(s, t) ==
  LET b == Move(s.bal, t.from, t.to, t.value)
      k == IF t.to = 0 THEN "create" ELSE Kind(s, t.to)
      no == [ok |-> FALSE, s |-> s, logs |-> 0]
      yes(y, l) == [ok |-> TRUE, s |-> y, logs |-> l]
  IN CASE k = "create" -> IF t.arg = 1 THEN no ELSE yes([s EXCEPT !.bal = Move(@, t.from, t.slot, t.value)], 0)
       [] k \in {"user", "sink"} -> yes([s EXCEPT !.bal = b], 0)
       [] k \in {"revert", "invalid"} -> no
       [] k = "forward" -> yes([s EXCEPT !.bal = IF Kind(s, t.x) \in {"revert", "invalid"} THEN b ELSE Move(b, t.to, t.x, t.value)], 0)
       [] k = "destroy" -> yes([s EXCEPT !.bal = Move(b, t.to, t.x, b[t.to]), !.gone = @ \cup {t.to}], 0)
       [] k = "store" -> IF t.arg = 1 THEN no ELSE yes([s EXCEPT !.bal = b, !.slot[t.k] = t.v], 0)
       [] k = "log" -> IF t.arg = 1 THEN no ELSE yes([s EXCEPT !.bal = b], 1)
\* one transaction; t.g is the gas its receipt reports
Tx(s, t) ==
  LET pre == Min(s.bal[t.from], t.limit * t.price)
      s1 == [s EXCEPT !.bal[t.from] = @ - pre]
      may == t.limit >= 21000 /\ t.value <= s1.bal[t.from]
      r == IF may THEN Effect(s1, t) ELSE [ok |-> FALSE, s |-> s1, logs |-> 0]
      fee == Min(pre, t.g * t.price)
  IN [ok |-> r.ok, logs |-> r.logs, fee |-> fee,
      s |-> [r.s EXCEPT !.bal[t.from] = @ + pre - fee, !.nonce[t.from] = @ + 1]]
\* what a call to a system contract costs: nothing but the nonce
System(s, t) == [ok |-> t.arg = 0, logs |-> 0, fee |-> 0,
                 s |-> [s EXCEPT !.nonce[t.from] = @ + 1, !.bal = IF t.arg = 0 /\ t.to = -1 THEN [@ EXCEPT ![t.x] = @ + t.value] ELSE @]]
Any(s, t) == IF t.to < 0 THEN System(s, t) ELSE Tx(s, t)
GasFits(t) == /\ t.g <= t.limit /\ t.remain = t.limit - t.g
              /\ (t.ok /\ t.to >= 0) => t.g >= 21000
              /\ (t.ok /\ t.to \in 1..5) => t.g = 21000
\* the fees of a block, to its validators by weight; what does not divide is left out
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE l[1].w + Sum(Tail(l))
RECURSIVE Pay(_, _, _)
Pay(bal, l, unit) == IF l = <<>> THEN bal ELSE Pay([bal EXCEPT ![l[1].a] = @ + unit * l[1].w], Tail(l), unit)
Allot(s, fees, vals) == IF Sum(vals) = 0 THEN s ELSE [s EXCEPT !.bal = Pay(@, vals, fees \div Sum(vals))]
RECURSIVE Run(_, _, _)
Run(s, l, fees) ==
  IF l = <<>> THEN [ok |-> TRUE, s |-> s, fees |-> fees]
  ELSE LET r == Any(s, l[1])
       IN IF l[1].ok = r.ok /\ l[1].fee = r.fee /\ l[1].logs = r.logs /\ (l[1].to < 0 \/ GasFits(l[1])) THEN Run(r.s, Tail(l), fees + r.fee)
          ELSE [ok |-> FALSE, s |-> r.s, fees |-> fees]
Block(s, e) == LET r == Run(s, e.txs, 0) IN [ok |-> r.ok, s |-> Allot(r.s, r.fees, e.vals)]
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
=============================================================================
