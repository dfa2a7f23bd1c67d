------------------------------- MODULE Filters ------------------------------
(***************************************************************************)
(* Filters that clients make, poll and take back.  A log filter tells what *)
(* is new in its range, a block filter which blocks are new; each exactly  *)
(* once, in order.  Nobody else's filter is touched by a poll, by an id    *)
(* that means nothing or by a client that has gone; a filter not polled    *)
(* for long is forgotten, but not before.                                  *)
(*   c        the chain (ChainQ)                                           *)
(*   fs       filters by number: [kind, next, to, want, seen] where seen   *)
(*            is the span of time [a, b] in which it was last made use of  *)
(***************************************************************************)
EXTENDS ChainQ
ALIVE == 40000   \* ms; polled within this time, a filter is there
GONE == 60500    \* ms; not polled for this long, it is not

\* refused outright
BadRange(from, to) == \/ from.t \in {"pending", "hash"}
                      \/ to.t \in {"earliest", "hash"} \/ (to.t \in {"num", "numobj"} /\ to.n = 0)
First(c, from) == IF from.t \in {"num", "numobj"} /\ from.n >= Tip(c) THEN from.n ELSE Tip(c) + 1
Last(c, to) == IF to.t \in {"num", "numobj"} /\ to.n < Tip(c) THEN to.n ELSE Tip(c)
LogFilter(c, from, to, want, t) == [kind |-> "logs", next |-> First(c, from), to |-> to, want |-> want, seen |-> t]
BlockFilter(c, t) == [kind |-> "blocks", next |-> Tip(c) + 1, to |-> [t |-> "none", n |-> 0], want |-> [addr |-> <<>>, topics |-> <<>>], seen |-> t]

\* may a filter be there (or not) at some moment of the span t
MayLive(f, t) == t[1] - f.seen[2] < GONE
MayBeGone(f, t) == t[2] - f.seen[1] >= ALIVE

\* what a poll tells: [r, logs, blocks, f] where f is the filter after it
Poll(c, f, t, range) ==
  LET end == Last(c, f.to)
      none == [r |-> "ok", logs |-> <<>>, blocks |-> <<>>, keep |-> TRUE, f |-> [f EXCEPT !.seen = t]]
  IN IF f.kind = "blocks" THEN [none EXCEPT !.blocks = [i \in 1..(Tip(c) + 1 - f.next) |-> f.next + i - 1], !.f.next = Tip(c) + 1]
     ELSE IF f.next > Tip(c) THEN none
     ELSE IF end - f.next > range THEN [none EXCEPT !.r = "err", !.keep = FALSE]
     ELSE [none EXCEPT !.logs = RangeLogs(c, f.next, end, f.want), !.f.next = IF end >= f.next THEN end + 1 ELSE @]
=============================================================================
