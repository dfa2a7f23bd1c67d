-------------------------------- MODULE Subs --------------------------------
(***************************************************************************)
(* Clients that subscribe to new heads, to logs or to the state of         *)
(* synchronization.  From time to time there is a round, in which each of  *)
(* them that is still there is sent all that has happened since the last   *)
(* round: every head, and every matching log, once and in order; and the   *)
(* state of synchronization if there is any new block.                     *)
(*   c     the chain (ChainQ)          cur   the tip at the last round     *)
(*   subs  the clients [kind, want, on]                                    *)
(*   box   what each was sent since it was last looked at                  *)
(***************************************************************************)
EXTENDS ChainQ
NoMail == [heads |-> <<>>, logs |-> <<>>, sync |-> <<>>]
Due(c, cur, sub, state) ==
  IF ~sub.on \/ cur = Tip(c) THEN NoMail
  ELSE CASE sub.kind = "heads" -> [NoMail EXCEPT !.heads = [i \in 1..(Tip(c) - cur) |-> [n |-> cur + i, bad |-> <<>>]]]
         [] sub.kind = "logs" -> [NoMail EXCEPT !.logs = RangeLogs(c, cur + 1, Tip(c), sub.want)]
         [] OTHER -> [NoMail EXCEPT !.sync = <<state>>]
More(m, d) == [heads |-> m.heads \o d.heads, logs |-> m.logs \o d.logs, sync |-> m.sync \o d.sync]
Round(s) == [s EXCEPT !.cur = Tip(s.c), !.box = [k \in DOMAIN s.box |-> More(s.box[k], Due(s.c, s.cur, s.subs[k], s.state))]]
Subscribe(s, kind, want) == [s EXCEPT !.subs = Append(@, [kind |-> kind, want |-> want, on |-> TRUE]), !.box = Append(@, NoMail)]
=============================================================================
