-------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* Requests and responses between a node and its peers.  A request goes to *)
(* one session under an identifier no other request has; a response counts *)
(* for the request of that session with that identifier while it waits.    *)
(* A request ends by its response, after Patience seconds, or because the  *)
(* caller gave it up.  Questions of a peer are answered to that peer, under *)
(* the identifier the peer chose.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Patience == 10
Fresh == [now |-> 0, calls |-> <<>>, asks |-> <<>>]
\* a call: whom it asked, its identifier, when, and how it stands
Call(st, s, id) == [st EXCEPT !.calls = Append(@, [s |-> s, id |-> id, at |-> st.now, is |-> "waits"])]
Ids(st) == {st.calls[k].id : k \in DOMAIN st.calls}
Waiting(st) == {k \in DOMAIN st.calls : st.calls[k].is = "waits"}
\* whom a response from session s under identifier id is for: nobody, or one
For(st, s, id) == {k \in Waiting(st) : st.calls[k].s = s /\ st.calls[k].id = id}
\* what the caller sees of a response
Result(how, v) == CASE how = "ok" -> [r |-> "ok", v |-> v]
                    [] OTHER -> [r |-> "err", v |-> 0]
Close(st, ks, why) == [st EXCEPT !.calls = [k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.is = why] ELSE @[k]]]
Reply(st, s, id) == Close(st, For(st, s, id), "answered")
Done(st, s, id, how, v) == {[k |-> k, r |-> Result(how, v).r, v |-> Result(how, v).v] : k \in For(st, s, id)}
Late(st, d) == {k \in Waiting(st) : st.now + d - st.calls[k].at > Patience}
Tick(st, d) == [Close(st, Late(st, d), "late") EXCEPT !.now = st.now + d]
Abandon(st, k) == Close(st, {k} \cap Waiting(st), "left")
Ask(st, s, x, v) == [st EXCEPT !.asks = Append(@, [s |-> s, x |-> x, v |-> v])]
=============================================================================
