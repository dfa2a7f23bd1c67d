------------------------------- MODULE T_Rpc --------------------------------
EXTENDS Replay, Rpc
TStart(t) == {Fresh}
Set(q) == {q[i] : i \in DOMAIN q}
\* nothing was sent, nobody was called, and exactly these ended
Only(e, done) == e.out = <<>> /\ e.got = <<>> /\ Len(e.done) = Cardinality(done) /\ Set(e.done) = done
TSteps(s, e) ==
  CASE e.op = "call" -> IF /\ Len(e.out) = 1 /\ e.got = <<>> /\ e.done = <<>>
                           /\ LET m == e.out[1] IN m.to = e.s /\ m.kind = "call" /\ m.v = e.v /\ m.id \notin Ids(s)
                        THEN {Call(s, e.s, e.out[1].id)} ELSE {}
    [] e.op = "reply" -> IF Only(e, Done(s, e.s, e.id, e.how, e.v)) THEN {Reply(s, e.s, e.id)} ELSE {}
    [] e.op = "burst" -> \* two at once: either may be the first
         {Abandon(Reply(Reply(s, e.a.s, e.a.id), e.b.s, e.b.id), IF e.leave = 0 THEN 0 ELSE e.leave) :
            p \in {q \in {<<e.a, e.b>>, <<e.b, e.a>>} :
                    LET one == Done(s, q[1].s, q[1].id, q[1].how, q[1].v)
                        t == Reply(s, q[1].s, q[1].id)
                        all == one \cup Done(t, q[2].s, q[2].id, q[2].how, q[2].v)
                    IN Only(e, all) \/ (e.leave # 0 /\ Only(e, {d \in all : d.k # e.leave}))}}
    [] e.op = "wrong" -> IF /\ e.out = <<>> /\ e.done = <<>>
                            /\ e.got = (IF e.calls THEN <<[s |-> e.s, v |-> e.v]>> ELSE <<>>)
                         THEN {s} ELSE {}
    [] e.op = "tick" -> IF Only(e, {[k |-> k, r |-> "late", v |-> 0] : k \in Late(s, e.d)}) THEN {Tick(s, e.d)} ELSE {}
    [] e.op = "abandon" -> IF Only(e, {}) THEN {Abandon(s, e.k)} ELSE {}
    [] e.op = "ask" -> IF e.out = <<>> /\ e.done = <<>> /\ e.got = <<[s |-> e.s, v |-> e.v]>> THEN {Ask(s, e.s, e.x, e.v)} ELSE {}
    [] e.op = "answer" -> IF /\ e.done = <<>> /\ e.got = <<>> /\ Len(e.out) = 1
                             /\ LET m == e.out[1] IN m.to = s.asks[e.j].s /\ m.id = s.asks[e.j].x /\ m.kind = (IF e.how = "ok" THEN "ok" ELSE "err")
                                                     /\ (e.how = "ok" => m.v = e.v)
                          THEN {s} ELSE {}
    \* many calls at once on several threads: each has its own identifier and gets its own response
    [] e.op = "crowd" -> IF e.ids = e.n /\ e.right = e.n THEN {s} ELSE {}
    [] e.op = "rush" -> IF e.ids = e.n /\ e.sent = e.n THEN {s} ELSE {}
    \* what ended is forgotten
    [] e.op = "rest" -> IF e.kept THEN {} ELSE {s}
    [] OTHER -> {}
TExpect(s, e) == [waiting |-> {[k |-> k, s |-> s.calls[k].s, id |-> s.calls[k].id, at |-> s.calls[k].at] : k \in Waiting(s)}, now |-> s.now]
=============================================================================
