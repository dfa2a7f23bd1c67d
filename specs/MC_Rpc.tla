------------------------------- MODULE MC_Rpc -------------------------------
EXTENDS Rpc, TLC, Json
CONSTANTS DEPTH, SMALL
VARIABLES st, script, ends
Sessions == IF SMALL THEN 1..2 ELSE 1..3
MaxCalls == IF SMALL THEN 3 ELSE 7
Init == st = Fresh /\ script = <<>> /\ ends = <<>>
Op(o, s, k, h) == Len(script) < DEPTH /\ script' = Append(script, [o |-> o, s |-> s, k |-> k, h |-> h])
\* ends: each completion, with the session whose response brought it (0: none did)
New(s2, by) == [k \in {j \in Waiting(st) : s2.calls[j].is # "waits"} |-> by]
Log(s2, by) == ends' = ends \o [i \in 1..Cardinality(DOMAIN New(s2, by)) |-> [k |-> (CHOOSE f \in [1..Cardinality(DOMAIN New(s2, by)) -> DOMAIN New(s2, by)] : \A a, b \in DOMAIN f : f[a] = f[b] => a = b)[i], by |-> by]]
ACall == \E s \in Sessions : Len(st.calls) < MaxCalls /\ Op("call", s, 0, "") /\ st' = Call(st, s, Len(st.calls)) /\ UNCHANGED ends
AReply == \E s \in Sessions, k \in 0..Len(st.calls), h \in (IF SMALL THEN {"ok"} ELSE {"ok", "err", "short", "empty", "big"}) :
            /\ Op("reply", s, k, h)
            /\ st' = IF k = 0 THEN st ELSE Reply(st, s, st.calls[k].id)
            /\ Log(st', s)
ABurst == ~SMALL /\ \E s \in Sessions, k \in 1..Len(st.calls), h \in {"both", "other", "abandon"} :
            /\ Op("burst", s, k, h)
            /\ st' = Reply(st, s, st.calls[k].id)
            /\ Log(st', s)
AWrong == ~SMALL /\ \E s \in Sessions, k \in 1..Len(st.calls), h \in {"text", "badid", "noep", "ascall", "asgossip", "nourl"} :
            Op("wrong", s, k, h) /\ UNCHANGED <<st, ends>>
ATick == \E d \in {4, 7} : (~SMALL \/ st.now < 15) /\ Op("tick", d, 0, "") /\ st' = Tick(st, d) /\ Log(st', 0)
ALeave == \E k \in Waiting(st) : Op("abandon", 0, k, "") /\ st' = Abandon(st, k) /\ Log(st', 0)
AAsk == ~SMALL /\ Len(st.asks) < 5 /\ \E s \in Sessions, x \in 0..3 : Op("ask", s, x, "") /\ st' = Ask(st, s, x, 0) /\ UNCHANGED ends
AAnswer == ~SMALL /\ \E j \in DOMAIN st.asks, h \in {"ok", "err"} : Op("answer", 0, j, h) /\ UNCHANGED <<st, ends>>
Next == ACall \/ AReply \/ ABurst \/ AWrong \/ ATick \/ ALeave \/ AAsk \/ AAnswer
\* identifiers are unique, a call ends once, and only its own peer ends it
Unique == Cardinality(Ids(st)) = Len(st.calls)
Once == \A i, j \in DOMAIN ends : ends[i].k = ends[j].k => i = j
Own == \A i \in DOMAIN ends : ends[i].by \in {0, st.calls[ends[i].k].s}
Bounded == \A k \in Waiting(st) : st.now - st.calls[k].at <= Patience
Emit == Len(script) = DEPTH => PrintT("@@GEN " \o ToJson([script |-> script]))
View == <<st, ends, Len(script)>>
=============================================================================
