------------------------------- MODULE MC_Subs ------------------------------
EXTENDS Subs, Json
CONSTANTS DEPTH, SMALL
VARIABLES s, script, all   \* all: what each client was ever sent, and its tips: at the first round it could see, and when it went
All == [addr |-> <<>>, topics |-> <<>>]
One == [addr |-> <<>>, topics |-> <<[any |-> FALSE, alts |-> <<1>>]>>]
R(op, a, b) == [op |-> op, w |-> <<a, b, 1, 1>>]
Genesis == Commit(Commit(NoChain, <<>>, <<>>), <<[id |-> 1, from |-> 1, to |-> 0, recs |-> <<>>]>>, <<>>)
Init == s = [c |-> Genesis, cur |-> Tip(Genesis), subs |-> <<>>, box |-> <<>>, state |-> <<-1, 0, 0>>] /\ script = <<>> /\ all = <<>>
Go2 == Len(script) < DEPTH
Op(o, k, kind) == script' = Append(script, [o |-> o, k |-> k, kind |-> kind])
Grow == Go2 /\ (~SMALL \/ Tip(s.c) < 5) /\ Op("grow", 0, "") /\ UNCHANGED all
        /\ \E r \in (IF SMALL THEN {<<>>, <<R(1, 1, 1), R(1, 2, 2)>>} ELSE {<<>>}) : s' = [s EXCEPT !.c = Commit(s.c, <<[id |-> Tip(s.c) + 2, from |-> 1, to |-> 11, recs |-> r]>>, <<>>)]
Sub == Go2 /\ Len(s.subs) < (IF SMALL THEN 2 ELSE 6)
       /\ \E k \in {"heads", "logs", "sync"}, w \in {All, One} : (SMALL \/ w = All) /\ s' = Subscribe(s, k, w) /\ all' = Append(all, [from |-> s.cur, to |-> -1]) /\ Op("sub", 0, k)
Odd == Go2 /\ ~SMALL /\ Op("sub", 0, "odd") /\ UNCHANGED <<s, all>>
Close == Go2 /\ \E k \in 1..Len(s.subs) : s.subs[k].on /\ s' = [s EXCEPT !.subs[k].on = FALSE] /\ all' = [all EXCEPT ![k].to = s.cur] /\ Op("close", k - 1, "")
Sync == Go2 /\ ~SMALL /\ Op("sync", 0, "") /\ UNCHANGED <<s, all>>
Tick == Go2 /\ s' = Round(s) /\ Op("round", 0, "") /\ UNCHANGED all
Next == Grow \/ Grow \/ Sub \/ Sub \/ Close \/ Tick \/ Tick \/ Sync \/ Odd
Emit == Len(script) = DEPTH => PrintT("@@GEN " \o ToJson([script |-> script]))
\* from the round before it came to the last one it saw, a client was sent everything, once, in order
Everything == \A k \in 1..Len(s.subs) :
  LET b == s.box[k]
      to == IF all[k].to = -1 THEN s.cur ELSE all[k].to
  IN CASE s.subs[k].kind = "heads" -> b.heads = [i \in 1..(to - all[k].from) |-> [n |-> all[k].from + i, bad |-> <<>>]]
       [] s.subs[k].kind = "logs" -> b.logs = RangeLogs(s.c, all[k].from + 1, to, s.subs[k].want)
       [] OTHER -> Len(b.sync) <= to - all[k].from
View == <<s, all, Len(script)>>
=============================================================================
