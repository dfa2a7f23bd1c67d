----------------------------- MODULE MC_Filters -----------------------------
EXTENDS Filters, Json
CONSTANTS DEPTH,   \* operations
          RANGE, SMALL
VARIABLES c, fs, now, script,
          turn       \* when behaviours are generated: what kind of step comes next

At(t, n, k) == [t |-> t, n |-> n, k |-> k]
Froms == IF SMALL THEN {At("latest", 0, "abs"), At("num", -1, "back"), At("num", 0, "back")}
         ELSE {At(t, 0, "abs") : t \in {"none", "latest", "earliest", "pending"}} \cup {At("num", n, "back") : n \in {-3, -1, 0, 1, 2}} \cup {At("num", 0, "abs"), At("numobj", 0, "back"), At("hash", 0, "back")}
Tos == IF SMALL THEN {At("latest", 0, "abs"), At("num", -1, "back")}
       ELSE {At(t, 0, "abs") : t \in {"none", "none", "latest", "pending", "earliest"}} \cup {At("num", n, "back") : n \in {-4, -2, -1, 0, 1}} \cup {At("num", 0, "abs"), At("numobj", -2, "back"), At("hash", 0, "back")}
Place2(at) == IF at.k = "back" THEN [t |-> at.t, n |-> IF Tip(c) - at.n < 0 THEN 0 ELSE Tip(c) - at.n] ELSE [t |-> at.t, n |-> at.n]

All == [addr |-> <<>>, topics |-> <<>>]
One == [addr |-> <<>>, topics |-> <<[any |-> FALSE, alts |-> <<1>>]>>]
R(op, a, b) == [op |-> op, w |-> <<a, b, 1, 1>>]
Genesis == Commit(Commit(NoChain, <<>>, <<>>), <<[id |-> 1, from |-> 1, to |-> 0, recs |-> <<>>]>>, <<>>)
More == Len(script) < DEPTH
Do(o) == script' = Append(script, o)
Op(o, k) == [o |-> o, k |-> k, from |-> At("none", 0, "abs"), to |-> At("none", 0, "abs")]
Init == c = Genesis /\ fs = <<>> /\ now = 0 /\ script = <<>> /\ turn = 0
Grow == /\ More /\ (IF SMALL THEN Tip(c) < 4 ELSE TRUE)
        /\ \E r \in (IF SMALL THEN {<<>>, <<R(1, 1, 1)>>} ELSE {<<R(1, 1, 1)>>}) : c' = Commit(c, <<[id |-> Tip(c) + 2, from |-> 1, to |-> 11, recs |-> r]>>, <<>>)
        /\ Do(Op("grow", 0)) /\ UNCHANGED <<fs, now>>
NewLog(a, b, w) == LET f == LogFilter(c, Place2(a), Place2(b), w, <<now, now>>) IN
  /\ fs' = IF BadRange(Place2(a), Place2(b)) THEN fs ELSE Append(fs, [on |-> TRUE, f |-> f, from |-> f.next, got |-> <<>>])
  /\ Do([o |-> "newL", k |-> 0, from |-> a, to |-> b])
MayNew == More /\ (IF SMALL THEN Len(fs) < 2 ELSE Len(fs) < 8)
New == MayNew /\ UNCHANGED <<c, now>> /\ \E a \in Froms, b \in Tos, w \in (IF SMALL THEN {All, One} ELSE {One}) : NewLog(a, b, w)
\* one that is not refused
NewGood == MayNew /\ UNCHANGED <<c, now>> /\ \E a \in {f \in Froms : ~BadRange(Place2(f), At("none", 0, "abs"))}, b \in {t \in Tos : ~BadRange(At("none", 0, "abs"), Place2(t))} : NewLog(a, b, One)
NewBlocks == /\ MayNew /\ UNCHANGED <<c, now>>
             /\ LET f == BlockFilter(c, <<now, now>>) IN fs' = Append(fs, [on |-> TRUE, f |-> f, from |-> f.next, got |-> <<>>]) /\ Do(Op("newB", 0))
PollIt(k) == LET x == fs[k]
                 p == Poll(c, x.f, <<now, now>>, RANGE)
             IN IF x.on /\ MayLive(x.f, <<now, now>>) THEN fs' = [fs EXCEPT ![k] = [on |-> p.keep, f |-> p.f, from |-> x.from, got |-> x.got \o (IF x.f.kind = "logs" THEN p.logs ELSE p.blocks)]]
                ELSE fs' = [fs EXCEPT ![k].on = FALSE]
Polling == More /\ UNCHANGED <<c, now>> /\ \E k \in 1..Len(fs), o \in (IF SMALL THEN {"poll"} ELSE {"poll", "getlogs", "both", "lostpoll"}) : PollIt(k) /\ Do(Op(o, k))
Dropping == More /\ UNCHANGED <<c, now>> /\ \E k \in 1..Len(fs), o \in (IF SMALL THEN {"drop"} ELSE {"drop", "drop", "lostdrop"}) : fs' = [fs EXCEPT ![k].on = FALSE] /\ Do(Op(o, k))
Wait == More /\ \E d \in {15, 61} : now' = now + 1000 * d /\ Do(Op("wait", d)) /\ UNCHANGED <<c, fs>>
Odd == More /\ ~SMALL /\ UNCHANGED <<c, fs, now>> /\ \E o \in {"unknown", "lostnew"} : Do(Op(o, 0))
PollOne == More /\ UNCHANGED <<c, now>> /\ \E k \in {i \in 1..Len(fs) : fs[i].on} : PollIt(k) /\ Do(Op("poll", k))
Pause == More /\ now' = now + 15000 /\ Do(Op("wait", 15)) /\ UNCHANGED <<c, fs>>
Turn(t, A) == turn \in t /\ A /\ turn' = 0
Idle == turn' = 0 /\ UNCHANGED <<c, fs, now, script>>
Explore == (Grow \/ New \/ NewBlocks \/ Polling \/ Dropping \/ Wait) /\ UNCHANGED turn
Choose == turn = 0 /\ More /\ turn' \in 1..20 /\ UNCHANGED <<c, fs, now, script>>
Generate == \/ Choose
            \/ Turn(1..4, Grow) \/ Turn({5, 6}, NewGood) \/ Turn({7}, New) \/ Turn({8, 9}, NewBlocks) \/ Turn(10..14, PollOne) \/ Turn({15, 16}, Polling)
            \/ Turn({17}, Dropping) \/ Turn({18}, Pause) \/ Turn({19}, Wait) \/ Turn({20}, Odd)
            \/ (turn \in 10..17 /\ (\A i \in 1..Len(fs) : ~fs[i].on) /\ Idle)
            \/ (turn \in 5..9 /\ Len(fs) = 8 /\ Idle)
Next == (SMALL /\ Explore) \/ (~SMALL /\ Generate)
Emit == (Len(script) = DEPTH /\ turn = 0) => PrintT("@@GEN " \o ToJson([script |-> script]))

\* whatever the order of polls, blocks and waits: what a filter has told is its range up to where it is, once and in order
Told == \A k \in 1..Len(fs) : LET x == fs[k] IN
           x.got = IF x.f.kind = "blocks" THEN [i \in 1..(x.f.next - x.from) |-> x.from + i - 1] ELSE RangeLogs(c, x.from, x.f.next - 1, x.f.want)
\* polled now, a filter that is there lacks nothing
UpToDate == \A k \in 1..Len(fs) : LET x == fs[k]
                                      p == Poll(c, x.f, <<now, now>>, RANGE)
                                  IN (x.on /\ p.keep /\ x.f.to.t = "latest" /\ x.f.kind = "logs") => x.got \o p.logs = RangeLogs(c, x.from, Tip(c), x.f.want)
\* nobody loses a filter that was in use not long ago
Kept == \A k \in 1..Len(fs) : (fs[k].on /\ now - fs[k].f.seen[2] < ALIVE) => MayLive(fs[k].f, <<now, now>>) /\ ~MayBeGone(fs[k].f, <<now, now>>)
View == <<c, fs, now, Len(script)>>
=============================================================================
