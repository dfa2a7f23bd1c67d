------------------------------- MODULE MC_Wal -------------------------------
(* The vote log on a file system: a file per record, named by the time, the *)
(* older ones cleaned once the new one is written; the newest whole file    *)
(* counts.  The node may stop between any two steps, the clock may be set   *)
(* back, and files that make no sense may lie around.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN, CLEANFIRST, CLOCKONLY
VARIABLES files, clock, pc, t, v, last, hist
vars == <<files, clock, pc, t, v, last, hist>>
\* files: set of [t, v, ok]
MaxT == LET T == {f.t : f \in files} IN IF T = {} THEN -1 ELSE CHOOSE x \in T : \A y \in T : y <= x
Init == files = {} /\ clock = 4 /\ pc = "idle" /\ t = 0 /\ v = 0 /\ last = 0 /\ hist = <<>>
More == Len(hist) < LEN
\* a name of its own, not before any other
Fresh == IF CLOCKONLY THEN CHOOSE x \in 0..30 : x >= clock /\ (\A f \in files : f.t # x) /\ (\A y \in 0..30 : (y >= clock /\ \A f \in files : f.t # y) => x <= y)
         ELSE IF clock > MaxT THEN clock ELSE MaxT + 1
Begin == pc = "idle" /\ More /\ pc' = (IF CLEANFIRST THEN "clean" ELSE "create") /\ t' = Fresh /\ v' = v + 1
         /\ hist' = Append(hist, [op |-> "vote", a |-> 0]) /\ UNCHANGED <<files, clock, last>>
Create == pc = "create" /\ files' = files \cup {[t |-> t, v |-> v, ok |-> FALSE]} /\ pc' = "write" /\ UNCHANGED <<clock, t, v, last, hist>>
Write == pc = "write" /\ files' = {f \in files : f.t # t} \cup {[t |-> t, v |-> v, ok |-> TRUE]} /\ last' = v
         /\ pc' = (IF CLEANFIRST THEN "idle" ELSE "clean") /\ UNCHANGED <<clock, t, v, hist>>
Clean == pc = "clean" /\ \E f \in files : f.t < t /\ files' = files \ {f} /\ UNCHANGED <<clock, pc, t, v, last, hist>>
Cleaned == pc = "clean" /\ (\A f \in files : f.t >= t) /\ pc' = (IF CLEANFIRST THEN "create" ELSE "idle") /\ UNCHANGED <<files, clock, t, v, last, hist>>
Step(p) == CASE p = "create" -> 1 [] p = "write" -> 2 [] OTHER -> 3
Stop == pc # "idle" /\ pc' = "idle" /\ hist' = [hist EXCEPT ![Len(hist)] = [op |-> "crash", a |-> Step(pc)]] /\ UNCHANGED <<files, clock, t, v, last>>
Stray == pc = "idle" /\ More /\ \E x \in {1, 9} : (\A f \in files : f.t # x) /\ files' = files \cup {[t |-> x, v |-> 0, ok |-> FALSE]}
         /\ hist' = Append(hist, [op |-> "stray", a |-> x]) /\ UNCHANGED <<clock, pc, t, v, last>>
Tick == pc = "idle" /\ More /\ \E d \in {-2, 1} : clock + d >= 0 /\ clock + d < 12 /\ clock' = clock + d
        /\ hist' = Append(hist, [op |-> "clock", a |-> d]) /\ UNCHANGED <<files, pc, t, v, last>>
Next == Begin \/ Create \/ Write \/ Clean \/ Cleaned \/ Stop \/ Stray \/ Tick
Found == LET G == {f \in files : f.ok} IN IF G = {} THEN 0 ELSE (CHOOSE f \in G : \A g \in G : g.t <= f.t).v
Latest == Found = last
Emit == (Len(hist) = LEN /\ pc = "idle") => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
