------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation.  A trace recorded from the implementation is a        *)
(* sequence of events (operation, arguments, observed result).  The        *)
(* checker keeps the set of specification states that explain the events   *)
(* so far; a trace is refused at the first event no state can explain.     *)
(*   Start(trace)   the set of specification states to begin in            *)
(*   Steps(s, e)    the states specification state s may move to by event  *)
(*                  e with exactly the result observed                     *)
(*   Expect(s, e)   for messages: what would have been allowed             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Steps(_, _), Start(_), Expect(_, _)
VARIABLES tr, pos, S

Traces == ndJsonDeserialize(IOEnv.TRACES)

RInit == /\ tr \in 1..Len(Traces)
         /\ pos = 0
         /\ S = Start(Traces[tr])

RNext ==
  LET ev == Traces[tr].ev IN
  \/ /\ pos < Len(ev) /\ S # {}
     /\ LET T == UNION {Steps(s, ev[pos + 1]) : s \in S} IN
        /\ S' = T
        /\ IF T = {} THEN PrintT(<<"@@BAD", tr, pos + 1, {Expect(s, ev[pos + 1]) : s \in S}>>) ELSE TRUE
     /\ pos' = pos + 1
     /\ tr' = tr
  \/ /\ pos = Len(ev) /\ S # {}
     /\ PrintT(<<"@@END", tr>>)
     /\ pos' = pos + 1 /\ S' = {} /\ tr' = tr
=============================================================================
