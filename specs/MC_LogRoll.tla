----------------------------- MODULE MC_LogRoll -----------------------------
(* Writes and rotations, with a clock that need not move between them; an   *)
(* archive is a name, and a name in use is never taken again.               *)
EXTENDS LogRoll, Json
CONSTANT N
VARIABLES s, day, hist, next
vars == <<s, day, hist, next>>
Init == s = Empty /\ day = 1 /\ hist = <<>> /\ next = 1
Do == \/ s' = Write(s, next) /\ next' = next + 1 /\ UNCHANGED day /\ hist' = Append(hist, [op |-> "write"])
      \/ s' = Roll(s, day) /\ UNCHANGED <<day, next>> /\ hist' = Append(hist, [op |-> "roll"])
      \/ day < 3 /\ day' = day + 1 /\ UNCHANGED <<s, next>> /\ hist' = Append(hist, [op |-> "tick", d |-> 1])
Next == Len(hist) < N /\ Do
Range(q) == {q[i] : i \in 1..Len(q)}
\* every record written is in exactly one file, the files in order
Once == LET fs == {Range(a.recs) : a \in Bag(s)} \cup {Range(s.active)} IN
        /\ UNION fs = 1..next - 1
        /\ \A f, g \in fs : f # g => f \cap g = {}
        /\ \A a \in s.arch : \A i \in 1..Len(a.recs) - 1 : a.recs[i + 1] = a.recs[i] + 1
Dated == [][\A a \in s'.arch \ s.arch : a.date = day /\ s'.active = <<>>]_vars
Emit == Len(hist) = N => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
