----------------------------- MODULE MC_Version -----------------------------
EXTENDS Version, Json
Num(n) == [num |-> TRUE, n |-> n, s |-> <<>>]
Word(w) == [num |-> FALSE, n |-> 0, s |-> w]
Alpha == Word(<<97, 108, 112, 104, 97>>)
Beta == Word(<<98, 101, 116, 97>>)
Rc == Word(<<114, 99>>)
Pres == {<<>>, <<Alpha>>, <<Alpha, Num(9)>>, <<Beta>>, <<Beta, Num(1)>>, <<Beta, Num(2)>>, <<Beta, Num(10)>>, <<Beta, Num(1), Num(0)>>, <<Beta, Rc>>, <<Num(5)>>, <<Rc, Num(1)>>}
Ver(a, b, c, p) == [major |-> a, minor |-> b, patch |-> c, pre |-> p]
V == {Ver(0, 1, 0, p) : p \in Pres} \cup {Ver(x[1], x[2], x[3], <<>>) : x \in {<<0, 0, 9>>, <<0, 1, 2>>, <<0, 1, 10>>, <<0, 2, 0>>, <<0, 10, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<10, 0, 0>>}}
     \cup {Ver(1, 0, 0, <<Alpha>>), Ver(0, 2, 0, <<Beta, Num(1)>>)}
Recs == {[kind |-> "none"], [kind |-> "bad"]} \cup {[kind |-> "version", v |-> x] : x \in V}
VARIABLES rec, least, cur, steps, ok
vars == <<rec, least, cur, steps, ok>>
Init == rec \in Recs /\ least \in V /\ cur = Ver(0, 0, 0, <<>>) /\ steps = 0 /\ ok = TRUE
Next == /\ steps < 2 /\ steps' = steps + 1
        /\ \E c \in {Ver(0, 1, 0, <<Beta, Num(1)>>), Ver(0, 2, 0, <<>>), Ver(10, 0, 0, <<>>)} :
             cur' = c /\ rec' = After(rec, least, c) /\ ok' = MayStart(rec, least)
        /\ UNCHANGED least
\* semantic versions are totally ordered
Total == steps = 0 => \A b \in V : rec.kind = "version" =>
   LET a == rec.v IN /\ (VLt(a, b) \/ VLt(b, a)) <=> a # b
                     /\ ~(VLt(a, b) /\ VLt(b, a))
                     /\ \A c \in V : VLt(a, b) /\ VLt(b, c) => VLt(a, c)
\* a node that ran left its own version; one that was refused left no mark
Kept == [][ok' => rec' = [kind |-> "version", v |-> cur']]_vars
Untouched == [][~ok' => rec' = rec]_vars
NeverOlder == steps > 0 /\ ok /\ ~VLt(cur, least) => MayStart(rec, least)
Emit == steps = 1 => PrintT("@@GEN " \o ToJson([rec |-> rec, least |-> least, cur |-> cur]))
EmitFrom == steps = 0 => \A c \in {Ver(0, 1, 0, <<Beta, Num(1)>>), Ver(10, 0, 0, <<>>)} :
               PrintT("@@GEN " \o ToJson([rec |-> rec, least |-> least, cur |-> c]))
=============================================================================
