----------------------------- MODULE MC_Durable -----------------------------
(* The protocol: write a fresh file, sync it, rename it over, sync the      *)
(* directory.  At every moment the old or the new contents are found.       *)
EXTENDS Durable
CONSTANT SKIP   \* a step left out: 0 for none
Old == <<1>>
NewC == <<2, 2>>
Prog == <<[do |-> "create", f |-> "t"], [do |-> "write", f |-> "t", data |-> <<2>>], [do |-> "write", f |-> "t", data |-> <<2>>], [do |-> "sync", f |-> "t"],
          [do |-> "rename", f |-> "t", g |-> "p"], [do |-> "syncdir"]>>
VARIABLES s, pc
Start == [ino |-> <<[data |-> Old, safe |-> Old]>>, names |-> <<[n |-> "p", i |-> 1]>>, sure |-> <<[n |-> "p", i |-> 1]>>]
Init == s = Start /\ pc = 1
Next == /\ pc <= Len(Prog) /\ pc' = pc + 1
        /\ s' = IF pc = SKIP THEN s ELSE Apply(s, Prog[pc])
Atomic == Found(s, "p") \subseteq {Old, NewC}
Durable == pc > Len(Prog) => Found(s, "p") = {NewC}
=============================================================================
