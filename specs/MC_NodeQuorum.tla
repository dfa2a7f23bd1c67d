---------------------------- MODULE MC_NodeQuorum ----------------------------
EXTENDS MC_Quorum, NodeQuorum
All(w) == [i \in 1..Len(w) |-> TRUE]
NodeCases == {x @@ [set |-> s] : x \in Cases, s \in {"first", "last"}}
        \cup {Base(w, All(w)) @@ [set |-> s] : w \in Weights, s \in {"before", "after"}}
NInit == t \in NodeCases /\ done = FALSE
\* a set that is not in force decides nothing
NotInForce == done => (NodeAccepts(t) => t.set \in {"first", "last"} /\ Accepts(t))
=============================================================================
