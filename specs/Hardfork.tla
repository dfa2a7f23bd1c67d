------------------------------ MODULE Hardfork ------------------------------
(* Features announced for a block: what is in force at a height.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* accepted: set of [n, f], f a set of features;  last: the block of the latest one accepted, -1 before any
NoFork == [accepted |-> {}, last |-> -1]
ToSet(q) == {q[i] : i \in 1..Len(q)}
All(s) == UNION {a.f : a \in s.accepted}
InForce(s, h) == UNION {a.f : a \in {a \in s.accepted : a.n <= h}}
\* an announcement that brings nothing new, or comes for a block before one announced already, changes nothing
Announce(s, n, f) ==
  IF s.last >= 0 /\ (f \subseteq All(s) \/ n < s.last) THEN s
  ELSE [accepted |-> s.accepted \cup {[n |-> n, f |-> f]}, last |-> n]

\* named: a sequence of names; own(name) the features it stands for; "None" stands for none
Named(names, own) ==
  LET FeaturesOf(x) == UNION {ToSet(own[i].f) : i \in {i \in 1..Len(own) : own[i].name = x}} IN
  IF Len(names) = 0 THEN UNION {ToSet(own[i].f) : i \in 1..Len(own)}
  ELSE UNION {FeaturesOf(names[i]) : i \in 1..Len(names)}
=============================================================================
