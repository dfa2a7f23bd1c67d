-------------------------------- MODULE Keys --------------------------------
(* Signatures.  A signature is known by who made it, over what, and what    *)
(* was done to it afterwards.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Verifies(sg, key, msg) == sg.alter = "none" /\ sg.key = key /\ sg.msg = msg
\* whom recovery names: the signer for the message signed, somebody else or nobody otherwise
MayRecover(sg, msg, who) == IF sg.alter = "none" /\ sg.msg = msg THEN who = sg.key ELSE who # sg.key
\* an aggregate of signatures verifies under the aggregate of exactly their keys
AggVerifies(signers, msgs, keys, msg) == /\ signers # {} /\ signers = keys
                                         /\ \A s \in signers : msgs[s] = msg
=============================================================================
