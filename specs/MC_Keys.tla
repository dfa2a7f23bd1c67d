------------------------------ MODULE MC_Keys -------------------------------
(* A world of keys and messages: whoever holds signatures can alter them    *)
(* and present them for any key and message; what verifies was signed.      *)
EXTENDS Keys, Json
K == 1..3
M == 1..3
Schemes == {"secp", "recoverable", "bls"}
Alters == {"none", "flipfirst", "fliplast", "flipmid", "fliprs", "cut", "longer", "empty", "zero", "ones", "negate", "negflip", "recid", "recid4", "swap"}
VARIABLES signed, seen, agg, case, done
vars == <<signed, seen, agg, case, done>>
Init == signed = {} /\ seen = {} /\ agg = {} /\ done = FALSE /\ case = [scheme |-> "", k |-> 0, m |-> 0, ck |-> 0, cm |-> 0, alter |-> ""]
Next == /\ ~done /\ done' = TRUE
        /\ \/ \E s \in Schemes, k \in K, m \in M, ck \in K, cm \in M, a \in Alters :
                /\ case' = [scheme |-> s, k |-> k, m |-> m, ck |-> ck, cm |-> cm, alter |-> a]
                /\ signed' = {<<k, m>>}
                /\ seen' = IF Verifies([key |-> k, msg |-> m, alter |-> a], ck, cm) THEN {<<ck, cm>>} ELSE {}
                /\ agg' = {}
           \/ \E S \in SUBSET K, T \in SUBSET K, msgs \in [K -> 1..2], cm \in 1..2 :
                /\ case' = [case EXCEPT !.scheme = "agg", !.cm = cm]
                /\ signed' = {<<s, msgs[s]>> : s \in S}
                /\ agg' = {<<S, T, msgs, cm>>}
                /\ seen' = IF AggVerifies(S, msgs, T, cm) THEN {<<s, cm>> : s \in T} ELSE {}
Unforged == seen \subseteq signed
SeqOf(S) == SelectSeq([i \in 1..3 |-> i], LAMBDA i : i \in S)
Emit == done =>
  IF case.scheme = "agg"
  THEN \A a \in agg : PrintT("@@GEN " \o ToJson([scheme |-> "agg", signers |-> SeqOf(a[1]), keys |-> SeqOf(a[2]), msgs |-> a[3], cm |-> a[4]]))
  ELSE PrintT("@@GEN " \o ToJson(case))
=============================================================================
