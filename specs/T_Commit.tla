------------------------------ MODULE T_Commit ------------------------------
(***************************************************************************)
(* Keccak-256 is a table in the trace, computed by an independent library. *)
(* What the specification wants hashed and the table lacks has no digest,  *)
(* so a root over anything else cannot be explained.                       *)
(***************************************************************************)
EXTENDS Replay, Commit
TStart(t) == {[tab |-> t.cfg.tab]}
TableD(tab, b) == LET I == {i \in 1..Len(tab) : tab[i].p = b} IN IF I = {} THEN <<>> ELSE tab[CHOOSE i \in I : TRUE].d
SetOf(q) == {q[i] : i \in 1..Len(q)}
Allowed(s, e) ==
  LET T == s.tab IN
  CASE e.op = "root"  -> {[root |-> TrieRoot(T, e.items)]}
    [] e.op = "proof" -> {[nodes |-> ProofOf(T, e.items, e.i)]}
    [] e.op = "verify" -> LET w == Shows(T, e.root, SetOf(e.nodes), e.i) IN
         IF w.r = "value" THEN {[value |-> w.v]}
         ELSE IF w.r = "absent" THEN {[none |-> TRUE]}
         ELSE IF w.r = "refused" THEN {[error |-> TRUE]}
         ELSE {[none |-> TRUE], [error |-> TRUE]}           \* the nodes do not reach that far
    \* two lists that differ in one position or in the order of two
    [] e.op = "differ" -> {[same |-> FALSE]}
    [] e.op = "binroot" -> {IF Len(e.items) = 0 THEN [none |-> TRUE] ELSE [root |-> BinRoot(T, e.items)]}
    [] e.op = "binproof" -> {[proof |-> BinProof(T, e.items, e.i)]}
    [] e.op = "bloom" -> {[bits |-> Bloom(T, e.logs)]}
    [] e.op = "headerbloom" -> {[bits |-> UNION {Bloom(T, e.resps[i].logs) : i \in 1..Len(e.resps)}]}
    [] e.op = "receipt" -> {[b |-> EncReceipt(e.type, e.ok, e.gas, e.bloom, e.logs)]}
    [] e.op = "receipts" -> {[r |-> [i \in 1..Len(e.resps) |->
           [index |-> i - 1, first |-> LogStart(e.resps, i), gas |-> e.resps[i].gas, ok |-> e.resps[i].ok, tx |-> e.txs[i].hash, sender |-> e.txs[i].sender,
            logs |-> e.resps[i].logs, code |-> e.resps[i].code, block |-> e.block, number |-> e.number, state |-> e.state]]]}
\* blooms are compared as sets of bits
Obs(e) == IF e.op \in {"bloom", "headerbloom"} /\ "bits" \in DOMAIN e.out THEN [bits |-> SetOf(e.out.bits)] ELSE e.out
TSteps(s, e) == IF Obs(e) \in Allowed(s, e) THEN {s} ELSE {}
TExpect(s, e) == Allowed(s, e)
=============================================================================
