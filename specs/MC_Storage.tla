----------------------------- MODULE MC_Storage -----------------------------
(* A database behind a cache of one entry per kind: what the cache answers  *)
(* is what the database would, in every order of writes, reads and restarts *)
EXTENDS Storage, Json
CONSTANTS N, CACHENONE   \* CACHENONE: remember also that nothing was found
Blk(n) == [n |-> n, h |-> 100 + n, v |-> n]
VARIABLES s, cn, ch, cl, hist, ok
vars == <<s, cn, ch, cl, hist, ok>>
None == [k |-> 0, v |-> 0]
Init == s = NoData /\ cn = None /\ ch = None /\ cl = 0 /\ hist = <<>> /\ ok = TRUE
Log(e) == hist' = Append(hist, e)
Read(n) == IF cn.k = n THEN cn.v ELSE ByNumber(s, n)
Keep(k, v) == IF v # 0 \/ CACHENONE THEN [k |-> k, v |-> v] ELSE None
HashToNum(h) == IF ch.k = h THEN ch.v ELSE NumberOf(s, h)
Next == /\ Len(hist) < N
        /\ \/ \E n \in 1..2 : s' = SetBlock(s, Blk(n)) /\ UNCHANGED <<cn, ch, cl, ok>> /\ Log([op |-> "set_block", n |-> n])
           \/ \E n \in 1..2 : s' = SetLatest(SetBlock(s, Blk(n)), Blk(n)) /\ cl' = n /\ UNCHANGED <<cn, ch, ok>> /\ Log([op |-> "insert_block", n |-> n])
           \/ \E n \in 1..2 : s' = AddReceipts(AddTxs(s, n, <<[h |-> n, v |-> n]>>), n, <<[h |-> n, v |-> n]>>) /\ UNCHANGED <<cn, ch, cl, ok>> /\ Log([op |-> "insert_txs", n |-> n])
           \/ \E n \in 1..2 : ok' = (Read(n) = ByNumber(s, n)) /\ cn' = Keep(n, Read(n)) /\ UNCHANGED <<s, ch, cl>> /\ Log([op |-> "block", n |-> n])
           \/ \E n \in 1..2 : LET k == HashToNum(100 + n) v == IF k = 0 THEN 0 ELSE Read(k) IN
                /\ ok' = (v = ByHash(s, 100 + n)) /\ ch' = (IF k # 0 THEN [k |-> 100 + n, v |-> k] ELSE ch)
                /\ cn' = (IF k # 0 THEN Keep(k, v) ELSE cn) /\ UNCHANGED <<s, cl>> /\ Log([op |-> "block_by_hash", n |-> n])
           \/ ok' = ((IF cl # 0 THEN cl ELSE s.latest) = s.latest) /\ UNCHANGED <<s, cn, ch, cl>> /\ Log([op |-> "latest", n |-> 1])
           \/ cn' = None /\ ch' = None /\ cl' = 0 /\ UNCHANGED <<s, ok>> /\ Log([op |-> "reopen", n |-> 1])
Same == ok
Emit == Len(hist) = N => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
