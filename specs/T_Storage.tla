------------------------------ MODULE T_Storage -----------------------------
EXTENDS Replay, Storage
TStart(t) == {NoData}
\* an operation that changes the data, or none; all must report success
Change(s, e) ==
  CASE e.op = "set_block" -> SetBlock(s, e)
    [] e.op = "insert_block" -> SetLatest(SetBlock(s, e), e)
    [] e.op = "set_latest" -> SetLatest(s, e)
    [] e.op = "insert_txs" -> AddTxs(s, e.n, e.xs)
    [] e.op = "insert_receipts" -> AddReceipts(s, e.n, e.xs)
    [] e.op = "insert_code" -> AddCode(s, e.a, e.h, e.v)
    [] e.op = "proof" -> [s EXCEPT !.proof = e.v]
    [] e.op = "fork" -> [s EXCEPT !.fork = e.v]
    [] OTHER -> s
Answer(s, e) ==
  CASE e.op \in {"block", "header"} -> ByNumber(s, e.n)
    [] e.op = "block_by_hash" -> ByHash(s, e.h)
    [] e.op = "number_by_hash" -> NumberOf(s, e.h)
    [] e.op = "tx" -> Tx(s, e.h)
    [] e.op = "receipt" -> Rcpt(s, e.h)
    [] e.op = "txs" -> TxsAt(s, e.n, e.hs)
    [] e.op = "receipts" -> RcptsAt(s, e.n, e.hs)
    [] e.op \in {"latest", "latest_header"} -> s.latest
    [] e.op = "latest_proof" -> s.proof
    [] e.op = "code" -> CodeOf(s, e.h)
    [] e.op = "code_at" -> CodeAt(s, e.a)
    [] e.op = "fork_proposal" -> s.fork
    [] OTHER -> 0
TSteps(s, e) == IF e.out = Answer(s, e) THEN {Change(s, e)} ELSE {}
TExpect(s, e) == {Answer(s, e)}
=============================================================================
