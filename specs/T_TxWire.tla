----------------------------- MODULE T_TxWire ------------------------------
EXTENDS Replay, TxWire
(***************************************************************************)
(* Events:                                                                 *)
(*  encode  t -> out.b          the bytes the implementation produced      *)
(*  crypto  -> out.hash/sighash/sender: whether they equal the digest of   *)
(*             those bytes, of the specified signing bytes, and the signer *)
(*  decode  b -> out            ok and the content, or refused             *)
(***************************************************************************)
TStart(t) == {[x |-> 0]}
Result(e) ==
  CASE e.op = "encode" -> [ok |-> TRUE, b |-> Encode(e.t)]
    [] e.op = "crypto" -> [hash |-> TRUE, sighash |-> TRUE, sender |-> TRUE, stored |-> TRUE]
    [] e.op = "decode" -> Decode(e.b)
    [] e.op = "sb" -> [ok |-> TRUE, b |-> SigningBytes(e.t)]
TSteps(s, e) == IF e.out = Result(e) THEN {s} ELSE {}
TExpect(s, e) == Result(e)
=============================================================================
