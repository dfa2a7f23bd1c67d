----------------------------- MODULE T_Records ------------------------------
EXTENDS Replay, Records
TStart(t) == {[x |-> 0]}
Enc(kind, r) == CASE kind = "header" -> EncHeader(r) [] kind = "block" -> EncBlock(r) [] kind = "proof" -> EncProof(r)
                  [] kind = "proposal" -> EncProposal(r) [] kind = "vote" -> EncVote(r)
                  [] kind = "metadata" -> EncMetadata(r) [] kind = "validator" -> EncValidator(r)
Result(e) ==
  CASE e.op = "encode"  -> [b |-> Enc(e.kind, e.r)]          \* bytes produced for a record
    [] e.op = "decode"  -> [r |-> e.r]                       \* the record read back from them (binary or text)
    [] e.op = "hash"    -> [digest |-> TRUE]                 \* its hash is the digest of exactly those bytes
    [] e.op = "propose" -> [r |-> ProposalOf(e.block, e.prev)]
    [] e.op = "build"   -> [r |-> BlockOf(e.p, e.x)]
    [] e.op = "same"    -> [same |-> TRUE]                   \* decode after encode gave an equal record
    [] e.op = "differ"  -> [differ |-> TRUE]                 \* records that differ in a bound field, different hashes
TSteps(s, e) == IF e.out = Result(e) THEN {s} ELSE {}
TExpect(s, e) == Result(e)
=============================================================================
