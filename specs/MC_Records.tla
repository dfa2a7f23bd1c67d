----------------------------- MODULE MC_Records -----------------------------
(***************************************************************************)
(* Every record one field away from a base, over boundary values: the      *)
(* encodings (hence the hashes) of two different records differ, and a     *)
(* block determines the proposal that was voted for.                       *)
(***************************************************************************)
EXTENDS Records, Json

Rep(n, x) == [i \in 1..n |-> x]
H(x) == Rep(32, x)
Uints == {<<>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<10, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, Rep(8, 255)}
U32s == {<<>>, <<1>>, <<16>>, <<128>>, <<1, 0>>, Rep(4, 255)}
Hashes == {H(0), H(255), [i \in 1..32 |-> i]}
Blobs == {<<>>, <<0>>, <<127>>, <<128>>, Rep(55, 1), Rep(56, 1), Rep(96, 9)}
Extras == {<<>>, << <<>> >>, << <<0>> >>, << <<1, 2>>, Rep(60, 3) >>}
Proof0 == [number |-> <<4>>, round |-> <<>>, hash |-> H(9), sig |-> Rep(96, 1), bitmap |-> <<240>>]
Proofs == {[Proof0 EXCEPT !.number = x] : x \in Uints} \cup {[Proof0 EXCEPT !.round = x] : x \in Uints}
     \cup {[Proof0 EXCEPT !.hash = x] : x \in Hashes} \cup {[Proof0 EXCEPT !.sig = x] : x \in Blobs}
     \cup {[Proof0 EXCEPT !.bitmap = x] : x \in Blobs}
Blooms == {Rep(256, 0), [i \in 1..256 |-> i - 1]}
Header0 == [version |-> 0, prev_hash |-> H(1), proposer |-> Rep(20, 2), state_root |-> H(3), txs_root |-> H(4),
   signed |-> H(5), receipts_root |-> H(6), bloom |-> Rep(256, 0), ts |-> <<100>>, number |-> <<5>>,
   gas_used |-> <<82, 8>>, gas_limit |-> <<255, 255>>, extra |-> <<>>, base_fee |-> <<5, 57>>, proof |-> Proof0,
   scripts |-> <<>>, chain_id |-> <<2>>]
HeadersOf(h) ==
      {[h EXCEPT !.prev_hash = x] : x \in Hashes} \cup {[h EXCEPT !.proposer = x] : x \in {Rep(20, 0), Rep(20, 255)}}
 \cup {[h EXCEPT !.state_root = x] : x \in Hashes} \cup {[h EXCEPT !.txs_root = x] : x \in Hashes}
 \cup {[h EXCEPT !.signed = x] : x \in Hashes} \cup {[h EXCEPT !.receipts_root = x] : x \in Hashes}
 \cup {[h EXCEPT !.bloom = x] : x \in Blooms} \cup {[h EXCEPT !.ts = x] : x \in Uints}
 \cup {[h EXCEPT !.number = x] : x \in Uints} \cup {[h EXCEPT !.gas_used = x] : x \in Uints}
 \cup {[h EXCEPT !.gas_limit = x] : x \in Uints} \cup {[h EXCEPT !.extra = x] : x \in Extras}
 \cup {[h EXCEPT !.base_fee = x] : x \in Uints} \cup {[h EXCEPT !.proof = x] : x \in Proofs}
 \cup {[h EXCEPT !.scripts = x] : x \in U32s} \cup {[h EXCEPT !.chain_id = x] : x \in Uints}
Txs == {<<>>, <<H(1)>>, <<H(1), H(2)>>, <<H(2), H(1)>>, [i \in 1..9 |-> H(i)]}
Header1 == [Header0 EXCEPT !.extra = << <<7, 7>> >>, !.ts = Rep(8, 1), !.gas_limit = <<128>>, !.scripts = <<3>>]
Blocks == {[header |-> h, txs |-> <<H(1)>>] : h \in HeadersOf(Header0) \cup HeadersOf(Header1)}
     \cup {[header |-> h, txs |-> t] : h \in {Header0, Header1}, t \in Txs}
Votes == {[height |-> a, round |-> b, type |-> c, hash |-> h] :
            a \in {<<>>, <<7>>, <<128>>, Rep(8, 255)}, b \in {<<>>, <<1>>, <<200>>}, c \in {<<1>>, <<2>>}, h \in Hashes}
Val0 == [bls |-> Rep(48, 8), pk |-> Rep(33, 2), address |-> Rep(20, 3), pw |-> <<1>>, vw |-> <<1>>]
Vals == {[Val0 EXCEPT !.bls = x] : x \in {<<>>, Rep(48, 0)}} \cup {[Val0 EXCEPT !.pk = x] : x \in {<<>>, <<5>>, Rep(65, 4)}}
   \cup {[Val0 EXCEPT !.address = Rep(20, 0)]} \cup {[Val0 EXCEPT !.pw = x] : x \in U32s} \cup {[Val0 EXCEPT !.vw = x] : x \in U32s}
Config0 == << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<96, 0>> >>
Meta0 == [version |-> [start |-> <<1>>, end |-> <<100>>], epoch |-> <<2>>, validators |-> <<Val0>>,
          counter |-> <<[address |-> Rep(20, 3), count |-> <<>>]>>, config |-> Config0]
Metas == {[Meta0 EXCEPT !.version.start = x] : x \in Uints} \cup {[Meta0 EXCEPT !.version.end = x] : x \in Uints}
    \cup {[Meta0 EXCEPT !.epoch = x] : x \in Uints} \cup {[Meta0 EXCEPT !.validators = <<x>>] : x \in Vals}
    \cup {[Meta0 EXCEPT !.validators = x] : x \in {<<>>, <<Val0, [Val0 EXCEPT !.pk = Rep(33, 3)]>>}}
    \cup {[Meta0 EXCEPT !.counter = x] : x \in {<<>>, <<[address |-> Rep(20, 0), count |-> Rep(8, 255)]>>}}
    \cup UNION {{[Meta0 EXCEPT !.config[i] = x] : x \in Uints} : i \in 1..9}

VARIABLES kind, r, done
Init == /\ done = FALSE
        /\ \/ kind = "block" /\ r \in Blocks
           \/ kind = "vote" /\ r \in Votes
           \/ kind = "proof" /\ r \in Proofs
           \/ kind = "metadata" /\ r \in Metas
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<kind, r>>

Prev == H(77)
Near(b) == {[header |-> h, txs |-> b.txs] : h \in HeadersOf(Header0)} \cup {[header |-> b.header, txs |-> t] : t \in Txs}
HdrOnly(b) == <<b.header.state_root, b.header.receipts_root, b.header.bloom, b.header.gas_used>>
\* what a proposal hash does not bind
Unbound(p) == [p EXCEPT !.base_fee = <<>>, !.chain_id = <<>>]
BindsBlock == \A n \in Near(r) : (EncBlock(n) = EncBlock(r)) <=> (n = r)
BindsHeader == \A n \in Near(r) : (EncHeader(n.header) = EncHeader(r.header)) <=> (n.header = r.header)
BindsProposal == \A n \in Near(r) :
   (EncProposal(ProposalOf(n, Prev)) = EncProposal(ProposalOf(r, Prev))) <=> (Unbound(ProposalOf(n, Prev)) = Unbound(ProposalOf(r, Prev)))
Outcome(b) == [state_root |-> b.header.state_root, receipts_root |-> b.header.receipts_root, bloom |-> b.header.bloom,
               gas_used |-> b.header.gas_used]
Rebuild == BlockOf(ProposalOf(r, Prev), Outcome(r)) = r
Inv == done =>
  CASE kind = "block" -> BindsBlock /\ BindsHeader /\ BindsProposal /\ Rebuild
    [] kind = "vote" -> \A v \in Votes : (EncVote(v) = EncVote(r)) <=> (v = r)
    [] kind = "proof" -> \A v \in Proofs : (EncProof(v) = EncProof(r)) <=> (v = r)
    [] kind = "metadata" -> \A v \in Metas : (EncMetadata(v) = EncMetadata(r)) <=> (v = r)
Emit == done => PrintT("@@GEN " \o ToJson([kind |-> kind, r |-> r]))
=============================================================================
