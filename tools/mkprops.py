#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list itself is kept here, in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- consensus
prop("A01", "A node accepts a block proof only with a two-thirds weighted quorum",
 "A node accepts a proof for a block if and only if the proof names that block's number and hash and carries a valid aggregate signature, over exactly that number, round and hash as a commit vote, of validators of the set in force at that number who together hold strictly more than two thirds of that set's total vote weight. Wrong number, wrong hash, a set that is not the one in force, too little weight, or a signature that does not match the marked voters is always rejected.",
 ["inputs", "configurations"], "every validator set and weight assignment, every subset of signers and marked voters, every tampering of the proof",
 "The tests check no quorum at all on the node side; the accept/reject boundary depends on every combination of weights, voters and tampered field.",
 ["core/consensus/src/adapter.rs", "core/consensus/src/util.rs", "protocol/src/types/block.rs"],
 [("verify_proof / verify_proof_weight / verify_proof_signature", "core/consensus/src/adapter.rs")],
 observe=["result of proof verification"])
prop("A02", "Committed chain grows by one linked block at a time, each exactly once",
 "Whatever order and repetition of commit requests a node receives, its committed chain is a gap-free sequence of numbers in which every block names the hash of the block before it, and a request for an already committed, skipped or otherwise out-of-turn number changes nothing. The stored block, its transactions in proposal order, its receipts and its proof agree with the committed proposal, and the header's roots are those of executing exactly those transactions on the previous state.",
 ["schedules", "histories"], "every sequence of commit requests, including duplicates, stale and future numbers, interleaved with synchronization",
 "No existing test drives the commit path at all; the property is about every history of requests.",
 ["core/consensus/src/engine.rs", "core/consensus/src/status.rs", "core/consensus/src/util.rs", "core/storage/src/lib.rs"],
 [("commit / exec / update_status", "core/consensus/src/engine.rs"), ("status agent", "core/consensus/src/status.rs")],
 state=[("status", "last committed number, hash, state root and proof", "core/consensus/src/status.rs")],
 observe=["storage reads", "returned next-height status"])
prop("A03", "A proposal is approved iff it correctly extends the local chain",
 "A node approves a proposed block only under that block's own hash, only for the number being decided, and only if its previous hash, previous state root, proof of the previous block, timestamp (not before its parent's, not after now), transaction hashes, transaction roots, gas limit and announced hardfork all agree with the node's own chain and with the transactions it holds or can obtain; it approves every proposal that an honest proposer builds on the same chain. A proposal altered in any one of these is refused and leaves no transactions saved for it.",
 ["inputs", "histories"], "every honest proposal on every reachable chain and every single-field alteration of it",
 "No test calls the proposal check; it is a conjunction of many conditions each of which fails on a different input.",
 ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs"],
 [("check_block / inner_check_block", "core/consensus/src/engine.rs"), ("verify_txs, verify_block_header", "core/consensus/src/adapter.rs")],
 observe=["result of the proposal check", "saved transactions of the proposal"])
prop("A04", "A syncing node adopts exactly the verified chain of its peers",
 "A node that synchronizes from peers ends with the same blocks, transactions, receipts, proofs and state as a node that took part in consensus, and keeps serving them. A block, transaction list or proof that does not verify against the local chain - wrong parent, quorum, roots, or transactions - is never stored or executed into the chain state, and everything synchronized before it stays intact.",
 ["histories", "fault_sequences"], "every chain, every sync range and every corruption a remote peer may answer with",
 "Synchronization is not tested; it depends on what each remote answer contains and when it fails.",
 ["core/consensus/src/synchronization.rs", "core/consensus/src/adapter.rs", "core/consensus/src/message.rs"],
 [("start_sync / verify_block / commit_block", "core/consensus/src/synchronization.rs"), ("pull handlers", "core/consensus/src/message.rs")],
 observe=["storage", "consensus status", "answers to pull requests"])
prop("A05", "A crash at any point of a commit is recoverable",
 "If a node stops between any two durable writes of committing a block, the next start finds either the previous block or the new block as its latest, with every block up to the latest complete (header, transactions, receipts, state), and can commit the following block and reach the same chain as a node that did not stop.",
 ["crash_points"], "every durable write of every commit",
 "Tests never stop a node between writes.",
 ["core/consensus/src/engine.rs", "core/consensus/src/synchronization.rs", "core/storage/src/lib.rs", "core/executor/src/lib.rs"],
 [("order of durable writes in save_chain_data/update_status", "core/consensus/src/engine.rs"), ("insert_block then latest marker", "core/storage/src/lib.rs")],
 observe=["storage after reopening", "replayed commits"])
prop("A06", "Consensus write-ahead logs return the last complete record after any crash",
 "The transactions saved for a proposal are returned exactly, and in order, for that block number and proposal until the number is pruned, and pruning removes only numbers below the bound. Loading the vote log always terminates and returns the most recently completed record even when later or older files are empty, truncated or corrupted, and saving again after a failure replaces the damaged record.",
 ["histories", "crash_points"], "every sequence of saves, prunes and reloads, with every truncation or corruption of the files",
 "Tests save and load one well-formed record per height; torn, shrunk and empty files never occur there.",
 ["core/consensus/src/wal.rs"],
 [("SignedTxsWAL save/load/remove", "core/consensus/src/wal.rs"), ("ConsensusWal save/load/clear", "core/consensus/src/wal.rs")],
 observe=["files in the log directories", "load results"])
# ---------------------------------------------------------------- mempool
prop("B01", "Packaged transactions are executable in order and within limits",
 "A package offered for a block lists system transactions first, one for each distinct call, and never lists a transaction twice, never lists a committed, expired or replaced one, and its ordinary transactions never exceed the requested number or total gas limit. For each sender the packaged nonces form a run without gaps starting at the first nonce still expected from that sender, and no executable transaction is held back while number and gas still allow it.",
 ["histories"], "every sequence of insertions, replacements, packagings, flushes and expiries",
 "Tests insert a handful of transactions once; ordering, gaps and limits depend on the whole history.",
 ["core/mempool/src/pool.rs", "core/mempool/src/tx_wrapper.rs", "core/mempool/src/lib.rs"],
 [("PriorityPool package", "core/mempool/src/pool.rs")],
 observe=["packaged hashes"])
prop("B02", "The pool never loses, duplicates or resurrects a transaction",
 "Every admitted transaction stays retrievable by hash until it is committed, overtaken (replaced by a better paying one of the same sender and nonce, its nonce used by the chain, or for a system transaction the same call committed), or past its timeout, and afterwards it is gone; if it is put in again its time starts anew. Up to 64 transactions of one sender are kept waiting. Membership answers, the full-transaction query (in the order asked), the hashes asked of peers for a proposal (exactly those not held, and only exactly those are accepted as the answer) and the reported pool size always agree with that set, and insertions never take the pool beyond its configured capacity (only transactions pulled for a proposal may).",
 ["histories"], "every sequence of insertions, duplicates, queries, packagings and flushes",
 "The bookkeeping spans four structures whose agreement only shows over long mixed histories.",
 ["core/mempool/src/pool.rs", "core/mempool/src/lib.rs", "core/mempool/src/context.rs"],
 [("insert/flush/get_by_hash", "core/mempool/src/pool.rs")],
 observe=["contains / get / len / full transactions"])
prop("B03", "Only valid transactions are admitted to the pool",
 "A transaction enters the pool only if its signature proves its sender, its chain id (if it has one) is the node's, its nonce is not already used, its gas limit and price are within the allowed bounds, its size is within the limit, its sender can pay for it, and it is not committed already; a transaction to the system contracts enters only from a validator of the next block, and one to a reserved system address without a contract never. A transaction satisfying all of these is admitted, and the answer is the same whether the account was looked up before or not.",
 ["inputs", "histories"], "every transaction and every account state",
 "Tests exercise only accepted transactions through a mock adapter.",
 ["core/mempool/src/adapter/mod.rs", "core/mempool/src/lib.rs"],
 [("check_authorization / check_transaction / check_storage_exist", "core/mempool/src/adapter/mod.rs")],
 observe=["admission result"])
# ---------------------------------------------------------------- storage
prop("C01", "Stored chain data reads back identically through every index",
 "Whatever was stored for a block - header, block, transactions, receipts, proof - is returned unchanged by number, by hash, by transaction hash, singly and in batches (in the order asked, with gaps reported as absent), and the latest-block view is the last one set. Answers are the same whether served from cache, from disk, or after a restart, and unknown keys are reported as absent, never as another record.",
 ["histories"], "every sequence of insertions and lookups over many heights, with cache eviction and reopening",
 "Tests look up single records just written; agreement between indexes, caches and reopen needs histories.",
 ["core/storage/src/lib.rs", "core/storage/src/cache.rs", "core/storage/src/schema.rs", "core/storage/src/hash_key.rs", "core/db/src/rocks.rs", "core/db/src/memory.rs"],
 [("ImplStorage", "core/storage/src/lib.rs"), ("StorageCache", "core/storage/src/cache.rs")],
 observe=["storage lookups"])
# ---------------------------------------------------------------- execution
prop("D01", "Executing a block moves money and nonces exactly as the receipts say",
 "Executing a transaction raises its sender's nonce by exactly one and changes no other external account's nonce, takes from the sender the transferred value (only if it succeeded) and the charged gas at the effective price and nothing else, and gives the receiver the value. The fees charged in a block are what is handed to its validators (up to what does not divide evenly among their weights), nothing is minted, and a failed transaction changes no state beyond nonce and fee.",
 ["inputs", "histories"], "every list of transfer, call, create, reverting and failing transactions on every account state",
 "Tests run single transactions with fixed gas; conservation is a statement about all transaction lists.",
 ["core/executor/src/lib.rs", "core/executor/src/utils.rs", "core/executor/src/adapter/backend/apply.rs"],
 [("evm_exec / exec / fee allocation", "core/executor/src/lib.rs")],
 observe=["account state before and after", "receipts"])
prop("D02", "Execution is deterministic and read-only calls leave no trace",
 "Executing the same transactions on the same state in the same environment always yields the same state root, receipts root and results, on any node and after any unrelated calls in between. A read-only call against any past block sees exactly that block's state and changes nothing a later call, block or root can observe.",
 ["histories", "schedules"], "every block sequence interleaved with arbitrary read-only calls at past heights",
 "Tests execute once and compare nothing across runs or heights.",
 ["core/executor/src/lib.rs", "core/executor/src/adapter/backend/read_only.rs", "core/executor/src/adapter/backend/apply.rs", "core/executor/src/adapter/trie"],
 [("call / exec", "core/executor/src/lib.rs")],
 observe=["roots", "call results"])
prop("D03", "Every block number has exactly one validator set, and epochs are contiguous",
 "Each block number belongs to exactly one epoch, and looking up the metadata of a number returns the epoch whose range contains it. A new epoch is accepted only if it is the next one, starts right after the last one ends and does not end before it starts; once accepted, past epochs never change and a refused update changes nothing. Each block counts once, in its epoch, for the validator that proposed it.",
 ["histories", "inputs"], "every sequence of valid and invalid metadata updates and every looked-up number",
 "Tests append a few epochs in order; boundaries and refused updates are combinatorial.",
 ["core/executor/src/system_contract/metadata/store.rs", "core/executor/src/system_contract/metadata/segment.rs", "core/executor/src/system_contract/metadata/handle.rs", "core/executor/src/system_contract/metadata/mod.rs", "protocol/src/types/primitive.rs"],
 [("EpochSegment", "core/executor/src/system_contract/metadata/segment.rs"), ("MetadataStore", "core/executor/src/system_contract/metadata/store.rs"), ("MetadataVersion::contains", "protocol/src/types/primitive.rs")],
 observe=["metadata lookups by number and by epoch"])
prop("D04", "Hardfork flags only accumulate, from the block they name",
 "A feature announced for a block is in force at that block and every later one and not before it; announcements accumulate and none in force is ever lost, re-announcing a feature changes nothing, and one for a block before the last announced block is ignored. What the chain specification and the command line name as features is exactly what becomes active: none named means all, the explicit 'none' alone means none.",
 ["histories", "configurations"], "every sequence of activations and every queried height",
 "One test pushes two activations; accumulation and lookup range over histories.",
 ["protocol/src/types/primitive.rs", "core/executor/src/system_contract/metadata/handle.rs", "core/executor/src/system_contract/metadata/store.rs", "common/config-parser/src/types/spec.rs"],
 [("HardforkInfo push", "protocol/src/types/primitive.rs"), ("hardfork lookup", "core/executor/src/system_contract/metadata/store.rs"), ("HardforkInput conversion", "common/config-parser/src/types/spec.rs")],
 observe=["flags by height"])
prop("D05", "Mirrored CKB headers and cells change only by whole, reversible updates",
 "Each mirrored header or cell is readable exactly from the update that adds it until the update that rolls it back; a cell is marked consumed exactly at the block that consumes it and live again when that is rolled back. An update that fails in any part changes nothing at all.",
 ["histories"], "every sequence of updates and rollbacks, including invalid ones",
 "Tests run one update and one rollback.",
 ["core/executor/src/system_contract/image_cell", "core/executor/src/system_contract/ckb_light_client"],
 [("ImageCellStore", "core/executor/src/system_contract/image_cell/store.rs"), ("CkbLightClientStore", "core/executor/src/system_contract/ckb_light_client/store.rs")],
 observe=["header and cell lookups", "root of the mirrored data"])
prop("D06", "System contracts change state only for whom and how they are meant to",
 "A system contract's state changes only through a well-formed call that satisfies its permission and input conditions; every other call reports failure and leaves balances and contract state as they were. Native token issue and burn change the named account by exactly the amount, and never below zero or beyond the representable range.",
 ["inputs", "histories"], "every call to every system contract from every caller",
 "Tests make a few hand-picked calls to each contract.",
 ["core/executor/src/system_contract/mod.rs", "core/executor/src/system_contract/native_token.rs", "core/executor/src/system_contract/metadata/mod.rs"],
 [("system_contract_dispatch", "core/executor/src/system_contract/mod.rs"), ("NativeTokenContract", "core/executor/src/system_contract/native_token.rs")],
 observe=["call results", "balances", "contract state"])
# ---------------------------------------------------------------- protocol
prop("E01", "Transaction wire format: faithful, strict, and safe on any bytes",
 "Decoding the encoding of any legacy, access-list or fee-market transaction gives back the same transaction, its hash is the Keccak-256 of its canonical encoding, and the recovered sender is the signer of exactly the unsigned content (including the chain id when there is one). Bytes that are not the encoding of some transaction are refused with an error and never crash the node.",
 ["inputs"], "every transaction of every type, every boundary value, every mutation and truncation of its bytes",
 "Tests decode a few fixed vectors.",
 ["protocol/src/codec/transaction.rs", "protocol/src/types/transaction.rs"],
 [("UnverifiedTransaction / SignedTransaction codecs", "protocol/src/codec/transaction.rs"), ("signature_hash, recover", "protocol/src/types/transaction.rs")],
 observe=["decoded fields", "hash", "sender", "error"])
prop("E02", "Cross-chain signed transactions get one fixed sender and signature routing",
 "A transaction signed for another chain's lock is given the sender derived from its lock data (or address source) by the published rule, deterministically and independently of everything else in the transaction; plain Ethereum signatures are told apart from such ones without ambiguity. Encoded cross-chain signature data decodes to what was encoded, and malformed signature data is refused with an error and never crashes the node.",
 ["inputs"], "every signature kind, every lock data, every malformed variant",
 "Tests decode a few fixed samples.",
 ["protocol/src/types/interoperation.rs", "protocol/src/types/transaction.rs", "protocol/src/codec/transaction.rs", "core/interoperation/src/lib.rs", "core/interoperation/src/utils.rs"],
 [("SignatureComponents, SignatureR/S", "protocol/src/codec/transaction.rs"), ("sender extraction", "protocol/src/types/transaction.rs")],
 observe=["sender", "decoded data", "error"])
prop("E03", "Chain records survive encoding and block hashes bind every field",
 "Every block, header, proposal, proof, receipt, transaction, metadata, and every network message built from them decodes to exactly what was encoded. Two headers that differ in any field have different hashes, two proposals that differ in any field but the base fee and chain id (constants of the network) too, and the proposal taken from a block is the one that was voted for.",
 ["inputs"], "every value of every record type, including empty, boundary and optional parts",
 "Tests round-trip one random instance of a few types.",
 ["protocol/src/codec/block.rs", "protocol/src/codec/receipt.rs", "protocol/src/codec/executor.rs", "protocol/src/types/block.rs", "protocol/src/types/receipt.rs", "protocol/src/types/batch.rs", "protocol/src/types/primitive.rs"],
 [("RLP codecs", "protocol/src/codec"), ("Proposal/Header/Block hash", "protocol/src/types/block.rs")],
 observe=["decoded values", "hashes"])
prop("E04", "Roots, blooms and inclusion proofs commit to exactly the listed items",
 "The ordered root of a list depends on every element and its position and equals the standard ordered trie root; a proof for an item verifies against the root exactly for the item and position it was made for. A receipt's bloom and a block's bloom contain every address and topic of their logs, and nothing that no log contributed.",
 ["inputs"], "every list of items, every position and every altered proof or log",
 "No test compares roots or blooms with an independent computation.",
 ["common/merkle/src/lib.rs", "protocol/src/types/receipt.rs", "protocol/src/types/executor.rs", "core/executor/src/utils.rs", "devtools/axon-tools/src/proof.rs"],
 [("TrieMerkle / Merkle", "common/merkle/src/lib.rs"), ("logs_bloom", "core/executor/src/utils.rs")],
 observe=["roots", "proof verification results", "blooms"])
prop("E05", "Textual hex values, addresses and keys parse strictly and print back unchanged",
 "Every accepted hexadecimal byte string, address, key, number or checksum address prints back to an equal value; the wrong length, digit, prefix or sign is refused with an error. The checksummed form of an address is the standard one, and secret keys never appear in printed form.",
 ["inputs"], "every byte string and every malformed text",
 "Tests parse a handful of literals.",
 ["protocol/src/types/primitive.rs", "protocol/src/codec/mod.rs", "devtools/axon-tools/src/types.rs"],
 [("Hex, hex_encode/hex_decode, Key256Bits, eip55", "protocol/src/types/primitive.rs")],
 observe=["parse results and printed text"])
# ---------------------------------------------------------------- light client library
prop("F01", "The verification library accepts exactly the blocks the network would",
 "The light verification library accepts a block with a proof if and only if the proof is for exactly that block on the given previous state and carries a valid commit signature of validators holding strictly more than two thirds of the total vote weight, whatever the order in which the validators are listed. Altering the previous state root, any field of the block that the vote commits to (all but the results of executing it, the base fee and the chain id), the proof's signed content or signature, or a signer's key makes it refuse; it never crashes on malformed input.",
 ["inputs", "configurations"], "every validator set and weights, every subset of signers, every tampering",
 "One recorded block is verified by the tests.",
 ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/types.rs"],
 [("verify_proof / extract_pks", "devtools/axon-tools/src/proof.rs")],
 observe=["accept or reject"])
prop("F02", "The verification library and the node agree on every encoding and hash",
 "For every block, header, proposal, vote, proof, validator and metadata record, the verification library's encoding and hash are identical to the node's, its decoding accepts what the node produces (binary and JSON), and its trie proof check agrees with the node's trie.",
 ["inputs"], "every record the node can produce",
 "Tests compare one recorded proposal.",
 ["devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/rlp_codec.rs", "devtools/axon-tools/src/proof.rs", "protocol/src/codec/block.rs", "protocol/src/types/block.rs"],
 [("mirror types and codecs", "devtools/axon-tools/src/types.rs")],
 observe=["encodings and hashes of both"])
# ---------------------------------------------------------------- API / network
prop("G01", "A filter reports every matching block or log exactly once",
 "Polling a block filter returns exactly the hashes of the blocks committed since the previous poll (or creation), in order; polling a log filter returns exactly the matching logs of the blocks in its range that became available since the previous poll, in order, with no omission or repetition. An unknown, expired or removed filter is reported as such, other filters are unaffected by any request, and no request can stop the filter service.",
 ["histories", "schedules"], "every interleaving of block commits, filter creations, polls, removals and expiries",
 "Filters have no test; exactly-once delivery is about histories.",
 ["core/api/src/jsonrpc/impl/filter.rs"],
 [("FilterHub", "core/api/src/jsonrpc/impl/filter.rs")],
 observe=["poll results"])
prop("G02", "Chain queries over RPC agree with the committed chain and with each other",
 "Blocks, transactions, receipts, logs, counts, balances, code, nonces and storage slots returned for any block tag, number or hash are those of the committed chain at that block, and the different queries agree on hashes, indexes and log positions. Logs returned for a range or hash are exactly the stored logs that match the address and topic pattern, in chain order; bad or unknown arguments give an error or null and never crash the service.",
 ["inputs", "histories"], "every chain and every query",
 "RPC methods have almost no test.",
 ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/adapter.rs", "core/api/src/jsonrpc/web3_types.rs"],
 [("Web3RpcImpl", "core/api/src/jsonrpc/impl/web3.rs")],
 observe=["RPC results"])
prop("G03", "Subscribers get every new head, matching log and sync status once and in order",
 "After subscribing over the RPC's subscription service, a client is sent every block header committed after the last notification before it subscribed, or every log of those blocks that matches its address and topic pattern with the right position, each exactly once and in chain order, and the state of synchronization whenever there are new blocks. Clients that leave or whose request is malformed change nothing for the others.",
 ["histories", "schedules"], "every interleaving of block commits, subscriptions, departures and notification rounds",
 "Subscriptions have no test; exactly-once delivery is about histories.",
 ["core/api/src/jsonrpc/ws_subscription.rs"],
 [("Subscription", "core/api/src/jsonrpc/ws_subscription.rs")],
 observe=["messages sent to the subscription sinks"])
prop("H01", "A network response reaches only the request it answers, at most once",
 "Each request sent to a peer gets its own identifier, and a response is delivered only to the pending request of that peer with that identifier, at most once; late, duplicate, foreign or forged responses reach nobody. A completed, timed-out or abandoned request leaves nothing pending.",
 ["schedules", "fault_sequences"], "every interleaving of concurrent calls, responses, timeouts and disconnects",
 "No test drives concurrent requests.",
 ["core/network/src/reactor/rpc_map.rs", "core/network/src/outbound/rpc.rs"],
 [("RpcMap", "core/network/src/reactor/rpc_map.rs")],
 observe=["delivered responses", "pending requests"])
prop("H02", "Peer bookkeeping keeps banned peers out and trusted peers in",
 "A session with an address under a ban is refused, and an address stops being banned exactly when its ban expires; a ban never affects another IP address, drops the session of the peer it is for, and survives a restart. Sessions beyond the inbound, outbound or total limit are refused, but a peer on the allow list (bootstrap node or validator) is refused neither for a ban nor for a limit. The registered sessions, known addresses and their records always agree with the sequence of connects, disconnects, failures, bans and reports, across restarts, and the node dials only known, unconnected and connectable addresses, no more than it has room for. A message addressed to named peers goes to exactly those of them that are connected.",
 ["histories"], "every sequence of connects, disconnects, bans, expiries and address updates",
 "Peer bookkeeping tests do not run in the build and sample single operations.",
 ["core/network/src/peer_manager/registry.rs", "core/network/src/peer_manager/peer_store", "core/network/src/peer_manager/mod.rs"],
 [("PeerRegistry, PeerStore, BanList", "core/network/src/peer_manager")],
 observe=["allow/refuse answers", "registered peers", "dialled addresses", "files of the peer store"])
# ---------------------------------------------------------------- operations
prop("I01", "Log rotation never loses or overwrites log records",
 "However often and quickly the log file is rotated, every record written before a rotation is afterwards in exactly one file, unchanged, the active file starts empty, and archive names carry the date of rotation. Log level filters apply to exactly the modules they name.",
 ["histories"], "every sequence of writes and rotations, including several within one second",
 "One test rotates once.",
 ["common/logger/src/date_fixed_roller.rs", "common/logger/src/lib.rs"],
 [("DateFixedWindowRoller", "common/logger/src/date_fixed_roller.rs")],
 observe=["files in the log directory"])
prop("I02", "A node never runs on data from an incompatible version",
 "Starting on a data directory succeeds exactly when no version is recorded or the recorded version is at least the least compatible one in semantic-version order, and then records the running version; otherwise start is refused and the recorded version is left untouched. The recorded version is replaced atomically: a stop at any point leaves the old or the new one, never a mixture.",
 ["inputs", "histories", "crash_points"], "every recorded, running and least compatible version, and every sequence of starts",
 "Tests try two version pairs, in a crate that does not build here.",
 ["core/cli/src/utils.rs", "common/version/src/lib.rs"],
 [("check_version / atomic_write", "core/cli/src/utils.rs"), ("Version ordering", "common/version/src/lib.rs")],
 observe=["start result", "version file"])
prop("I03", "Keys and signatures: only the signer's signature over the message verifies",
 "A signature made with a key verifies with the matching public key over the same message and for no other message, key or altered signature; recovering the signer of a recoverable signature returns exactly the key that made it. Malformed keys and signatures are refused with an error, and printing a key never reveals its secret part.",
 ["inputs"], "every key, message, signature and single-byte alteration",
 "Tests sign one message.",
 ["common/crypto/src/lib.rs", "core/consensus/src/util.rs"],
 [("secp256k1 and BLS wrappers", "common/crypto/src/lib.rs"), ("OverlordCrypto", "core/consensus/src/util.rs")],
 observe=["sign / verify / recover results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
