------------------------------- MODULE Commit -------------------------------
(***************************************************************************)
(* What roots, proofs and blooms commit to: the ordered Merkle Patricia    *)
(* trie of a list (keys are the RLP of the positions), the binary Merkle   *)
(* tree of a list of hashes, receipts and their 2048 bit blooms.           *)
(* The digest function D (with a table T it may consult) is a parameter, so the same definitions are       *)
(* explored with an injective symbolic digest and judged against real ones.*)
(***************************************************************************)
EXTENDS Rlp, Integers, FiniteSets, TLC
CONSTANT D(_, _)

Nibbles(b) == [i \in 1..2 * Len(b) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]
IndexKey(i) == EncUint(NatBytes(i))          \* the key of position i, counted from 0
KeyPath(i) == Nibbles(IndexKey(i))

\* hex-prefix form of a path
PackNibbles(p) == [i \in 1..Len(p) \div 2 |-> p[2*i - 1] * 16 + p[2*i]]
HexPrefix(p, leaf) ==
  LET f == IF leaf THEN 2 ELSE 0 IN
  IF Len(p) % 2 = 1 THEN <<(f + 1) * 16 + p[1]>> \o PackNibbles(Tail(p)) ELSE <<f * 16>> \o PackNibbles(p)

Drop(p, n) == SubSeq(p, n + 1, Len(p))
\* a set of [p, v]: the length of the prefix all paths share
Shared(S) == LET x == CHOOSE x \in S : TRUE
                 ok(n) == \A y \in S : Len(y.p) >= n /\ SubSeq(y.p, 1, n) = SubSeq(x.p, 1, n) IN
             CHOOSE n \in 0..Len(x.p) : ok(n) /\ ~(n < Len(x.p) /\ ok(n + 1))
DropAll(S, n) == {[p |-> Drop(x.p, n), v |-> x.v] : x \in S}

RECURSIVE NodeBytes(_, _)
\* how a node is referred to by its parent
RefTo(T, S) == LET b == NodeBytes(T, S) IN IF Len(b) < 32 THEN b ELSE EncStr(D(T, b))
NodeBytes(T, S) ==
  IF S = {} THEN <<128>>
  ELSE IF Cardinality(S) = 1 THEN LET x == CHOOSE x \in S : TRUE IN EncList(<<EncStr(HexPrefix(x.p, TRUE)), EncStr(x.v)>>)
  ELSE LET n == Shared(S) IN
    IF n > 0 THEN LET x == CHOOSE x \in S : TRUE IN
                  EncList(<<EncStr(HexPrefix(SubSeq(x.p, 1, n), FALSE)), RefTo(T, DropAll(S, n))>>)
    ELSE LET at(k) == {x \in S : x.p # <<>> /\ x.p[1] = k}
             here == {x \in S : x.p = <<>>} IN
         EncList([i \in 1..17 |-> IF i = 17 THEN (IF here = {} THEN <<128>> ELSE EncStr((CHOOSE x \in here : TRUE).v))
                                  ELSE IF at(i - 1) = {} THEN <<128>> ELSE RefTo(T, DropAll(at(i - 1), 1))])

\* items: the values in order
Entries(items) == {[p |-> KeyPath(i - 1), v |-> items[i]] : i \in 1..Len(items)}
TrieRoot(T, items) == D(T, NodeBytes(T, Entries(items)))

\* the nodes on the way to a path, root first: what a proof of that path consists of
RECURSIVE PathNodes(_, _, _, _)
PathNodes(T, S, path, root) ==
  LET b == NodeBytes(T, S)
      me == IF root \/ Len(b) >= 32 THEN <<b>> ELSE <<>> IN
  IF Cardinality(S) <= 1 THEN me
  ELSE LET n == Shared(S) IN
    IF n > 0 THEN LET x == CHOOSE x \in S : TRUE IN
       IF Len(path) >= n /\ SubSeq(path, 1, n) = SubSeq(x.p, 1, n) THEN me \o PathNodes(T, DropAll(S, n), Drop(path, n), FALSE) ELSE me
    ELSE IF path = <<>> THEN me
    ELSE LET sub == {x \in S : x.p # <<>> /\ x.p[1] = path[1]} IN
         IF sub = {} THEN me ELSE me \o PathNodes(T, DropAll(sub, 1), Tail(path), FALSE)
ProofOf(T, items, i) == PathNodes(T, Entries(items), KeyPath(i), TRUE)

\* what a set of nodes shows about a key under a root: a value, absence, or nothing
RECURSIVE WalkNode(_, _, _, _)
RECURSIVE WalkRef(_, _, _, _, _)
WalkRef(T, nodes, b, it, path) ==       \* the item `it` of b refers to a node
  IF it.kind = "l" THEN WalkNode(T, nodes, SubSeq(b, it.s - 1, it.s + it.n - 1), path)   \* inline: header of one byte
  ELSE IF it.n = 0 THEN [r |-> "absent"]
  ELSE LET h == Payload(b, it) C == {x \in nodes : D(T, x) = h} IN
       IF C = {} THEN [r |-> "unknown"] ELSE WalkNode(T, nodes, CHOOSE x \in C : TRUE, path)
UnHex(hp) == LET n == Nibbles(hp) IN
  IF n = <<>> \/ n[1] > 3 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, leaf |-> n[1] >= 2, p |-> IF n[1] % 2 = 1 THEN Tail(n) ELSE Tail(Tail(n))]
WalkNode(T, nodes, b, path) ==
  LET L == ListItems(b, 1, Len(b)) IN
  IF b = <<128>> THEN [r |-> "absent"]
  ELSE IF ~L.ok THEN [r |-> "unknown"]
  ELSE IF Len(L.items) = 17 THEN
    IF path = <<>> THEN (IF L.items[17].n = 0 THEN [r |-> "absent"] ELSE [r |-> "value", v |-> Payload(b, L.items[17])])
    ELSE WalkRef(T, nodes, b, L.items[path[1] + 1], Tail(path))
  ELSE IF Len(L.items) = 2 /\ L.items[1].kind = "s" THEN
    LET h == UnHex(Payload(b, L.items[1])) IN
    IF ~h.ok THEN [r |-> "unknown"]
    ELSE IF h.leaf THEN (IF h.p = path /\ L.items[2].kind = "s" THEN [r |-> "value", v |-> Payload(b, L.items[2])] ELSE [r |-> "absent"])
    ELSE IF Len(path) >= Len(h.p) /\ SubSeq(path, 1, Len(h.p)) = h.p
         THEN WalkRef(T, nodes, b, L.items[2], Drop(path, Len(h.p))) ELSE [r |-> "absent"]
  ELSE [r |-> "unknown"]
\* nodes: a set of byte sequences
Shows(T, root, nodes, i) ==
  LET C == {x \in nodes : D(T, x) = root} IN
  IF C = {} THEN [r |-> "refused"] ELSE WalkNode(T, nodes, CHOOSE x \in C : TRUE, KeyPath(i))

(***************************************************************************)
(* The binary tree: 2n-1 nodes in an array, the list at the end.           *)
(***************************************************************************)
RECURSIVE TreeAt(_, _, _)
TreeAt(T, xs, j) ==   \* node j, counted from 0
  LET n == Len(xs) IN IF j >= n - 1 THEN xs[j - (n - 1) + 1] ELSE D(T, TreeAt(T, xs, 2*j + 1) \o TreeAt(T, xs, 2*j + 2))
BinRoot(T, xs) == TreeAt(T, xs, 0)
RECURSIVE BinProofFrom(_, _, _)
BinProofFrom(T, xs, j) == IF j = 0 THEN <<>> ELSE
  LET sib == IF j % 2 = 1 THEN j + 1 ELSE j - 1 IN
  <<[right |-> j % 2 = 1, hash |-> TreeAt(T, xs, sib)]>> \o BinProofFrom(T, xs, (j - 1) \div 2)
BinProof(T, xs, i) == BinProofFrom(T, xs, i + Len(xs) - 1)     \* position i from 0
RECURSIVE BinFold(_, _, _)
BinFold(T, h, pr) == IF pr = <<>> THEN h ELSE
  BinFold(T, IF Head(pr).right THEN D(T, h \o Head(pr).hash) ELSE D(T, Head(pr).hash \o h), Tail(pr))

(***************************************************************************)
(* Blooms: three bits of 2048 for every address and topic.  A bloom is the *)
(* set of its bits, counted from the least significant one.                *)
(***************************************************************************)
BloomBits(d) == {(d[k] * 256 + d[k + 1]) % 2048 : k \in {1, 3, 5}}
EntriesOf(logs) == UNION {{logs[i].address} \cup {logs[i].topics[k] : k \in 1..Len(logs[i].topics)} : i \in 1..Len(logs)}
Bloom(T, logs) == UNION {BloomBits(D(T, x)) : x \in EntriesOf(logs)}

\* a receipt's payload: the status, the gas of the transaction, its bloom and its logs; typed ones carry their type
EncLog(l) == EncList(<<EncStr(l.address), EncList([i \in 1..Len(l.topics) |-> EncStr(l.topics[i])]), EncStr(l.data)>>)
EncReceipt(type, ok, gas, bloom, logs) ==
  LET body == EncList(<<EncUint(IF ok THEN <<1>> ELSE <<>>), EncUint(gas), EncStr(bloom), EncList([i \in 1..Len(logs) |-> EncLog(logs[i])])>>) IN
  IF type = 0 THEN body ELSE <<type>> \o body

\* where the logs of a block's transactions start
RECURSIVE LogStart(_, _)
LogStart(resps, i) == IF i = 1 THEN 0 ELSE LogStart(resps, i - 1) + Len(resps[i - 1].logs)
=============================================================================
