-------------------------------- MODULE Rlp --------------------------------
(***************************************************************************)
(* The RLP serialization as functions on byte sequences (0..255), written  *)
(* from the Yellow Paper, independently of any implementation.  Unsigned   *)
(* integers of any width are minimal big-endian byte sequences.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Byte == 0..255

\* minimal big-endian bytes of a TLC integer
RECURSIVE NatBytes(_)
NatBytes(n) == IF n = 0 THEN <<>> ELSE Append(NatBytes(n \div 256), n % 256)

RECURSIVE StripZ(_)
StripZ(b) == IF b # <<>> /\ b[1] = 0 THEN StripZ(Tail(b)) ELSE b

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
PadTo(b, n) == IF Len(b) >= n THEN b ELSE Zeros(n - Len(b)) \o b

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

LenHdr(base, n) == IF n <= 55 THEN <<base + n>>
                   ELSE LET l == NatBytes(n) IN <<base + 55 + Len(l)>> \o l
EncStr(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE LenHdr(128, Len(b)) \o b
\* items: already encoded
EncList(items) == LET p == Flat(items) IN LenHdr(192, Len(p)) \o p
EncUint(b) == EncStr(StripZ(b))

(***************************************************************************)
(* Decoding.  Item(b, i, hi) describes the item that starts at position i  *)
(* and must end at or before hi: kind, payload start and payload length.   *)
(* Only the canonical form is accepted.                                    *)
(***************************************************************************)
Fail == [ok |-> FALSE]

BeLen(b, i, n) == \* big-endian integer in b[i..i+n-1]; n <= 3 is all a test input needs
  IF n = 1 THEN b[i] ELSE IF n = 2 THEN b[i] * 256 + b[i+1]
  ELSE (b[i] * 256 + b[i+1]) * 256 + b[i+2]

LongItem(b, i, hi, k, ll) ==
  IF i + ll > hi \/ ll > 3 THEN Fail
  ELSE IF b[i+1] = 0 THEN Fail
  ELSE LET n == BeLen(b, i + 1, ll) IN
       IF n <= 55 \/ i + ll + n > hi THEN Fail
       ELSE [ok |-> TRUE, kind |-> k, s |-> i + ll + 1, n |-> n]

Item(b, i, hi) ==
  IF i > hi THEN Fail ELSE
  LET c == b[i] IN
  CASE c <= 127 -> [ok |-> TRUE, kind |-> "s", s |-> i, n |-> 1]
    [] c > 127 /\ c <= 183 ->
         LET n == c - 128 IN
         IF i + n > hi THEN Fail
         ELSE IF n = 1 /\ b[i+1] < 128 THEN Fail
         ELSE [ok |-> TRUE, kind |-> "s", s |-> i + 1, n |-> n]
    [] c > 183 /\ c <= 191 -> LongItem(b, i, hi, "s", c - 183)
    [] c > 191 /\ c <= 247 ->
         LET n == c - 192 IN
         IF i + n > hi THEN Fail
         ELSE [ok |-> TRUE, kind |-> "l", s |-> i + 1, n |-> n]
    [] OTHER -> LongItem(b, i, hi, "l", c - 247)

\* all items of b[lo..hi], or ok = FALSE
RECURSIVE ItemsFrom(_, _, _, _)
ItemsFrom(b, i, hi, acc) ==
  IF i = hi + 1 THEN [ok |-> TRUE, items |-> acc]
  ELSE LET it == Item(b, i, hi) IN
       IF ~it.ok THEN Fail ELSE ItemsFrom(b, it.s + it.n, hi, Append(acc, it))

\* the items of the list that b[lo..hi] consists of, exactly
ListItems(b, lo, hi) ==
  LET it == Item(b, lo, hi) IN
  IF ~it.ok THEN Fail
  ELSE IF it.kind # "l" \/ it.s + it.n # hi + 1 THEN Fail
  ELSE ItemsFrom(b, it.s, it.s + it.n - 1, <<>>)
SubItems(b, it) == IF it.kind # "l" THEN Fail ELSE ItemsFrom(b, it.s, it.s + it.n - 1, <<>>)

Payload(b, it) == SubSeq(b, it.s, it.s + it.n - 1)

IsUint(b, it, w) == it.kind = "s" /\ it.n <= w /\ (it.n > 0 => b[it.s] # 0)
IsFixed(it, w)   == it.kind = "s" /\ it.n = w
=============================================================================
