------------------------------ MODULE TxWire ------------------------------
(***************************************************************************)
(* The transaction wire format: legacy (EIP-155), access-list (EIP-2930)   *)
(* and fee-market (EIP-1559) transactions, with either an Ethereum         *)
(* signature (r, s of at most 32 bytes each) or cross-chain signature      *)
(* data (r, s byte strings of more than 64 bytes together).                *)
(*                                                                         *)
(* A transaction value:                                                    *)
(*   ty 0/1/2; nonce, tip, price, limit, value: minimal big-endian bytes;  *)
(*   to: <<>> or 20 bytes; data; al: sequence of [a, k];                   *)
(*   cid: minimal bytes, hasCid; v: 0..255; r, s: bytes (32 each if eth).  *)
(***************************************************************************)
EXTENDS Rlp, Integers, FiniteSets, TLC

\* 2*b + k on big-endian bytes, k < 512 (the EIP-155 v)
RECURSIVE AddSmall(_, _)
AddSmall(b, k) == IF k = 0 THEN b
                  ELSE IF b = <<>> THEN NatBytes(k)
                  ELSE LET x == b[Len(b)] + k IN
                       Append(AddSmall(SubSeq(b, 1, Len(b) - 1), x \div 256), x % 256)
RECURSIVE Dbl(_, _)
Dbl(b, c) == IF b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
             ELSE LET x == b[Len(b)] * 2 + c IN Append(Dbl(SubSeq(b, 1, Len(b) - 1), x \div 256), x % 256)
RECURSIVE SubSmall(_, _)
SubSmall(b, k) == IF k = 0 THEN b
                  ELSE LET x == b[Len(b)] - (k % 256)  br == IF x < 0 THEN 1 ELSE 0 IN
                       Append(SubSmall(SubSeq(b, 1, Len(b) - 1), (k \div 256) + br), x + br * 256)
RECURSIVE Half(_, _)
Half(b, c) == IF b = <<>> THEN <<>> ELSE LET x == c * 256 + Head(b) IN <<x \div 2>> \o Half(Tail(b), x % 2)
GeSmall(b, k) == Len(b) > 1 \/ (Len(b) = 1 /\ b[1] >= k) \/ (Len(b) = 0 /\ k = 0)

IsEth(t) == Len(t.r) = 32 /\ Len(t.s) = 32

LegacyV(t) == IF t.hasCid THEN StripZ(AddSmall(Dbl(t.cid, 0), 35 + t.v)) ELSE NatBytes(27 + t.v)

EncAl(al) == EncList([i \in 1..Len(al) |->
               EncList(<<EncStr(al[i].a), EncList([j \in 1..Len(al[i].k) |-> EncStr(al[i].k[j])])>>)])

Common(t) == <<EncUint(t.limit), EncStr(t.to), EncUint(t.value), EncStr(t.data)>>
Head0(t) == CASE t.ty = 0 -> <<EncUint(t.nonce), EncUint(t.price)>>
              [] t.ty = 1 -> <<EncUint(t.cid), EncUint(t.nonce), EncUint(t.price)>>
              [] OTHER    -> <<EncUint(t.cid), EncUint(t.nonce), EncUint(t.tip), EncUint(t.price)>>
Body(t) == Head0(t) \o Common(t) \o (IF t.ty = 0 THEN <<>> ELSE <<EncAl(t.al)>>)
RS(t) == IF IsEth(t) THEN <<EncUint(t.r), EncUint(t.s)>> ELSE <<EncStr(t.r), EncStr(t.s)>>
Tag(t) == IF t.ty = 0 THEN <<>> ELSE <<t.ty>>

Encode(t) == Tag(t) \o EncList(Body(t) \o
               (IF t.ty = 0 THEN <<EncUint(LegacyV(t))>> ELSE <<EncUint(NatBytes(t.v))>>) \o RS(t))
\* what the signer signs
SigningBytes(t) == Tag(t) \o EncList(Body(t) \o
               (IF t.ty = 0 /\ t.hasCid THEN <<EncUint(t.cid), EncUint(<<>>), EncUint(<<>>)>> ELSE <<>>))

----------------------------------------------------------------------------
AlEntry(b, it) ==
  LET f == SubItems(b, it) IN
  IF ~f.ok THEN Fail ELSE IF Len(f.items) # 2 THEN Fail
  ELSE IF ~IsFixed(f.items[1], 20) THEN Fail
  ELSE LET ks == SubItems(b, f.items[2]) IN
       IF ~ks.ok THEN Fail
       ELSE IF \E j \in 1..Len(ks.items) : ~IsFixed(ks.items[j], 32) THEN Fail
       ELSE [ok |-> TRUE, v |-> [a |-> Payload(b, f.items[1]),
                                 k |-> [j \in 1..Len(ks.items) |-> Payload(b, ks.items[j])]]]
DecAl(b, it) ==
  LET f == SubItems(b, it) IN
  IF ~f.ok THEN Fail
  ELSE LET es == [i \in 1..Len(f.items) |-> AlEntry(b, f.items[i])] IN
       IF \E i \in 1..Len(es) : ~es[i].ok THEN Fail
       ELSE [ok |-> TRUE, v |-> [i \in 1..Len(es) |-> es[i].v]]

\* v, r, s given the items of the three fields
DecSig(b, vi, ri, si, legacy) ==
  IF ri.kind # "s" \/ si.kind # "s" THEN Fail
  ELSE IF ~IsUint(b, vi, IF legacy THEN 8 ELSE 1) THEN Fail
  ELSE LET v == Payload(b, vi)
           eth == ri.n + si.n <= 64 IN
       IF eth /\ ~(IsUint(b, ri, 32) /\ IsUint(b, si, 32)) THEN Fail
       ELSE IF legacy /\ ~(v \in {<<27>>, <<28>>} \/ GeSmall(v, 35)) THEN Fail
       ELSE LET r == IF eth THEN PadTo(Payload(b, ri), 32) ELSE Payload(b, ri)
                s == IF eth THEN PadTo(Payload(b, si), 32) ELSE Payload(b, si) IN
            [ok |-> TRUE, r |-> r, s |-> s,
             hasCid |-> IF legacy THEN v \notin {<<27>>, <<28>>} ELSE TRUE,
             v |-> IF ~legacy THEN (IF v = <<>> THEN 0 ELSE v[1])
                   ELSE IF v = <<27>> THEN 0 ELSE IF v = <<28>> THEN 1
                   ELSE LET x == SubSmall(v, 35) IN x[Len(x)] % 2,
             cid |-> IF legacy /\ v \notin {<<27>>, <<28>>} THEN StripZ(Half(SubSmall(v, 35), 0)) ELSE <<>>]

Decode(b) ==
  IF b = <<>> THEN Fail
  ELSE LET ty == IF b[1] >= 128 THEN 0 ELSE b[1] IN
  IF b[1] < 128 /\ b[1] \notin {1, 2} THEN Fail
  ELSE LET lo == IF ty = 0 THEN 1 ELSE 2
           l == ListItems(b, lo, Len(b)) IN
  IF ~l.ok THEN Fail
  ELSE IF Len(l.items) # (CASE ty = 0 -> 9 [] ty = 1 -> 11 [] OTHER -> 12) THEN Fail
  ELSE LET I == l.items
           o == CASE ty = 0 -> 0 [] ty = 1 -> 1 [] OTHER -> 1
           nonce == I[o + 1]
           tip == IF ty = 2 THEN I[3] ELSE I[1]
           p == IF ty = 2 THEN 4 ELSE o + 2
           price == I[p]
           limit == I[p+1]  to == I[p+2]  value == I[p+3]  data == I[p+4]
           al == IF ty = 0 THEN [ok |-> TRUE, v |-> <<>>] ELSE DecAl(b, I[p+5])
           q == IF ty = 0 THEN p + 5 ELSE p + 6
           sg == DecSig(b, I[q], I[q+1], I[q+2], ty = 0) IN
  IF ~(IsUint(b, nonce, 8) /\ IsUint(b, price, 8) /\ IsUint(b, limit, 8) /\ IsUint(b, value, 32)) THEN Fail
  ELSE IF ty # 0 /\ ~IsUint(b, I[1], 8) THEN Fail
  ELSE IF ty = 2 /\ ~IsUint(b, tip, 8) THEN Fail
  ELSE IF to.kind # "s" \/ to.n \notin {0, 20} \/ data.kind # "s" THEN Fail
  ELSE IF ~al.ok THEN Fail
  ELSE IF ~sg.ok THEN Fail
  ELSE [ok |-> TRUE,
        t |-> [ty |-> ty, nonce |-> Payload(b, nonce), price |-> Payload(b, price),
               tip |-> IF ty = 2 THEN Payload(b, tip) ELSE <<>>,
               limit |-> Payload(b, limit), to |-> Payload(b, to), value |-> Payload(b, value),
               data |-> Payload(b, data), al |-> al.v,
               hasCid |-> sg.hasCid, cid |-> IF ty = 0 THEN sg.cid ELSE Payload(b, I[1]),
               v |-> sg.v, r |-> sg.r, s |-> sg.s]]
=============================================================================
