------------------------------ MODULE Interop -------------------------------
(* Cross-chain signatures: what their data looks like on the wire, when a   *)
(* signature is one, and which sender it gives.                             *)
EXTENDS Rlp, Integers, FiniteSets, TLC

\* an optional byte string is <<>> or <<bytes>>
Opt(x) == EncList(IF x = <<>> THEN <<>> ELSE <<EncStr(x[1])>>)
OptOf(x, enc) == EncList(IF x = <<>> THEN <<>> ELSE <<enc>>)
EncDep(d) == EncList(<<EncStr(d.hash), EncUint(d.index), EncUint(d.dep)>>)
EncDepKey(x) == EncList(<<EncDep(x.dep), EncStr(x.key)>>)
EncWitness(w) == EncList(<<Opt(w.lock), Opt(w.input), Opt(w.output)>>)
EncSigS(ws) == EncList(<<EncList([i \in 1..Len(ws) |-> EncWitness(ws[i])])>>)
EncOutPoint(o) == EncList(<<EncStr(o.hash), EncUint(o.index)>>)
EncScript(s) == EncList(<<EncStr(s.hash), EncStr(s.args), EncUint(s.type)>>)
EncCell(c) == EncList(<<EncList(IF c.type = <<>> THEN <<>> ELSE <<EncScript(c.type[1])>>), EncScript(c.lock), EncStr(c.data)>>)
EncOf(kind, v) ==
  CASE kind = "dep" -> EncDep(v) [] kind = "depkey" -> EncDepKey(v) [] kind = "witness" -> EncWitness(v)
    [] kind = "sigs" -> EncSigS(v.ws) [] kind = "outpoint" -> EncOutPoint(v) [] kind = "script" -> EncScript(v)
    [] kind = "cell" -> EncCell(v)

\* where the parts of a cell dep with public key stand; what follows the parts is not looked at
NoKey == [ok |-> FALSE]
ParseDepKey(b) ==
  LET it == Item(b, 1, Len(b)) IN
  IF ~it.ok THEN NoKey ELSE IF it.kind # "l" THEN NoKey ELSE
  LET hi == it.s + it.n - 1
      d == Item(b, it.s, hi) IN
  IF ~d.ok THEN NoKey ELSE IF d.kind # "l" THEN NoKey ELSE
  LET dh == d.s + d.n - 1
      h == Item(b, d.s, dh) IN
  IF ~h.ok THEN NoKey ELSE IF ~IsFixed(h, 32) THEN NoKey ELSE
  LET x == Item(b, h.s + h.n, dh) IN
  IF ~x.ok THEN NoKey ELSE IF ~IsUint(b, x, 4) THEN NoKey ELSE
  LET t == Item(b, x.s + x.n, dh) IN
  IF ~t.ok THEN NoKey ELSE IF ~IsUint(b, t, 1) THEN NoKey ELSE
  LET k == Item(b, dh + 1, hi) IN
  IF ~k.ok THEN NoKey ELSE IF k.kind # "s" THEN NoKey ELSE
  [ok |-> TRUE, key |-> Payload(b, k), whole |-> /\ it.s + it.n = Len(b) + 1
                                                 /\ k.s + k.n = hi + 1 /\ t.s + t.n = dh + 1]

\* the signature of a transaction on the wire: plain, cross-chain or neither
Plain(r, s) == Len(r) + Len(s) <= 64
\* what decides the sender of a cross-chain signature
Signer(r) == IF r = <<>> THEN NoKey ELSE IF r[1] # 0 THEN NoKey ELSE ParseDepKey(Tail(r))
=============================================================================
