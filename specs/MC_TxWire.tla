----------------------------- MODULE MC_TxWire -----------------------------
(***************************************************************************)
(* Exhaustive check of the wire format over combinations of field values   *)
(* chosen at the format's boundaries, and of every one-byte change,        *)
(* truncation and extension of the encodings.                              *)
(***************************************************************************)
EXTENDS TxWire, Json, IOUtils, SequencesExt

A20 == [i \in 1..20 |-> i]
Z20 == [i \in 1..20 |-> 0]
K32 == [i \in 1..32 |-> 200 + i]
Rep(n, x) == [i \in 1..n |-> x]

Uints == {<<>>, <<1>>, <<127>>, <<128>>, <<1, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}
Values == {<<>>, <<5>>, Rep(32, 255)}
Tos == {<<>>, A20, Z20}
Datas == {<<>>, <<0>>, <<127>>, <<128>>, Rep(55, 7), Rep(56, 7), Rep(256, 0)}
Als == {<<>>, <<[a |-> A20, k |-> <<>>]>>, <<[a |-> Z20, k |-> <<K32, Rep(32, 0)>>], [a |-> A20, k |-> <<K32>>]>>}
Cids == {<<>>, <<1>>, <<5>>, <<128>>, <<1, 0, 0, 0>>}
Sigs == { [v |-> 0, r |-> Rep(32, 17), s |-> <<0, 0>> \o Rep(30, 9)],
          [v |-> 1, r |-> Rep(31, 0) \o <<1>>, s |-> Rep(32, 255)] }
ISigs == { [v |-> 0, r |-> <<0>> \o Rep(64, 3), s |-> <<>>],
           [v |-> 1, r |-> <<0>>, s |-> Rep(64, 3)],
           [v |-> 0, r |-> Rep(40, 0), s |-> Rep(33, 0)] }

Base == [ty |-> 0, nonce |-> <<3>>, tip |-> <<>>, price |-> <<9>>, limit |-> <<82, 8>>, to |-> A20, value |-> <<5>>,
         data |-> <<>>, al |-> <<>>, hasCid |-> TRUE, cid |-> <<5>>, v |-> 0, r |-> Rep(32, 17), s |-> Rep(32, 18)]
Fix(t) == IF t.ty = 0 THEN [t EXCEPT !.tip = <<>>, !.al = <<>>, !.cid = IF t.hasCid THEN @ ELSE <<>>]
          ELSE IF t.ty = 1 THEN [t EXCEPT !.tip = <<>>, !.hasCid = TRUE] ELSE [t EXCEPT !.hasCid = TRUE]

\* one or two fields away from the base, for every type and signature kind
Bases == { Fix([Base EXCEPT !.ty = y, !.hasCid = h, !.v = g.v, !.r = g.r, !.s = g.s]) :
             y \in 0..2, h \in BOOLEAN, g \in Sigs \cup ISigs }
Vary1(t) == { Fix([t EXCEPT !.nonce = x]) : x \in Uints } \cup { Fix([t EXCEPT !.price = x]) : x \in Uints }
       \cup { Fix([t EXCEPT !.limit = x]) : x \in Uints } \cup { Fix([t EXCEPT !.tip = x]) : x \in Uints }
       \cup { Fix([t EXCEPT !.value = x]) : x \in Values } \cup { Fix([t EXCEPT !.to = x, !.data = d]) : x \in Tos, d \in Datas }
       \cup { Fix([t EXCEPT !.al = x, !.data = d]) : x \in Als, d \in Datas } \cup { Fix([t EXCEPT !.cid = x]) : x \in Cids }
Cases == Bases \cup UNION { Vary1(t) : t \in Bases }

VARIABLES T, phase
Init == T \in Cases /\ phase = "case"
Next == phase = "case" /\ phase' = "done" /\ T' = T

RoundTrip == LET d == Decode(Encode(T)) IN d.ok /\ d.t = T
StrictAt(b) == LET d == Decode(b) IN d.ok => Encode(d.t) = b
MutateAt == {1, 2, 3, 4, 5, 6, 12}
Strict == LET b == Encode(T) L == Len(b) IN
          /\ ~Decode(SubSeq(b, 1, L - 1)).ok
          /\ ~Decode(Append(b, 0)).ok /\ ~Decode(b \o <<128>>).ok
          /\ \A p \in {q \in MutateAt : q <= L} \cup {L - 1, L} :
               \A x \in {0, 1, 27, 28, 128, 129, 148, 183, 184, 192, 247, 248} : StrictAt([b EXCEPT ![p] = x])
\* the unsigned content determines the signed bytes and vice versa
Content(t) == <<t.ty, t.nonce, t.tip, t.price, t.limit, t.to, t.value, t.data, t.al, t.hasCid, t.cid>>
SigningInjective ==
   LET sb == SigningBytes(T) IN
   \A m \in Vary1(T) : (SigningBytes(m) = sb) <=> (Content(m) = Content(T))
Inv == phase = "done" => RoundTrip /\ Strict /\ SigningInjective

\* the cases handed to the implementation: content and the bytes to sign
Emit == phase = "done" => PrintT("@@GEN " \o ToJson([t |-> T, sb |-> SigningBytes(T)]))
=============================================================================
