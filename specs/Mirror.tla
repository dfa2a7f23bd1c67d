------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* What the chain mirrors of CKB: headers, and the cells of the blocks     *)
(* that the relayers report.  Both change by whole calls: a call that      *)
(* fails in any of its parts has changed nothing.                          *)
(*   s.hdr[h]   which content header h has, 0 when there is none           *)
(*   s.cell[p]  [v |-> content (0: none), made |-> number, used |-> number *)
(*               or -1]                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NoCell == [v |-> 0, made |-> -1, used |-> -1]
NewMirror(nh, nc) == [hdr |-> [h \in 1..nh |-> 0], cell |-> [p \in 1..nc |-> NoCell]]
Done(s) == [ok |-> TRUE, s |-> s]
Failed(s) == [ok |-> FALSE, s |-> s]

\* headers: later entries of one call overwrite earlier ones
RECURSIVE AddHeaders(_, _)
AddHeaders(hdr, l) == IF l = <<>> THEN hdr ELSE AddHeaders([hdr EXCEPT ![l[1].h] = l[1].v], Tail(l))
HeadersUpdate(s, l) == Done([s EXCEPT !.hdr = AddHeaders(s.hdr, l)])
\* a header can be rolled back once, and only when it is there
HeadersRollback(s, l) ==
  IF (\A i \in 1..Len(l) : s.hdr[l[i]] # 0) /\ (\A i, j \in 1..Len(l) : l[i] = l[j] => i = j)
  THEN Done([s EXCEPT !.hdr = [h \in DOMAIN s.hdr |-> IF \E i \in 1..Len(l) : l[i] = h THEN 0 ELSE s.hdr[h]]])
  ELSE Failed(s)

\* one CKB block: what it makes is there before what it uses is marked, as a
\* block may use what it makes; inputs that are not mirrored do not matter
RECURSIVE Make(_, _, _)
Make(cell, l, n) == IF l = <<>> THEN cell ELSE Make([cell EXCEPT ![l[1].p] = [v |-> l[1].v, made |-> n, used |-> -1]], Tail(l), n)
Mark(cell, l, n) == [p \in DOMAIN cell |-> IF cell[p].v # 0 /\ \E i \in 1..Len(l) : l[i] = p THEN [cell[p] EXCEPT !.used = n] ELSE cell[p]]
RECURSIVE AddBlocks(_, _)
AddBlocks(cell, bs) == IF bs = <<>> THEN cell ELSE AddBlocks(Mark(Make(cell, bs[1].outs, bs[1].n), bs[1].ins, bs[1].n), Tail(bs))
CellsUpdate(s, bs) == Done([s EXCEPT !.cell = AddBlocks(s.cell, bs)])
\* back out of blocks, in the order given
RECURSIVE DropBlocks(_, _)
DropBlocks(r, bs) ==
  IF bs = <<>> \/ ~r.ok THEN r
  ELSE LET b == bs[1]
           there == (\A i \in 1..Len(b.outs) : r.cell[b.outs[i]].v # 0) /\ (\A i, j \in 1..Len(b.outs) : b.outs[i] = b.outs[j] => i = j)
           left == [p \in DOMAIN r.cell |-> IF \E i \in 1..Len(b.outs) : b.outs[i] = p THEN NoCell ELSE r.cell[p]]
       IN DropBlocks([ok |-> there, cell |-> IF there THEN Mark(left, b.ins, -1) ELSE r.cell], Tail(bs))
CellsRollback(s, bs) ==
  LET r == DropBlocks([ok |-> TRUE, cell |-> s.cell], bs) IN IF r.ok THEN Done([s EXCEPT !.cell = r.cell]) ELSE Failed(s)

Call(s, t) ==
  CASE t.k = "hup" -> HeadersUpdate(s, t.l)
    [] t.k = "hrb" -> HeadersRollback(s, t.l)
    [] t.k = "cup" -> CellsUpdate(s, t.l)
    [] t.k = "crb" -> CellsRollback(s, t.l)
    [] t.k = "flag" -> Done(s)
    [] t.k = "junk" -> Failed(s)
    [] t.k = "ask" -> Done(s)
Empty(s) == (\A h \in DOMAIN s.hdr : s.hdr[h] = 0) /\ (\A p \in DOMAIN s.cell : s.cell[p].v = 0)
=============================================================================
