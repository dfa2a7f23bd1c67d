----------------------------- MODULE MC_Mirror -----------------------------
(* Relayers that follow a CKB chain through reorganisations: what is        *)
(* mirrored is always what the chain they follow says.                      *)
EXTENDS Mirror, TLC, Json
CONSTANTS N, EMIT, FORGETS   \* FORGETS: a rollback that does not give inputs back
VARIABLES s, chain, hist, ok
vars == <<s, chain, hist, ok>>
P == 1..3
Out(p, v) == [p |-> p, v |-> v]
\* the cells that the chain followed has: made once, used at most once
RECURSIVE Says(_)
Says(c) == IF c = <<>> THEN [p \in P |-> NoCell]
           ELSE LET b == c[Len(c)]
                    m == Says(SubSeq(c, 1, Len(c) - 1))
                    w == [p \in P |-> IF \E i \in 1..Len(b.outs) : b.outs[i].p = p THEN [v |-> b.outs[CHOOSE i \in 1..Len(b.outs) : b.outs[i].p = p].v, made |-> b.n, used |-> -1] ELSE m[p]]
                IN [p \in P |-> IF w[p].v # 0 /\ \E i \in 1..Len(b.ins) : b.ins[i] = p THEN [w[p] EXCEPT !.used = b.n] ELSE w[p]]
\* blocks that a CKB chain may have next: fresh outputs, live inputs
Blocks == LET m == Says(chain) IN
  {b \in [n : {Len(chain) + 1}, outs : {<<>>} \cup {<<Out(p, v)>> : p \in P, v \in 1..2} \cup {<<Out(1, 1), Out(2, 2)>>}, ins : {<<>>} \cup {<<p>> : p \in P} \cup {<<1, 2>>}] :
     /\ \A i \in 1..Len(b.outs) : m[b.outs[i].p].v = 0
     /\ \A i \in 1..Len(b.ins) : (m[b.ins[i]].v # 0 /\ m[b.ins[i]].used = -1) \/ \E j \in 1..Len(b.outs) : b.outs[j].p = b.ins[i]}
Back(b) == [outs |-> [i \in 1..Len(b.outs) |-> b.outs[i].p], ins |-> IF FORGETS THEN <<>> ELSE b.ins]
Init == s = NewMirror(1, 3) /\ chain = <<>> /\ hist = <<>> /\ ok = TRUE
Move(r, c, t) == s' = r.s /\ chain' = c /\ hist' = Append(hist, t) /\ ok' = (ok /\ r.ok)
Extend == \E b \in Blocks : Move(CellsUpdate(s, <<b>>), Append(chain, b), [k |-> "cup", l |-> <<b>>])
Two == \E b \in Blocks : b.outs # <<>> /\ b.ins = <<>> /\
          LET d == [n |-> Len(chain) + 2, outs |-> <<>>, ins |-> <<b.outs[1].p>>] IN Move(CellsUpdate(s, <<b, d>>), chain \o <<b, d>>, [k |-> "cup", l |-> <<b, d>>])
\* the last j blocks are rolled back in one call, the newest first or the oldest first
Reorg == \E j \in 1..Len(chain) : \E newest \in BOOLEAN :
  LET gone == [i \in 1..j |-> Back(chain[IF newest THEN Len(chain) + 1 - i ELSE Len(chain) - j + i])]
  IN Move(CellsRollback(s, gone), SubSeq(chain, 1, Len(chain) - j), [k |-> "crb", l |-> gone])
Next == Len(hist) < N /\ (Extend \/ Two \/ Reorg)
Mirrors == ok /\ s.cell = Says(chain)
Emit == EMIT /\ Len(hist) = N => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
