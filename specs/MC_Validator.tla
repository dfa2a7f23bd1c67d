--------------------------- MODULE MC_Validator -----------------------------
(***************************************************************************)
(* The validator down to its durable writes: every sequence of commits,    *)
(* synchronizations, proposals, crashes between any two writes, restarts.  *)
(* What is on the disk must at all times be a whole chain, and the node in *)
(* memory must agree with it.                                              *)
(***************************************************************************)
EXTENDS Validator, TLC, Json
CONSTANTS N, EMIT, WRONG    \* WRONG: a fault that must be noticed ("" for none)
VARIABLES s, disk, hist
vars == <<s, disk, hist>>

\* disk: [block |-> n :> [v, on |-> the chain below it], txs, rcpts |-> numbers, proof, tip]
Empty == [block |-> <<>>, fate |-> <<>>, txs |-> {}, rcpts |-> {}, proof |-> 0, tip |-> 0]
Order(who) == IF WRONG = "order" THEN <<"proof", "block", "tip", "txs", "rcpts">>
              ELSE IF who = "commit" THEN <<"proof", "txs", "rcpts", "block", "tip">> ELSE <<"txs", "rcpts", "proof", "block", "tip">>
\* fate: which block the others agreed on for a number, once the node has begun to store it
Fate(d, n) == IF n \in DOMAIN d.fate THEN d.fate[n] ELSE 0
May(d, n, v) == Fate(d, n) \in {0, v}
Write(e, w, n, v, on, who) ==
  LET d == [e EXCEPT !.fate = [i \in (DOMAIN @) \cup {n} |-> IF i = n THEN v ELSE @[i]]] IN
  CASE w = "proof" -> [d EXCEPT !.proof = IF WRONG = "prevproof" /\ who = "sync" THEN n - 1 ELSE n]
    [] w = "txs" -> [d EXCEPT !.txs = @ \cup {n}]
    [] w = "rcpts" -> [d EXCEPT !.rcpts = @ \cup {n}]
    [] w = "block" -> [d EXCEPT !.block = [i \in (DOMAIN @) \cup {n} |-> IF i = n THEN [v |-> v, on |-> on] ELSE @[i]]]
    [] w = "tip" -> [d EXCEPT !.tip = n]
RECURSIVE Do(_, _, _, _, _, _)
Do(d, ws, n, v, on, who) == IF ws = <<>> THEN d ELSE Do(Write(d, ws[1], n, v, on, who), Tail(ws), n, v, on, who)
\* the first k writes of appending vs to the chain on
RECURSIVE Append5(_, _, _, _, _)
Append5(d, on, vs, k, who) ==
  IF vs = <<>> \/ k = 0 THEN d
  ELSE LET o == Order(who) IN
       Append5(Do(d, SubSeq(o, 1, Min(k, 5)), Len(on) + 1, vs[1], on, who), Append(on, vs[1]), Tail(vs), IF k > 5 THEN k - 5 ELSE 0, who)
Chain(d) == [i \in 1..d.tip |-> d.block[i].v]
OnDisk(d, t) == [t EXCEPT !.chain = Chain(d), !.proof = d.proof, !.left = IF d.tip + 1 \in d.txs THEN Txs(d.tip + 1, Fate(d, d.tip + 1)) ELSE {}]

Init == s = Fresh(0) /\ disk = Empty /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Room == Tip(s) < 4

Give(v) == Room /\ s' = [s EXCEPT !.pool = @ \cup Txs(Tip(s) + 1, v)] /\ UNCHANGED disk /\ Log([op |-> "give", v |-> v])
Check(v, peers) ==
  LET t == TxsOf(Tip(s) + 1, v)
      p == peers = 1 IN
  /\ Room /\ UNCHANGED disk /\ Log([op |-> "check", v |-> v, peers |-> peers])
  /\ s' = IF Approves(s, "none", 0, "right", t, p) THEN [Saved(s, t) EXCEPT !.pool = @ \cup Els(t)] ELSE s
Commit(d, v) ==
  LET n == Tip(s) + d IN
  /\ Room /\ n >= 0 /\ May(disk, Tip(s) + 1, v) /\ Log([op |-> "commit", d |-> d, v |-> v])
  /\ IF d = 1 /\ Held(s, n, v) THEN s' = Committed(s, n, v) /\ disk' = Append5(disk, s.chain, <<v>>, 5, "commit")
     ELSE IF WRONG = "turn" /\ n > 0 THEN s' = s /\ disk' = Do(disk, Order("commit"), n, v, SubSeq(s.chain, 1, Min(n - 1, Tip(s))), "commit")
     ELSE UNCHANGED <<s, disk>>
Offers == {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 1, 1, 1>>}
Bads == {<<0, "none">>, <<1, "weak">>, <<2, "prev_hash">>}
Sync(vs, b) ==
  /\ Room /\ May(disk, Tip(s) + 1, vs[1]) /\ Log([op |-> "sync", vs |-> vs, at |-> b[1], bad |-> b[2]])
  /\ \E r \in Synced(s, Tip(s) + Len(vs), vs, b[1], b[2], FALSE) :
       /\ s' = IF WRONG = "keys" THEN [r[1] EXCEPT !.keys = s.keys] ELSE r[1]
       /\ disk' = Append5(disk, s.chain, SubSeq(vs, 1, Tip(r[1]) - Tip(s)), 100, "sync")
Restart == s' = Restarted(OnDisk(disk, s)) /\ UNCHANGED disk /\ Log([op |-> "restart"])
CrashCommit(v, k) ==
  LET n == Tip(s) + 1 IN
  /\ Room /\ May(disk, n, v) /\ Held(s, n, v)
  /\ disk' = Append5(disk, s.chain, <<v>>, k, "commit")
  /\ s' = Restarted(OnDisk(disk', s))
  /\ Log([op |-> "crash", q |-> k % 5, inner |-> [op |-> "commit", d |-> 1, v |-> v]])
CrashSync(vs, k) ==
  /\ Room /\ May(disk, Tip(s) + 1, vs[1])
  /\ disk' = Append5(disk, s.chain, vs, k, "sync")
  /\ s' = Restarted(OnDisk(disk', s))
  /\ Log([op |-> "crash", q |-> k % 5, inner |-> [op |-> "sync", vs |-> vs, at |-> 0, bad |-> "none"]])
Next ==
  /\ Len(hist) < N
  /\ \/ \E v \in {1, 2} : Give(v) \/ \E p \in {0, 1} : Check(v, p)
     \/ \E v \in {1, 2}, d \in -1..2 : Commit(d, v)
     \/ \E vs \in Offers, b \in Bads : Sync(vs, b)
     \/ Restart
     \/ \E v \in {1, 2}, k \in 0..4 : CrashCommit(v, k)
     \/ \E vs \in {<<1>>, <<1, 1>>}, k \in 0..9 : CrashSync(vs, k)

\* every block up to the tip is there with all its parts, on top of the one before
Whole == /\ 1..disk.tip \subseteq DOMAIN disk.block
         /\ 1..disk.tip \subseteq disk.txs \cap disk.rcpts
         /\ \A n \in 1..disk.tip : disk.block[n].on = [i \in 1..(n - 1) |-> disk.block[i].v]
Same == Whole => s.chain = Chain(disk)
ProofFits == disk.proof \in {disk.tip, disk.tip + 1}
KeysFit == s.keys = SetAt(Tip(s) + 1)
NotTwice == s.pool \cap OnChain(s) = {}
Emit == EMIT /\ Len(hist) = N => PrintT("@@GEN " \o ToJson([fork |-> 0, ops |-> hist]))
=============================================================================
