---------------------------- MODULE MC_Admission ----------------------------
(* Looking an account up once and remembering it must not change any answer. *)
EXTENDS Admission, Json
CONSTANTS N, EMIT, KEEPS   \* KEEPS: a pool that does not forget when a block is done
VARIABLES chain, cache, phase, hist
vars == <<chain, cache, phase, hist>>
Cfg == [vals |-> << <<9>>, <<9>> >>, end |-> 100, max |-> 100]
T(n) == [id |-> n + 10 * Len(hist), from |-> 1, to |-> "user", sig |-> "good", chain |-> "own", size |-> 1, price |-> "1", gas |-> 21000, nonce |-> n, spare |-> 0]
Init == chain = NewChain(<<0>>) /\ cache = -1 /\ phase = "idle" /\ hist = <<>>
\* what the pool answers with its memory
Says(n) == n >= (IF cache = -1 THEN chain.nonce[1] ELSE cache)
Learn == cache' = (IF cache = -1 THEN chain.nonce[1] ELSE cache)
Ask(n) == Learn /\ UNCHANGED <<chain, phase>> /\ hist' = Append(hist, [op |-> "insert", n |-> n, right |-> (Says(n) = Admissible(chain, Cfg, T(n))) \/ phase # "idle"])
\* executed and the pool flushed; then stored; then the pool told of it
Flush == phase = "idle" /\ phase' = "flushed" /\ cache' = -1 /\ hist' = Append(hist, [op |-> "flush", n |-> 0, right |-> TRUE]) /\ UNCHANGED chain
Save == phase = "flushed" /\ phase' = "idle" /\ chain' = Commit(chain, {}, <<chain.nonce[1] + 1>>, chain.h + 1)
        /\ cache' = (IF KEEPS THEN cache ELSE -1) /\ hist' = Append(hist, [op |-> "save", n |-> 0, right |-> TRUE])
Next == Len(hist) < N /\ (Flush \/ Save \/ \E n \in 0..2 : Ask(n))
Right == \A i \in 1..Len(hist) : hist[i].right
Emit == EMIT /\ Len(hist) = N => PrintT("@@GEN " \o ToJson([i \in 1..Len(hist) |-> [op |-> hist[i].op, n |-> hist[i].n]]))
=============================================================================
