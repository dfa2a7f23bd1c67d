----------------------------- MODULE MC_Commit ------------------------------
(* Over an injective symbolic digest (the identity with a mark): roots      *)
(* commit to every element and its place, proofs show exactly what is there *)
EXTENDS Commit, Json

T == 0
MarkedD(T_, b) == <<77>> \o b
\* values short enough to be inlined in their parent, and long enough not to be
V == {<<1>>, <<200, 3>>, [i \in 1..33 |-> i]}
Lists == UNION {[1..n -> V] : n \in 0..3} \cup {[i \in 1..n |-> IF i = k THEN <<9>> ELSE <<1, 1>>] : n \in {4, 16, 17, 20}, k \in {1, 2, 4, 16, 17}}
VARIABLES xs, done
Init == xs \in Lists /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED xs
SmallLists == UNION {[1..n -> V] : n \in 0..3}
Roots == done => \A ys \in SmallLists : (TrieRoot(T, xs) = TrieRoot(T, ys)) <=> (xs = ys)
Range(s) == {s[i] : i \in 1..Len(s)}
Proofs == done => \A i \in 0..Len(xs) : LET nodes == Range(ProofOf(T, xs, i)) IN
   /\ Shows(T, TrieRoot(T, xs), nodes, i) = IF i < Len(xs) THEN [r |-> "value", v |-> xs[i + 1]] ELSE [r |-> "absent"]
   \* and never a wrong value for another key
   /\ \A j \in 0..Len(xs) : LET w == Shows(T, TrieRoot(T, xs), nodes, j) IN
        w.r = "value" => j < Len(xs) /\ w.v = xs[j + 1]
Binary == done => (Len(xs) > 0 =>
   \A i \in 0..Len(xs) - 1 : /\ BinFold(T, xs[i + 1], BinProof(T, xs, i)) = BinRoot(T, xs)
                             /\ \A v \in V : v # xs[i + 1] => BinFold(T, v, BinProof(T, xs, i)) # BinRoot(T, xs))
Emit == TRUE
=============================================================================
