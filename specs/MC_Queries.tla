----------------------------- MODULE MC_Queries -----------------------------
EXTENDS Queries, Json
CONSTANT MAXTIP
VARIABLES s, c

\* ---- cases for the implementation ----------------------------------------------
At(t, n, k) == [t |-> t, n |-> n, k |-> k]
Tags == {At("latest", 0, "abs"), At("pending", 0, "abs"), At("earliest", 0, "abs")}
Spots(ts) == {At(t, n, "abs") : t \in ts, n \in {0, 1, 1000}} \cup {At(t, n, "back") : t \in ts, n \in {-1, 0, 1, 2, 4}}
Here == At("latest", 0, "abs")
Cases == {[m |-> m, at |-> a, to |-> Here] : m \in {"block", "count", "txat"}, a \in Tags \cup Spots({"num", "numobj", "hash", "byhash"})}
    \cup {[m |-> m, at |-> a, to |-> Here] : m \in {"bal", "nonce", "code", "slot", "call", "estimate"}, a \in Tags \cup {At("none", 0, "abs")} \cup Spots({"num", "numobj", "hash"})}
    \cup {[m |-> "proof", at |-> a, to |-> Here] : a \in Tags \cup Spots({"num", "numobj", "hash"})}
    \cup {[m |-> "axblock", at |-> a, to |-> Here] : a \in {At("latest", 0, "abs")} \cup Spots({"num", "numobj", "hash"})}
    \cup {[m |-> "logs", at |-> a, to |-> b] : a \in Tags \cup {At("none", 0, "abs")} \cup Spots({"num", "hash"}), b \in Tags \cup {At("none", 0, "abs")} \cup Spots({"num", "numobj", "hash"})}
None == [m |-> "none", at |-> Here, to |-> Here]

\* ---- the chain by itself --------------------------------------------------------
Bal(n) == [i \in 1..7 |-> ToString(n * 10 + i)]
R(op, a, b) == [op |-> op, w |-> <<a, b, 1, 1>>]
Menu == {<<>>, <<R(1, 1, 1)>>, <<R(2, 1, 2), R(0, 1, 1)>>, <<R(5, 1, 2), R(1, 2, 1)>>, <<R(1, 1, 1), R(8, 1, 2), R(5, 1, 1)>>, <<R(5, 2, 3), R(6, 1, 1)>>, <<R(7, 1, 1), R(1, 3, 3)>>}
Txs(id) == {[id |-> id, from |-> f, to |-> 11, recs |-> r] : f \in {1}, r \in Menu}
Genesis == Commit(NoChain, <<>>, Bal(0))
First == Commit(Genesis, <<[id |-> 1, from |-> 1, to |-> 0, recs |-> <<>>]>>, Bal(1))
Init == \/ s = First /\ c = None
        \/ s = Genesis /\ c \in Cases
Next == /\ c = None /\ Tip(s) < MAXTIP /\ UNCHANGED c
        /\ LET k == 10 * (Tip(s) + 1) IN
           \/ \E t \in Txs(k) : s' = Commit(s, <<t>>, Bal(Tip(s) + 1))
           \/ \E t \in Txs(k), u \in Txs(k + 1) : s' = Commit(s, <<t, u>>, Bal(Tip(s) + 1))
Emit == c # None => PrintT("@@GEN " \o ToJson(c))

\* everything that can be told about block n
Wants == {[addr |-> a, topics |-> t] : a \in {<<>>, <<11>>, <<12, 11>>, <<1>>},
            t \in {<<>>, <<[any |-> TRUE, alts |-> <<>>]>>, <<[any |-> FALSE, alts |-> <<1>>]>>, <<[any |-> FALSE, alts |-> <<2, 3>>]>>, <<[any |-> FALSE, alts |-> <<0>>], [any |-> FALSE, alts |-> <<2>>]>>}}
About(x, n) == [w |-> Block(x, n), l |-> [v \in Wants |-> BlockLogs(x, n, v)], t |-> [i \in 1..Len(Block(x, n).txs) |-> Place(x, Block(x, n).txs[i].id)]]
\* the past stays as it was
Past == [][\A n \in 0..Tip(s) : About(s, n) = About(s', n)]_s
\* a range is its blocks, every log is in the range that holds it and in no other, and once
RangeIsSum == \A v \in Wants : \A m \in 0..Tip(s) : RangeLogs(s, 0, Tip(s), v) = RangeLogs(s, 0, m, v) \o RangeLogs(s, m + 1, Tip(s), v)
Once == LET L == RangeLogs(s, 0, Tip(s), [addr |-> <<>>, topics |-> <<>>]) IN \A i, j \in 1..Len(L) : L[i] = L[j] => i = j
\* asking for less finds less: a filter with one more condition
Less == \A v \in Wants : LET L == RangeLogs(s, 0, Tip(s), v)
                             A == RangeLogs(s, 0, Tip(s), [addr |-> <<>>, topics |-> <<>>])
                         IN \A i \in 1..Len(L) : \E j \in 1..Len(A) : A[j] = L[i]
\* a transaction that failed left nothing but its nonce
FailedNothing == \A n \in 1..Tip(s) : \A i \in 1..Len(Block(s, n).txs) : Block(s, n).txs[i].st = 0 => Block(s, n).txs[i].logs = <<>>
NoncesCount == \A a \in 1..3 : World(s).nonce[a] = Cardinality({<<n, i>> \in (0..Tip(s)) \X (1..2) : i <= Len(Block(s, n).txs) /\ Block(s, n).txs[i].from = a})
=============================================================================
