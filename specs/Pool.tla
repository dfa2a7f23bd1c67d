-------------------------------- MODULE Pool --------------------------------
(* The transaction pool: which transactions it holds, what it packages, and *)
(* what commits, replacements and timeouts take away.                       *)
(* U: the transactions, a sequence of [from, nonce, price, gas, sys]; sys   *)
(* is 0 for an ordinary one, else the number of what it calls for.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* nonce: next nonce of each account on chain;  live: ordinary transactions held;  sys: system transactions held
\* ghost: replaced or outbid ones, which may still be asked for until the next block, and those whose nonce another
\* transaction has used, until they time out; none of them is ever packaged
\* age: for each transaction the block after which it was first seen, 0 if none yet;  old: committed
\* dim: accounts whose nonce moved without the pool having had the transaction
NewPool(nonces, U) == [nonce |-> nonces, live |-> {}, sys |-> {}, ghost |-> {}, age |-> [i \in 1..Len(U) |-> 0], old |-> {}, dim |-> {}]
Held(s) == s.live \cup s.sys
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumGas(_, _)
SumGas(U, q) == IF q = <<>> THEN 0 ELSE U[Head(q)].gas + SumGas(U, Tail(q))
ToSet(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(ToSet(q)) = Len(q)
PERSENDER == 65

\* a transaction that passed all checks goes in
Rivals(s, U, i) == {u \in s.live : U[u].from = U[i].from /\ U[u].nonce = U[i].nonce}
OfSender(s, U, a) == {u \in s.live : U[u].from = a}
Enter(s, U, i) ==
  IF U[i].sys # 0 THEN [s EXCEPT !.sys = @ \cup {i}]
  ELSE LET R == Rivals(s, U, i) t == [s EXCEPT !.ghost = @ \ {i}] IN
       IF R = {} THEN [t EXCEPT !.live = @ \cup {i}]
       ELSE IF \A u \in R : U[u].price < U[i].price THEN [t EXCEPT !.live = (@ \ R) \cup {i}, !.ghost = @ \cup R]
       ELSE [t EXCEPT !.ghost = @ \cup {i}]
\* one sender has only so many waiting
Entered(s, U, i) ==
  (IF i \in s.ghost THEN {s} ELSE {}) \cup
  {IF U[i].sys = 0 /\ Cardinality(OfSender(s, U, U[i].from)) >= PERSENDER THEN [s EXCEPT !.ghost = @ \cup {i}] ELSE Enter(s, U, i)}
Valid(s, U, i) == i \notin s.old /\ (U[i].sys # 0 \/ U[i].nonce >= s.nonce[U[i].from])
\* [out, states] of asking to take in a transaction; the pool holds at most cap
MayInsert(s, U, cap, i) ==
  IF i \in Held(s) THEN {[ok |-> TRUE, s |-> s]} \cup (IF Cardinality(Held(s) \cup s.ghost) >= cap THEN {[ok |-> FALSE, s |-> s]} ELSE {})
  ELSE (IF Valid(s, U, i) /\ Cardinality(Held(s)) < cap THEN {[ok |-> TRUE, s |-> t] : t \in Entered(s, U, i)}
        ELSE IF i \in s.ghost THEN {[ok |-> TRUE, s |-> s]} ELSE {})
       \cup (IF ~Valid(s, U, i) \/ Cardinality(Held(s) \cup s.ghost) >= cap THEN {[ok |-> FALSE, s |-> s]} ELSE {})

\* the executable ones of an account, in order of their nonces
RECURSIVE Run(_, _, _, _)
Run(s, U, a, n) == LET c == {i \in s.live : U[i].from = a /\ U[i].nonce = n} IN
  IF c = {} THEN <<>> ELSE <<CHOOSE i \in c : TRUE>> \o Run(s, U, a, n + 1)
Runs(s, U) == [a \in DOMAIN s.nonce |-> Run(s, U, a, s.nonce[a])]
Classes(s, U) == {U[i].sys : i \in s.sys}
Of(U, q, a) == SelectSeq(q, LAMBDA i : U[i].from = a)
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
RECURSIVE TotalLen(_, _)
TotalLen(R, A) == IF A = {} THEN 0 ELSE LET a == CHOOSE x \in A : TRUE IN Len(R[a]) + TotalLen(R, A \ {a})
\* out: the listed transactions, the first k of them system ones
PackageOK(s, U, limit, gas, out, k) ==
  LET sy == SubSeq(out, 1, k) rest == SubSeq(out, k + 1, Len(out)) R == Runs(s, U)
      A == DOMAIN s.nonce sure == A \ s.dim IN
  /\ k <= Len(out) /\ NoDup(out)
  /\ ToSet(sy) \subseteq s.sys /\ {U[i].sys : i \in ToSet(sy)} = Classes(s, U) /\ k = Cardinality(Classes(s, U))
  /\ ToSet(rest) \subseteq s.live
  /\ Len(rest) <= limit
  /\ SumGas(U, rest) <= gas
  /\ \A a \in A : IsPrefix(Of(U, rest, a), R[a])
  \* nothing executable is held back
  /\ \/ Len(rest) = limit
     \/ \A a \in sure : Of(U, rest, a) = R[a]
     \/ \E a \in A : LET p == Of(U, rest, a) IN Len(p) < Len(R[a]) /\ SumGas(U, rest) + U[R[a][Len(p) + 1]].gas > gas

\* block h was committed with these transactions; nonces: what they are now
Flush(s, U, C, nonces, h, T) ==
  LET known == {i \in C : i \in s.live \cup s.ghost}
      tip(a) == {U[i].nonce : i \in {j \in known : U[j].from = a}}
      passed(i) == tip(U[i].from) # {} /\ U[i].nonce <= MaxSet(tip(U[i].from))
      late(i) == s.age[i] # 0 /\ s.age[i] + T <= h
      rest == {i \in s.live \cup s.ghost : i \notin C /\ ~passed(i) /\ ~late(i)}
      dead == {i \in rest : U[i].nonce < nonces[U[i].from]}
      stay == (rest \ dead) \cap s.live
      gone == {U[i].sys : i \in C \cap s.sys}
      moved == {a \in DOMAIN nonces : nonces[a] # s.nonce[a] /\ ~(\E i \in known : U[i].from = a /\ U[i].nonce = nonces[a] - 1)}
  IN [s EXCEPT !.live = stay, !.ghost = dead, !.sys = {i \in @ : U[i].sys \notin gone},
               !.age = [i \in DOMAIN @ |-> IF i \in stay \cup dead THEN (IF @[i] = 0 THEN h ELSE @[i]) ELSE 0],
               !.old = @ \cup C, !.nonce = nonces,
               !.dim = (@ \ {U[i].from : i \in known}) \cup moved]

RECURSIVE EnterAll(_, _, _)
EnterAll(S, U, q) == IF q = <<>> THEN S ELSE EnterAll(UNION {Entered(x, U, Head(q)) : x \in S}, U, Tail(q))
\* a proposal names its transactions; asked: those that are not held; reply: what a peer sent, <<-1>> for nothing
MayEnsure(s, U, q, asked, reply) ==
  LET ghostly == s.ghost \cap ToSet(q)
      rest(G) == SelectSeq(q, LAMBDA i : i \notin Held(s) \cup G)
      keep(G) == [s EXCEPT !.ghost = (@ \ ghostly) \cup G] IN
  IF ~NoDup(q) THEN (IF asked = <<>> THEN {[ok |-> FALSE, s |-> s]} ELSE {})
  ELSE UNION {
    LET w == rest(G) IN
    IF asked # w THEN {}
    ELSE IF w = <<>> THEN {[ok |-> TRUE, s |-> s]}
    ELSE IF reply # <<-1>> /\ Len(reply) = Len(w) /\ ToSet(reply) = ToSet(w) /\ \A i \in ToSet(w) : Valid(s, U, i)
         THEN {[ok |-> TRUE, s |-> t] : t \in EnterAll({keep(G)}, U, reply)}
         ELSE {[ok |-> FALSE, s |-> keep(G)]}
    : G \in SUBSET ghostly}
=============================================================================
