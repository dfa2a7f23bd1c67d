---------------------------- MODULE MC_TextForms ----------------------------
EXTENDS TextForms, Json

Ch == {48, 120, 88, 49, 97, 70, 103, 43, 32, 233}      \* 0 x X 1 a F g + space e-acute
Strs(n) == [1..n -> Ch]
Short == {<<>>} \cup UNION {Strs(n) : n \in 1..3}
\* what may follow a prefix, prefixed
Prefixed == {p \o x : p \in {OX, <<48, 88>>, OX \o OX, <<120>>}, x \in {<<>>} \cup UNION {Strs(n) : n \in 1..3}}
Rep(n, x) == [i \in 1..n |-> x]
Addr == [i \in 1..40 |-> IF i % 3 = 0 THEN 97 ELSE IF i % 7 = 0 THEN 102 ELSE 48 + (i % 10)]
Muts(base) == {base, Tail(base), Append(base, 49), <<48>> \o base, OX \o base, <<32>> \o base, Append(base, 10)}
    \cup {[base EXCEPT ![i] = c] : i \in {1, 20, Len(base)}, c \in {103, 43, 65, 233, 120}}
    \cup {SubSeq(base, 1, Len(base) - 2), base \o base, [i \in 1..Len(base) |-> Lower(base[i])], [i \in 1..Len(base) |-> IF IsLow(base[i]) THEN base[i] - 32 ELSE base[i]]}
Addrs == {p \o m : p \in {OX, <<>>, <<48, 88>>, OX \o OX, OX \o <<48, 88>>}, m \in Muts(Addr)}
Keys == {p \o m : p \in {OX, <<>>, <<48, 88>>, OX \o OX}, m \in Muts(Rep(64, 55))}
Longs == {OX \o Rep(n, c) : n \in {15, 16, 17, 40, 62, 63, 64, 65, 66, 80, 100, 130}, c \in {48, 49, 102, 233}}
    \cup {OX \o Rep(n, 48) \o <<49>> : n \in {1, 2, 15, 16, 17, 31, 63, 64, 70}}
    \cup {OX \o <<49>> \o Rep(n, 48) : n \in {1, 7, 8, 9, 15, 16, 17, 63, 64}}
    \cup {OX \o Rep(n, 102) : n \in {7, 8, 9}}
VARIABLES kind, s, done
Init == /\ done = FALSE
        /\ \/ kind = "hex" /\ s \in Short \cup Prefixed \cup Longs
           \/ kind = "address" /\ s \in Addrs \cup Longs
           \/ kind = "key" /\ s \in Keys \cup Longs \cup Addrs
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<kind, s>>
\* what is accepted prints back as an equal value, and its canonical text is accepted
RoundTrip == done =>
  /\ LET p == ParseHex(s) IN p # Refused => ParseHex(PrintHex(p.b)) = p
  /\ \A w \in {4, 8} : LET p == ParseUint(s, w) IN p # Refused => ParseUint(PrintUint(p.n), w) = p
  /\ LET p == ParseAddress(s) IN p # Refused => Len(p.b) = 20
  /\ \A d \in {Rep(20, 0), Rep(20, 255), [i \in 1..20 |-> (i * 37) % 256]} :
       LET p == ParseChecked(s, d) IN p # Refused => PrintAddress(p.b, d) = s
\* a text in one form is never read differently in another
Agree == done => LET p == ParseHex(s) IN /\ p # Refused => ParseLoose(s) = p
                                         /\ (ParseAddress(s) # Refused /\ p # Refused) => ParseAddress(s) = p
Emit == done => PrintT("@@GEN " \o ToJson([kind |-> kind, s |-> s]))
=============================================================================
