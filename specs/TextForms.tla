----------------------------- MODULE TextForms ------------------------------
(* Textual forms of byte strings, numbers, addresses and keys.  A text is a *)
(* sequence of character codes.                                             *)
EXTENDS Rlp, Integers, FiniteSets, TLC

IsDigit(c) == c \in 48..57
IsLow(c) == c \in 97..102
IsUp(c) == c \in 65..70
IsHex(c) == IsDigit(c) \/ IsLow(c) \/ IsUp(c)
Val(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsLow(c) THEN c - 87 ELSE c - 55
Chr(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
AllHex(s) == \A i \in 1..Len(s) : IsHex(s[i])
OX == <<48, 120>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, n) == SubSeq(s, n + 1, Len(s))
Pairs(s) == [i \in 1..Len(s) \div 2 |-> Val(s[2*i - 1]) * 16 + Val(s[2*i])]
Digits(b) == [i \in 1..2 * Len(b) |-> Chr(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]

Refused == [error |-> TRUE]
BytesOf(s) == IF AllHex(s) /\ Len(s) % 2 = 0 THEN [b |-> Pairs(s)] ELSE Refused

\* byte strings: 0x and pairs of digits
ParseHex(s) == IF Starts(s, OX) THEN BytesOf(After(s, 2)) ELSE Refused
PrintHex(b) == OX \o Digits(b)
\* the same with the prefix left to the writer
ParseLoose(s) == IF Starts(s, OX) THEN BytesOf(After(s, 2)) ELSE BytesOf(s)
\* 256 bit keys
OXX(s) == Starts(s, OX) \/ Starts(s, <<48, 88>>)
ParseFixed(s, n) == IF OXX(s) /\ Len(s) = 2 + 2 * n THEN BytesOf(After(s, 2)) ELSE Refused

\* a secp256k1 secret is neither zero nor at or above the order of the group
Order == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>
Below(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
ParseSecret(s) == LET p == ParseFixed(s, 32) IN
  IF p = Refused \/ ~Below(p.b, Order) \/ \A i \in 1..32 : p.b[i] = 0 THEN Refused ELSE p

\* numbers up to w bytes; s has no fixed width and at least one digit
Pad1(s) == IF Len(s) % 2 = 1 THEN <<48>> \o s ELSE s
ParseUint(s, w) == IF ~Starts(s, OX) \/ Len(s) < 3 \/ ~AllHex(After(s, 2)) THEN Refused
                   ELSE LET n == StripZ(Pairs(Pad1(After(s, 2)))) IN IF Len(n) <= w THEN [n |-> n] ELSE Refused
PrintUint(n) == IF n = <<>> THEN OX \o <<48>>
                ELSE OX \o (LET d == Digits(n) IN IF d[1] = 48 THEN Tail(d) ELSE d)

\* checksummed addresses; d is the digest of the forty lower case digits
NibbleOf(d, i) == IF i % 2 = 1 THEN d[(i + 1) \div 2] \div 16 ELSE d[i \div 2] % 16
Check(low, d) == [i \in 1..Len(low) |-> IF IsLow(low[i]) /\ NibbleOf(d, i) >= 8 THEN low[i] - 32 ELSE low[i]]
PrintAddress(a, d) == OX \o Check(Digits(a), d)
ParseChecked(s, d) == LET t == After(s, 2) IN
  IF Starts(s, OX) /\ Len(s) = 42 /\ AllHex(t) /\ t = Check([i \in 1..40 |-> Lower(t[i])], d) THEN BytesOf(t) ELSE Refused
ParseAddress(s) == ParseFixed(s, 20)
=============================================================================
