------------------------------- MODULE Bytes -------------------------------
(* Byte-string helpers shared by the specification modules.  All byte strings *)
(* are sequences of 0..255; multi-octet integers are little endian.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LE16(n) == << n % 256, (n \div 256) % 256 >>
LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
Val16(b) == b[1] + 256 * b[2]
(* Signed integer to its 16 bit two's complement encoding. *)
LE16S(n) == LE16(IF n < 0 THEN n + 65536 ELSE n)

Zeros(n) == [i \in 1..n |-> 0]
Sub(b, from, len) == SubSeq(b, from, from + len - 1)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
SeqFilter(s, P(_)) == LET F(a, x) == IF P(x) THEN Append(a, x) ELSE a
                          RECURSIVE G(_, _)
                          G(i, a) == IF i > Len(s) THEN a ELSE G(i + 1, F(a, s[i]))
                      IN G(1, <<>>)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE FlatFrom(s, i + 1, acc \o s[i])
Flat(s) == FlatFrom(s, 1, <<>>)
(* The bag (multiset) of the elements of a sequence. *)
BagOf(s) == [x \in { s[i] : i \in DOMAIN s } |-> Cardinality({ i \in DOMAIN s : s[i] = x })]
(* The sequence s without its element at position i. *)
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Function without a key / restricted to a set. *)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
=============================================================================
