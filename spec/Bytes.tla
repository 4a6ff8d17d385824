------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as sequences over 0..255, and the ASCII vocabulary used by *)
(* the NPY header.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
              31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]

\* The bytes of an ASCII literal.
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

Space == 32
Newline == 10
Comma == 44
Colon == 58
LBrace == 123
RBrace == 125
LParen == 40
RParen == 41
Quote == 39
DQuote == 34
Backslash == 92
Digits == 48..57

IsPrefixAt(b, p, s) == \* s occurs in b at position p
    /\ p + Len(s) - 1 <= Len(b)
    /\ \A i \in 1..Len(s) : b[p + i - 1] = s[i]

Repeat(x, n) == [i \in 1..n |-> x]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE Flatten(_)
Flatten(ss) ==
    IF ss = <<>> THEN <<>>
    ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE LET m == Len(ss) \div 2
         IN  Flatten(SubSeq(ss, 1, m)) \o Flatten(SubSeq(ss, m + 1, Len(ss)))

\* Decimal digits of a natural number (as bytes).
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

\* Decimal numerals as digit strings: no leading zeros.
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d

\* Comparison of canonical numerals.
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == IF x = <<>> THEN TRUE
                ELSE IF x[1] # y[1] THEN x[1] < y[1]
                ELSE LexLeq(Tail(x), Tail(y))
NumLeq(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLeq(x, y))

\* The value of a canonical numeral, or Cap if it is larger.
Cap == 20000000
RECURSIVE ValRec(_, _)
ValRec(d, acc) == IF d = <<>> THEN acc ELSE ValRec(Tail(d), acc * 10 + (d[1] - 48))
ValCap(d) == IF Len(d) > 8 THEN Cap
             ELSE LET v == ValRec(d, 0) IN IF v > Cap THEN Cap ELSE v

MulCap(x, y) == IF x = 0 \/ y = 0 THEN 0
                ELSE IF x > Cap \div y THEN Cap ELSE x * y

\* Lexicographic order of byte strings (strict).
BytesLess(x, y) ==
    LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
        d == {i \in 1..n : x[i] # y[i]}
    IN  IF d = {} THEN Len(x) < Len(y)
        ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN x[i] < y[i]

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

HasSuffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
=============================================================================
