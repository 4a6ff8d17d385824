-------------------------------- MODULE Wide --------------------------------
(* Natural numbers below 2^64 as eight bytes, least significant first.       *)
EXTENDS Bytes

WZero == <<0, 0, 0, 0, 0, 0, 0, 0>>

RECURSIVE Carry(_, _, _)
Carry(cols, i, c) == \* digits of a sum of columns
    IF i > 8 THEN <<>>
    ELSE LET v == cols[i] + c IN <<v % 256>> \o Carry(cols, i + 1, v \div 256)

WOf(n) == Carry(<<n % 65536, 0, n \div 65536, 0, 0, 0, 0, 0>>, 1, 0)   \* n < 2^31
WAdd(x, y) == Carry([i \in 1..8 |-> x[i] + y[i]], 1, 0)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
WMul(x, y) == Carry([i \in 1..8 |-> SumTo([j \in 1..i |-> x[j] * y[i + 1 - j]], i)], 1, 0)

RECURSIVE WLessAt(_, _, _)
WLessAt(x, y, i) == IF i = 0 THEN FALSE
                    ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE WLessAt(x, y, i - 1)
WLess(x, y) == WLessAt(x, y, 8)
WLeq(x, y) == ~WLess(y, x)

\* x - y, where y <= x
RECURSIVE Borrow(_, _, _, _)
Borrow(x, y, i, c) == IF i > 8 THEN <<>>
                      ELSE LET v == x[i] - y[i] - c
                           IN IF v < 0 THEN <<v + 256>> \o Borrow(x, y, i + 1, 1) ELSE <<v>> \o Borrow(x, y, i + 1, 0)
WSub(x, y) == Borrow(x, y, 1, 0)

\* n bytes of b from position p on, as a wide number
WAt(b, p, n) == [i \in 1..8 |-> IF i <= n THEN b[p + i - 1] ELSE 0]

\* a numeral (digit string)
RECURSIVE WNum(_, _)
WNum(d, acc) == IF d = <<>> THEN acc
                ELSE WNum(Tail(d), WAdd(WMul(acc, WOf(10)), WOf(d[1] - 48)))
=============================================================================
