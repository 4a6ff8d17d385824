------------------------------ MODULE Inflate ------------------------------
(* Decoder for DEFLATE streams (RFC 1951).                                  *)
(*   Inflate(d, from, to) decodes the bytes from..to of d                   *)
(*     = [ok, out: the contents, used: number of bytes of the stream]       *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL P2 == [i \in 0..16 |-> 2 ^ i]

\* Positions count bits from 0; bit k of the stream is bit k % 8 of a byte.
Bit(d, k) == (d[(k \div 8) + 1] \div P2[k % 8]) % 2

RECURSIVE Bits(_, _, _)
Bits(d, k, n) == IF n = 0 THEN 0 ELSE Bit(d, k) + 2 * Bits(d, k + 1, n - 1)

(* Huffman codes: lens is the sequence of code lengths, symbol i having      *)
(* length lens[i + 1].  Codes of one length are consecutive and in the order *)
(* of their symbols.                                                         *)
OfLength(lens, l) == SelectSeq([i \in 1..Len(lens) |-> i - 1], LAMBDA s : lens[s + 1] = l)
HuffCode(lens) == [syms |-> [l \in 1..15 |-> OfLength(lens, l)]]

NoSym == [sym |-> -1, k |-> 0]
RECURSIVE Decode(_, _, _, _, _, _, _)
Decode(d, end, k, code, l, c0, first) ==
    IF l > 15 \/ k >= end THEN NoSym
    ELSE LET c == c0 * 2 + Bit(d, k)
             f == first * 2
             ss == code.syms[l]
         IN  IF c - f < Len(ss) THEN [sym |-> ss[c - f + 1], k |-> k + 1]
             ELSE Decode(d, end, k + 1, code, l + 1, c, f + Len(ss))
NextSym(d, end, k, code) == Decode(d, end, k, code, 1, 0, 0)

FixedLit == HuffCode([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDist == HuffCode([i \in 1..30 |-> 5])

LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073,
              4097, 6145, 8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
ClOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>

(* The state of the decoder: k position, out contents so far, m mode        *)
(* ("block": a block header follows, "sym": a symbol, "done", "bad"), last: *)
(* in the last block, lit and dist: its codes.                              *)
InflBad(s) == [s EXCEPT !.m = "bad"]
Have(s, end, n) == s.k + n <= end

EndOfBlock(s) == [s EXCEPT !.m = IF s.last THEN "done" ELSE "block"]

StoredBlock(d, end, s) ==
    LET p == ((s.k + 7) \div 8) * 8
        n == Bits(d, p, 16)
        b == p \div 8 + 4        \* bytes before the data
    IN  IF p + 32 > end THEN InflBad(s)
        ELSE IF n + Bits(d, p + 16, 16) # 65535 \/ p + 32 + 8 * n > end THEN InflBad(s)
        ELSE EndOfBlock([s EXCEPT !.k = p + 32 + 8 * n, !.out = @ \o SubSeq(d, b + 1, b + n)])

\* One code length or a run of them.
LenStep(d, end, cl, want, x) ==
    IF x.bad \/ Len(x.lens) >= want THEN x
    ELSE LET q == NextSym(d, end, x.k, cl)
             bits == IF q.sym = 16 THEN 2 ELSE IF q.sym = 17 THEN 3 ELSE IF q.sym = 18 THEN 7 ELSE 0
             val == IF q.sym = 16 THEN (IF x.lens = <<>> THEN -1 ELSE x.lens[Len(x.lens)]) ELSE 0
         IN  IF q.sym = -1 \/ q.k + bits > end \/ (q.sym = 16 /\ x.lens = <<>>) THEN [x EXCEPT !.bad = TRUE]
             ELSE IF q.sym < 16 THEN [x EXCEPT !.k = q.k, !.lens = Append(@, q.sym)]
             ELSE LET n == (IF q.sym = 18 THEN 11 ELSE 3) + Bits(d, q.k, bits)
                  IN [x EXCEPT !.k = q.k + bits, !.lens = @ \o [i \in 1..n |-> val]]

DynamicBlock(d, end, s) ==
    IF ~Have(s, end, 14) THEN InflBad(s)
    ELSE LET nlit == Bits(d, s.k, 5) + 257
             ndist == Bits(d, s.k + 5, 5) + 1
             ncl == Bits(d, s.k + 10, 4) + 4
             k1 == s.k + 14
         IN  IF k1 + 3 * ncl > end THEN InflBad(s)
             ELSE LET clens == [i \in 1..19 |->
                              LET at == CHOOSE j \in 1..19 : ClOrder[j] = i - 1
                              IN IF at <= ncl THEN Bits(d, k1 + 3 * (at - 1), 3) ELSE 0]
                      cl == HuffCode(clens)
                      x == FoldLeft(LAMBDA acc, i : LenStep(d, end, cl, nlit + ndist, acc),
                                    [k |-> k1 + 3 * ncl, lens |-> <<>>, bad |-> FALSE],
                                    [i \in 1..(nlit + ndist) |-> i])
                  IN  IF x.bad \/ Len(x.lens) # nlit + ndist THEN InflBad(s)
                      ELSE [s EXCEPT !.k = x.k, !.m = "sym",
                                     !.lit = HuffCode(SubSeq(x.lens, 1, nlit)),
                                     !.dist = HuffCode(SubSeq(x.lens, nlit + 1, nlit + ndist))]

InflateBlock(d, end, s0) ==
    IF ~Have(s0, end, 3) THEN InflBad(s0)
    ELSE LET t == Bits(d, s0.k + 1, 2)
             s == [s0 EXCEPT !.k = @ + 3, !.last = Bit(d, s0.k) = 1]
         IN  CASE t = 0 -> StoredBlock(d, end, s)
               [] t = 1 -> [s EXCEPT !.m = "sym", !.lit = FixedLit, !.dist = FixedDist]
               [] t = 2 -> DynamicBlock(d, end, s)
               [] t = 3 -> InflBad(s)

\* Up to n literals in a row.
RECURSIVE Literals(_, _, _, _, _)
Literals(d, end, code, x, n) ==
    LET q == NextSym(d, end, x.k, code)
    IN  IF n = 0 \/ q.sym = -1 \/ q.sym > 255 THEN [x EXCEPT !.q = q]
        ELSE Literals(d, end, code, [x EXCEPT !.k = q.k, !.o = Append(@, q.sym)], n - 1)

Match(d, end, s, q) ==
    LET i == q.sym - 256
        l == LenBase[i] + Bits(d, q.k, LenExtra[i])
        q2 == NextSym(d, end, q.k + LenExtra[i], s.dist)
        j == q2.sym + 1
        dist == DistBase[j] + Bits(d, q2.k, DistExtra[j])
        n == Len(s.out)
    IN  IF i > 29 \/ q.k + 5 > end + 5 - LenExtra[i] THEN InflBad(s)
        ELSE IF q2.sym = -1 \/ q2.sym > 29 THEN InflBad(s)
        ELSE IF q2.k + DistExtra[j] > end \/ dist > n THEN InflBad(s)
        ELSE [s EXCEPT !.k = q2.k + DistExtra[j],
                       !.out = @ \o [x \in 1..l |-> s.out[n - dist + 1 + ((x - 1) % dist)]]]

Symbol(d, end, s) ==
    LET x == Literals(d, end, s.lit, [k |-> s.k, o |-> <<>>, q |-> NoSym], 200)
        t == [s EXCEPT !.k = x.k, !.out = @ \o x.o]
    IN  IF x.q.sym = -1 THEN InflBad(t)
        ELSE IF x.q.sym <= 255 THEN t
        ELSE IF x.q.sym = 256 THEN EndOfBlock([t EXCEPT !.k = x.q.k])
        ELSE Match(d, end, t, x.q)

InflateStep(d, end, s) == IF s.m = "block" THEN InflateBlock(d, end, s)
                   ELSE IF s.m = "sym" THEN Symbol(d, end, s)
                   ELSE s

\* Every step takes at least one bit: doubling the number of steps until done.
RECURSIVE InflateRun(_, _, _, _)
InflateRun(d, end, s, n) ==
    IF s.m \in {"done", "bad"} THEN s
    ELSE InflateRun(d, end, FoldLeft(LAMBDA a, i : InflateStep(d, end, a), s, [i \in 1..n |-> i]), n * 2)

Inflate(d) ==
    LET s == InflateRun(d, 8 * Len(d),
                 [k |-> 0, out |-> <<>>, m |-> "block", last |-> FALSE, lit |-> FixedLit, dist |-> FixedDist], 8)
    IN  [ok |-> s.m = "done", out |-> s.out, used |-> (s.k + 7) \div 8]
=============================================================================
