----------------------------- MODULE NpyFormat -----------------------------
(***************************************************************************)
(* The NPY file format: an encoder for arrays and a decoder for arbitrary  *)
(* byte strings.  The decoder gives one of four verdicts:                  *)
(*   "ok"    the bytes are an NPY image; the array is determined           *)
(*   "rej"   the bytes are not an NPY image: loading must fail             *)
(*   "gray"  the format does not clearly allow it, but there is only one   *)
(*           sensible reading: loading may fail or yield that reading      *)
(*   "any"   no opinion (loading must still not crash)                     *)
(*                                                                         *)
(* An array is a record                                                    *)
(*   [t: type name, f: 0/1, sh: sequence of numerals, el: elements]        *)
(* Numerals are digit strings (sequences of bytes).  An element of a       *)
(* number type is its bytes, most significant first (complex: real part,   *)
(* then imaginary part); an element of type "U" is its code points.        *)
(***************************************************************************)
EXTENDS Bytes

Types == {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8",
          "f4", "f8", "c8", "c16", "b1", "U"}

TypeSize == [t \in Types \ {"U"} |->
    CASE t \in {"i1", "u1", "b1"} -> 1
      [] t \in {"i2", "u2"} -> 2
      [] t \in {"i4", "u4", "f4"} -> 4
      [] t \in {"i8", "u8", "f8", "c8"} -> 8
      [] t = "c16" -> 16]

OneByte == {"i1", "u1", "b1"}
Complex == {"c8", "c16"}

TypeBytes == [t \in Types |-> B(t)]   \* "i4" etc.

\* Byte orders: "L" and "B".  The machine is little-endian: "N" means "L".
Native == "L"
Order(en) == IF en \in {"N", "D"} THEN Native ELSE en

\* NPY type code
DescrOf(t, en, w) ==
    IF t = "U" THEN <<IF Order(en) = "B" THEN 62 ELSE 60, 85>> \o Dec(w)
    ELSE IF t \in OneByte THEN <<124>> \o TypeBytes[t]
    ELSE <<IF Order(en) = "B" THEN 62 ELSE 60>> \o TypeBytes[t]

\* Strings lose NULs at their end; the width is that of the longest string as given.
Width(el) == MaxOf({Len(el[i]) : i \in 1..Len(el)})

RECURSIVE TrimNul(_)
TrimNul(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN TrimNul(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* What a round trip makes of an array.
Canonical(a) == IF a.t = "U" THEN [a EXCEPT !.el = [i \in 1..Len(a.el) |-> TrimNul(a.el[i])]]
                ELSE a

---------------------------------------------------------------------------
(* Encoder *)

Magic == <<147, 78, 85, 77, 80, 89>>

RECURSIVE JoinDims(_)
JoinDims(sh) == IF sh = <<>> THEN <<>>
                ELSE IF Len(sh) = 1 THEN sh[1]
                ELSE Flatten([i \in 1..(2 * Len(sh) - 1) |->
                        IF i % 2 = 1 THEN sh[(i + 1) \div 2] ELSE <<Comma, Space>>])

TupleText(sh) == <<LParen>> \o JoinDims(sh) \o (IF Len(sh) = 1 THEN <<Comma>> ELSE <<>>) \o <<RParen>>

P1 == B("{'descr': '")
P2T == B("', 'fortran_order': True, 'shape': ")
P2F == B("', 'fortran_order': False, 'shape': ")
P3 == B(", }")

DictText(descr, f, sh) ==
    P1 \o descr \o (IF f = 1 THEN P2T ELSE P2F) \o TupleText(sh) \o P3

RoundUp64(n) == ((n + 63) \div 64) * 64

\* The header, or <<>> if the format (version 1.0) cannot represent it.
HeaderOf(descr, f, sh) ==
    LET dict == DictText(descr, f, sh)
        total == RoundUp64(10 + Len(dict) + 1)
        hlen == total - 10
    IN  IF hlen > 65535 THEN <<>>
        ELSE Magic \o <<1, 0, hlen % 256, hlen \div 256>> \o dict
             \o Repeat(Space, hlen - Len(dict) - 1) \o <<Newline>>

\* 32-bit code units; those above 2^31 appear as negative numbers.
Word(c) == <<(c \div 16777216) % 256, (c \div 65536) % 256, (c \div 256) % 256, c % 256>>

ElBytes(t, en, w, e) ==
    IF t = "U"
    THEN Flatten([i \in 1..w |->
            LET c == IF i <= Len(e) THEN Word(e[i]) ELSE <<0, 0, 0, 0>>
            IN IF Order(en) = "B" THEN c ELSE Rev(c)])
    ELSE IF Order(en) = "B" THEN e
    ELSE IF t \in Complex
         THEN LET h == Len(e) \div 2
              IN Rev(SubSeq(e, 1, h)) \o Rev(SubSeq(e, h + 1, 2 * h))
         ELSE Rev(e)

DataOf(a, en) ==
    LET w == IF a.t = "U" THEN Width(a.el) ELSE 0
    IN Flatten([i \in 1..Len(a.el) |-> ElBytes(a.t, en, w, a.el[i])])

\* The NPY image of an array, or <<>> if there is none.
Encode(a, en) ==
    LET w == IF a.t = "U" THEN Width(a.el) ELSE 0
        h == HeaderOf(DescrOf(a.t, en, w), a.f, a.sh)
    IN  IF h = <<>> THEN <<>> ELSE h \o DataOf(a, en)

---------------------------------------------------------------------------
(* Decoder *)

StrictWs == {32, 9, 10, 13}
SoftWs == {11, 12}
AnyWs == StrictWs \cup SoftWs

RECURSIVE Ws(_, _)
Ws(b, p) == IF p <= Len(b) /\ b[p] \in AnyWs THEN Ws(b, p + 1) ELSE p

At(b, p) == IF p >= 1 /\ p <= Len(b) THEN b[p] ELSE -1

\* The first position >= p holding byte c, or 0.
RECURSIVE Find(_, _, _)
Find(b, p, c) == IF p > Len(b) THEN 0 ELSE IF b[p] = c THEN p ELSE Find(b, p + 1, c)

\* A quoted string starting at p: [ok, p: behind it, s: contents, g: not in single quotes]
ReadStr(b, p) ==
    LET q == At(b, p)
    IN  IF q \notin {Quote, DQuote} THEN [ok |-> FALSE, p |-> p, s |-> <<>>, g |-> FALSE]
        ELSE LET e == Find(b, p + 1, q)
             IN IF e = 0 THEN [ok |-> FALSE, p |-> p, s |-> <<>>, g |-> FALSE]
                ELSE [ok |-> TRUE, p |-> e + 1, s |-> SubSeq(b, p + 1, e - 1), g |-> q = DQuote]

\* Type codes: the mapping is one-to-one, so there is one spelling of each.
StrictCodes == [c \in {DescrOf(t, en, 0) : t \in Types \ {"U"}, en \in {"L", "B"}} |->
    CHOOSE x \in {<<t, e>> : t \in Types \ {"U"}, e \in {"N", "L", "B"}} :
        /\ (x[2] = "N") <=> (x[1] \in OneByte)
        /\ DescrOf(x[1], x[2], 0) = c]

AllDigits(s) == \A i \in 1..Len(s) : s[i] \in Digits

\* [ok, g, t, en, w]
NoDescr == [ok |-> FALSE, g |-> FALSE, t |-> "?", en |-> "?", w |-> <<48>>]
TypeNames == [s \in {TypeBytes[t] : t \in Types \ {"U"}} |-> CHOOSE t \in Types \ {"U"} : TypeBytes[t] = s]
ReadDescr(s) ==
    IF s \in DOMAIN StrictCodes
    THEN [ok |-> TRUE, g |-> FALSE, t |-> StrictCodes[s][1], en |-> StrictCodes[s][2], w |-> <<48>>]
    ELSE IF Len(s) >= 2 /\ s[1] \in {60, 62} /\ s[2] = 85 /\ AllDigits(SubSeq(s, 3, Len(s)))
    THEN LET ds == SubSeq(s, 3, Len(s))
             num == IF ds = <<>> THEN <<48>> ELSE StripZeros(ds)
         IN [ok |-> TRUE, g |-> ds # num \/ Len(num) > 9,
             t |-> "U", en |-> IF s[1] = 62 THEN "B" ELSE "L", w |-> num]
    ELSE NoDescr

Max64 == B("18446744073709551615")

\* The inside of a tuple of dimensions: s without the parentheses.
\* st: "first" a dimension or the end may follow, "num" a comma or the end may
\* follow, "comma" a dimension or the end may follow.
RECURSIVE DigitRun(_, _)
DigitRun(s, p) == IF p <= Len(s) /\ s[p] \in Digits THEN DigitRun(s, p + 1) ELSE p

RECURSIVE ReadDims(_, _, _, _)
ReadDims(s, p0, st, acc) ==
    LET p == Ws(s, p0)
        bad == [ok |-> FALSE, g |-> FALSE, sh |-> <<>>]
    IN  IF p > Len(s)
        THEN [ok |-> TRUE, g |-> acc.g \/ (st = "num" /\ Len(acc.sh) = 1), sh |-> acc.sh]
        ELSE IF st = "num"
             THEN IF s[p] = Comma THEN ReadDims(s, p + 1, "comma", acc)
                  ELSE IF s[p] \in {76, 108} /\ p0 = p   \* 3L, from Python 2
                  THEN ReadDims(s, p + 1, "num", [acc EXCEPT !.g = TRUE])
                  ELSE bad
             ELSE IF s[p] \in Digits
                  THEN LET e == DigitRun(s, p)
                           raw == SubSeq(s, p, e - 1)
                           num == StripZeros(raw)
                       IN IF ~NumLeq(num, Max64) THEN bad
                          ELSE ReadDims(s, e, "num",
                                   [sh |-> Append(acc.sh, num), g |-> acc.g \/ raw # num])
                  ELSE bad

\* Dictionary entries from p on, behind "{" or a comma.
EmptyDict == [descr |-> NoDescr, f |-> 2, sh |-> <<>>, hs |-> FALSE, g |-> FALSE, a |-> FALSE]

KDescr == B("descr")
KOrder == B("fortran_order")
KShape == B("shape")
LTrue == B("True")
LFalse == B("False")

DictBad == [ok |-> FALSE, p |-> 0, d |-> EmptyDict]

RECURSIVE ReadEntries(_, _, _)
ReadEntries(b, p0, d) ==
    LET p == Ws(b, p0)
    IN  IF At(b, p) = RBrace THEN [ok |-> TRUE, p |-> p + 1, d |-> d]
        ELSE
        LET k == ReadStr(b, p)
            c == Ws(b, k.p)
            v == Ws(b, c + 1)
        IN  IF ~k.ok \/ At(b, c) # Colon THEN DictBad
            ELSE
            LET \* the value: [ok, p, d]
                r == IF k.s = KDescr
                     THEN LET x == ReadStr(b, v)
                              t == ReadDescr(x.s)
                          IN IF ~x.ok \/ ~t.ok THEN DictBad
                             ELSE [ok |-> TRUE, p |-> x.p,
                                   d |-> [d EXCEPT !.descr = t, !.g = d.g \/ t.g \/ x.g,
                                                   !.a = d.a \/ d.descr.ok]]
                     ELSE IF k.s = KOrder
                     THEN IF IsPrefixAt(b, v, LTrue)
                          THEN [ok |-> TRUE, p |-> v + 4, d |-> [d EXCEPT !.f = 1, !.a = d.a \/ d.f # 2]]
                          ELSE IF IsPrefixAt(b, v, LFalse)
                          THEN [ok |-> TRUE, p |-> v + 5, d |-> [d EXCEPT !.f = 0, !.a = d.a \/ d.f # 2]]
                          ELSE DictBad
                     ELSE IF k.s = KShape
                     THEN IF At(b, v) # LParen \/ Find(b, v, RParen) = 0 THEN DictBad
                          ELSE LET e == Find(b, v, RParen)
                                   s == ReadDims(SubSeq(b, v + 1, e - 1), 1, "first",
                                                 [sh |-> <<>>, g |-> FALSE])
                               IN IF ~s.ok THEN DictBad
                                  ELSE [ok |-> TRUE, p |-> e + 1,
                                        d |-> [d EXCEPT !.sh = s.sh, !.hs = TRUE,
                                                        !.g = d.g \/ s.g, !.a = d.a \/ d.hs]]
                     ELSE DictBad
                n == Ws(b, r.p)
                d2 == [r.d EXCEPT !.g = @ \/ k.g]
            IN  IF ~r.ok THEN DictBad
                ELSE IF At(b, n) = Comma THEN ReadEntries(b, n + 1, d2)
                ELSE IF At(b, n) = RBrace THEN [ok |-> TRUE, p |-> n + 1, d |-> [d2 EXCEPT !.g = TRUE]]
                ELSE DictBad

\* The dictionary part of a header: [v, t, en, f, sh, w]
NoHead(v) == [v |-> v, t |-> "?", en |-> "?", f |-> 0, sh |-> <<>>, w |-> <<48>>]
ParseDict(b) ==
    LET p == Ws(b, 1)
        r == IF At(b, p) = LBrace THEN ReadEntries(b, p + 1, EmptyDict) ELSE DictBad
        clean == /\ p = 1
                 /\ Len(b) >= r.p /\ b[Len(b)] = Newline
                 /\ \A i \in r.p..(Len(b) - 1) : b[i] \in {Space, 9, 10, 13}
                 /\ \A i \in 1..Len(b) : b[i] \notin SoftWs
    IN  IF ~r.ok \/ ~r.d.descr.ok \/ r.d.f = 2 \/ ~r.d.hs
        THEN \* a backslash might make an unreadable dictionary meaningful in Python
             IF \E i \in 1..Len(b) : b[i] = Backslash THEN NoHead("any") ELSE NoHead("rej")
        ELSE [v |-> IF r.d.a \/ (\E i \in 1..Len(b) : b[i] = Backslash) THEN "any"
                    ELSE IF r.d.g \/ ~clean THEN "gray" ELSE "ok",
              t |-> r.d.descr.t, en |-> r.d.descr.en, f |-> r.d.f, sh |-> r.d.sh,
              w |-> r.d.descr.w]

\* The header of the image which starts at position p of b:
\* [v, t, en, f, sh, w, next] where next is the position behind the header.
HeadRej == [v |-> "rej", t |-> "?", en |-> "?", f |-> 0, sh |-> <<>>, w |-> <<48>>, next |-> 0]
ParseHeader(b, p) ==
    IF Len(b) - p + 1 < 10 \/ ~IsPrefixAt(b, p, Magic) THEN HeadRej
    ELSE LET major == b[p + 6]
             minor == b[p + 7]
             pre == IF major = 1 THEN 10 ELSE 12
         IN  IF minor # 0 \/ major \notin {1, 2} \/ Len(b) - p + 1 < pre THEN HeadRej
             ELSE LET hi == IF major = 1 THEN 0 ELSE b[p + 10] + 256 * b[p + 11]
                      hlen == IF hi > 255 THEN Cap ELSE b[p + 8] + 256 * b[p + 9] + 65536 * hi
                  IN  IF Len(b) - p + 1 < pre + hlen THEN HeadRej
                      ELSE LET d == ParseDict(SubSeq(b, p + pre, p + pre + hlen - 1))
                           IN [v |-> d.v, t |-> d.t, en |-> d.en, f |-> d.f, sh |-> d.sh,
                               w |-> d.w, next |-> p + pre + hlen]

RECURSIVE Product(_)
Product(sh) == IF sh = <<>> THEN 1 ELSE MulCap(ValCap(sh[1]), Product(Tail(sh)))

ItemSize(t, w) == IF t = "U" THEN MulCap(4, ValCap(w)) ELSE TypeSize[t]

\* Element i of the data which starts at position p.
ElAt(b, p, t, en, size, i) ==
    LET raw == SubSeq(b, p + (i - 1) * size, p + i * size - 1)
    IN  IF t = "U"
        THEN TrimNul([k \in 1..(size \div 4) |->
                LET c == SubSeq(raw, 4 * k - 3, 4 * k)
                    m == IF en = "B" THEN c ELSE Rev(c)
                IN (IF m[1] >= 128 THEN m[1] - 256 ELSE m[1]) * 16777216 + m[2] * 65536 + m[3] * 256 + m[4]])
        ELSE IF en = "B" THEN raw
        ELSE IF t \in Complex
             THEN LET h == size \div 2
                  IN Rev(SubSeq(raw, 1, h)) \o Rev(SubSeq(raw, h + 1, size))
             ELSE Rev(raw)

\* The image at position p: [v, h: header, a: array, next].
\* "any" also for element counts so large that running out of memory is an
\* acceptable answer.  An array without elements may have other extents of any
\* size: where their product fits in 64 bits whatever the order (19 digits in
\* all), they are an extent like any other; beyond, they may be refused.
NoArray == [t |-> "?", f |-> 0, sh |-> <<>>, el |-> <<>>]
RECURSIVE ShapeDigits(_)
ShapeDigits(sh) == IF sh = <<>> THEN 0
                   ELSE (IF sh[1] \in {<<48>>, <<49>>} THEN 0 ELSE Len(sh[1])) + ShapeDigits(Tail(sh))
ParseWith(b, h) ==
    LET n == Product(h.sh)
            size == ItemSize(h.t, h.w)
            bytes == MulCap(n, size)
            wide == n = 0 /\ ShapeDigits(h.sh) > 19
            odd == n >= Cap
    IN  IF h.v = "rej" THEN [v |-> "rej", h |-> h, a |-> NoArray, next |-> 0]
        ELSE IF h.v = "any" THEN [v |-> "any", h |-> h, a |-> NoArray, next |-> 0]
        ELSE IF n > 0 /\ size > 0 /\ bytes > Len(b) - h.next + 1
             THEN [v |-> "rej", h |-> h, a |-> NoArray, next |-> 0]
        ELSE IF odd /\ size = 0
             THEN [v |-> "any", h |-> h, a |-> NoArray, next |-> 0]
        ELSE [v |-> IF wide THEN "gray" ELSE h.v, h |-> h,
              a |-> [t |-> h.t, f |-> h.f, sh |-> h.sh,
                     el |-> [i \in 1..n |-> ElAt(b, h.next, h.t, h.en, size, i)]],
              next |-> h.next + bytes]

Parse(b, p) == ParseWith(b, ParseHeader(b, p))
=============================================================================
