----------------------------- MODULE ZipFormat -----------------------------
(***************************************************************************)
(* PKZIP archives as byte strings (APPNOTE 6.3): the records, what a strict *)
(* archive is (the obligation of a writer), and what a reader has to make   *)
(* of any byte string (the obligation of a reader).  Positions count from 1,*)
(* offsets from 0.  Numbers of 2^29 and more are "Huge" here; archives of   *)
(* that size are the matter of ZipBig.                                      *)
(***************************************************************************)
EXTENDS NpyFormat, Crc32, Inflate

Huge == -1
U16(b, p) == b[p] + 256 * b[p + 1]
W32(b, p) == <<U16(b, p + 2), U16(b, p)>>             \* <<hi, lo>>
IntOf(w) == IF w[1] >= 8192 THEN Huge ELSE w[1] * 65536 + w[2]
U32(b, p) == IntOf(W32(b, p))
U64(b, p) == IF W32(b, p + 4) = <<0, 0>> THEN U32(b, p) ELSE Huge

Le16(n) == <<n % 256, n \div 256>>
Le32(n) == Le16(n % 65536) \o Le16(n \div 65536)
LeW(w) == Le16(w[2]) \o Le16(w[1])
Le64(n) == Le32(n) \o <<0, 0, 0, 0>>

SigLocal == <<80, 75, 3, 4>>
SigDir == <<80, 75, 1, 2>>
SigEnd == <<80, 75, 5, 6>>
SigEnd64 == <<80, 75, 6, 6>>
SigLocator == <<80, 75, 6, 7>>
Placeholder == <<65535, 65535>>
MaxVersion == 45

\* Does b hold n bytes from position p on?
Holds(b, p, n) == p >= 1 /\ n >= 0 /\ n <= Len(b) /\ p <= Len(b) - n + 1

---------------------------------------------------------------------------
(* Extra fields: a sequence of [tag, at: position of its data, n: length]   *)
RECURSIVE ExtraFields(_, _, _)
ExtraFields(b, p, end) ==
    IF p = end THEN <<>>
    ELSE IF p + 4 > end THEN <<[tag |-> -1, at |-> p, n |-> end - p]>>
    ELSE LET n == U16(b, p + 2)
         IN IF p + 4 + n > end THEN <<[tag |-> -1, at |-> p, n |-> end - p]>>
            ELSE <<[tag |-> U16(b, p), at |-> p + 4, n |-> n]>> \o ExtraFields(b, p + 4 + n, end)

(* The sizes (and offset) of a record whose fields are the words us, cs, of: *)
(* those with the placeholder are in the ZIP64 field, in this order.        *)
(*   x: "ok", "lack" a needed value is missing, "odd" the extra field is    *)
(*   not one ZIP64 field alone                                              *)
Resolve(b, us, cs, of, f) ==
    LET z == SelectSeq(f, LAMBDA q : q.tag = 1)
        nu == us = Placeholder
        nc == cs = Placeholder
        no == of = Placeholder
        need == 8 * ((IF nu THEN 1 ELSE 0) + (IF nc THEN 1 ELSE 0) + (IF no THEN 1 ELSE 0))
        have == IF z = <<>> THEN 0 ELSE z[1].n
        at == IF z = <<>> THEN 0 ELSE z[1].at
        atC == at + IF nu THEN 8 ELSE 0
        atO == atC + IF nc THEN 8 ELSE 0
    IN  IF have < need THEN [x |-> "lack", us |-> Huge, cs |-> Huge, of |-> Huge]
        ELSE [x |-> IF f = <<>> \/ (Len(f) = 1 /\ f[1].tag = 1) THEN "ok" ELSE "odd",
              us |-> IF nu THEN U64(b, at) ELSE IntOf(us),
              cs |-> IF nc THEN U64(b, atC) ELSE IntOf(cs),
              of |-> IF no THEN U64(b, atO) ELSE IntOf(of)]

(* Records: [ok, ...fields..., next: position behind the record]            *)
NoRecord == [ok |-> FALSE]

LocalAt(b, p) ==
    IF ~Holds(b, p, 30) \/ ~IsPrefixAt(b, p, SigLocal) THEN NoRecord
    ELSE LET nl == U16(b, p + 26)
             xl == U16(b, p + 28)
         IN  IF ~Holds(b, p, 30 + nl + xl) THEN NoRecord
             ELSE LET f == ExtraFields(b, p + 30 + nl, p + 30 + nl + xl)
                      v == Resolve(b, W32(b, p + 22), W32(b, p + 18), <<0, 0>>, f)
                  IN [ok |-> TRUE, need |-> U16(b, p + 4), flags |-> U16(b, p + 6), method |-> U16(b, p + 8),
                      crc |-> W32(b, p + 14), x |-> v.x, cs |-> v.cs, us |-> v.us,
                      name |-> SubSeq(b, p + 30, p + 29 + nl), xl |-> xl, next |-> p + 30 + nl + xl]

DirAt(b, p) ==
    IF ~Holds(b, p, 46) \/ ~IsPrefixAt(b, p, SigDir) THEN NoRecord
    ELSE LET nl == U16(b, p + 28)
             xl == U16(b, p + 30)
             kl == U16(b, p + 32)
         IN  IF ~Holds(b, p, 46 + nl + xl + kl) THEN NoRecord
             ELSE LET f == ExtraFields(b, p + 46 + nl, p + 46 + nl + xl)
                      v == Resolve(b, W32(b, p + 24), W32(b, p + 20), W32(b, p + 42), f)
                  IN [ok |-> TRUE, made |-> U16(b, p + 4), need |-> U16(b, p + 6), flags |-> U16(b, p + 8),
                      method |-> U16(b, p + 10), crc |-> W32(b, p + 16), x |-> v.x, cs |-> v.cs, us |-> v.us,
                      of |-> v.of, disk |-> U16(b, p + 34), kl |-> kl, xl |-> xl,
                      name |-> SubSeq(b, p + 46, p + 45 + nl), next |-> p + 46 + nl + xl + kl]

\* The end record at position p (with its comment).
EndAt(b, p) ==
    IF ~Holds(b, p, 22) \/ ~IsPrefixAt(b, p, SigEnd) THEN NoRecord
    ELSE [ok |-> TRUE, disk |-> U16(b, p + 4), ddisk |-> U16(b, p + 6), n1 |-> U16(b, p + 8),
          n2 |-> U16(b, p + 10), size |-> U32(b, p + 12), of |-> U32(b, p + 16), kl |-> U16(b, p + 20),
          ph |-> <<U16(b, p + 8) = 65535, U16(b, p + 10) = 65535, W32(b, p + 12) = Placeholder, W32(b, p + 16) = Placeholder>>]

(* The ZIP64 end record, which the locator before the end record points to:  *)
(* st: "none" no locator, "bad" nothing where it points to, "ok"             *)
End64(b) ==
    LET p == Len(b) - 41
    IN  IF ~Holds(b, p, 42) \/ ~IsPrefixAt(b, p, SigLocator) THEN [st |-> "none"]
        ELSE LET at == U64(b, p + 8)
             IN  IF at = Huge THEN [st |-> "bad"]
                 ELSE IF ~Holds(b, at + 1, 56) \/ ~IsPrefixAt(b, at + 1, SigEnd64) THEN [st |-> "bad"]
                 ELSE [st |-> "ok", at |-> at, need |-> U16(b, at + 15), n1 |-> U64(b, at + 25), n2 |-> U64(b, at + 33),
                       size |-> U64(b, at + 41), of |-> U64(b, at + 49),
                       \* nothing unusual about it
                       plain |-> /\ U64(b, at + 5) = 44 /\ at + 56 = p - 1
                                 /\ U32(b, at + 17) = 0 /\ U32(b, at + 21) = 0
                                 /\ U32(b, p + 4) = 0 /\ U32(b, p + 16) = 1]

(* Where the directory is, by the end record e and the ZIP64 end record:     *)
(*   v: "ok", "rej", "any" (the two contradict each other)                   *)
(*   stop: where the directory has to end when nothing is unusual            *)
Where(b, e) ==
    LET z == End64(b)
        agree == /\ e.ph[1] \/ e.n1 = z.n1
                 /\ e.ph[2] \/ e.n2 = z.n2
                 /\ e.ph[3] \/ e.size = z.size
                 /\ e.ph[4] \/ e.of = z.of
        some == e.ph[1] \/ e.ph[2] \/ e.ph[3] \/ e.ph[4]
        here == [v |-> "ok", n |-> e.n1, n2 |-> e.n2, size |-> e.size, of |-> e.of, stop |-> Len(b) - 22]
    IN  IF z.st = "none" THEN here
        ELSE IF ~some
             THEN IF z.st = "ok" THEN IF agree /\ z.plain THEN [here EXCEPT !.stop = z.at] ELSE here ELSE here
        ELSE IF z.st = "bad" THEN [here EXCEPT !.v = "any"]
        ELSE IF ~agree THEN [here EXCEPT !.v = "any"]
        ELSE [v |-> IF z.need > MaxVersion THEN "rej" ELSE "ok", n |-> z.n1, n2 |-> z.n2, size |-> z.size, of |-> z.of,
              stop |-> IF z.plain THEN z.at ELSE -2]

\* n records from position p on, or as many as there are.
RECURSIVE DirFrom(_, _, _)
DirFrom(b, p, n) ==
    IF n = 0 THEN <<>>
    ELSE LET d == DirAt(b, p) IN IF ~d.ok THEN <<>> ELSE <<d>> \o DirFrom(b, d.next, n - 1)

\* What an entry's data say: [ok, out]
Contents(b, p, method, cs) ==
    IF method = 0 THEN [ok |-> TRUE, out |-> SubSeq(b, p, p + cs - 1), used |-> cs]
    ELSE IF method = 8 THEN Inflate(SubSeq(b, p, p + cs - 1))
    ELSE [ok |-> FALSE, out |-> <<>>, used |-> 0]

---------------------------------------------------------------------------
(* The writer's obligation: b consists of local records with their data,    *)
(* back to back from the first byte on, the directory, and the end record.  *)
(* ents is the sequence of [n: name, img: contents, m: method].             *)

\* Do entry e, its directory record d and the local record at p agree?
EntryOk(b, p, d, e) ==
    LET l == LocalAt(b, p)
        c == Contents(b, l.next, l.method, l.cs)
        need == IF d.xl > 0 THEN 45 ELSE IF e.m = 8 THEN 20 ELSE 10
    IN  /\ l.ok
        /\ d.of = p - 1
        /\ l.name = e.n /\ d.name = e.n
        /\ l.method = e.m /\ d.method = e.m
        /\ l.flags = d.flags
        /\ \/ l.flags = 0
           \/ l.flags = 2048    \* names are UTF-8
        /\ l.need \in need..45 /\ d.need \in need..45
        /\ l.x = "ok" /\ d.x = "ok"
        /\ l.xl = 0 /\ d.xl = 0     \* nothing here needs ZIP64
        /\ d.disk = 0
        /\ l.us = Len(e.img) /\ d.us = Len(e.img)
        /\ l.cs = d.cs /\ Holds(b, l.next, l.cs)
        /\ c.ok /\ c.used = l.cs
        /\ c.out = e.img
        /\ l.crc = Crc32(e.img) /\ d.crc = l.crc

RECURSIVE EntriesOk(_, _, _, _, _)
EntriesOk(b, p, dir, ents, i) ==   \* the position behind the last entry, or 0
    IF i > Len(ents) THEN p
    ELSE IF ~EntryOk(b, p, dir[i], ents[i]) THEN 0
    ELSE LET l == LocalAt(b, p) IN EntriesOk(b, l.next + l.cs, dir, ents, i + 1)

StrictArchive(b, ents) ==
    LET n == Len(ents)
        e == EndAt(b, Len(b) - 21)
    IN  IF ~e.ok THEN FALSE
        ELSE IF ~(e.kl = 0 /\ e.disk = 0 /\ e.ddisk = 0 /\ e.n1 = n /\ e.n2 = n) THEN FALSE
        ELSE IF ~(e.of # Huge /\ e.size # Huge /\ e.of + e.size = Len(b) - 22) THEN FALSE
        ELSE LET dir == DirFrom(b, e.of + 1, n)
             IN  IF Len(dir) # n THEN FALSE
                 ELSE IF (IF n = 0 THEN e.of + 1 ELSE dir[n].next) # Len(b) - 21 THEN FALSE
                 ELSE EntriesOk(b, 1, dir, ents, 1) = e.of + 1

---------------------------------------------------------------------------
(* The reader's obligation.                                                 *)
(* An entry is [n: name, v: verdict, img: contents]:                        *)
(*   "ok"   it has to be read as img                                        *)
(*   "rej"  reading it has to fail                                          *)
(*   "soft" reading it may fail or yield img                                *)
(*   "any"  it may fail or yield anything                                   *)
(* An archive is [v, ents] with the same verdicts: "rej" opening must fail, *)
(* "ok" opening must succeed, "soft" it may fail.                           *)

\* general purpose bits which do not change the layout
PlainFlags == {1, 2, 7, 8, 9, 10, 11}
FlagBit(f, i) == (f \div (2 ^ i)) % 2 = 1
FlagsPlain(f) == \A i \in 0..15 : FlagBit(f, i) => i \in PlainFlags

EntryRead(b, d) ==
    LET l == LocalAt(b, d.of + 1)
        no == [n |-> d.name, v |-> "rej", img |-> <<>>]
    IN  IF d.x = "lack" \/ d.need > MaxVersion \/ d.of = Huge THEN no
        ELSE IF ~l.ok THEN no
        ELSE IF l.need > MaxVersion \/ l.x = "lack" THEN no
        ELSE IF l.name # d.name \/ l.method # d.method \/ l.crc # d.crc \/ l.cs # d.cs \/ l.us # d.us THEN no
        ELSE IF l.cs = Huge THEN no
        ELSE IF l.method \notin {0, 8} \/ ~Holds(b, l.next, l.cs) THEN no
        ELSE LET c == Contents(b, l.next, l.method, l.cs)
             IN  IF ~c.ok THEN no
                 ELSE IF Crc32(c.out) # d.crc THEN no
                 ELSE [n |-> d.name,
                       v |-> IF /\ l.x = "ok" /\ d.x = "ok" /\ Len(c.out) = l.us /\ c.used = l.cs
                                /\ FlagsPlain(l.flags) /\ FlagsPlain(d.flags)
                                /\ d.disk = 0
                             THEN "ok" ELSE "soft",
                       img |-> c.out]

ArchiveRej == [v |-> "rej", ents |-> <<>>]
ArchiveRead(b) ==
    LET e == EndAt(b, Len(b) - 21)
    IN  IF ~e.ok
        THEN \* perhaps there is an end record with a comment
             IF \E k \in 1..65535 : k + 22 <= Len(b) /\ EndAt(b, Len(b) - 21 - k).ok
             THEN [v |-> "any", ents |-> <<>>] ELSE ArchiveRej
        ELSE LET w == Where(b, e)
                 dir == IF w.of = Huge \/ w.n = Huge THEN <<>> ELSE DirFrom(b, w.of + 1, w.n)
             IN  IF w.v = "any" THEN [v |-> "any", ents |-> <<>>]
                 ELSE IF w.v = "rej" \/ Len(dir) # w.n THEN ArchiveRej
                 ELSE [v |-> IF /\ e.kl = 0 /\ e.disk = 0 /\ e.ddisk = 0 /\ w.n = w.n2
                                /\ w.size # Huge /\ w.of + w.size = w.stop
                                /\ (IF dir = <<>> THEN w.of + 1 ELSE dir[Len(dir)].next) = w.stop + 1
                                /\ \A i \in 1..Len(dir) :
                                      dir[i].kl = 0 /\ dir[i].x = "ok" /\ dir[i].need <= MaxVersion
                             THEN "ok" ELSE "soft",
                       ents |-> [i \in 1..Len(dir) |-> EntryRead(b, dir[i])]]

---------------------------------------------------------------------------
(* An encoder, for producing archives.  A record of choices for an entry:   *)
(*   n, m, img, data: bytes as stored, lz, cz: 64-bit fields and places,    *)
(*   lver, dver, flags, time, attr                                          *)
DeflStored(img) == <<1>> \o Le16(Len(img)) \o Le16(65535 - Len(img)) \o img

Val32(n, z) == IF z THEN LeW(Placeholder) ELSE Le32(n)
Zip64(vals) == IF vals = <<>> THEN <<>>
               ELSE Le16(1) \o Le16(8 * Len(vals)) \o Flatten([i \in 1..Len(vals) |-> Le64(vals[i])])

LocalRec(c) == \* c.lph: placeholders <<us, cs>>, c.lvals: values of the ZIP64 field
    SigLocal \o Le16(c.lver) \o Le16(c.flags) \o Le16(c.m) \o c.time \o LeW(Crc32(c.img))
    \o Val32(Len(c.data), c.lph[2]) \o Val32(Len(c.img), c.lph[1])
    \o Le16(Len(c.n)) \o Le16(Len(Zip64(c.lvals))) \o c.n \o Zip64(c.lvals)

DirRec(c, of) == \* c.dph: placeholders <<us, cs, offset>>, c.dvals: values, "of" for the offset
    LET x == Zip64([i \in 1..Len(c.dvals) |-> IF c.dvals[i] = -2 THEN of ELSE c.dvals[i]])
    IN  SigDir \o Le16(c.made) \o Le16(c.dver) \o Le16(c.flags) \o Le16(c.m) \o c.time \o LeW(Crc32(c.img))
        \o Val32(Len(c.data), c.dph[2]) \o Val32(Len(c.img), c.dph[1])
        \o Le16(Len(c.n)) \o Le16(Len(x)) \o <<0, 0, 0, 0, 0, 0>> \o c.attr
        \o Val32(of, c.dph[3]) \o c.n \o x
=============================================================================
