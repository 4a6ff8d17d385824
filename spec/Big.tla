--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* The limits of what archives can represent: names of 65535 bytes, 65535  *)
(* entries, sizes and offsets of 32 bits - or of 64 bits with ZIP64.       *)
(* Sizes are wide numbers; contents are digests.                           *)
(*                                                                         *)
(* Up to the limits everything has to work.  Beyond them a write may be    *)
(* refused, which leaves the writer as it was; a write which is accepted   *)
(* has to be read back faithfully like any other.                          *)
(***************************************************************************)
EXTENDS NpyFormat, Names, Wide

VARIABLES
    arr,    \* array slot -> [t, f, sh, dg]
    W,      \* writer -> [m, en, runs, n: entries, top: upper bound of the bytes so far, closed]
    arch,   \* place (file or memory) -> [m, runs, n]
    R       \* reader -> an archive

bigVars == <<arr, W, arch, R>>
BigInit == arr = << >> /\ W = << >> /\ arch = << >> /\ R = << >>

(* Entries come in runs: cnt entries of array d, stored under the names     *)
(* pre, or pre followed by from, from + 1, ... (and .npy)                   *)
(* run: [pre, from: -1 or a number, cnt, first: number of its first entry,  *)
(*       a: array, img: size of the image]                                  *)
RunName(r, k) == Stored(IF r.from < 0 THEN r.pre ELSE r.pre \o Dec(r.from + k))

RECURSIVE WProd(_)
WProd(sh) == IF sh = <<>> THEN WOf(1) ELSE WMul(WNum(sh[1], WZero), WProd(Tail(sh)))

\* The size of the image of an array (of numbers).
ImageSize(a, en) ==
    WAdd(WOf(Len(HeaderOf(DescrOf(a.t, en, 0), a.f, a.sh))), WMul(WProd(a.sh), WOf(TypeSize[a.t])))

Make(d, a, res) == res.r = "ok" /\ arr' = Put(arr, d, [a EXCEPT !.dg = res.dg]) /\ UNCHANGED <<W, arch, R>>

WOpen(w, m, en, res) ==
    /\ res.r = "ok" /\ res.open = 1
    /\ W' = Put(W, w, [m |-> m, en |-> en, runs |-> <<>>, n |-> 0, top |-> WZero, closed |-> FALSE])
    /\ UNCHANGED <<arr, arch, R>>

MaxCount == 65535
Limit32 == <<255, 255, 255, 255, 0, 0, 0, 0>>

\* Bytes which an entry adds to the archive at most: records with ZIP64
\* fields and the data, which compression does not blow up by more than a 64th
EntryTop(m, nameLen, img) ==
    WAdd(WOf(30 + 46 + 20 + 28 + 2 * nameLen),
         IF m = 0 THEN img ELSE WAdd(img, WAdd(WOf(64), [i \in 1..8 |-> IF i < 8 THEN img[i + 1] ELSE 0])))

WTimes(x, n) == WMul(x, WOf(n))

\* cnt entries are written, of which done have been accepted
WBulk(w, pre, from, cnt, d, res, done) ==
    /\ w \in DOMAIN W /\ d \in DOMAIN arr
    /\ LET wr == W[w]
           last == IF from < 0 THEN Stored(pre) ELSE Stored(pre \o Dec(from + cnt - 1))
           img == ImageSize(arr[d], wr.en)
           one == EntryTop(wr.m, Len(last), img)
           top == WAdd(wr.top, WTimes(one, cnt))
           small == /\ wr.n + cnt <= MaxCount
                    /\ WLess(img, Limit32)
                    /\ WLess(WAdd(top, WOf(22)), Limit32)
       IN  /\ ~wr.closed
           /\ done <= cnt
           /\ \/ res.r = "ok" /\ done = cnt /\ Len(last) <= MaxName
              \/ IsExc(res) /\ done < cnt /\ (Len(last) > MaxName \/ ~small)
           \* what is below the limits is not refused either when more is to follow
           /\ wr.n + done < MaxCount /\ done < cnt =>
                 \/ Len(last) > MaxName
                 \/ ~WLess(img, Limit32)
                 \/ ~WLess(WAdd(WAdd(wr.top, WTimes(one, done + 1)), WOf(22)), Limit32)
           /\ W' = IF done = 0 THEN W
                   ELSE [W EXCEPT ![w] = [wr EXCEPT
                            !.runs = Append(@, [pre |-> pre, from |-> from, cnt |-> done, first |-> wr.n + 1,
                                                a |-> arr[d], img |-> img]),
                            !.n = @ + done,
                            !.top = WAdd(wr.top, WTimes(one, done))]]
    /\ UNCHANGED <<arr, arch, R>>

WWrite(w, name, d, res) == WBulk(w, name, -1, 1, d, res, IF res.r = "ok" THEN 1 ELSE 0)

\* place: where the archive is afterwards
WClose(w, place, res) ==
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ W' = [W EXCEPT ![w].closed = TRUE]
    /\ arch' = Put(arch, place, [m |-> W[w].m, runs |-> W[w].runs, n |-> W[w].n])
    /\ UNCHANGED <<arr, R>>

WDestroy(w, place, res) ==
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ W' = Drop(W, w)
    /\ arch' = Put(arch, place, [m |-> W[w].m, runs |-> W[w].runs, n |-> W[w].n])
    /\ UNCHANGED <<arr, R>>

\* An archive made by another tool; its runs have d, the array, or that array itself
Foreign(place, runs, res) ==
    /\ res.r = "ok"
    /\ arch' = Put(arch, place, [m |-> 0, n |-> SumTo([i \in 1..Len(runs) |-> runs[i].cnt], Len(runs)),
                    runs |-> [i \in 1..Len(runs) |->
                                [pre |-> runs[i].pre, from |-> runs[i].from, cnt |-> runs[i].cnt,
                                 first |-> 1 + SumTo([k \in 1..(i - 1) |-> runs[k].cnt], i - 1),
                                 a |-> arr[runs[i].d], img |-> WZero]]])
    /\ UNCHANGED <<arr, W, R>>
\* An array of which only the header matters
Declare(d, a) == arr' = Put(arr, d, a) /\ UNCHANGED <<W, arch, R>>

---------------------------------------------------------------------------
(* The records of a closed archive.  res: size of the file, end: its last   *)
(* 22 bytes, n: directory records found, stop: where they end, recs: some   *)
(* of them, with the local records they point at.                           *)
RunOf(x, i) == CHOOSE r \in {x.runs[k] : k \in 1..Len(x.runs)} : r.first <= i /\ i < r.first + r.cnt

PH == <<255, 255, 255, 255>>

\* A record's sizes (and offset): values of 32 bits, or of 64 in the extra
\* field, which holds one ZIP64 field with just the values needed, in order.
Field(b, p) == SubSeq(b, p, p + 3)
Vals(b, us, cs, of, x, xl) == \* us, cs, of: positions of the fields (0: none), x: position of the extra field
    LET nu == Field(b, us) = PH
        nc == Field(b, cs) = PH
        no == IF of = 0 THEN FALSE ELSE Field(b, of) = PH
        need == 8 * ((IF nu THEN 1 ELSE 0) + (IF nc THEN 1 ELSE 0) + (IF no THEN 1 ELSE 0))
        atC == x + 4 + IF nu THEN 8 ELSE 0
        atO == atC + IF nc THEN 8 ELSE 0
        \* a local record with a ZIP64 field has both sizes there (APPNOTE 4.5.3)
        ok == IF need = 0 THEN xl = 0
              ELSE /\ xl = 4 + need /\ b[x] = 1 /\ b[x + 1] = 0 /\ b[x + 2] = need /\ b[x + 3] = 0
    IN  IF ~ok THEN [ok |-> FALSE, us |-> WZero, cs |-> WZero, of |-> WZero, z |-> FALSE]
        ELSE [ok |-> TRUE, z |-> need > 0,
              us |-> IF nu THEN WAt(b, x + 4, 8) ELSE WAt(b, us, 4),
              cs |-> IF nc THEN WAt(b, atC, 8) ELSE WAt(b, cs, 4),
              of |-> IF of = 0 THEN WZero ELSE IF no THEN WAt(b, atO, 8) ELSE WAt(b, of, 4)]

RecOk(x, q) ==
    LET r == RunOf(x, q.i)
        name == RunName(r, q.i - r.first)
        d == q.dir
        l == q.loc
        nl == Len(name)
        dv == Vals(d, 25, 21, 43, 47 + nl, WAt(d, 31, 2)[1] + 256 * d[32])
        lv == Vals(l, 23, 19, 0, 31 + nl, l[29] + 256 * l[30])
    IN  /\ IsPrefixAt(d, 1, <<80, 75, 1, 2>>) /\ IsPrefixAt(l, 1, <<80, 75, 3, 4>>)
        /\ Len(d) = 46 + d[29] + 256 * d[30] + d[31] + 256 * d[32]
        /\ d[29] + 256 * d[30] = nl /\ l[27] + 256 * l[28] = nl
        /\ SubSeq(d, 47, 46 + nl) = name /\ SubSeq(l, 31, 30 + nl) = name
        /\ dv.ok /\ lv.ok
        /\ d[11] = x.m /\ d[12] = 0 /\ l[9] = x.m /\ l[10] = 0
        /\ dv.us = r.img /\ lv.us = r.img
        /\ lv.cs = dv.cs /\ (x.m = 0 => dv.cs = r.img)
        /\ dv.of = q.of
        /\ SubSeq(d, 17, 20) = SubSeq(l, 15, 18)
        /\ x.m = 0 => SubSeq(d, 17, 20) = q.crc
        \* version needed: 4.5 if there are 64-bit fields
        /\ dv.z => d[7] = 45
        /\ lv.z => l[5] = 45
        /\ d[7] <= 45 /\ l[5] <= 45

\* behind the local record q points at, and its data
Behind(q, x) ==
    LET r == RunOf(x, q.i)
        nl == Len(RunName(r, q.i - r.first))
        lv == Vals(q.loc, 23, 19, 0, 31 + nl, q.loc[29] + 256 * q.loc[30])
    IN WAdd(WAdd(q.of, WOf(Len(q.loc))), lv.cs)

Records(place, res) ==
    /\ place \in DOMAIN arch /\ res.r = "ok"
    /\ LET x == arch[place]
           e == res.end
           dsize == WAt(e, 13, 4)
           doff == WAt(e, 17, 4)
       IN  /\ x.n <= MaxCount =>
                 /\ IsPrefixAt(e, 1, <<80, 75, 5, 6, 0, 0, 0, 0>>)
                 /\ e[9] + 256 * e[10] = x.n /\ e[11] + 256 * e[12] = x.n
                 /\ e[21] = 0 /\ e[22] = 0
                 /\ res.n = x.n
                 /\ WAdd(WAdd(doff, dsize), WOf(22)) = res.size
                 /\ res.stop = WAdd(doff, dsize)
                 /\ \A k \in 1..Len(res.recs) :
                       LET q == res.recs[k]
                       IN /\ RecOk(x, q)
                          /\ q.i = 1 => q.of = WZero /\ q.at = doff
                          /\ q.i = x.n => Behind(q, x) = doff
                          /\ k < Len(res.recs) /\ res.recs[k + 1].i = q.i + 1 =>
                                /\ Behind(q, x) = res.recs[k + 1].of
                                /\ WAdd(q.at, WOf(Len(q.dir))) = res.recs[k + 1].at
    /\ UNCHANGED bigVars

---------------------------------------------------------------------------
(* Readers *)
ROpen(r, place, res) ==
    /\ place \in DOMAIN arch /\ res.r = "ok"
    /\ R' = Put(R, r, arch[place])
    /\ UNCHANGED <<arr, W, arch>>

RKeys(r, res) ==
    /\ r \in DOMAIN R /\ res.r = "ok"
    /\ res.n = R[r].n /\ res.sorted = 1
    /\ UNCHANGED bigVars

\* Is n the name of an entry of run q?
RECURSIVE DigitsVal(_, _)
DigitsVal(d, acc) == IF d = <<>> THEN acc ELSE DigitsVal(Tail(d), acc * 10 + (d[1] - 48))
InRun(q, n) ==
    IF q.from < 0 THEN Stored(q.pre) = n
    ELSE LET m == Len(n) - Len(q.pre) - 4
         IN  IF m < 1 \/ m > 8 \/ ~HasSuffix(n, Suffix) THEN FALSE
             ELSE IF SubSeq(n, 1, Len(q.pre)) # q.pre THEN FALSE
             ELSE LET ds == SubSeq(n, Len(q.pre) + 1, Len(q.pre) + m)
                  IN IF ~AllDigits(ds) \/ StripZeros(ds) # ds THEN FALSE
                     ELSE LET v == DigitsVal(ds, 0) IN v >= q.from /\ v < q.from + q.cnt

Having(x, n) == {k \in 1..Len(x.runs) : InRun(x.runs[k], n)}
\* the run of the entry which the name means, or 0
Lookup2(x, name) == IF Having(x, name) # {} THEN MaxOf(Having(x, name)) ELSE MaxOf(Having(x, name \o Suffix))

RHas(r, name, res) ==
    /\ r \in DOMAIN R /\ res.r = "ok"
    /\ res.has = IF Lookup2(R[r], name) # 0 THEN 1 ELSE 0
    /\ UNCHANGED bigVars

RRead(r, name, t, res) ==
    /\ r \in DOMAIN R
    /\ LET k == Lookup2(R[r], name)
       IN IF k = 0 THEN Exc(res, "ia")
          ELSE IF R[r].runs[k].a.t # t THEN IsExc(res)
          ELSE res.r = "ok" /\ res.dg = R[r].runs[k].a.dg
    /\ UNCHANGED bigVars

RPeek(r, name, res) ==
    /\ r \in DOMAIN R
    /\ LET k == Lookup2(R[r], name)
       IN IF k = 0 THEN Exc(res, "ia")
          ELSE LET a == R[r].runs[k].a
               IN res.r = "ok" /\ res.h.t = a.t /\ res.h.f = a.f /\ [i \in 1..Len(res.h.sh) |-> B(res.h.sh[i])] = a.sh
    /\ UNCHANGED bigVars

RDestroy(r) == R' = Drop(R, r) /\ UNCHANGED <<arr, W, arch>>
=============================================================================
