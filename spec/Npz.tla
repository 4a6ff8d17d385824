-------------------------------- MODULE Npz --------------------------------
(***************************************************************************)
(* Life cycle of archives: writers, their archives in memory or on disk,   *)
(* and readers.  Contents of arrays are opaque here (a digest); what they  *)
(* look like as bytes is the matter of Npy and ZipFormat.                  *)
(*                                                                         *)
(* Each action is one call; its last argument is the observed result.      *)
(***************************************************************************)
EXTENDS NpyFormat, Names

VARIABLES
    arr,     \* array slot -> [t, f, sh, w, dg]
    files,   \* path -> archive or array image, see below
    blobs,   \* memory slot -> the same
    W,       \* writer -> [kind, path, m, en, ents, closed, bd, hurt]; hurt: a write has failed
    R,       \* reader -> [kind, ents, open]
    seen     \* archive contents whose bytes have been observed -> digest of the bytes

npzVars == <<arr, files, blobs, W, R, seen>>

NpzInit == /\ arr = << >> /\ files = << >> /\ blobs = << >>
           /\ W = << >> /\ R = << >> /\ seen = << >>

(* An archive is [k |-> "npz", fin: closed?, m: method, en: byte order,     *)
(*   ents: sequence of [n: stored name, a: array, en, bad: damaged?]].      *)
(* A file or blob can also be [k |-> "npy", a, en] or [k |-> "junk"].       *)

PeekEn(t, en) == IF t \in OneByte THEN "N" ELSE Order(en)
HeadOk(a, en, h) ==
    /\ h.t = a.t /\ h.f = a.f /\ h.sh = a.sh
    /\ h.en = PeekEn(a.t, en)
    /\ a.w = "?" \/ h.w = a.w

---------------------------------------------------------------------------
Make(d, a, res) == /\ res.r = "ok"
                   /\ arr' = Put(arr, d, [a EXCEPT !.dg = res.dg])
                   /\ UNCHANGED <<files, blobs, W, R, seen>>

(* Arrays in files of their own *)
FileSave(p, d, en, res) ==
    /\ d \in DOMAIN arr
    /\ res.r = "ok" /\ res.same = 1
    /\ files' = Put(files, p, [k |-> "npy", a |-> arr[d], en |-> en])
    /\ UNCHANGED <<arr, blobs, W, R, seen>>

FileLoad(p, t, res) ==
    /\ IF p \notin DOMAIN files THEN Exc(res, "ia")
       ELSE IF files[p].k = "lost" THEN res.r \in {"ok", "exc"}
       ELSE IF files[p].k # "npy" THEN IsExc(res)
       ELSE IF files[p].a.t # t THEN IsExc(res)
       ELSE res.r = "ok" /\ res.dg = files[p].a.dg
    /\ UNCHANGED npzVars

FilePeek(p, res) ==
    /\ IF p \notin DOMAIN files THEN Exc(res, "ia")
       ELSE IF files[p].k # "npy" THEN IsExc(res)
       ELSE res.r = "ok" /\ HeadOk(files[p].a, files[p].en, res.h)
    /\ UNCHANGED npzVars

\* Arrays saved one after another on one stream and loaded one by one: each
\* load ends where the save ended.
SaveLoadAll(ds, res) ==
    /\ res.r = "ok"
    /\ res.dgs = [i \in 1..Len(ds) |-> arr[ds[i]].dg]
    /\ res.rpos = res.wpos
    /\ UNCHANGED npzVars

---------------------------------------------------------------------------
(* Writers *)

ArchiveOf(w) == [k |-> "npz", fin |-> w.closed /\ w.hurt # "broken", m |-> w.m, en |-> w.en, ents |-> w.ents]

\* The file of a writer shows an unfinished archive until it is closed.
Refresh(ws, w) == IF ws[w].kind = "s" \/ (w \in DOMAIN W /\ W[w].closed) THEN UNCHANGED files
                  ELSE files' = Put(files, ws[w].path, ArchiveOf(ws[w]))

WOpen(w, kind, path, m, en, res) ==
    /\ w \notin DOMAIN W
    /\ res.r = "ok" /\ res.open = 1
    /\ W' = Put(W, w, [kind |-> kind, path |-> path, m |-> m, en |-> en,
                       ents |-> <<>>, closed |-> FALSE, bd |-> "", hurt |-> "no"])
    /\ Refresh(W', w)
    /\ UNCHANGED <<arr, blobs, R, seen>>

WWrite(w, name, d, res) ==
    /\ w \in DOMAIN W /\ d \in DOMAIN arr
    /\ LET wr == W[w]
           n == Stored(name)
       IN  IF wr.closed THEN Exc(res, "rt") /\ UNCHANGED <<W, files>>
           ELSE IF wr.m \notin SupportedMethods \/ Len(n) > MaxName
           THEN Exc(res, "ia") /\ UNCHANGED <<W, files>>
           ELSE IF wr.hurt # "no" /\ res.r = "exc" THEN UNCHANGED <<W, files>>
           ELSE /\ res.r = "ok" /\ res.same = 1
                /\ W' = [W EXCEPT ![w].ents = Append(@, [n |-> n, a |-> arr[d], en |-> wr.en, bad |-> FALSE]),
                                  ![w].bd = ""]
                /\ Refresh(W', w)
    /\ UNCHANGED <<arr, blobs, R, seen>>

\* A write in which the tensor itself throws: nothing is written.
WWriteThrows(w, res) ==
    /\ w \in DOMAIN W
    /\ res.r = "exc" /\ res.k = IF W[w].closed THEN "rt" ELSE "user"
    /\ UNCHANGED npzVars

\* The contents so far may be asked for at any time, and do not change by it.
WStr(w, b, res) ==
    /\ w \in DOMAIN W /\ W[w].kind = "s"
    /\ res.r = "ok"
    /\ W[w].bd = "" \/ W[w].bd = res.bd
    /\ W' = [W EXCEPT ![w].bd = res.bd]
    /\ blobs' = Put(blobs, b, ArchiveOf(W[w]))
    /\ UNCHANGED <<arr, files, R, seen>>

WClose(w, res) ==
    /\ w \in DOMAIN W
    /\ res.r = "ok" \/ (W[w].hurt # "no" /\ IsExc(res))
    /\ W' = [W EXCEPT ![w].closed = TRUE, ![w].bd = IF W[w].closed THEN @ ELSE "",
                      ![w].hurt = IF res.r = "ok" \/ W[w].closed THEN @ ELSE "broken"]
    /\ Refresh(W', w)
    /\ UNCHANGED <<arr, blobs, R, seen>>

WIsOpen(w, res) ==
    /\ w \in DOMAIN W /\ W[w].kind = "f"
    /\ res.r = "ok" /\ (~W[w].closed => res.open = 1)
    /\ UNCHANGED npzVars

WDestroy(w, res) ==
    /\ w \in DOMAIN W
    /\ res.r = "ok"
    /\ IF W[w].kind = "s" \/ W[w].closed THEN UNCHANGED files
       ELSE IF W[w].hurt # "no" \/ ("rhits" \in DOMAIN res /\ res.rhits > 0)
       THEN files' = Put(files, W[w].path, [k |-> "lost"])   \* no promise was made
       ELSE files' = Put(files, W[w].path, [ArchiveOf(W[w]) EXCEPT !.fin = TRUE])
    /\ W' = Drop(W, w)
    /\ UNCHANGED <<arr, blobs, R, seen>>

---------------------------------------------------------------------------
(* Bytes in memory *)

BlobLoad(b, p, res) ==
    /\ p \in DOMAIN files /\ res.r = "ok"
    /\ blobs' = Put(blobs, b, files[p])
    /\ UNCHANGED <<arr, files, W, R, seen>>

BlobSave(b, p) ==
    /\ b \in DOMAIN blobs
    /\ files' = Put(files, p, blobs[b])
    /\ UNCHANGED <<arr, blobs, W, R, seen>>

\* The data of the entry stored under name is damaged.
BlobDamage(b, c, name) ==
    /\ b \in DOMAIN blobs
    /\ LET i == Find1(blobs[b].ents, name)
       IN i # 0 /\ blobs' = Put(blobs, c, [blobs[b] EXCEPT !.ents[i].bad = TRUE])
    /\ UNCHANGED <<arr, files, W, R, seen>>

BlobJunk(b) == blobs' = Put(blobs, b, [k |-> "junk"]) /\ UNCHANGED <<arr, files, W, R, seen>>

\* The bytes of a finished archive are a function of what was written.
BlobDigest(b, res) ==
    /\ b \in DOMAIN blobs /\ res.r = "ok"
    /\ LET x == blobs[b] IN
       IF x.k = "npz" /\ (\E i \in 1..Len(x.ents) : x.ents[i].bad) THEN UNCHANGED seen
       ELSE LET y == IF x.k = "npz" THEN [x EXCEPT !.en = Order(@), !.ents = [i \in DOMAIN x.ents |->
                                  [x.ents[i] EXCEPT !.en = Order(@)]]]
                     ELSE IF x.k = "npy" THEN [x EXCEPT !.en = Order(@)] ELSE x
            IN IF y \in DOMAIN seen THEN seen[y] = res.bd /\ UNCHANGED seen
               ELSE seen' = Put(seen, y, res.bd)
    /\ UNCHANGED <<arr, files, blobs, W, R>>

\* Bytes made by another tool: an archive of arrays of the program.
BlobForeign(b, ents) ==
    /\ blobs' = Put(blobs, b, [k |-> "npz", fin |-> TRUE, m |-> -1, en |-> "L",
                               ents |-> [i \in 1..Len(ents) |-> [n |-> ents[i].n, a |-> arr[ents[i].d],
                                                                 en |-> "L", bad |-> FALSE]]])
    /\ UNCHANGED <<arr, files, W, R, seen>>

\* The same in a file (with holes between its entries).
FileForeign(p, ents) ==
    /\ files' = Put(files, p, [k |-> "npz", fin |-> TRUE, m |-> -1, en |-> "L",
                               ents |-> [i \in 1..Len(ents) |-> [n |-> ents[i].n, a |-> arr[ents[i].d],
                                                                 en |-> "L", bad |-> FALSE]]])
    /\ UNCHANGED <<arr, blobs, W, R, seen>>

\* The stored form of every entry of b, examined by an independent decoder:
\* the deflate stream ends exactly where the entry ends, and yields exactly
\* the bytes the size field announces and an uncompressed archive holds.
BlobStreams(b, res) ==
    /\ b \in DOMAIN blobs
    /\ Len(res.streams) = Len(blobs[b].ents)
    /\ \A i \in 1..Len(res.streams) :
          LET x == res.streams[i]
          IN x.n = blobs[b].ents[i].n /\ x.m = blobs[b].m /\ x.eof = 1 /\ x.unused = 0 /\ x.size = 1 /\ x.same = 1
    /\ UNCHANGED npzVars

---------------------------------------------------------------------------
(* Readers *)

OpenAllowed(x, res) ==
    IF x.k = "npz" /\ x.fin THEN res.r = "ok" ELSE IsExc(res)

Opened(r, kind, x, res) ==
    \* (opening in place of a reader there is replaces it when it succeeds)
    R' = IF res.r = "ok" THEN Put(R, r, [kind |-> kind, ents |-> x.ents, open |-> TRUE]) ELSE R

ROpenBlob(r, b, res) ==
    /\ b \in DOMAIN blobs
    /\ OpenAllowed(blobs[b], res)
    /\ Opened(r, "s", blobs[b], res)
    /\ UNCHANGED <<arr, files, blobs, W, seen>>

ROpenFile(r, p, res) ==
    /\ IF p \notin DOMAIN files THEN Exc(res, "ia") /\ UNCHANGED R
       ELSE OpenAllowed(files[p], res) /\ Opened(r, "f", files[p], res)
    /\ UNCHANGED <<arr, files, blobs, W, seen>>

RKeys(r, res) ==
    /\ r \in DOMAIN R
    /\ res.r = "ok"
    /\ {res.keys[i] : i \in 1..Len(res.keys)} = NameSet(R[r].ents)
    /\ \A i \in 1..(Len(res.keys) - 1) :
          \/ BytesLess(res.keys[i], res.keys[i + 1])
          \/ \* a name written twice may be listed twice
             res.keys[i] = res.keys[i + 1] /\ Cardinality(Exact(R[r].ents, res.keys[i])) > 1
    /\ UNCHANGED npzVars

RContains(r, name, res) ==
    /\ r \in DOMAIN R
    /\ res.r = "ok" /\ res.has = IF Lookup(R[r].ents, name) # 0 THEN 1 ELSE 0
    /\ UNCHANGED npzVars

RPeek(r, name, res) ==
    /\ r \in DOMAIN R
    /\ LET i == Lookup(R[r].ents, name)
       IN  IF i = 0 THEN IF R[r].open THEN Exc(res, "ia") ELSE IsExc(res)
           ELSE IF ~R[r].open THEN IsExc(res)
           ELSE LET e == R[r].ents[i]
                IN \/ res.r = "ok" /\ HeadOk(e.a, e.en, res.h)
                   \/ e.bad /\ IsExc(res)
    /\ UNCHANGED npzVars

RRead(r, name, t, d, res) ==
    /\ r \in DOMAIN R
    /\ LET i == Lookup(R[r].ents, name)
       IN  IF i = 0 THEN (IF R[r].open THEN Exc(res, "ia") ELSE IsExc(res)) /\ UNCHANGED arr
           ELSE LET e == R[r].ents[i]
                IN IF ~R[r].open \/ e.bad THEN IsExc(res) /\ UNCHANGED arr
                   ELSE IF e.a.t # t THEN Exc(res, "rt") /\ UNCHANGED arr
                   ELSE /\ res.r = "ok" /\ res.dg = e.a.dg
                        /\ arr' = IF d = "" THEN arr ELSE Put(arr, d, e.a)
    /\ UNCHANGED <<files, blobs, W, R, seen>>

\* Everything a reader has, if there is such a reader.
RAll(r, res) ==
    /\ IF r \notin DOMAIN R THEN res.r = "none"
       ELSE /\ res.r = "ok" /\ R[r].open /\ Len(res.ents) = Len(R[r].ents)
            /\ \A i \in 1..Len(res.ents) :
                  LET j == Find1(R[r].ents, res.ents[i].n)
                  IN j # 0 /\ R[r].ents[j].a.t = res.ents[i].t /\ R[r].ents[j].a.dg = res.ents[i].dg
    /\ UNCHANGED npzVars

RClose(r, res) ==
    /\ r \in DOMAIN R /\ R[r].kind = "f"
    /\ res.r = "ok"
    /\ R' = [R EXCEPT ![r].open = FALSE]
    /\ UNCHANGED <<arr, files, blobs, W, seen>>

RIsOpen(r, res) ==
    /\ r \in DOMAIN R
    /\ res.r = "ok" /\ res.open = IF R[r].open THEN 1 ELSE 0
    /\ UNCHANGED npzVars

RDestroy(r) == r \in DOMAIN R /\ R' = Drop(R, r) /\ UNCHANGED <<arr, files, blobs, W, seen>>

\* A reader which is moved (onto another one, perhaps) goes on as before.
RMove(x, y) ==
    /\ x \in DOMAIN R /\ x # y
    /\ R' = Put(Drop(R, x), y, R[x])
    /\ UNCHANGED <<arr, files, blobs, W, seen>>

\* The environment changes the global locale: nothing depends on it.
SetLocale == UNCHANGED npzVars
=============================================================================
