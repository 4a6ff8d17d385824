-------------------------------- MODULE Npy --------------------------------
(***************************************************************************)
(* Saving, loading and peeking NPY images on byte streams and files.       *)
(*                                                                         *)
(* State: arrays of the program, byte streams with a read position, files. *)
(* Every action is one call of the library (or of its environment) and     *)
(* takes the observed result as its last argument, so that the same        *)
(* actions serve exhaustive checking (the result is then chosen by the     *)
(* specification) and validation of recorded executions.                   *)
(***************************************************************************)
EXTENDS Results, Wide

VARIABLES
    arr,    \* array slot -> array
    st,     \* stream slot -> [b: bytes, p: read position (0-based), -1 unknown]
    fs      \* file name -> bytes

npyVars == <<arr, st, fs>>

NpyInit == arr = << >> /\ st = << >> /\ fs = << >>

\* The program defines an array.
Make(d, a) == arr' = Put(arr, d, a) /\ UNCHANGED <<st, fs>>

---------------------------------------------------------------------------
(* Streams *)

StreamNew(s) == st' = Put(st, s, [b |-> <<>>, p |-> 0]) /\ UNCHANGED <<arr, fs>>

\* The program writes bytes of its own.
StreamPut(s, bytes) ==
    /\ s \in DOMAIN st
    /\ st' = [st EXCEPT ![s].b = @ \o bytes]
    /\ UNCHANGED <<arr, fs>>

\* The stream is replaced by one with given contents.
StreamSet(s, bytes) ==
    /\ st' = Put(st, s, [b |-> bytes, p |-> 0])
    /\ UNCHANGED <<arr, fs>>

StreamSeek(s, pos) ==
    /\ s \in DOMAIN st
    /\ st' = [st EXCEPT ![s].p = pos]
    /\ UNCHANGED <<arr, fs>>

\* Saving appends exactly one image, and leaves the array alone; what cannot
\* be represented is refused before anything is written.
SaveAllowed(a, en, res) ==
    LET img == Encode(a, en)
    IN  IF img = <<>> THEN IsExc(res) /\ res.app = <<>> /\ res.pre = 1 /\ res.same = 1
        ELSE /\ res.r = "ok" /\ res.pre = 1 /\ res.same = 1 /\ res.good = 1
             /\ res.app = img

StreamSave(s, d, en, res) ==
    /\ s \in DOMAIN st /\ d \in DOMAIN arr
    /\ SaveAllowed(arr[d], en, res)
    /\ st' = [st EXCEPT ![s].b = @ \o res.app]
    /\ UNCHANGED <<arr, fs>>

StreamLoad(s, t, d, res) ==
    /\ s \in DOMAIN st /\ st[s].p >= 0
    /\ LET x == Parse(st[s].b, st[s].p + 1)
       IN  /\ LoadAllowed(x, t, res)
           /\ IF res.r = "ok"
              THEN /\ x.v = "any" \/ res.pos = x.next - 1
                   /\ st' = [st EXCEPT ![s].p = res.pos]
                   /\ arr' = IF d = "" THEN arr ELSE Put(arr, d, res.a)
              ELSE st' = [st EXCEPT ![s].p = -1] /\ UNCHANGED arr
    /\ UNCHANGED fs

\* Loading from a stream that cannot seek: the same bytes from position pos.
PipeLoad(s, t, from, res) ==
    /\ s \in DOMAIN st
    /\ LET x == Parse(st[s].b, from + 1)
       IN  /\ LoadAllowed(x, t, res)
           /\ res.r = "ok" => x.v = "any" \/ res.pos = x.next - 1
    /\ UNCHANGED npyVars

\* The program itself reads n bytes.
StreamSkip(s, n, res) ==
    /\ s \in DOMAIN st /\ st[s].p >= 0
    /\ res.r = "ok" /\ res.b = SubSeq(st[s].b, st[s].p + 1, st[s].p + n)
    /\ st' = [st EXCEPT ![s].p = @ + n]
    /\ UNCHANGED <<arr, fs>>

\* Consecutive loads from one stream that cannot seek: one image after another.
RECURSIVE Images(_, _, _)
Images(b, p, n) == IF n = 0 THEN <<>> ELSE LET x == Parse(b, p) IN <<x>> \o Images(b, x.next, n - 1)
PipeTake(s, n, res) ==
    /\ s \in DOMAIN st
    /\ LET xs == Images(st[s].b, 1, n)
       IN  /\ \A i \in 1..n : xs[i].v = "ok"
           /\ res.r = "ok" /\ res.as = [i \in 1..n |-> xs[i].a]
           /\ res.pos = xs[n].next - 1
    /\ UNCHANGED npyVars

StreamPeek(s, res) ==
    /\ s \in DOMAIN st /\ st[s].p >= 0
    /\ LET h == ParseHeader(st[s].b, st[s].p + 1)
       IN  /\ PeekAllowed(h, res)
           /\ IF res.r = "ok"
              THEN /\ h.v = "any" \/ res.pos = h.next - 1
                   /\ st' = [st EXCEPT ![s].p = res.pos]
              ELSE st' = [st EXCEPT ![s].p = -1]
    /\ UNCHANGED <<arr, fs>>

PipePeek(s, from, res) ==
    /\ s \in DOMAIN st
    /\ LET h == ParseHeader(st[s].b, from + 1)
       IN  /\ PeekAllowed(h, res)
           /\ res.r = "ok" => h.v = "any" \/ res.pos = h.next - 1
    /\ UNCHANGED npyVars

\* A version 2.0 image whose dictionary is followed by pad spaces (a wide
\* number) before the line ends: as if there were none, but as much longer.
\* keep = FALSE: it ends within the spaces.
Unpadded(head, post) ==
    Magic \o <<2, 0>> \o SubSeq(WAt(WOf(Len(head) + 1), 1, 8), 1, 4) \o head \o <<Newline>> \o post
PadLoad(head, pad, post, whole, t, res) ==
    /\ IF ~whole THEN IsExc(res)
       ELSE LET x == Parse(Unpadded(head, post), 1)
            IN  /\ LoadAllowed(x, t, res)
                /\ res.r = "ok" => res.at = WAdd(WOf(x.next - 1), pad)
    /\ UNCHANGED npyVars
PadPeek(head, pad, post, whole, res) ==
    /\ IF ~whole THEN IsExc(res)
       ELSE LET h == ParseHeader(Unpadded(head, post), 1)
            IN  /\ PeekAllowed(h, res)
                /\ res.r = "ok" => res.at = WAdd(WOf(h.next - 1), pad)
    /\ UNCHANGED npyVars

---------------------------------------------------------------------------
(* Files *)

FileWrite(p, bytes) == fs' = Put(fs, p, bytes) /\ UNCHANGED <<arr, st>>
FileDelete(p) == fs' = Drop(fs, p) /\ UNCHANGED <<arr, st>>

FileSave(p, d, en, res) ==
    /\ d \in DOMAIN arr
    /\ LET img == Encode(arr[d], en)
       IN  IF img = <<>> THEN IsExc(res) /\ fs' = Drop(fs, p)
           ELSE res.r = "ok" /\ res.same = 1 /\ fs' = Put(fs, p, img)
    /\ UNCHANGED <<arr, st>>

\* A path which cannot be opened.
FileSaveFails(p, res) == res.r = "exc" /\ res.k = "ia" /\ UNCHANGED npyVars

FileRead(p, res) ==
    /\ IF p \in DOMAIN fs THEN res.r = "ok" /\ res.b = fs[p] ELSE res.r = "none"
    /\ UNCHANGED npyVars

FileLoad(p, t, d, res) ==
    /\ IF p \notin DOMAIN fs THEN res.r = "exc" /\ res.k = "ia"
       ELSE LoadAllowed(Parse(fs[p], 1), t, res)
    /\ arr' = IF res.r = "ok" /\ d # "" THEN Put(arr, d, res.a) ELSE arr
    /\ UNCHANGED <<st, fs>>

FilePeek(p, res) ==
    /\ IF p \notin DOMAIN fs THEN res.r = "exc" /\ res.k = "ia"
       ELSE PeekAllowed(ParseHeader(fs[p], 1), res)
    /\ UNCHANGED npyVars

\* The dictionary alone.
DictInfo(b, res) == PeekAllowed(ParseDict(b), res) /\ UNCHANGED npyVars

---------------------------------------------------------------------------
(* Type codes *)

ToDtype(t, en, res) ==
    /\ IF t = "U" THEN IsExc(res) ELSE res.r = "ok" /\ res.code = DescrOf(t, en, 0)
    /\ UNCHANGED npyVars

FromDtype(code, res) ==
    /\ IF code \in DOMAIN StrictCodes
       THEN res.r = "ok" /\ res.t = StrictCodes[code][1] /\ res.en = StrictCodes[code][2]
       ELSE IsExc(res)
    /\ UNCHANGED npyVars

\* A boolean made from a C++ value: truth is the truth of that value.
BoolConv(truth, res) ==
    /\ res.r = "ok" /\ res.size = 1
    /\ res.byte = truth /\ res.truth = truth /\ res.cond = truth
    /\ res.neg = 1 - truth /\ res.saved = truth
    /\ UNCHANGED npyVars

\* Booleans from a file: a byte which is neither 0 nor 1 is true, or refused.
BoolBytes(b, res) ==
    /\ \/ res.r = "ok" /\ res.v = [i \in 1..Len(b) |-> IF b[i] = 0 THEN 0 ELSE 1]
       \/ IsExc(res) /\ \E i \in 1..Len(b) : b[i] > 1
    /\ UNCHANGED npyVars

\* The environment changes the global locale: nothing depends on it.
SetLocale == UNCHANGED npyVars
=============================================================================
