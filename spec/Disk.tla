-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* Saving to a disk which may refuse data: which calls may succeed, which   *)
(* have to fail, and what is on disk after success.                         *)
(*                                                                         *)
(* Refusals of the device are observed (res.hits counts them during a call) *)
(* or follow from the capacity: a file never grows beyond room bytes.       *)
(***************************************************************************)
EXTENDS NpyFormat, Names

VARIABLES
    arr,     \* array slot -> [t, f, sh, w, dg]
    dev,     \* path -> "file" (the default), "full" (takes no byte), "none" (cannot be opened)
    W,       \* writer -> [path, m, ents: sequence of [n, a, en], closed, hurt, failed, sz]
    due,     \* path -> what has been promised to be there
    seen,    \* contents -> [n, bd]: size and digest of the bytes, as observed of a disk without faults
    room,    \* limit on the size of files, -1: none
    files    \* may files be opened at all

diskVars == <<arr, dev, W, due, seen, room, files>>
DiskInit == arr = << >> /\ dev = << >> /\ W = << >> /\ due = << >> /\ seen = << >> /\ room = -1 /\ files = TRUE

Dev(p) == IF ~files THEN "none" ELSE IF p \in DOMAIN dev THEN dev[p] ELSE "file"

Make(d, a, res) ==
    /\ res.r = "ok" /\ arr' = Put(arr, d, [a EXCEPT !.dg = res.dg])
    /\ UNCHANGED <<dev, W, due, seen, room, files>>
Device(p, kind) == dev' = Put(dev, p, kind) /\ UNCHANGED <<arr, W, due, seen, room, files>>
Room(n) == room' = n /\ UNCHANGED <<arr, dev, W, due, seen, files>>
OpenFiles(b) == files' = b /\ UNCHANGED <<arr, dev, W, due, seen, room>>
Plan == UNCHANGED diskVars

---------------------------------------------------------------------------
(* Sizes *)
RECURSIVE Prod(_)
Prod(sh) == IF sh = <<>> THEN 1 ELSE ValCap(B(sh[1])) * Prod(Tail(sh))
ImageSize(a, en) ==
    LET w == ValCap(B(a.w))
    IN  Len(HeaderOf(DescrOf(a.t, en, w), a.f, [i \in 1..Len(a.sh) |-> B(a.sh[i])]))
        + Prod(a.sh) * (IF a.t = "U" THEN 4 * w ELSE TypeSize[a.t])

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
StoredSize(ents) == 22 + SumOf([i \in 1..Len(ents) |-> 76 + 2 * Len(ents[i].n) + ImageSize(ents[i].a, ents[i].en)])

SizeOf(x) == \* of complete contents; -1: not known
    IF x.k = "npy" THEN ImageSize(x.a, x.en)
    ELSE IF x.m = 0 THEN StoredSize(x.ents)
    ELSE IF x \in DOMAIN seen THEN seen[x].n ELSE -1

---------------------------------------------------------------------------
(* One array in one file *)
MustFail(p, x) == Dev(p) # "file" \/ (room # -1 /\ SizeOf(x) > room)

FileSave(p, d, en, res) ==
    /\ d \in DOMAIN arr
    /\ LET x == [k |-> "npy", a |-> arr[d], en |-> Order(en)]
           refused == MustFail(p, x) \/ res.hits > 0
       IN  IF refused THEN /\ IF Dev(p) = "none" THEN Exc(res, "ia") ELSE IsExc(res)
                           /\ due' = Drop(due, p)
           ELSE /\ res.r = "ok" /\ res.same = 1
                /\ due' = Put(due, p, x)
    /\ UNCHANGED <<arr, dev, W, seen, room, files>>

---------------------------------------------------------------------------
(* Archives *)
Contents(w) == [k |-> "npz", m |-> w.m, ents |-> w.ents]

Hurt(w, res) == w.hurt \/ res.hits > 0

\* A writer may be made for any path: what is wrong with it shows later.
WOpen(w, p, m, en, res) ==
    /\ w \notin DOMAIN W
    /\ IF res.r = "ok"
       THEN /\ (Dev(p) = "none") <=> (res.open = 0)
            /\ W' = Put(W, w, [path |-> p, m |-> m, en |-> en, ents |-> <<>>, closed |-> FALSE,
                               hurt |-> Dev(p) = "none" \/ res.hits > 0, failed |-> FALSE])
       ELSE Dev(p) = "none" /\ IsExc(res) /\ UNCHANGED W
    /\ due' = Drop(due, p)
    /\ UNCHANGED <<arr, dev, seen, room, files>>

NoWriter(w, res) == w \notin DOMAIN W /\ UNCHANGED diskVars   \* its constructor failed

WWrite(w, name, d, res) == NoWriter(w, res) \/
    /\ w \in DOMAIN W /\ d \in DOMAIN arr
    /\ LET h == Hurt(W[w], res)
       IN  IF W[w].closed THEN (W[w].failed \/ Exc(res, "rt")) /\ UNCHANGED W
           ELSE IF res.r = "ok"
           THEN /\ res.same = 1
                /\ W' = [W EXCEPT ![w].ents = Append(@, [n |-> Stored(name), a |-> arr[d], en |-> Order(W[w].en)]), ![w].hurt = h]
           ELSE \* refused only if the device refuses
                /\ IsExc(res) /\ h
                /\ W' = [W EXCEPT ![w].hurt = TRUE, ![w].failed = TRUE]
    /\ UNCHANGED <<arr, dev, due, seen, room, files>>

\* The first close: silence is a promise.
WClose(w, res) == NoWriter(w, res) \/
    /\ w \in DOMAIN W
    /\ LET wr == W[w]
           h == Hurt(wr, res)
           x == Contents(wr)
           need == SizeOf(x)
       IN  IF wr.closed THEN res.r = "ok" \/ (wr.failed /\ IsExc(res))
           ELSE IF res.r = "ok"
           THEN wr.failed \/ (~h /\ Dev(wr.path) = "file" /\ (room = -1 \/ need <= room))
           ELSE IsExc(res) /\ h
    /\ due' = IF ~W[w].closed /\ res.r = "ok" /\ ~W[w].failed THEN Put(due, W[w].path, Contents(W[w])) ELSE due
    /\ W' = [W EXCEPT ![w].closed = TRUE, ![w].failed = @ \/ res.r # "ok", ![w].hurt = Hurt(W[w], res)]
    /\ UNCHANGED <<arr, dev, seen, room, files>>

\* Destruction never throws; if all went well the file is complete.
WDestroy(w, res) == NoWriter(w, res) \/
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ LET wr == W[w]
       IN  due' = IF ~wr.closed /\ ~Hurt(wr, res) /\ ~wr.failed /\ Dev(wr.path) = "file"
                     /\ (room = -1 \/ (SizeOf(Contents(wr)) # -1 /\ SizeOf(Contents(wr)) <= room))
                  THEN Put(due, wr.path, Contents(wr)) ELSE due
    /\ W' = Drop(W, w)
    /\ UNCHANGED <<arr, dev, seen, room, files>>

---------------------------------------------------------------------------
(* What is on disk: the complete contents, if they have been promised. *)
OnDisk(p, res) ==
    /\ IF p \notin DOMAIN due THEN UNCHANGED seen
       ELSE LET x == due[p]
                n == res.n
            IN  /\ res.r = "ok"
                /\ SizeOf(x) \in {-1, n}
                /\ IF x \in DOMAIN seen THEN seen[x] = [n |-> n, bd |-> res.bd] /\ UNCHANGED seen
                   ELSE seen' = Put(seen, x, [n |-> n, bd |-> res.bd])
    /\ UNCHANGED <<arr, dev, W, due, room, files>>
=============================================================================
