----------------------------- MODULE DiskTrace -----------------------------
(* Recorded executions of the library against Disk. *)
EXTENDS Disk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, dev, W, due, seen, room, files, ti, l>>

TraceInit == DiskInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

\* calls before the first plan of faults do not report refusals
Res(r) == IF "hits" \in DOMAIN r THEN r ELSE [x \in DOMAIN r \cup {"hits"} |-> IF x = "hits" THEN 0 ELSE r[x]]

Step ==
    LET e == Ev
        r == Res(e.res)
    IN CASE e.op = "amake" -> Make(e.d, e.a, r)
         [] e.op = "device" -> r.r = "ok" /\ Device(e.p, e.kind)
         [] e.op = "room" -> r.r = "ok" /\ Room(e.n)
         [] e.op = "openfiles" -> r.r = "ok" /\ OpenFiles(e.yes = 1)
         [] e.op = "plan" -> r.r = "ok" /\ Plan
         [] e.op = "fsave" -> FileSave(e.p, e.d, e.en, r)
         [] e.op = "wopen" -> WOpen(e.w, e.p, e.m, e.en, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wclose" -> WClose(e.w, r)
         [] e.op = "wdel" -> WDestroy(e.w, r)
         [] e.op = "fdig" -> OnDisk(e.p, r)
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED diskVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
