------------------------------ MODULE BigTrace ------------------------------
(* Recorded executions of the library against Big. *)
EXTENDS Big, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, W, arch, R, ti, l>>

TraceInit == BigInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

Step ==
    LET e == Ev
        r == e.res
    IN CASE e.op = "amake" -> Make(e.d, [e.a EXCEPT !.sh = [i \in 1..Len(e.a.sh) |-> B(e.a.sh[i])]], r)
         [] e.op = "wopen" -> WOpen(e.w, e.m, e.en, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wbulk" -> WBulk(e.w, e.name, e.from, e.n, e.d, r, r.done)
         [] e.op = "wclose" -> WClose(e.w, e.place, r)
         [] e.op = "wdel" -> WDestroy(e.w, e.place, r)
         [] e.op = "declare" -> Declare(e.d, [e.a EXCEPT !.sh = [i \in 1..Len(e.a.sh) |-> B(e.a.sh[i])]])
         [] e.op = "bforeign" -> Foreign(e.place, e.runs, r)
         [] e.op = "zbig" -> Records(e.place, r)
         [] e.op = "ropen" -> IF r.r = "exc" /\ "rhits" \in DOMAIN r /\ r.rhits > 0
                              THEN UNCHANGED bigVars \* (the medium failed)
                              ELSE ROpen(e.x, e.place, r)
         [] e.op = "rkeys" -> RKeys(e.x, r)
         [] e.op = "rkeysif" -> IF e.x \in DOMAIN R THEN RKeys(e.x, r) ELSE r.r = "none" /\ UNCHANGED bigVars
         [] e.op = "rhas" -> RHas(e.x, e.name, r)
         [] e.op = "rpeek" -> RPeek(e.x, e.name, r)
         [] e.op = "rread" -> RRead(e.x, e.name, e.t, r)
         [] e.op = "rdel" -> RDestroy(e.x)
         [] e.op = "nothing" -> r.r = "ok" /\ UNCHANGED bigVars
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED bigVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
