------------------------------ MODULE ZipTrace ------------------------------
(* Recorded executions of the library against Zip. *)
EXTENDS Zip, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, mem, W, R, ref, ti, l>>

TraceInit == ZipInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

RawArr(a) == [t |-> a.t, f |-> a.f, sh |-> ShapeNum(a.sh), el |-> a.el]
Res(x) == CASE x.r = "ok" /\ "a" \in DOMAIN x -> [x EXCEPT !.a = RawArr(x.a)]
            [] x.r = "ok" /\ "h" \in DOMAIN x ->
                 [x EXCEPT !.h = [t |-> x.h.t, en |-> x.h.en, f |-> x.h.f,
                                  sh |-> ShapeNum(x.h.sh), w |-> B(x.h.w)]]
            [] OTHER -> x

Step ==
    LET e == Ev
        r == Res(e.res)
    IN CASE e.op = "amake" -> Make(e.d, RawArr(e.a), r)
         [] e.op = "wopen" -> WOpen(e.w, e.m, e.en, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wthrow" -> WWriteThrows(e.w, r)
         [] e.op = "wclose" -> WClose(e.w, r)
         [] e.op = "wdel" -> WDestroy(e.w, r)
         [] e.op = "wbytes" -> WBytes(e.w, e.d, r)
         [] e.op = "mset" -> MSet(e.d, e.b)
         [] e.op = "medit" -> MEdit(e.s, e.d, e.off, e.n, e.ins)
         [] e.op = "ropen" -> ROpen(e.x, e.d, r)
         [] e.op = "rkeys" -> RKeys(e.x, r)
         [] e.op = "rhas" -> RHas(e.x, e.name, r)
         [] e.op = "rpeek" -> RPeek(e.x, e.name, r)
         [] e.op = "rread" -> RRead(e.x, e.name, e.t, r)
         [] e.op = "pref" -> ProbeRef(e.d, e.names, r)
         [] e.op = "pedit" -> ProbeEdit(e.off, e.n, e.ins, r)
         [] e.op = "plate" -> ProbeLate(r)
         [] e.op = "punfin" -> ProbeUnfinished(r)
         [] e.op = "pfin" -> ProbeFinished(r)
         [] e.op = "end" -> UNCHANGED zipVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
