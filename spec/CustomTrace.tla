---------------------------- MODULE CustomTrace ----------------------------
(* Recorded executions of the library against Custom. *)
EXTENDS Custom, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, cust, st, fs, W, R, ti, l>>

TraceInit == CustInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

RawArr(a) == [t |-> a.t, f |-> a.f, sh |-> ShapeNum(a.sh), el |-> a.el]
Res(x) == LET y == IF "h" \in DOMAIN x
                   THEN [x EXCEPT !.h = [t |-> x.h.t, en |-> x.h.en, f |-> x.h.f, sh |-> ShapeNum(x.h.sh), w |-> B(x.h.w)]]
                   ELSE x
          IN IF "a" \in DOMAIN y THEN [y EXCEPT !.a = RawArr(x.a)] ELSE y

Step ==
    LET e == Ev
        r == Res(e.res)
    IN CASE e.op = "amake" -> r.r = "ok" /\ Make(e.d, RawArr(e.a))
         [] e.op = "cnew" -> r.r = "ok" /\ New(e.d, [e.c EXCEPT !.sh = ShapeNum(e.c.sh)])
         [] e.op = "snew" -> StreamNew(e.s)
         [] e.op = "sput" -> StreamPut(e.s, e.b)
         [] e.op = "sseek" -> StreamSeek(e.s, e.pos)
         [] e.op = "csave" -> CSave(e.s, e.d, e.en, r)
         [] e.op = "ssave" -> Save(e.s, e.d, e.en, r)
         [] e.op = "cload" -> CLoad(e.s, e.take, e.throws = 1, r)
         [] e.op = "sload" -> Load(e.s, e.t, r)
         [] e.op = "cfsave" -> CFileSave(e.p, e.d, e.en, r)
         [] e.op = "fsave" -> FileSave(e.p, e.d, e.en, r)
         [] e.op = "fread" -> FileRead(e.p, r)
         [] e.op = "cfload" -> CFileLoad(e.p, e.take, e.throws = 1, r)
         [] e.op = "fload" -> FileLoad(e.p, e.t, r)
         [] e.op = "wopen" -> WOpen(e.w, e.m, e.en, r)
         [] e.op = "cwrite" -> CWrite(e.w, e.name, e.d, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wclose" -> WClose(e.w, r)
         [] e.op = "ropen" -> ROpen(e.x, e.w, r)
         [] e.op = "rkeys" -> RKeys(e.x, r)
         [] e.op = "cread" -> CRead(e.x, e.name, e.take, e.throws = 1, r)
         [] e.op = "rread" -> RRead(e.x, e.name, e.t, r)
         [] e.op = "rpeek" -> RPeek(e.x, e.name, r)
         [] e.op = "nothing" -> r.r = "ok" /\ UNCHANGED custVars
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED custVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
