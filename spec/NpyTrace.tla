------------------------------ MODULE NpyTrace ------------------------------
(* Recorded executions of the library against Npy. *)
EXTENDS Npy, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, st, fs, ti, l>>

TraceInit == NpyInit /\ l = 1 /\ ti \in 1..Len(Traces)

Ev == Traces[ti].ev[l]

RawArr(a) == [t |-> a.t, f |-> a.f, sh |-> ShapeNum(a.sh), el |-> a.el]
\* results: numerals from JSON strings
Res(x) == CASE x.r = "ok" /\ "a" \in DOMAIN x -> [x EXCEPT !.a = RawArr(x.a)]
            [] x.r = "ok" /\ "h" \in DOMAIN x ->
                 [x EXCEPT !.h = [t |-> x.h.t, en |-> x.h.en, f |-> x.h.f,
                                  sh |-> ShapeNum(x.h.sh), w |-> B(x.h.w)]]
            [] x.r = "ok" /\ "as" \in DOMAIN x -> [x EXCEPT !.as = [i \in DOMAIN x.as |-> RawArr(x.as[i])]]
            [] OTHER -> x

Step ==
    LET e == Ev
        r == Res(e.res)
    IN CASE e.op = "amake" -> e.res.r = "ok" /\ Make(e.d, RawArr(e.a))
         [] e.op = "snew" -> StreamNew(e.s)
         [] e.op = "sput" -> StreamPut(e.s, e.b)
         [] e.op = "sset" -> StreamSet(e.s, e.b)
         [] e.op = "sseek" -> StreamSeek(e.s, e.pos)
         [] e.op = "sback" -> r.r = "ok" /\ StreamSeek(e.s, r.pos)
         [] e.op = "sskip" -> StreamSkip(e.s, e.n, r)
         [] e.op = "ptake" -> PipeTake(e.s, Len(e.ts), r)
         [] e.op = "ssave" -> StreamSave(e.s, e.d, e.en, r)
         [] e.op = "sload" -> StreamLoad(e.s, e.t, e.d, r)
         [] e.op = "pload" -> PipeLoad(e.s, e.t, e.from, r)
         [] e.op = "speek" -> StreamPeek(e.s, r)
         [] e.op = "ppeek" -> PipePeek(e.s, e.from, r)
         [] e.op = "hinfo" -> DictInfo(e.b, r)
         [] e.op = "lpad" -> PadLoad(e.head, e.pad, e.post, e.whole = 1, e.t, r)
         [] e.op = "lpeek" -> PadPeek(e.head, e.pad, e.post, e.whole = 1, r)
         [] e.op = "fwrite" -> FileWrite(e.p, e.b)
         [] e.op = "fdel" -> FileDelete(e.p)
         [] e.op = "fsave" -> FileSave(e.p, e.d, e.en, r)
         [] e.op = "fsavebad" -> FileSaveFails(e.p, r)
         [] e.op = "fread" -> FileRead(e.p, r)
         [] e.op = "fload" -> FileLoad(e.p, e.t, e.d, r)
         [] e.op = "fpeek" -> FilePeek(e.p, r)
         [] e.op = "todtype" -> ToDtype(e.t, e.en, r)
         [] e.op = "fromdtype" -> FromDtype(e.code, r)
         [] e.op = "boolbytes" -> BoolBytes(e.b, r)
         [] e.op = "boolconv" -> BoolConv(e.truth, r)
         [] e.op = "locale" -> SetLocale
         [] e.op = "end" -> e.res.r = "end" /\ UNCHANGED npyVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* what TLC shows of the states of a rejected trace
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
