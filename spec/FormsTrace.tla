----------------------------- MODULE FormsTrace -----------------------------
(* Recorded executions of the library against Forms. *)
EXTENDS Forms, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, obj, ans, ti, l>>

TraceInit == FormInit /\ l = 1 /\ ti \in 1..Len(Traces)

Step ==
    LET e == Traces[ti].ev[l]
        r == e.res
    IN CASE e.op = "make" -> r.r = "ok" /\ Make(e.d, e.a)
         [] e.op = "save" -> Save(e.o, e.d, e.en, r)
         [] e.op = "bytes" -> Bytes1(e.o, r)
         [] e.op = "load" -> Load(e.o, e.t, r)
         [] e.op = "peek" -> Peek(e.o, r)
         [] e.op = "raw" -> Raw(e.o, e.id)
         [] e.op = "copy" -> r.r = "ok" /\ Copy(e.o, e.from)
         [] e.op = "wopen" -> WOpen(e.w, e.m, e.en, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wdone" -> WDone(e.w, e.o, r)
         [] e.op = "ropen" -> ROpen(e.x, e.o, r)
         [] e.op = "ask" -> Ask(e.x, e.q, r)
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED formVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
