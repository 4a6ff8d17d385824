---------------------------- MODULE TensorTrace ----------------------------
(* Recorded executions of the library against Tensor. *)
EXTENDS Tensor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l
vars == <<heap, ti, l>>

TraceInit == TensorInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

Step ==
    LET e == Ev
        r == e.res
    IN  /\ CASE r.r = "exc" /\ "rhits" \in DOMAIN r /\ r.rhits > 0 -> Refused(e)
             [] e.op = "plan" -> r.r = "ok" /\ UNCHANGED heap
             [] e.op = "tnew" -> New(e.d, e.t, e.sh, e.f, r)
             [] e.op = "tnewbig" -> NewTooBig(r)
             [] e.op = "tcopy" -> Copy(e.d, e.s, r)
             [] e.op = "tmove" -> Move(e.d, e.s, r)
             [] e.op = "tassign" -> Assign(e.d, e.s, r)
             [] e.op = "tmassign" -> MoveAssign(e.d, e.s, e.keep = 1, r)
             [] e.op = "tdel" -> Delete(e.d, r)
             [] e.op = "tset" -> Set(e.d, e.i, e.v, e.form, r)
             [] e.op = "tget" -> Get(e.d, e.i, e.form, r)
             [] e.op = "tsweep" -> Sweep(e.d, e.idx, e.form, r)
             [] e.op = "rsweep" -> RampSweep(e.sh, e.f, e.idx, e.form, r)
             [] e.op = "thuge" -> HugeSweep(e.sh, e.f, e.idx, e.form, r)
             [] e.op = "tbulk" -> Bulk(e.d, e.el, r)
             [] e.op = "tbulkfrom" -> BulkFrom(e.d, e.s, r)
             [] e.op = "tpoke" -> Poke(e.d, e.k, e.v, r)
             [] e.op = "end" -> r.r = "end" /\ UNCHANGED heap
             [] OTHER -> FALSE
        /\ IF e.op \in {"end", "plan"} THEN TRUE
           ELSE IF "heap" \in DOMAIN r THEN Shown(heap', r.heap) ELSE FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
