----------------------------- MODULE WorldTrace -----------------------------
(* Recorded executions of the library against World. *)
EXTENDS World, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<files, dirty, objs, ti, l>>

TraceInit == WorldInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

Listing(s) == [p \in {s[i].n : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].n = p].a]
Fine(r) == r.r \in {"ok", "exc"}

Step ==
    LET e == Ev
        r == e.res
    IN CASE e.op = "quiet" -> Fine(r) /\ Quiet
         [] e.op = "must" -> r.r = "ok" /\ Quiet
         [] e.op = "writes" -> Fine(r) /\ Writes(e.p)
         [] e.op = "opened" -> Opened(e.w, e.p, e.writes = 1, e.can = 1, r)
         [] e.op = "closed" -> Closed(e.w, r)
         [] e.op = "gone" -> Gone(e.w, r)
         [] e.op = "moved" -> Moved(e.x, e.y, r)
         [] e.op = "isopen" -> IsOpen(e.w, r)
         [] e.op = "base" -> r.r = "ok" /\ First(Listing(r.files))
         [] e.op = "look" -> r.r = "ok" /\ Look(r.fds, Listing(r.files))
         [] e.op = "again" -> r.r = "ok" /\ Again(r.grow, r.fds)
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED worldVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
