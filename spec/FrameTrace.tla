----------------------------- MODULE FrameTrace -----------------------------
(* Recorded executions of the library against Frame. *)
EXTENDS Frame, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<things, dirty, ti, l>>

TraceInit == FrameInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

Listing(s) == [p \in {s[i].n : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].n = p].a]
Fine(r) == r.r \in {"ok", "exc"}

Step ==
    LET e == Ev
        r == e.res
    IN CASE e.op = "quiet" -> Fine(r) /\ Loads
         [] e.op = "must" -> r.r = "ok" /\ Loads
         [] e.op = "saves" -> Fine(r) /\ SavesTo(e.s, "pre" \notin DOMAIN r \/ r.pre = 1)
         [] e.op = "writer" -> Fine(r) /\ WritesTo(e.w)
         [] e.op = "reader" -> Fine(r) /\ ReaderMade(e.x)
         [] e.op = "array" -> Fine(r) /\ Sets(e.d)
         [] e.op = "moves" -> Fine(r) /\ Moves(e.d, e.s)
         [] e.op = "stream" -> Fine(r) /\ Streams(e.s)
         [] e.op = "string" -> Fine(r) /\ Strings(e.b)
         [] e.op = "user" -> Fine(r) /\ Users(e.d)
         [] e.op = "setlocale" -> Fine(r) /\ Locale
         [] e.op = "base" -> r.r = "ok" /\ First(Listing(r.files))
         [] e.op = "look" -> r.r = "ok" /\ Look(Listing(r.files))
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED frameVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
