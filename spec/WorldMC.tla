------------------------------ MODULE WorldMC ------------------------------
(***************************************************************************)
(* Users of one archive writer, one archive reader, single arrays and       *)
(* streams, on a system with a table of descriptors and files: that every   *)
(* path through a call gives back what it took makes the footprint that of  *)
(* World.  Constants switch the steps which give back on and off: without   *)
(* any of them World is violated.  All programs are printed.                *)
(***************************************************************************)
EXTENDS World, Json

CONSTANTS
    MaxOps,
    CleanRefused,    \* an opening which is refused closes the file
    CleanThrown,     \* a load or save which throws closes the file
    CloseReleases,   \* closing an archive closes its file
    DestroyReleases, \* so does destroying it
    ReadOnly,        \* readers open files for reading only
    Emit

VARIABLES
    hist,
    fdt,     \* open descriptors: objects, or calls which left one
    disk     \* path |-> version

vars == <<files, dirty, objs, hist, fdt, disk>>

Given == [x \in {"g", "d", "j"} |-> "1"]   \* archives: good, damaged; no archive
V(n) == <<"1", "2", "3", "4", "5", "6", "7", "8">>[n]
Next1(v) == V(CHOOSE n \in 2..8 : V(n - 1) = v)

Init == /\ files = Given /\ dirty = {} /\ objs = Nothing
        /\ hist = <<>> /\ fdt = {} /\ disk = Given

Op(x) == Len(hist) < MaxOps /\ hist' = Append(hist, x)
Bump(p) == disk' = IF p \in DOMAIN disk THEN [disk EXCEPT ![p] = Next1(@)] ELSE With(disk, p, "1")
Left(ok) == IF ok \/ CleanThrown THEN {} ELSE {<<"call", Len(hist)>>}
Ok == [r |-> "ok"]
Exc == [r |-> "exc"]
\* what a named object had is let go
Drop(k) == IF DestroyReleases THEN fdt \ {<<"obj", k>>} ELSE {IF t = <<"obj", k>> THEN <<"lost", Len(hist)>> ELSE t : t \in fdt}

SaveP == Op("save") /\ Bump("p") /\ Writes("p") /\ UNCHANGED fdt
SaveThrows == Op("savex") /\ Bump("p") /\ Writes("p") /\ fdt' = fdt \cup Left(FALSE)
Load(p) == /\ Op("load " \o p)
           /\ \E ok \in {TRUE, FALSE} : fdt' = fdt \cup Left(ok)
           /\ UNCHANGED disk /\ Quiet
WOpen == Op("wopen") /\ Bump("p") /\ fdt' = Drop("w") \cup {<<"obj", "w">>} /\ Opened("w", "p", TRUE, TRUE, Ok)
WWrite == "w" \in DOMAIN objs /\ Op("wwrite") /\ UNCHANGED fdt /\ Quiet
          /\ (IF objs["w"].open = "yes" THEN Bump("p") ELSE UNCHANGED disk)
WClose == "w" \in DOMAIN objs /\ Op("wclose") /\ Closed("w", Ok)
          /\ (IF objs["w"].open = "yes" THEN Bump("p") ELSE UNCHANGED disk)
          /\ fdt' = IF CloseReleases THEN fdt \ {<<"obj", "w">>} ELSE fdt
WDel == "w" \in DOMAIN objs /\ Op("wdel") /\ Gone("w", Ok) /\ fdt' = Drop("w")
        /\ (IF objs["w"].open = "yes" THEN Bump("p") ELSE UNCHANGED disk)
ROpen(p) ==
    /\ Op("ropen " \o p)
    /\ IF ReadOnly \/ p \notin DOMAIN disk THEN UNCHANGED disk ELSE Bump(p)
    /\ \E ok \in IF p \in {"g", "d"} THEN {TRUE} ELSE IF p = "p" THEN {TRUE, FALSE} ELSE {FALSE} :
         /\ Opened("x", p, FALSE, p \in DOMAIN disk, IF ok THEN Ok ELSE Exc)
         /\ fdt' = IF ok THEN Drop("x") \cup (IF p \in DOMAIN disk THEN {<<"obj", "x">>} ELSE {})
                   ELSE IF CleanRefused \/ p \notin DOMAIN disk THEN fdt ELSE fdt \cup {<<"call", Len(hist)>>}
RRead == "x" \in DOMAIN objs /\ Op("rread") /\ UNCHANGED <<fdt, disk>> /\ Quiet
RClose == "x" \in DOMAIN objs /\ Op("rclose") /\ Closed("x", Ok) /\ UNCHANGED disk
          /\ fdt' = IF CloseReleases THEN fdt \ {<<"obj", "x">>} ELSE fdt
RMove == "x" \in DOMAIN objs /\ Op("rmove") /\ Moved("x", "y", Ok) /\ UNCHANGED disk
         /\ fdt' = {IF t = <<"obj", "x">> THEN <<"obj", "y">> ELSE t : t \in Drop("y")}
RDel(k) == k \in DOMAIN objs /\ Op("rdel " \o k) /\ Gone(k, Ok) /\ UNCHANGED disk /\ fdt' = Drop(k)
See == /\ hist # <<>> /\ Look(Cardinality(fdt), disk)
       /\ UNCHANGED <<hist, fdt, disk>>

Next ==
    \/ SaveP \/ SaveThrows \/ \E p \in {"p", "j", "n"} : Load(p)
    \/ WOpen \/ WWrite \/ WClose \/ WDel
    \/ \E p \in {"p", "g", "d", "j", "n"} : ROpen(p)
    \/ RRead \/ RClose \/ RMove \/ RDel("x") \/ RDel("y")
    \/ See
Spec == Init /\ [][Next]_vars

Footprint == MayLook(Cardinality(fdt), disk)
NothingLeft == DOMAIN objs = {} => fdt = {}
EmitCase == (Emit /\ Len(hist) = MaxOps) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
