------------------------------ MODULE FrameMC ------------------------------
(***************************************************************************)
(* Calls which change something of the caller's for a while (the locale of  *)
(* a stream or of the process, the byte order of an array in place) and     *)
(* restore it: Frame holds only if they restore it on every way out, and    *)
(* copies are made where two objects would share.  All programs are printed.*)
(***************************************************************************)
EXTENDS Frame, Json

CONSTANTS
    MaxOps,
    RestoreReturn,  \* what was changed for a while is restored before a call returns
    RestoreThrow,   \* and before it throws
    Deep,           \* a copy of an array shares nothing with it
    Emit

VARIABLES hist, now, same   \* same: arrays which share their elements
vars == <<things, dirty, hist, now, same>>

V(n) == <<"1", "2", "3", "4", "5", "6", "7", "8">>[n]
Bump(v) == IF v = "8" THEN "1" ELSE V(CHOOSE n \in 2..8 : V(n - 1) = v)
Start == [x \in {"array t", "array v", "format s", "bytes s", "string b", "writer w", "reader x", "locale"} |-> "1"]
Init == things = Start /\ dirty = {} /\ hist = <<>> /\ now = Start /\ same = FALSE

Op(x) == Len(hist) < MaxOps /\ hist' = Append(hist, x)
\* a call changes xs for a while
Awhile(xs, ok, m) ==
    IF (ok /\ RestoreReturn) \/ (~ok /\ RestoreThrow) THEN m
    ELSE [n \in DOMAIN m |-> IF n \in xs THEN Bump(m[n]) ELSE m[n]]
With(xs) == [n \in DOMAIN now |-> IF n \in xs THEN Bump(now[n]) ELSE now[n]]
Shared(d) == IF same THEN {"array t", "array v"} ELSE {"array " \o d}

Ways == {TRUE, FALSE}
Save(d) == /\ Op("save " \o d) /\ SavesTo("s", TRUE) /\ UNCHANGED same
           /\ \E ok \in Ways : now' = Awhile({"array " \o d, "format s", "locale"}, ok, With({"bytes s"}))
FSave(d) == /\ Op("fsave " \o d) /\ Loads /\ UNCHANGED same
            /\ \E ok \in Ways : now' = Awhile({"array " \o d, "locale"}, ok, now)
Load(how) == /\ Op(how) /\ Loads /\ UNCHANGED same
             /\ \E ok \in Ways : now' = Awhile({"format s", "locale"}, ok, now)
Write(d) == /\ Op("write " \o d) /\ WritesTo("w") /\ UNCHANGED same
            /\ \E ok \in Ways : now' = Awhile({"array " \o d, "locale"}, ok, With({"writer w"}))
Read(how) == /\ Op(how) /\ Loads /\ UNCHANGED same
             /\ \E ok \in Ways : now' = Awhile({"string b", "reader x", "locale"}, ok, now)
Open == /\ Op("open") /\ ReaderMade("x") /\ UNCHANGED same
        /\ \E ok \in Ways : now' = Awhile({"string b", "locale"}, ok, now)
Close == Op("close") /\ WritesTo("w") /\ now' = With({"writer w"}) /\ UNCHANGED same
Set(d) == Op("set " \o d) /\ Sets(d) /\ now' = With(Shared(d)) /\ UNCHANGED same
Assign == /\ Op("assign") /\ Sets("v") /\ same' = (same \/ ~Deep)
          /\ now' = [now EXCEPT !["array v"] = now["array t"]]
See == hist # <<>> /\ Look(now) /\ UNCHANGED <<hist, now, same>>

Next ==
    \/ \E d \in {"t", "v"} : Save(d) \/ FSave(d) \/ Write(d) \/ Set(d)
    \/ \E h \in {"load", "badload", "peek"} : Load(h)
    \/ \E h \in {"read", "badread", "ask"} : Read(h)
    \/ Open \/ Close \/ Assign \/ See
Spec == Init /\ [][Next]_vars

Untouched == MayLook(now)
EmitCase == (Emit /\ Len(hist) = MaxOps) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
