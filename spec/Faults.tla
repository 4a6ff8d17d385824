------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Calls during which the machine refuses something: a read of the medium,  *)
(* or memory.  A call may throw because of that (any exception), and then   *)
(* nothing has happened but what is said here; or it does not throw, and    *)
(* then it is held to the very action it is held to on a good day.          *)
(***************************************************************************)
EXTENDS Npz

\* res.rhits counts the refusals during the call
Hit(res) == "rhits" \in DOMAIN res /\ res.rhits > 0
\* (a writer of a file which could not be opened says so)
Refused(e, res) == Hit(res) /\ (res.r = "exc" \/ (e.op = "wopen" /\ res.r = "ok" /\ res.open = 0))

Asking == {"fload", "fpeek", "rkeys", "rhas", "rpeek", "rread", "risopen", "wisopen", "seq", "wstr"}

\* What is on the path is not known any more: nobody asks.
Lost(p) == files' = Put(files, p, [k |-> "lost"])

RefusedStep(e) ==
    CASE e.op \in Asking -> UNCHANGED npzVars
      [] e.op \in {"ropenf", "ropenb"} -> UNCHANGED npzVars
      [] e.op = "fsave" -> Lost(e.p) /\ UNCHANGED <<arr, blobs, W, R, seen>>
      [] e.op = "wopen" -> /\ W' = Drop(W, e.w)
                           /\ IF e.kind = "f" THEN Lost(e.p) ELSE UNCHANGED files
                           /\ UNCHANGED <<arr, blobs, R, seen>>
      [] e.op = "wwrite" -> \* the entry is not there; the writer may be of no use any more, but it says so
            /\ e.w \in DOMAIN W
            /\ IF W[e.w].closed THEN UNCHANGED W
               ELSE W' = [W EXCEPT ![e.w].hurt = "hurt", ![e.w].bd = ""]
            /\ UNCHANGED <<arr, files, blobs, R, seen>>
      [] e.op = "wclose" -> \* no archive has come of it
            /\ e.w \in DOMAIN W /\ ~W[e.w].closed
            /\ W' = [W EXCEPT ![e.w].hurt = "broken", ![e.w].closed = TRUE, ![e.w].bd = ""]
            /\ Refresh(W', e.w)
            /\ UNCHANGED <<arr, blobs, R, seen>>
      [] OTHER -> FALSE
=============================================================================
