------------------------------- MODULE MemMC -------------------------------
(***************************************************************************)
(* Why an archive in memory is what was written although memory may be      *)
(* refused: a write first makes the image of the array in a stream of its   *)
(* own, then appends it to the stream of the archive, then notes the entry. *)
(* A stream which gets no memory drops data and keeps a mark, silently: so  *)
(* the library has to look at the mark of the first (CheckImage), of the    *)
(* second after each write (CheckWrite) and when closing (CheckClose).      *)
(* Every user program is printed, to be run on the library.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, CheckImage, CheckWrite, CheckClose, Emit

VARIABLES hist, alive, closed, mark, owed, noted, dir, promised

vars == <<hist, alive, closed, mark, owed, noted, dir, promised>>

\* owed: entries whose write returned; noted: entries of the directory, TRUE if their bytes are all there
Init == /\ hist = <<>> /\ alive = TRUE /\ closed = FALSE /\ mark = FALSE
        /\ owed = 0 /\ noted = <<>> /\ dir = FALSE /\ promised = FALSE

Say(op, hit) == hist' = Append(hist, [op |-> op, hit |-> hit])
On == alive /\ Len(hist) < MaxOps

Write(at) ==
    /\ On /\ Say("write", at # "none")
    /\ UNCHANGED <<alive, closed, dir, promised>>
    /\ IF closed THEN UNCHANGED <<mark, owed, noted>>
       ELSE LET m == mark \/ at = "archive"
                throws == \/ at \in {"call", "note"}           \* reported by the allocation itself
                          \/ CheckImage /\ at = "image"
                          \/ CheckWrite /\ m
            IN /\ mark' = (IF at = "call" \/ (CheckImage /\ at = "image") THEN mark ELSE m)
               /\ IF throws THEN UNCHANGED <<owed, noted>>
                  ELSE owed' = owed + 1 /\ noted' = Append(noted, ~m /\ at # "image")

Close(hit) ==
    /\ On /\ Say("close", hit)
    /\ UNCHANGED <<alive, owed, noted>>
    /\ IF closed THEN UNCHANGED <<closed, mark, dir, promised>>
       ELSE /\ closed' = TRUE /\ mark' = (mark \/ hit)
            /\ dir' = ~mark'
            /\ promised' = ~(CheckClose /\ mark')

Str(hit) == On /\ Say("str", hit) /\ UNCHANGED <<alive, closed, mark, owed, noted, dir, promised>>
Del == /\ On /\ hist # <<>> /\ Say("del", FALSE) /\ alive' = FALSE
       /\ UNCHANGED <<closed, mark, owed, noted, dir, promised>>

Next == \/ \E at \in {"none", "call", "image", "archive", "note"} : Write(at)
        \/ \E hit \in BOOLEAN : Close(hit) \/ Str(hit)
        \/ Del
        \/ (~On /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* A close which returns has left an archive of exactly the entries whose writes returned.
Complete == promised => dir /\ Len(noted) = owed /\ \A i \in 1..Len(noted) : noted[i]

EmitCase == (Emit /\ ~On) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
