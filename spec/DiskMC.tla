------------------------------- MODULE DiskMC -------------------------------
(***************************************************************************)
(* Why an archive file is complete if nothing was reported: a writer over a *)
(* buffered stream over a device which may refuse any transfer.             *)
(*                                                                         *)
(* The stream keeps a mark of failure; the library looks at it after each   *)
(* write (CheckWrite) and after closing the file (CheckClose), and never    *)
(* clears it (~Clear).  Exploring all user programs and all refusals, once  *)
(* or for good, shows which of these are needed.  Every user program is     *)
(* printed, to be run on the library with each transfer refused in turn.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, BufSize, CheckWrite, CheckClose, Clear, Emit

VARIABLES
    hist,      \* calls of the program
    want,      \* bytes which belong into the file
    buf,       \* bytes in the buffer
    acc,       \* bytes taken by the device
    hole,      \* some bytes were lost in between
    bad,       \* the stream's mark
    gone,      \* the device refuses for good
    closed, reported, promised, alive

vars == <<hist, want, buf, acc, hole, bad, gone, closed, reported, promised, alive>>

Init == /\ hist = <<>> /\ want = 0 /\ buf = 0 /\ acc = 0 /\ hole = FALSE /\ bad = FALSE /\ gone = FALSE
        /\ closed = FALSE /\ reported = FALSE /\ promised = FALSE /\ alive = TRUE

\* Results of handing n bytes to the stream, flushing or not: a set of [buf, acc, hole, bad, gone]
State == [buf |-> buf, acc |-> acc, hole |-> hole, bad |-> bad, gone |-> gone]
Transfer(s) ==
    IF s.buf = 0 THEN {s}
    ELSE (IF s.gone THEN {} ELSE {[s EXCEPT !.acc = @ + s.buf, !.buf = 0]})
         \cup {[s EXCEPT !.hole = TRUE, !.bad = TRUE, !.buf = 0, !.gone = g] : g \in {s.gone, TRUE}}
PutBytes(s, n) ==
    IF s.bad THEN {[s EXCEPT !.hole = TRUE]}
    ELSE LET t == [s EXCEPT !.buf = @ + n]
         IN IF t.buf >= BufSize THEN Transfer(t) ELSE {t}

Become(s) == buf' = s.buf /\ acc' = s.acc /\ hole' = s.hole /\ bad' = s.bad /\ gone' = s.gone

Write(n) ==
    /\ alive /\ Len(hist) < MaxOps
    /\ hist' = Append(hist, IF n < BufSize THEN "small" ELSE "large")
    /\ UNCHANGED <<closed, promised, alive>>
    /\ IF closed THEN UNCHANGED <<want, buf, acc, hole, bad, gone>> /\ reported' = TRUE
       ELSE LET s0 == IF Clear THEN [State EXCEPT !.bad = FALSE] ELSE State
            IN \E s \in PutBytes(s0, n) :
                /\ Become(s) /\ want' = want + n
                /\ reported' = (reported \/ (CheckWrite /\ s.bad))

Close ==
    /\ alive /\ Len(hist) < MaxOps
    /\ hist' = Append(hist, "close")
    /\ UNCHANGED alive
    /\ IF closed THEN UNCHANGED <<want, buf, acc, hole, bad, gone, closed, reported, promised>>
       ELSE \E s \in UNION {Transfer(t) : t \in PutBytes(State, 1)} : \E late \in {s.bad, TRUE} :
              /\ Become([s EXCEPT !.bad = late])
              /\ want' = want + 1 /\ closed' = TRUE
              /\ reported' = (reported \/ (CheckClose /\ late))
              /\ promised' = ~reported'

Destroy ==
    /\ alive /\ hist # <<>> /\ Len(hist) < MaxOps
    /\ alive' = FALSE /\ hist' = Append(hist, "del")
    /\ UNCHANGED <<want, buf, acc, hole, bad, gone, closed, reported, promised>>

Next == Write(1) \/ Write(BufSize) \/ Close \/ Destroy \/ (~alive /\ UNCHANGED vars)
        \/ (Len(hist) = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Complete == promised => acc = want /\ ~hole /\ buf = 0

EmitCase == (Emit /\ ~alive) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
