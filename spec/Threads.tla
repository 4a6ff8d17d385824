------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Calls of the library from several threads, each on objects of its own.  *)
(*                                                                         *)
(* A call takes its input into a work area, works, and takes its result    *)
(* from there; it may consult a table which is made on first use, and a    *)
(* file behind a handle with a position.  The constants say where these    *)
(* live.  With everything a thread's own (or guarded) each thread gets     *)
(* what it would get alone, under every interleaving of the steps; with    *)
(* anything shared it does not: that is what the schedules are for, which  *)
(* the checked behaviours supply to the driver.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    N,       \* threads 0..N-1
    Calls,   \* calls of each thread
    Area,    \* "own", "static" (one for all), "guarded" (one for all, a call holds a lock)
    Table,   \* "eager", "flagfirst" (marked as made before it is), "once"
    Handle,  \* "own", "cached" (one per file name)
    Emit     \* print the schedules

T == 0..(N - 1)

VARIABLES
    pc,      \* thread -> "idle", "in", "look", "seek", "read", "out"
    done,    \* thread -> number of finished calls
    got,     \* thread -> <<results>>
    area,    \* thread -> value; index -1 for the common one
    table,   \* "none", "marked", "made"
    pos,     \* thread -> position of its handle; -1 for the common one
    seen,    \* thread -> [tab, val]: what the call has seen so far
    lock,    \* thread which holds the lock, or -1
    sched    \* history: who took each step

vars == <<pc, done, got, area, table, pos, seen, lock, sched>>

A(t) == IF Area = "own" THEN t ELSE -1
H(t) == IF Handle = "own" THEN t ELSE -1
Input(t, c) == 10 * t + c
\* what a call gives when nobody else is there
Alone(t, c) == [val |-> Input(t, c), tab |-> "made", pos |-> Input(t, c)]

Init ==
    /\ pc = [t \in T |-> "idle"] /\ done = [t \in T |-> 0] /\ got = [t \in T |-> <<>>]
    /\ area = [i \in T \cup {-1} |-> -1]
    /\ table = IF Table = "eager" THEN "made" ELSE "none"
    /\ pos = [i \in T \cup {-1} |-> -1]
    /\ seen = [t \in T |-> [tab |-> "none", pos |-> -1]]
    /\ lock = -1 /\ sched = <<>>

Free(t) == Area # "guarded" \/ lock \in {-1, t}

TakeIn(t) ==
    /\ pc[t] = "idle" /\ done[t] < Calls /\ Free(t)
    /\ lock' = IF Area = "guarded" THEN t ELSE lock
    /\ area' = [area EXCEPT ![A(t)] = Input(t, done[t] + 1)]
    /\ pc' = [pc EXCEPT ![t] = "look"]
    /\ UNCHANGED <<done, got, table, pos, seen>>

\* the table: whoever finds none makes it
Look(t) ==
    /\ pc[t] = "look"
    /\ IF table = "none"
       THEN IF Table = "flagfirst"
            THEN table' = "marked" /\ pc' = [pc EXCEPT ![t] = "make"] /\ UNCHANGED seen
            ELSE table' = "made" /\ seen' = [seen EXCEPT ![t].tab = "made"] /\ pc' = [pc EXCEPT ![t] = "seek"]
       ELSE seen' = [seen EXCEPT ![t].tab = table] /\ pc' = [pc EXCEPT ![t] = "seek"] /\ UNCHANGED table
    /\ UNCHANGED <<done, got, area, pos, lock>>

MakeTable(t) ==
    /\ pc[t] = "make"
    /\ table' = "made" /\ seen' = [seen EXCEPT ![t].tab = "made"]
    /\ pc' = [pc EXCEPT ![t] = "seek"]
    /\ UNCHANGED <<done, got, area, pos, lock>>

Seek(t) ==
    /\ pc[t] = "seek"
    /\ pos' = [pos EXCEPT ![H(t)] = Input(t, done[t] + 1)]
    /\ pc' = [pc EXCEPT ![t] = "out"]
    /\ UNCHANGED <<done, got, area, table, seen, lock>>

TakeOut(t) ==
    /\ pc[t] = "out"
    /\ got' = [got EXCEPT ![t] = Append(@, [val |-> area[A(t)], tab |-> seen[t].tab, pos |-> pos[H(t)]])]
    /\ done' = [done EXCEPT ![t] = @ + 1]
    /\ lock' = IF lock = t THEN -1 ELSE lock
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<area, table, pos, seen>>

Step(t) == TakeIn(t) \/ Look(t) \/ MakeTable(t) \/ Seek(t) \/ TakeOut(t)

Over == \A t \in T : done[t] = Calls
Finish == /\ Over /\ UNCHANGED vars

Next == \/ \E t \in T : Step(t) /\ sched' = (IF Emit THEN Append(sched, t) ELSE sched)
        \/ Finish

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Separate objects, separate results. *)
Separate == \A t \in T : \A c \in 1..Len(got[t]) : got[t][c] = Alone(t, c)

\* A step of one thread leaves what the others have alone.
Private(t) == <<pc[t], done[t], got[t], seen[t]>>
NoInterference == [][\A t \in T : Private(t)' # Private(t) => \A u \in T \ {t} : UNCHANGED Private(u)]_vars

\* Everyone can always finish: guarding must not lock anyone out for ever.
CanFinish == Over \/ \E t \in T : ENABLED Step(t)

PrintSched == ~(Emit /\ Over) \/ PrintT("CASE " \o ToJson([s |-> sched]))
=============================================================================
