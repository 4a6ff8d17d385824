------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* What belongs to the caller: arrays, user tensors, streams (their format  *)
(* and their bytes), strings, in-memory archives, and what the whole process *)
(* shares (locale, environment, directory, signals, rounding, ...).  Every  *)
(* call has the things it is for, whether it returns or throws; all others  *)
(* stay as they were.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    things,  \* name |-> value, when last looked at
    dirty    \* names of those which may have changed since

frameVars == <<things, dirty>>
None == [x \in {} |-> ""]
FrameInit == things = None /\ dirty = {}

\* a call which is for the things xs
For(xs) == dirty' = dirty \cup xs /\ UNCHANGED things

\* what the calls are for
Loads == For({})                                  \* loading, peeking, reading, asking; saving to a file
SavesTo(s, kept) == kept /\ For({"bytes " \o s})  \* saving to a stream appends to it: what it had is kept
WritesTo(w) == For({"writer " \o w})             \* making, writing to, closing and destroying a writer
ReaderMade(x) == For({"reader " \o x})           \* also when it is destroyed
Sets(d) == For({"array " \o d})                  \* making, assigning to, updating and destroying an array
Moves(d, s) == For({"array " \o d, "array " \o s})
Streams(s) == For({"format " \o s, "bytes " \o s})   \* the program does something to its stream
Strings(b) == For({"string " \o b})
Users(d) == For({"user's " \o d})
Locale == For({"locale"})

MayLook(now) ==
    /\ \A n \in DOMAIN things \ dirty : n \in DOMAIN now /\ now[n] = things[n]
    /\ \A n \in DOMAIN now \ dirty : n \in DOMAIN things
Look(now) == MayLook(now) /\ things' = now /\ dirty' = {}
First(now) == things' = now /\ dirty' = {}
=============================================================================
