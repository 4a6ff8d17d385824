------------------------------- MODULE ReadMC -------------------------------
(***************************************************************************)
(* Why what a reader says is true although reads of the medium may fail: a  *)
(* reader over a stream with a mark of failure.                             *)
(*                                                                         *)
(* Opening fetches the end record and then, for every entry, its signature, *)
(* its fixed fields and its name; a fetch from a failed stream yields junk. *)
(* Junk in a signature or in the fixed fields is noticed, junk in a name is *)
(* not: so the library has to look at the mark in the end (CheckEnd).       *)
(* Reading an entry seeks, which a failed stream does not do: so the mark   *)
(* has to be cleared before (Clears); the header of the entry is compared   *)
(* with the directory, its data with a checksum (CheckData).                *)
(* Every user program is printed, to be run on the library.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, MaxOps, CheckEnd, Clears, CheckData, Emit

VARIABLES hist, open, names, mark, told, good

vars == <<hist, open, names, mark, told, good>>

Fetches == 3 * N + 1     \* the end record, then three for each entry
Init == hist = <<>> /\ open = FALSE /\ names = <<>> /\ mark = FALSE /\ told = TRUE /\ good = TRUE

\* k: the number of the fetch which fails, for good as far as this call goes; 0: none
Say(op, k) == hist' = Append(hist, [op |-> op, hit |-> k > 0])
Open(k) ==
    /\ ~open /\ Len(hist) < MaxOps
    /\ Say("open", k)
    /\ LET name(i) == k = 0 \/ k > 3 * i + 1             \* was the name of entry i fetched?
           junk(i) == ~name(i)
           throws == \/ k = 1
                     \/ \E i \in 1..N : k \in {3 * i - 1, 3 * i}  \* a signature, fixed fields
                     \/ \E i \in 1..(N - 1) : k = 3 * i + 1        \* the next signature is junk
                     \/ CheckEnd /\ k > 0
       IN IF throws THEN UNCHANGED <<open, names, mark, told>>
          ELSE /\ open' = TRUE /\ names' = [i \in 1..N |-> ~junk(i)] /\ mark' = (k > 0)
               /\ told' = (told /\ \A i \in 1..N : ~junk(i))
    /\ UNCHANGED good

\* reading or peeking: the local header, then the data
Ask(op, i, k) ==
    /\ open /\ Len(hist) < MaxOps
    /\ Say(op, k)
    /\ LET m == mark /\ ~Clears
           fetched == ~m /\ k = 0
           ok == names[i] /\ (fetched \/ (~m /\ k = 2 /\ ~CheckData))
       IN /\ mark' = (m \/ k > 0)
          /\ told' = (told /\ (ok => fetched))
          /\ good' = (good /\ (k = 0 => ok))            \* the medium works: so does the reader
    /\ UNCHANGED <<open, names>>

List == /\ open /\ Len(hist) < MaxOps /\ hist' = Append(hist, [op |-> "keys", hit |-> FALSE])
        /\ UNCHANGED <<open, names, mark, told, good>>
Del == /\ open /\ Len(hist) < MaxOps /\ hist' = Append(hist, [op |-> "del", hit |-> FALSE])
       /\ open' = FALSE /\ names' = <<>> /\ mark' = FALSE /\ UNCHANGED <<told, good>>

Next == \/ \E k \in 0..Fetches : Open(k)
        \/ \E i \in 1..N, k \in 0..2, op \in {"read", "peek"} : Ask(op, i, k)
        \/ List \/ Del
        \/ (Len(hist) = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Truth == told
Recovers == good
EmitCase == (Emit /\ Len(hist) = MaxOps) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
