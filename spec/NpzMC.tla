------------------------------- MODULE NpzMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of programs over one writer and one reader, with *)
(* names which differ only by the suffix, rejected writes, contents asked  *)
(* for early, damage, and requests in every order.  Every explored program *)
(* is printed for replay on the library.                                   *)
(***************************************************************************)
EXTENDS Npz, Json, SequencesExt

CONSTANTS MaxOps, Emit, Phase   \* Phase "write": all writer programs; "read": fixed archives, all reader programs

VARIABLES hist, ghost   \* program so far; ghost: blob -> entries written when it was taken
mcVars == <<arr, files, blobs, W, R, seen, hist, ghost>>

A1 == [t |-> "u1", f |-> 0, sh |-> <<"2">>, w |-> "0", dg |-> "A1"]
A2 == [t |-> "i2", f |-> 1, sh |-> <<>>, w |-> "0", dg |-> "A2"]
Arrs == [d \in {"a1", "a2"} |-> IF d = "a1" THEN A1 ELSE A2]

NameList == <<B("a"), B("a.npy"), B("a.npy.npy"), B("")>>
QNames == {B("a"), B("a.npy"), B("a.npy.npy"), B(""), B("x")}

Ok == [r |-> "ok"]
ExcRes(k) == [r |-> "exc", k |-> k]

Fixed == <<
    <<[n |-> Stored(NameList[1]), a |-> A1, en |-> "B", bad |-> FALSE],
      [n |-> Stored(NameList[4]), a |-> A2, en |-> "B", bad |-> FALSE],
      [n |-> B("b.npy"), a |-> A2, en |-> "B", bad |-> TRUE]>>,
    <<[n |-> Stored(NameList[2]), a |-> A1, en |-> "B", bad |-> FALSE],
      [n |-> Stored(NameList[2]), a |-> A2, en |-> "B", bad |-> FALSE],
      [n |-> B("a.npy.npy"), a |-> A1, en |-> "B", bad |-> FALSE]>>
>>
\* NB: the second archive stores a.npy.npy by way of a writer given "a.npy.npy"

Init ==
    /\ arr = Arrs /\ W = << >> /\ seen = << >>
    /\ hist = <<>> /\ ghost = << >> /\ R = << >>
    /\ IF Phase = "write" THEN blobs = << >> /\ files = << >>
       ELSE \E i \in 1..Len(Fixed) :
            LET x == [k |-> "npz", fin |-> TRUE, m |-> 0, en |-> "B", ents |-> Fixed[i], id |-> i]
            IN blobs = [b \in {"b"} |-> x] /\ files = [p \in {"p"} |-> x]

Did(e) == hist' = Append(hist, e)

Open == /\ W = << >> /\ hist = <<>>
        /\ \E kind \in {"s", "f"}, m \in {0, 8, 9} :
            /\ WOpen("w", kind, "p", m, "L", [r |-> "ok", open |-> 1])
            /\ Did([op |-> "wopen", kind |-> kind, m |-> m])
            /\ UNCHANGED ghost

Write == \E j \in {1, 2}, d \in {"a1", "a2"} :
    /\ "w" \in DOMAIN W
    /\ LET res == IF W["w"].closed THEN ExcRes("rt")
                  ELSE IF W["w"].m = 9 THEN ExcRes("ia") ELSE [r |-> "ok", same |-> 1]
       IN WWrite("w", NameList[j], d, res)
    /\ Did([op |-> "wwrite", name |-> NameList[j], d |-> d]) /\ UNCHANGED ghost

Throwing == /\ "w" \in DOMAIN W
            /\ WWriteThrows("w", ExcRes(IF W["w"].closed THEN "rt" ELSE "user"))
            /\ Did([op |-> "wthrow"]) /\ UNCHANGED ghost

Str == /\ "w" \in DOMAIN W /\ W["w"].kind = "s"
       /\ WStr("w", "b", [r |-> "ok", bd |-> W["w"].bd])
       /\ Did([op |-> "wstr"]) /\ ghost' = Put(ghost, "b", W["w"].ents)

Close == /\ "w" \in DOMAIN W /\ WClose("w", Ok) /\ Did([op |-> "wclose"]) /\ UNCHANGED ghost
Destroy == /\ "w" \in DOMAIN W /\ WDestroy("w", Ok) /\ Did([op |-> "wdel"]) /\ UNCHANGED ghost

ReadBack == \* open whatever there is
    /\ R = << >>
    /\ \/ "b" \in DOMAIN blobs
          /\ ROpenBlob("r", "b", IF blobs["b"].fin THEN Ok ELSE ExcRes("rt"))
          /\ Did([op |-> "ropenb"])
       \/ "p" \in DOMAIN files
          /\ ROpenFile("r", "p", IF files["p"].fin THEN Ok ELSE ExcRes("rt"))
          /\ Did([op |-> "ropenf"])
    /\ UNCHANGED ghost

ReadRes(e, t) == IF e.bad THEN ExcRes("rt") ELSE IF e.a.t # t THEN ExcRes("rt")
                 ELSE [r |-> "ok", dg |-> e.a.dg]

Read == \E name \in QNames, t \in {"u1", "i2"} :
    /\ "r" \in DOMAIN R
    /\ LET i == Lookup(R["r"].ents, name)
       IN RRead("r", name, t, "", IF i = 0 THEN ExcRes("ia")
                    ELSE IF ~R["r"].open THEN ExcRes("rt") ELSE ReadRes(R["r"].ents[i], t))
    /\ Did([op |-> "rread", name |-> name, t |-> t]) /\ UNCHANGED ghost

Peek == \E name \in QNames :
    /\ "r" \in DOMAIN R
    /\ LET i == Lookup(R["r"].ents, name)
           e == R["r"].ents[i]
       IN RPeek("r", name, IF i = 0 THEN ExcRes("ia")
            ELSE IF ~R["r"].open \/ e.bad THEN ExcRes("rt")
            ELSE [r |-> "ok", h |-> [t |-> e.a.t, f |-> e.a.f, sh |-> e.a.sh, w |-> e.a.w,
                                      en |-> PeekEn(e.a.t, e.en)]])
    /\ Did([op |-> "rpeek", name |-> name]) /\ UNCHANGED ghost

Has == \E name \in QNames :
    /\ "r" \in DOMAIN R
    /\ RContains("r", name, [r |-> "ok", has |-> IF Lookup(R["r"].ents, name) # 0 THEN 1 ELSE 0])
    /\ Did([op |-> "rhas", name |-> name]) /\ UNCHANGED ghost

Keys ==
    /\ "r" \in DOMAIN R
    /\ RKeys("r", [r |-> "ok", keys |-> SetToSortSeq(NameSet(R["r"].ents), BytesLess)])
    /\ Did([op |-> "rkeys"]) /\ UNCHANGED ghost

CloseR == /\ "r" \in DOMAIN R /\ R["r"].kind = "f" /\ R["r"].open
          /\ RClose("r", Ok) /\ Did([op |-> "rclose"]) /\ UNCHANGED ghost

Next ==
    /\ Len(hist) < MaxOps
    /\ IF Phase = "write" THEN Open \/ Write \/ Throwing \/ Str \/ Close \/ Destroy \/ ReadBack
       ELSE ReadBack \/ Read \/ Peek \/ Has \/ Keys \/ CloseR

Spec == Init /\ [][Next]_mcVars

---------------------------------------------------------------------------
\* A reader exists only for finished archives.
OnlyFinished == \A r \in DOMAIN R : R[r].kind = "s" => blobs["b"].fin

\* What has been written is never lost by anything that happens later.
NothingLost == [][\A w \in DOMAIN W : w \in DOMAIN W' => IsPrefix(W[w].ents, W'[w].ents)]_mcVars
\* A closed writer never changes.
ClosedIsFinal == [][\A w \in DOMAIN W : W[w].closed /\ w \in DOMAIN W' => W'[w].ents = W[w].ents /\ W'[w].closed]_mcVars
\* A rejected write changes nothing.
\* Readers never change.
ReadersPure == [][\A r \in DOMAIN R : r \in DOMAIN R' => R'[r].ents = R[r].ents]_mcVars
\* Contents asked for early are those of that moment.
StrIsSnapshot == \A b \in DOMAIN ghost : blobs[b].ents = ghost[b]
\* The suffix is never doubled, and stored names always carry it.
SuffixOnce == \A w \in DOMAIN W : \A i \in 1..Len(W[w].ents) :
                 HasSuffix(W[w].ents[i].n, Suffix)
\* What a writer stored under a name is found under that name.
FoundAgain == \A w \in DOMAIN W : \A j \in 1..Len(NameList) :
    Find1(W[w].ents, Stored(NameList[j])) # 0 => Lookup(W[w].ents, Stored(NameList[j])) # 0
       /\ (HasSuffix(NameList[j], Suffix) \/ Find1(W[w].ents, NameList[j]) # 0
           \/ Lookup(W[w].ents, NameList[j]) = Find1(W[w].ents, Stored(NameList[j])))

EmitCase == (Emit /\ Len(hist) = MaxOps) =>
    PrintT("CASE " \o ToJson([prog |-> hist,
        id |-> IF Phase = "read" THEN blobs["b"].id ELSE 0]))
=============================================================================
