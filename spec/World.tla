------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* What the library takes from the system and what it changes there: files  *)
(* and open descriptors.  Of every call only its footprint is specified:    *)
(* a call which reads changes no file; one which writes may change the file *)
(* it names, and an archive writer its file until it is closed or gone; an  *)
(* open descriptor belongs to an archive reader or writer which is open.    *)
(* Whatever a call returns or throws, nothing else may be left of it.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    files,   \* path |-> attributes (size, contents, time of change), when last looked at
    dirty,   \* paths whose files may have been changed since by calls which name them
    objs     \* name |-> [p, writes, open]: readers and writers; p = "": in memory; open: "yes", "no", "maybe"

worldVars == <<files, dirty, objs>>

Nothing == [x \in {} |-> ""]
WorldInit == files = Nothing /\ dirty = {} /\ objs = Nothing

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Are(o) == {k \in DOMAIN objs : objs[k].open = o}
Written == {objs[k].p : k \in {x \in DOMAIN objs \ Are("no") : objs[x].writes}}
PathOf(k) == IF k \in DOMAIN objs /\ objs[k].open # "no" /\ objs[k].writes THEN {objs[k].p} ELSE {}

\* a call which reads, or works in memory
Quiet == UNCHANGED worldVars

\* a call which makes the file p, or tries to
Writes(p) == dirty' = dirty \cup {p} /\ UNCHANGED <<files, objs>>

\* a reader or writer w is made; can: the file can be opened
Opened(w, p, writes, can, r) ==
    /\ UNCHANGED files
    /\ dirty' = dirty \cup (IF writes /\ can /\ p # "" THEN {p} ELSE {}) \cup (IF r.r = "ok" THEN PathOf(w) ELSE {})
    /\ CASE r.r = "ok" -> objs' = With(objs, w, [p |-> p, writes |-> writes, open |-> IF can /\ p # "" THEN "yes" ELSE "no"])
         [] r.r = "exc" -> UNCHANGED objs     \* (an object of that name is kept)
         [] OTHER -> FALSE

\* after a close which reports failure the descriptor may still be held by the object
Closed(w, r) ==
    /\ w \in DOMAIN objs
    /\ r.r \in {"ok", "exc"}
    /\ dirty' = dirty \cup PathOf(w)
    /\ objs' = [objs EXCEPT ![w].open = IF @ # "no" /\ r.r = "exc" THEN "maybe" ELSE "no"]
    /\ UNCHANGED files

Gone(w, r) ==
    /\ r.r = "ok"
    /\ dirty' = dirty \cup PathOf(w)
    /\ objs' = Without(objs, w)
    /\ UNCHANGED files

Moved(x, y, r) ==
    /\ x \in DOMAIN objs /\ r.r = "ok"
    /\ dirty' = dirty \cup PathOf(y)
    /\ objs' = Without(With(objs, y, objs[x]), x)
    /\ UNCHANGED files

\* asked whether it is open
IsOpen(w, r) ==
    /\ w \in DOMAIN objs /\ r.r = "ok"
    /\ objs[w].open \in {"maybe", IF r.open = 1 THEN "yes" ELSE "no"}
    /\ objs' = [objs EXCEPT ![w].open = IF r.open = 1 THEN "yes" ELSE "no"]
    /\ UNCHANGED <<files, dirty>>

\* files altered by somebody else
Foreign(p) == Writes(p)

\* what there may be now: so many descriptors, these files
MayLook(fds, now) ==
    /\ fds >= Cardinality(Are("yes")) /\ fds <= Cardinality(Are("yes")) + Cardinality(Are("maybe"))
    /\ \A p \in DOMAIN files \ dirty : p \in DOMAIN now /\ now[p] = files[p]
    /\ \A p \in DOMAIN now \ dirty : p \in DOMAIN files
Look(fds, now) ==
    /\ MayLook(fds, now)
    /\ files' = now
    /\ dirty' = Written
    /\ UNCHANGED objs

\* the first look
First(now) == files' = now /\ dirty' = {} /\ UNCHANGED objs

\* the same calls again and again, everything destroyed after each round:
\* neither memory nor descriptors grow
Again(grow, fds) == grow = 0 /\ fds = 0 /\ UNCHANGED worldVars
=============================================================================
