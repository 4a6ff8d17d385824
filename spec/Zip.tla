-------------------------------- MODULE Zip --------------------------------
(***************************************************************************)
(* Archives as bytes: what writers leave behind, and what readers make of   *)
(* any bytes - written by this library, by other tools, damaged or cut.     *)
(***************************************************************************)
EXTENDS ZipFormat, Results

VARIABLES
    arr,    \* array slot -> array
    mem,    \* memory slot -> [b: bytes, fin: "yes", "no" or "?" (bytes of unknown origin)]
    W,      \* writer -> [m, en, ents, closed, path]
    R,      \* reader -> [a: an ArchiveRead, open]
    ref     \* what an undamaged archive answered: [b, names, pk, rd]

zipVars == <<arr, mem, W, R, ref>>
ZipInit == arr = << >> /\ mem = << >> /\ W = << >> /\ R = << >> /\ ref = << >>

Make(d, a, res) == res.r = "ok" /\ arr' = Put(arr, d, a) /\ UNCHANGED <<mem, W, R, ref>>

---------------------------------------------------------------------------
(* Writers *)
WOpen(w, m, en, res) ==
    /\ res.r = "ok" /\ res.open = 1
    /\ W' = Put(W, w, [m |-> m, en |-> en, ents |-> <<>>, closed |-> FALSE])
    /\ UNCHANGED <<arr, mem, R, ref>>

WWrite(w, name, d, res) ==
    /\ w \in DOMAIN W /\ d \in DOMAIN arr
    /\ IF W[w].closed THEN IsExc(res) /\ UNCHANGED W
       ELSE LET img == Encode(arr[d], W[w].en)
            IN  IF W[w].m \notin SupportedMethods \/ img = <<>> \/ Len(Stored(name)) > MaxName
                THEN IsExc(res) /\ UNCHANGED W
                ELSE /\ res.r = "ok" /\ res.same = 1
                     /\ W' = [W EXCEPT ![w].ents = Append(@, [n |-> Stored(name), img |-> img, m |-> W[w].m])]
    /\ UNCHANGED <<arr, mem, R, ref>>

\* A write in which the tensor itself throws leaves no trace.
WWriteThrows(w, res) == w \in DOMAIN W /\ IsExc(res) /\ UNCHANGED zipVars

WClose(w, res) ==
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ W' = [W EXCEPT ![w].closed = TRUE]
    /\ UNCHANGED <<arr, mem, R, ref>>

\* The destructor closes as well; this is the writer of a file.
WDestroy(w, res) ==
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ W' = [W EXCEPT ![w].closed = TRUE]
    /\ UNCHANGED <<arr, mem, R, ref>>

\* The bytes a writer has produced: a strict archive once it is closed.
WBytes(w, d, res) ==
    /\ w \in DOMAIN W /\ res.r = "ok"
    /\ W[w].closed => StrictArchive(res.b, W[w].ents)
    /\ mem' = Put(mem, d, [b |-> res.b, fin |-> IF W[w].closed THEN "yes" ELSE "no"])
    /\ UNCHANGED <<arr, W, R, ref>>

---------------------------------------------------------------------------
(* The environment: bytes from elsewhere, damage *)
MSet(d, b) == mem' = Put(mem, d, [b |-> b, fin |-> "?"]) /\ UNCHANGED <<arr, W, R, ref>>

\* n bytes behind offset off are replaced by the bytes ins.
Edited(b, off, n, ins) == SubSeq(b, 1, off) \o ins \o SubSeq(b, off + n + 1, Len(b))
MEdit(s, d, off, n, ins) ==
    /\ s \in DOMAIN mem
    /\ mem' = Put(mem, d, [b |-> Edited(mem[s].b, off, n, ins), fin |-> "?"])
    /\ UNCHANGED <<arr, W, R, ref>>

---------------------------------------------------------------------------
(* Readers *)
ROpen(r, d, res) ==
    /\ d \in DOMAIN mem
    /\ LET m == mem[d]
           a == ArchiveRead(m.b)
       IN  /\ IF m.fin = "no" \/ a.v = "rej" THEN IsExc(res)
              ELSE IF a.v = "ok" THEN res.r = "ok"
              ELSE res.r = "ok" \/ IsExc(res)
           /\ R' = IF res.r = "ok" THEN Put(R, r, a) ELSE Drop(R, r)
    /\ UNCHANGED <<arr, mem, W, ref>>

\* Questions to a reader which does not exist are not answered.
Gone(r, res) == r \notin DOMAIN R /\ res.r = "exc"

RKeys(r, res) ==
    /\ \/ Gone(r, res)
       \/ /\ r \in DOMAIN R /\ res.r = "ok"
          /\ IF R[r].v = "ok"
             THEN /\ {res.keys[i] : i \in 1..Len(res.keys)} = NameSet(R[r].ents)
                  /\ \A i \in 1..(Len(res.keys) - 1) :
                        \/ BytesLess(res.keys[i], res.keys[i + 1])
                        \/ res.keys[i] = res.keys[i + 1] /\ Cardinality(Exact(R[r].ents, res.keys[i])) > 1
             ELSE TRUE
    /\ UNCHANGED zipVars

RHas(r, name, res) ==
    /\ \/ Gone(r, res)
       \/ /\ r \in DOMAIN R /\ res.r = "ok"
          /\ R[r].v = "ok" => res.has = IF Lookup(R[r].ents, name) # 0 THEN 1 ELSE 0
    /\ UNCHANGED zipVars

\* ok(img): is the result allowed for an entry with these contents?
Answer(a, name, res, ok(_)) ==
    IF a.v = "any" THEN TRUE
    ELSE LET i == Lookup(a.ents, name)
         IN  IF i = 0 THEN IF a.v = "ok" THEN Exc(res, "ia") ELSE IsExc(res)
             ELSE IF a.ents[i].v = "rej" THEN IsExc(res)
             ELSE IF a.v = "soft" \/ a.ents[i].v = "soft" THEN IsExc(res) \/ ok(a.ents[i].img)
             ELSE ok(a.ents[i].img)

RPeek(r, name, res) ==
    /\ \/ Gone(r, res)
       \/ r \in DOMAIN R /\ Answer(R[r], name, res, LAMBDA img : PeekAllowed(ParseHeader(img, 1), res))
    /\ UNCHANGED zipVars

RRead(r, name, t, res) ==
    /\ \/ Gone(r, res)
       \/ r \in DOMAIN R /\ Answer(R[r], name, res, LAMBDA img : LoadAllowed(Parse(img, 1), t, res))
    /\ UNCHANGED zipVars

---------------------------------------------------------------------------
(* Damage.  A probe opens the bytes in slot d, asks for the header and the  *)
(* array of every name in names, and for those of all other keys it lists.  *)
(*   res.ents[i] = <<contains, header, array>> ("exc" for a failure)        *)
(*   res.xs: answers for further keys                                       *)
ProbeRef(d, names, res) ==
    /\ d \in DOMAIN mem
    /\ res.r = "ok" /\ res.xs = <<>>
    /\ Len(res.ents) = Len(names)
    /\ \A i \in 1..Len(names) : res.ents[i][2] # "exc" /\ res.ents[i][3] # "exc"
    /\ ref' = [b |-> mem[d].b, names |-> names, ents |-> res.ents]
    /\ UNCHANGED <<arr, mem, W, R>>

\* b: the damaged bytes
SameOrFails(x, i) == /\ x[2] \in {"exc", ref.ents[i][2]}
                     /\ x[3] \in {"exc", ref.ents[i][3]}
Fails(x) == x[2] = "exc" /\ x[3] = "exc"

\* Reasons for which an entry has to be refused.
Refused(b, d) ==
    LET l == LocalAt(b, d.of + 1)
    IN  IF d.x = "lack" \/ d.of = Huge \/ ~l.ok THEN FALSE
        ELSE \/ l.name # d.name \/ l.method # d.method \/ l.crc # d.crc
             \/ l.x = "ok" /\ (l.cs # d.cs \/ l.us # d.us)
             \* altered data, as far as it is there: a size which reaches beyond the end is
             \* not by itself a disagreement of the two records
             \* (a method of which nothing is known on both sides: the CRC decides)
             \/ l.cs # Huge /\ Holds(b, l.next, l.cs) /\ EntryRead(b, d).v = "rej" /\ l.x = "ok" /\ d.x = "ok" /\ l.need <= MaxVersion /\ d.need <= MaxVersion
                /\ d.method \in {0, 8}

Probe(b, res) ==
    /\ \/ IsExc(res)
       \/ /\ res.r = "ok"
          /\ \A i \in 1..Len(ref.names) : SameOrFails(res.ents[i], i)
          \* nothing was stored under other names
          /\ \A i \in 1..Len(res.xs) : Fails(res.xs[i])
          /\ LET e == EndAt(b, Len(b) - 21)
             IN  IF ~e.ok THEN TRUE
                 ELSE IF Where(b, e).v # "ok" \/ Where(b, e).of = Huge \/ Where(b, e).n = Huge THEN TRUE
                 ELSE LET w == Where(b, e)
                          dir == DirFrom(b, w.of + 1, w.n)
                      IN  Len(dir) = w.n =>
                             \A i \in 1..Len(ref.names) :
                                LET j == Find1([k \in 1..Len(dir) |-> [n |-> dir[k].name]], ref.names[i])
                                IN  j # 0 => (Refused(b, dir[j]) => Fails(res.ents[i]))
    /\ UNCHANGED zipVars

ProbeEdit(off, n, ins, res) == Probe(Edited(ref.b, off, n, ins), res)

\* The file of a reader is altered after it has been opened: what it listed
\* then stays, and what it cannot find any more it does not make up.
ProbeLate(res) ==
    /\ res.r = "ok" /\ res.xs = <<>>
    /\ Len(res.ents) = Len(ref.names)
    /\ \A i \in 1..Len(ref.names) : res.ents[i][1] = "1" /\ SameOrFails(res.ents[i], i)
    /\ UNCHANGED zipVars

\* An archive which is not complete does not open.
ProbeUnfinished(res) == IsExc(res) /\ UNCHANGED zipVars
\* A complete one does.
ProbeFinished(res) == res.r = "ok" /\ UNCHANGED zipVars
=============================================================================
