-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The many ways of calling the library.                                   *)
(*                                                                         *)
(* Every object is denoted by a term: what has been done to make it, with   *)
(* everything left out that must not matter (which overload was called, how *)
(* a path was spelled, memory or disk, whether the native byte order was    *)
(* named, given by default or written out).  What a call answers is a       *)
(* function of its term: the first answer is remembered, and every later    *)
(* one has to be the same.  Nothing is said here about what the answer is;  *)
(* that is the matter of the other modules.                                *)
(***************************************************************************)
EXTENDS Bytes

VARIABLES
    arr,   \* array slot -> what was put there
    obj,   \* file, blob, writer, reader slot -> term
    ans    \* term of a call -> answer

formVars == <<arr, obj, ans>>
FormInit == arr = << >> /\ obj = << >> /\ ans = << >>

\* the byte order which is meant (the machine is little-endian)
Meant(en) == IF en = "B" THEN "B" ELSE "L"
\* the method which is meant: none given means stored
MethodMeant(m) == IF m = -1 THEN 0 ELSE m

PutF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropF(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Answer(term, res) ==
    IF term \in DOMAIN ans THEN ans[term] = res /\ UNCHANGED ans ELSE ans' = PutF(ans, term, res)

Make(d, a) == arr' = PutF(arr, d, a) /\ UNCHANGED <<obj, ans>>

\* -- arrays in files and streams (streams: the bytes appended)
SaveTerm(d, en) == <<"npy", arr[d], Meant(en)>>
Save(o, d, en, res) ==
    /\ obj' = IF res.r = "ok" THEN PutF(obj, o, SaveTerm(d, en)) ELSE DropF(obj, o)
    /\ Answer(<<"save", SaveTerm(d, en)>>, res)
    /\ UNCHANGED arr
Bytes1(o, res) == o \in DOMAIN obj /\ Answer(<<"bytes", obj[o]>>, res) /\ UNCHANGED <<arr, obj>>
Load(o, t, res) == o \in DOMAIN obj /\ Answer(<<"load", obj[o], t>>, res) /\ UNCHANGED <<arr, obj>>
Peek(o, res) == o \in DOMAIN obj /\ Answer(<<"peek", obj[o]>>, res) /\ UNCHANGED <<arr, obj>>
\* bytes which the program gives
Raw(o, id) == obj' = PutF(obj, o, <<"raw", id>>) /\ UNCHANGED <<arr, ans>>
Copy(o, p) == p \in DOMAIN obj /\ obj' = PutF(obj, o, obj[p]) /\ UNCHANGED <<arr, ans>>

\* -- archives
WOpen(w, m, en, res) ==
    /\ res.r = "ok"
    /\ obj' = PutF(obj, w, <<"arch", MethodMeant(m), Meant(en), <<>>>>)
    /\ UNCHANGED <<arr, ans>>
WWrite(w, name, d, res) ==
    /\ w \in DOMAIN obj
    /\ Answer(<<"write", obj[w], name, arr[d]>>, [r |-> res.r])
    /\ obj' = IF res.r = "ok" THEN [obj EXCEPT ![w][4] = Append(@, <<name, arr[d]>>)] ELSE obj
    /\ UNCHANGED arr
\* closed, asked for its contents or destroyed: the archive o is there
WDone(w, o, res) == w \in DOMAIN obj /\ res.r = "ok" /\ obj' = PutF(obj, o, <<"closed", obj[w]>>) /\ UNCHANGED <<arr, ans>>

ROpen(x, o, res) ==
    /\ o \in DOMAIN obj
    /\ Answer(<<"open", obj[o]>>, res)
    /\ obj' = IF res.r = "ok" THEN PutF(obj, x, <<"reader", obj[o]>>) ELSE DropF(obj, x)
    /\ UNCHANGED arr
\* (a reader which could not be made cannot be asked)
Ask(x, q, res) ==
    /\ IF x \in DOMAIN obj THEN Answer(<<q, obj[x]>>, res) ELSE res.r = "exc" /\ UNCHANGED ans
    /\ UNCHANGED <<arr, obj>>
=============================================================================
