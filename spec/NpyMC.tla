------------------------------- MODULE NpyMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of programs which save, load and peek arrays on  *)
(* one stream, over a handful of arrays.  Checks on the specification what *)
(* Npy promises (round trip, self-delimiting images, aligned headers,      *)
(* rejection of prefixes, peek = load), and prints every explored program  *)
(* for replay on the library.                                              *)
(***************************************************************************)
EXTENDS Npy, Json

CONSTANTS MaxOps, Emit

VARIABLES hist, items   \* program so far; ghost: what was written where
mcVars == <<arr, st, fs, hist, items>>

D(n) == Dec(n)
Arrays == <<
    [t |-> "i2", f |-> 0, sh |-> <<D(2)>>, el |-> <<<<1, 2>>, <<255, 26>>>>],
    [t |-> "U", f |-> 0, sh |-> <<D(2)>>, el |-> <<<<97, 0, 98, 0>>, <<>>>>],
    [t |-> "c8", f |-> 1, sh |-> <<>>, el |-> <<<<1, 2, 3, 4, 5, 6, 7, 8>>>>],
    [t |-> "b1", f |-> 1, sh |-> <<D(0), D(3)>>, el |-> <<>>]
>>
Junk == <<<<147>>, <<0, 255>>>>

Ens == {"L", "B"}
LoadTypes == {"i2", "U"}

\* The result the specification predicts.
LoadRes(x, t) == IF x.v = "ok" /\ x.h.t = t THEN [r |-> "ok", a |-> x.a, pos |-> x.next - 1]
                 ELSE [r |-> "exc", k |-> "rt"]
PeekRes(h) == IF h.v = "ok" THEN [r |-> "ok", pos |-> h.next - 1,
                                  h |-> [t |-> h.t, en |-> h.en, f |-> h.f, sh |-> h.sh, w |-> h.w]]
              ELSE [r |-> "exc", k |-> "rt"]

Init ==
    /\ arr = [k \in 1..Len(Arrays) |-> Arrays[k]]
    /\ st = [s \in {1} |-> [b |-> <<>>, p |-> 0]]
    /\ fs = << >>
    /\ hist = <<>> /\ items = <<>>

Did(e) == hist' = Append(hist, e)

Save == \E k \in 1..Len(Arrays), en \in Ens :
    LET img == Encode(Arrays[k], en) IN
    /\ StreamSave(1, k, en, [r |-> "ok", pre |-> 1, same |-> 1, good |-> 1, app |-> img])
    /\ items' = Append(items, [a |-> k, en |-> en, at |-> Len(st[1].b)])
    /\ Did([op |-> "save", k |-> k, en |-> en])

Write == \E j \in 1..Len(Junk) :
    /\ StreamPut(1, Junk[j])
    /\ UNCHANGED items
    /\ Did([op |-> "put", k |-> j])

Load == \E t \in LoadTypes \cup (IF items = <<>> THEN {} ELSE {Arrays[items[Len(items)].a].t}) :
    /\ st[1].p >= 0 /\ st[1].b # <<>>
    /\ StreamLoad(1, t, "", LoadRes(Parse(st[1].b, st[1].p + 1), t))
    /\ UNCHANGED items
    /\ Did([op |-> "load", t |-> t])

Peek ==
    /\ st[1].p >= 0 /\ st[1].b # <<>>
    /\ StreamPeek(1, PeekRes(ParseHeader(st[1].b, st[1].p + 1)))
    /\ UNCHANGED items
    /\ Did([op |-> "peek"])

Seek == \E i \in 1..Len(items) :
    /\ items[i].at # st[1].p
    /\ StreamSeek(1, items[i].at)
    /\ UNCHANGED items
    /\ Did([op |-> "seek", pos |-> items[i].at])

Next == Len(hist) < MaxOps /\ (Save \/ Write \/ Load \/ Peek \/ Seek)

Spec == Init /\ [][Next]_mcVars

---------------------------------------------------------------------------
\* Every image written is still there, parses to what was saved, and ends
\* where its data ends.
RoundTrip == \A i \in 1..Len(items) :
    LET x == Parse(st[1].b, items[i].at + 1)
        a == Arrays[items[i].a]
    IN  /\ x.v = "ok"
        /\ x.a = Canonical(a)
        /\ x.next - 1 = items[i].at + Len(Encode(a, items[i].en))
        /\ x.h.en = IF a.t \in OneByte THEN "N" ELSE items[i].en

Aligned == \A i \in 1..Len(items) :
    LET h == ParseHeader(st[1].b, items[i].at + 1)
    IN (h.next - 1 - items[i].at) % 64 = 0 /\ st[1].b[h.next - 1] = Newline

\* Loading never yields an array of another type; the read position moves to
\* the end of an image or is lost.
PosSane == st[1].p <= Len(st[1].b)

\* Codes are one-to-one.
Bijective == \A t1, t2 \in Types \ {"U"}, e1, e2 \in {"L", "B"} :
    DescrOf(t1, e1, 0) = DescrOf(t2, e2, 0) => t1 = t2 /\ (e1 = e2 \/ t1 \in OneByte)
ASSUME Bijective

\* No proper prefix of an image with data parses; none of a header does.
ASSUME \A k \in 1..Len(Arrays), en \in Ens :
    LET img == Encode(Arrays[k], en)
    IN \A n \in 0..(Len(img) - 1) : Parse(SubSeq(img, 1, n), 1).v = "rej"

\* Every header length the format allows is produced exactly: dictionaries of
\* every length modulo 64.
ASSUME \A n \in 0..70 :
    LET sh == [i \in 1..n |-> D(1)]
        h == HeaderOf(DescrOf("u1", "L", 0), 0, sh)
        p == ParseHeader(h, 1)
    IN /\ Len(h) % 64 = 0 /\ p.v = "ok" /\ p.next = Len(h) + 1 /\ p.sh = sh
       /\ Len(h) - 10 = h[9] + 256 * h[10]

EmitCase == (Emit /\ (Len(hist) = MaxOps)) => PrintT("CASE " \o ToJson(hist))
=============================================================================
