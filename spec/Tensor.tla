------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors as values: a heap of slots, each holding a tensor with its      *)
(* element type, order, shape and elements (opaque texts).  Every action   *)
(* is one call on tensors; res is its observed result, including the whole *)
(* heap as the library shows it afterwards.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE heap   \* slot -> [t, f, sh: sequence of naturals, v: sequence of texts]
                \* a slot moved from, but still alive, has t = "moved"

TensorInit == heap = << >>

Put(h, k, v) == [x \in DOMAIN h \cup {k} |-> IF x = k THEN v ELSE h[x]]
Drop(h, k) == [x \in DOMAIN h \ {k} |-> h[x]]

RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Size(Tail(sh))

Zeros(n) == [i \in 1..n |-> "0"]
Default == [t \in {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"} |->
    CASE t \in {"i1", "u1", "b1"} -> "00"
      [] t \in {"i2", "u2"} -> "0000"
      [] t \in {"i4", "u4", "f4"} -> "00000000"
      [] t \in {"i8", "u8", "f8", "c8"} -> "0000000000000000"
      [] t = "c16" -> "00000000000000000000000000000000"
      [] t = "U" -> "-"]

---------------------------------------------------------------------------
(* Indices *)

SignedForms == {"set", "get", "call", "ccall", "ravel"}
UnsignedForms == {"callvec", "ccallvec", "ravelvec", "setvec"}

\* Is idx a valid multi-index?  Negative components count from the end in the signed forms.
ValidIdx(sh, idx, form) ==
    /\ Len(idx) = Len(sh)
    /\ \A k \in 1..Len(sh) :
         /\ idx[k] < sh[k]
         /\ idx[k] >= (IF form \in SignedForms THEN -sh[k] ELSE 0)

Norm(sh, idx) == [k \in 1..Len(sh) |-> IF idx[k] < 0 THEN idx[k] + sh[k] ELSE idx[k]]

RECURSIVE OffC(_, _, _)
OffC(sh, idx, n) == IF n = 0 THEN 0 ELSE OffC(sh, idx, n - 1) * sh[n] + idx[n]
RECURSIVE OffF(_, _, _)
OffF(sh, idx, n) == IF n > Len(sh) THEN 0 ELSE idx[n] + sh[n] * OffF(sh, idx, n + 1)

\* Position of a valid multi-index in memory: last index fastest in row-major
\* order (f = 0), first index fastest in column-major order (f = 1).
Offset(sh, f, idx) == LET i == Norm(sh, idx)
                      IN IF f = 0 THEN OffC(sh, i, Len(sh)) ELSE OffF(sh, i, 1)

---------------------------------------------------------------------------
IA(res) == res.r = "exc" /\ res.k = "ia"

Live(d) == d \in DOMAIN heap /\ heap[d].t # "moved"

\* The elements by index, row by row: what the tensor means, apart from how it is stored.
RECURSIVE Unravel(_, _, _)
Unravel(sh, k, n) == IF n = 0 THEN <<>> ELSE Append(Unravel(sh, k \div sh[n], n - 1), k % sh[n])
ByIndex(x) == [k \in 1..Len(x.v) |-> x.v[Offset(x.sh, x.f, Unravel(x.sh, k - 1, Len(x.sh))) + 1]]

\* What the library shows of the heap is the heap.
Shown(h, log) ==
    /\ DOMAIN log = DOMAIN h
    /\ \A d \in DOMAIN h : \/ h[d].t = "moved"
                           \/ /\ log[d].t = h[d].t /\ log[d].f = h[d].f
                              /\ log[d].sh = [i \in 1..Len(h[d].sh) |-> ToString(h[d].sh[i])]
                              /\ log[d].v = h[d].v
                              /\ Len(h[d].v) <= 32 => log[d].g = ByIndex(h[d])

New(d, t, sh, f, res) ==
    /\ res.r = "ok"
    /\ heap' = Put(heap, d, [t |-> t, f |-> IF f = 1 THEN 1 ELSE 0, sh |-> sh,
                             v |-> [i \in 1..Size(sh) |-> Default[t]]])

\* A shape with more elements than can be counted.
NewTooBig(res) == res.r = "exc" /\ UNCHANGED heap

Copy(d, s, res) == Live(s) /\ res.r = "ok" /\ heap' = Put(heap, d, heap[s])
Move(d, s, res) == Live(s) /\ d # s /\ res.r = "ok" /\ heap' = Put(Drop(heap, s), d, heap[s])
Assign(d, s, res) == /\ d \in DOMAIN heap /\ Live(s)
                     /\ res.r = "ok" /\ heap' = [heap EXCEPT ![d] = heap[s]]
MoveAssign(d, s, keep, res) ==
    /\ d \in DOMAIN heap /\ Live(s) /\ d # s
    /\ res.r = "ok"
    /\ heap' = LET h == [heap EXCEPT ![d] = heap[s]]
               IN IF keep THEN [h EXCEPT ![s] = [t |-> "moved"]] ELSE Drop(h, s)
Delete(d, res) == d \in DOMAIN heap /\ res.r = "ok" /\ heap' = Drop(heap, d)

Set(d, idx, v, form, res) ==
    /\ Live(d)
    /\ IF ValidIdx(heap[d].sh, idx, form)
       THEN /\ res.r = "ok"
            /\ heap' = [heap EXCEPT ![d].v[Offset(heap[d].sh, heap[d].f, idx) + 1] = v]
       ELSE IA(res) /\ UNCHANGED heap

GetRes(x, idx, form) ==
    IF form \in {"ravel", "ravelvec"} THEN ToString(Offset(x.sh, x.f, idx))
    ELSE x.v[Offset(x.sh, x.f, idx) + 1]

Get(d, idx, form, res) ==
    /\ Live(d)
    /\ IF ValidIdx(heap[d].sh, idx, form) THEN res.r = "ok" /\ res.v = GetRes(heap[d], idx, form)
       ELSE IA(res)
    /\ UNCHANGED heap

\* Many reads at once: for each index the value, or the kind of exception.
Sweep(d, idxs, form, res) ==
    /\ Live(d) /\ res.r = "ok" /\ Len(res.vs) = Len(idxs)
    /\ \A i \in 1..Len(idxs) :
         res.vs[i] = IF ValidIdx(heap[d].sh, idxs[i], form) THEN GetRes(heap[d], idxs[i], form) ELSE "!ia"
    /\ UNCHANGED heap

\* The same for a big tensor in which element k has the 32-bit value k: only the
\* mapping of indices matters, and the tensor is not part of the heap.
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex8(n) == LET RECURSIVE H(_, _)
               H(m, k) == IF k = 0 THEN "" ELSE H(m \div 16, k - 1) \o Hex[(m % 16) + 1]
           IN H(n, 8)
RampSweep(sh, f, idxs, form, res) ==
    /\ res.r = "ok" /\ Len(res.vs) = Len(idxs)
    /\ \A i \in 1..Len(idxs) :
         res.vs[i] = IF ~ValidIdx(sh, idxs[i], form) THEN "!ia"
                     ELSE LET o == Offset(sh, f, idxs[i])
                          IN IF form \in {"ravel", "ravelvec"} THEN ToString(o) ELSE Hex8(o)
    /\ UNCHANGED heap

\* The same for tensors with more elements than 32 bits can count.  Numbers are
\* eight bytes; a component of an index is [n: 1 if negative, w: its magnitude].
WW == INSTANCE Wide
RECURSIVE WSize(_)
WSize(sh) == IF sh = <<>> THEN WW!WOf(1) ELSE WW!WMul(sh[1], WSize(Tail(sh)))
WValid(sh, idx, form) ==
    /\ Len(idx) = Len(sh)
    /\ \A k \in 1..Len(sh) :
         IF idx[k].n = 1 THEN form = "ints" /\ WW!WLeq(idx[k].w, sh[k]) ELSE WW!WLess(idx[k].w, sh[k])
WNorm(sh, idx) == [k \in 1..Len(sh) |-> IF idx[k].n = 1 THEN WW!WSub(sh[k], idx[k].w) ELSE idx[k].w]
RECURSIVE WOffC(_, _, _)
WOffC(sh, i, n) == IF n = 0 THEN WW!WZero ELSE WW!WAdd(WW!WMul(WOffC(sh, i, n - 1), sh[n]), i[n])
RECURSIVE WOffF(_, _, _)
WOffF(sh, i, n) == IF n > Len(sh) THEN WW!WZero ELSE WW!WAdd(i[n], WW!WMul(sh[n], WOffF(sh, i, n + 1)))
WOffset(sh, f, idx) == LET i == WNorm(sh, idx) IN IF f = 0 THEN WOffC(sh, i, Len(sh)) ELSE WOffF(sh, i, 1)
HugeSweep(sh, f, idxs, form, res) ==
    /\ res.r = "ok" /\ Len(res.vs) = Len(idxs)
    /\ res.size = WSize(sh)
    /\ \A i \in 1..Len(idxs) :
         IF WValid(sh, idxs[i], form) THEN res.vs[i].w = WOffset(sh, f, idxs[i]) ELSE res.vs[i].w = "ia"
    /\ UNCHANGED heap

Bulk(d, els, res) ==
    /\ Live(d)
    /\ IF Len(els) = Size(heap[d].sh) THEN res.r = "ok" /\ heap' = [heap EXCEPT ![d].v = els]
       ELSE IA(res) /\ UNCHANGED heap

\* The elements of another tensor, or its own.
BulkFrom(d, s, res) ==
    /\ Live(d) /\ Live(s) /\ heap[s].t = heap[d].t
    /\ IF Len(heap[s].v) = Size(heap[d].sh) THEN res.r = "ok" /\ heap' = [heap EXCEPT ![d].v = heap[s].v]
       ELSE IA(res) /\ UNCHANGED heap

\* A call which threw because it was refused memory has done nothing.
Refused(e) == /\ e.op \in {"tnew", "tcopy", "tassign", "tset", "tget", "tbulk", "tbulkfrom"}
              /\ UNCHANGED heap

\* Writing through data() or an iterator.
Poke(d, k, v, res) ==
    /\ Live(d) /\ k < Len(heap[d].v)
    /\ res.r = "ok" /\ heap' = [heap EXCEPT ![d].v[k + 1] = v]
=============================================================================
