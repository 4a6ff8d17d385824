------------------------------ MODULE TensorMC ------------------------------
(***************************************************************************)
(* (1) The index mapping is a bijection between valid multi-indices and    *)
(* positions for every small shape and both orders, the two orders are     *)
(* mirror images of each other, and negative indices alias positive ones.  *)
(* (2) All programs of constructions, copies, moves, assignments, element  *)
(* and bulk updates over three slots: tensors are independent values.      *)
(* Every program is printed for replay.                                    *)
(***************************************************************************)
EXTENDS Tensor, Json, SequencesExt

CONSTANTS MaxDim, MaxRank, MaxOps, Emit, Slots, EmitEvery

VARIABLES hist, own   \* ghost: slot -> the value an independent evaluation gives it
mcVars == <<heap, hist, own>>

Shapes == UNION {[1..n -> 0..MaxDim] : n \in 0..MaxRank}
Indices(sh) == [1..Len(sh) -> (-MaxDim)..(MaxDim - 1)]
ValidS(sh) == {i \in Indices(sh) : ValidIdx(sh, i, "get")}
ValidU(sh) == {i \in Indices(sh) : ValidIdx(sh, i, "callvec")}

ASSUME \A sh \in Shapes, f \in {0, 1} :
    /\ {Offset(sh, f, i) : i \in ValidU(sh)} = 0..(Size(sh) - 1)
    /\ Cardinality(ValidU(sh)) = Size(sh)
    /\ \A i \in ValidS(sh) : Norm(sh, i) \in ValidU(sh) /\ Offset(sh, f, i) = Offset(sh, f, Norm(sh, i))
    /\ \A i \in ValidU(sh) : Offset(sh, 1 - f, i) = Offset(Reverse(sh), f, Reverse(i))
    /\ \A i, j \in ValidU(sh) : \* the fastest index
         Len(sh) > 0 /\ (\A k \in 1..Len(sh) : k # (IF f = 0 THEN Len(sh) ELSE 1) => i[k] = j[k]) =>
            Offset(sh, f, i) - Offset(sh, f, j) = (IF f = 0 THEN i[Len(sh)] - j[Len(sh)] ELSE i[1] - j[1])

Ok == [r |-> "ok"]
Did(e) == hist' = Append(hist, e)
Val(n) == "0" \o ToString(n)
ShapeChoices == {<<2>>, <<1, 2>>, <<>>}

Init == heap = << >> /\ hist = <<>> /\ own = << >>

MkNew == \E d \in Slots, sh \in ShapeChoices, f \in {0, 1} :
    /\ New(d, "u1", sh, f, Ok) /\ Did([op |-> "new", d |-> d, sh |-> sh, f |-> f])
    /\ own' = Put(own, d, [i \in 1..Size(sh) |-> "00"])
MkCopy == \E d, s \in Slots :
    /\ Live(s) /\ d # s
    /\ \/ d \notin DOMAIN heap /\ Copy(d, s, Ok) /\ Did([op |-> "copy", d |-> d, s |-> s])
       \/ d \in DOMAIN heap /\ Assign(d, s, Ok) /\ Did([op |-> "assign", d |-> d, s |-> s])
    /\ own' = Put(own, d, own[s])
SelfAssign == \E d \in Slots : Live(d) /\ Assign(d, d, Ok) /\ Did([op |-> "assign", d |-> d, s |-> d]) /\ UNCHANGED own
MkMove == \E d, s \in Slots :
    /\ Live(s) /\ d # s
    /\ \/ d \notin DOMAIN heap /\ Move(d, s, Ok) /\ Did([op |-> "move", d |-> d, s |-> s])
       \/ d \in DOMAIN heap /\ MoveAssign(d, s, TRUE, Ok) /\ Did([op |-> "massign", d |-> d, s |-> s])
    /\ own' = Put(Drop(own, s), d, own[s])
DoSet == \E d \in Slots : \E p \in {0, 1} :
    /\ Live(d) /\ p < Len(heap[d].v)
    /\ LET v == Val(Len(hist) + 1)
           idx == CHOOSE i \in ValidU(heap[d].sh) : Offset(heap[d].sh, heap[d].f, i) = p
       IN /\ Set(d, idx, v, "set", Ok)
          /\ Did([op |-> "set", d |-> d, i |-> idx, v |-> v])
          /\ own' = [own EXCEPT ![d][p + 1] = v]
DoBulk == \E d \in Slots, n \in {1, 2} :
    /\ Live(d)
    /\ LET els == [i \in 1..n |-> Val((Len(hist) + i) % 9)]
           fits == n = Len(heap[d].v)
       IN /\ Bulk(d, els, IF fits THEN Ok ELSE [r |-> "exc", k |-> "ia"])
          /\ Did([op |-> "bulk", d |-> d, el |-> els])
          /\ own' = IF fits THEN [own EXCEPT ![d] = els] ELSE own

Next == Len(hist) < MaxOps /\ (MkNew \/ MkCopy \/ SelfAssign \/ MkMove \/ DoSet \/ DoBulk)
Spec == Init /\ [][Next]_mcVars

\* Every slot holds what was last put into it, whatever happened to the others.
Independent == /\ DOMAIN own = {d \in DOMAIN heap : Live(d)}
               /\ \A d \in DOMAIN own : heap[d].v = own[d]
SizeOk == \A d \in DOMAIN heap : Live(d) => Len(heap[d].v) = Size(heap[d].sh)

RECURSIVE Sum(_, _, _)
Code(e) == CASE e.op = "new" -> 1 + 2 * e.f + 4 * Len(e.sh) [] e.op = "copy" -> 20 + e.d + 3 * e.s
             [] e.op = "assign" -> 40 + e.d + 3 * e.s [] e.op = "move" -> 60 + e.d + 3 * e.s
             [] e.op = "massign" -> 80 + e.d + 3 * e.s [] e.op = "set" -> 100 + e.d [] OTHER -> 120 + e.d + 3 * Len(e.el)
Sum(s, i, acc) == IF i > Len(s) THEN acc ELSE Sum(s, i + 1, (acc * 131 + Code(s[i])) % 65521)
EmitCase == (Emit /\ Len(hist) = MaxOps /\ Sum(hist, 1, 0) % EmitEvery = 0) => PrintT("CASE " \o ToJson(hist))
=============================================================================
