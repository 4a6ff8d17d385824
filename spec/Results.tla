------------------------------ MODULE Results ------------------------------
(* Which results of loading and peeking are allowed, given what the decoder  *)
(* says of the bytes.                                                        *)
EXTENDS NpyFormat, Names

ShapeNum(sh) == [i \in 1..Len(sh) |-> B(sh[i])]

\* Is res an allowed result of loading image x (a result of Parse) as type t?
LoadAllowed(x, t, res) ==
    CASE x.v = "rej" -> IsExc(res)
      [] x.v = "any" -> \/ IsExc(res)
                        \/ res.r = "ok" /\ res.a.t = t
      [] OTHER ->
            IF x.h.t # t THEN IsExc(res)
            ELSE \/ res.r = "ok" /\ res.a = x.a
                 \/ x.v = "gray" /\ IsExc(res)

HeadEq(h, r) == /\ r.t = h.t /\ r.en = h.en /\ r.f = h.f
                /\ r.sh = h.sh /\ r.w = h.w

PeekAllowed(h, res) ==
    CASE h.v = "rej" -> IsExc(res)
      [] h.v = "any" -> IsExc(res) \/ res.r = "ok"
      [] OTHER -> \/ res.r = "ok" /\ HeadEq(h, res.h)
                  \/ h.v = "gray" /\ IsExc(res)
=============================================================================
