------------------------------ MODULE HeaderMC ------------------------------
(***************************************************************************)
(* Producers of NPY headers: a process which emits the tokens of a         *)
(* dictionary one by one, choosing the order of the entries and the white  *)
(* space between them.  For every complete header the decoder of NpyFormat *)
(* must give exactly the meaning the producer intended; each is printed    *)
(* for the library to read.                                                *)
(***************************************************************************)
EXTENDS NpyFormat, Json

CONSTANTS WsChoices,    \* indices into WsText
          Metas,        \* indices into MetaList
          Versions,
          EmitEvery,    \* one header in so many is printed
        Changes       \* how often the white space may change within a header

WsText == <<<<>>, <<32>>, <<9, 10>>, <<32, 32, 13, 10>>>>

\* descr, order, shape, element bytes
MetaList == <<
    [t |-> "i4", en |-> "L", f |-> 0, sh |-> <<Dec(1), Dec(2)>>, w |-> 0, el |-> <<<<1, 2, 3, 4>>, <<255, 0, 10, 26>>>>],
    [t |-> "U", en |-> "B", f |-> 1, sh |-> <<Dec(1)>>, w |-> 2, el |-> <<<<955, 128512>>>>],
    [t |-> "b1", en |-> "N", f |-> 0, sh |-> <<>>, w |-> 0, el |-> <<<<1>>>>],
    [t |-> "c8", en |-> "B", f |-> 1, sh |-> <<Dec(0), Dec(12)>>, w |-> 0, el |-> <<>>],
    [t |-> "f8", en |-> "L", f |-> 0, sh |-> <<Dec(1), Dec(1), Dec(1)>>, w |-> 0, el |-> <<<<127, 248, 0, 0, 0, 0, 0, 1>>>>]
>>

VARIABLES text,  \* emitted so far
          todo,  \* keys not yet emitted
          ws,    \* current white space
          nch,   \* changes left
          stage, \* what comes next
          m, ver, cur, ti
vars == <<text, todo, ws, nch, stage, m, ver, cur, ti>>

M == MetaList[m]
Q(s) == <<Quote>> \o s \o <<Quote>>

Init ==
    /\ m \in Metas /\ ver \in Versions /\ ws \in WsChoices
    /\ nch = Changes
    /\ text = <<LBrace>> /\ todo = {"d", "f", "s"} /\ stage = "key" /\ cur = "" /\ ti = 0

Emit(s, st2) == text' = text \o WsText[ws] \o s /\ stage' = st2

\* The white space may change between two tokens.
Rewhite == IF nch > 0 THEN \E w \in WsChoices : ws' = w /\ nch' = IF w = ws THEN nch ELSE nch - 1
           ELSE UNCHANGED <<ws, nch>>

Key == stage = "key" /\ \E k \in todo :
    /\ Emit(Q(CASE k = "d" -> KDescr [] k = "f" -> KOrder [] k = "s" -> KShape), "colon")
    /\ cur' = k /\ todo' = todo \ {k} /\ UNCHANGED ti
ColonTok == stage = "colon" /\ Emit(<<Colon>>, "value") /\ UNCHANGED <<cur, todo, ti>>
Value == stage = "value" /\ UNCHANGED <<cur, todo, ti>> /\
    CASE cur = "d" -> Emit(Q(DescrOf(M.t, M.en, M.w)), "comma")
      [] cur = "f" -> Emit(IF M.f = 1 THEN LTrue ELSE LFalse, "comma")
      [] cur = "s" -> Emit(<<LParen>>, "dim")
\* the dimensions of the tuple; a final comma is optional unless there is one dimension
Dim == stage = "dim" /\ UNCHANGED <<cur, todo>> /\
    IF ti < Len(M.sh) THEN Emit(M.sh[ti + 1], "dimcomma") /\ ti' = ti + 1
    ELSE Emit(<<RParen>>, "comma") /\ UNCHANGED ti
DimComma == stage = "dimcomma" /\ UNCHANGED <<cur, todo, ti>> /\
    \/ Emit(<<Comma>>, "dim")
    \/ ti = Len(M.sh) /\ ti # 1 /\ Emit(<<RParen>>, "comma")
CommaTok == stage = "comma" /\ UNCHANGED <<cur, todo, ti>> /\ Emit(<<Comma>>, IF todo = {} THEN "end" ELSE "key")
End == stage = "end" /\ UNCHANGED <<cur, todo, ti>> /\ Emit(<<RBrace>>, "done")

Next == /\ UNCHANGED <<m, ver>> /\ Rewhite
        /\ (Key \/ ColonTok \/ Value \/ Dim \/ DimComma \/ CommaTok \/ End)

Spec == Init /\ [][Next]_vars

Header ==
    LET d == text \o <<Newline>>
        n == Len(d)
    IN  Magic \o (IF ver = 1 THEN <<1, 0, n % 256, n \div 256>> ELSE <<2, 0, n % 256, n \div 256, 0, 0>>) \o d

Image == Header \o Flatten([i \in 1..Len(M.el) |-> ElBytes(M.t, M.en, M.w, M.el[i])])

Understood == stage = "done" =>
    LET x == Parse(Image, 1)
    IN  /\ x.v = "ok"
        /\ x.a = [t |-> M.t, f |-> M.f, sh |-> M.sh, el |-> M.el]
        /\ x.h.en = M.en /\ x.next = Len(Image) + 1
        /\ ParseHeader(Header, 1).v = "ok"

\* An unfinished header is not understood.
Unfinished == stage # "done" =>
    /\ ParseDict(text \o <<Newline>>).v = "rej"

RECURSIVE Sum(_, _, _)
Sum(s, i, acc) == IF i > Len(s) THEN acc ELSE Sum(s, i + 1, (acc * 31 + s[i]) % 65521)

EmitCase == stage = "done" /\ Sum(text, 1, ver) % EmitEvery = 0 => PrintT("CASE " \o ToJson([img |-> Image, t |-> M.t]))
=============================================================================
