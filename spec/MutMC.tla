------------------------------- MODULE MutMC -------------------------------
(***************************************************************************)
(* Every header text within a small edit distance of a valid one, edited   *)
(* token by token (replace, insert, delete, swap).  Which of them are      *)
(* valid is decided twice: by a grammar over tokens (here) and by the      *)
(* decoder over bytes (NpyFormat); the two must agree.  Each text is       *)
(* printed for the library to judge.                                       *)
(***************************************************************************)
EXTENDS NpyFormat, Json

CONSTANTS MaxEdits, Bases,
    EmitEvery   \* one text in so many is printed

Tok == <<
    B("{"), B("}"), B("("), B(")"), B(","), B(":"),                       \* 1-6
    B("'descr'"), B("'fortran_order'"), B("'shape'"),                      \* 7-9
    B("'<i2'"), B("'|u1'"), B("'>U1'"),                                    \* 10-12
    B("True"), B("False"),                                                 \* 13-14
    B("2"), B("1"), B("0"),                                                \* 15-17
    B("-1"), B("18446744073709551616"), B("'x'"), B("None"), B("1.5"),     \* 18-22
    B("["), B("]"), B("'<i3'"), B("'"), B("true"), B("'|i2'"), B("+2"),    \* 23-29
    B("2e1"), B("0x2"), B("'descr"), B("Tru"), B("'=i9'"), B("1 1"), B("''"), \* 30-36
    B("'<U-1'"), B("'<U1x'"), B("'<'"), B("'U'"), B("3.")                  \* 37-41
>>
Codes == {10, 11, 12}
Nums == {15, 16, 17}

BaseList == <<
    \* {'descr': '<i2', 'fortran_order': False, 'shape': (2, 1), }
    <<1, 7, 6, 10, 5, 8, 6, 14, 5, 9, 6, 3, 15, 5, 16, 4, 5, 2>>,
    \* {'shape': (2,), 'fortran_order': True, 'descr': '|u1', }
    <<1, 9, 6, 3, 15, 5, 4, 5, 8, 6, 13, 5, 7, 6, 11, 5, 2>>,
    \* {'fortran_order': False, 'shape': (), 'descr': '>U1', }
    <<1, 8, 6, 14, 5, 9, 6, 3, 4, 5, 7, 6, 12, 5, 2>>
>>

VARIABLES toks, edits, base
vars == <<toks, edits, base>>

Init == base \in Bases /\ toks = BaseList[base] /\ edits = 0

Replace == \E i \in 1..Len(toks), k \in 1..Len(Tok) : k # toks[i] /\ toks' = [toks EXCEPT ![i] = k]
Insert == \E i \in 0..Len(toks), k \in 1..Len(Tok) :
            toks' = SubSeq(toks, 1, i) \o <<k>> \o SubSeq(toks, i + 1, Len(toks))
Delete == \E i \in 1..Len(toks) : toks' = SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))
Swap == \E i \in 1..(Len(toks) - 1) : \E j \in (i + 1)..Len(toks) :
            toks' = [toks EXCEPT ![i] = toks[j], ![j] = toks[i]]

Next == edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED base
        /\ (Replace \/ Insert \/ Delete \/ Swap)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The grammar. *)
Real == toks

\* the end of a tuple which starts at position p, or 0; one: exactly one dimension and no comma
RECURSIVE Tuple(_, _, _, _)
Tuple(s, p, st, n) ==
    IF p > Len(s) THEN [p |-> 0, one |-> FALSE]
    ELSE IF s[p] = 4 THEN [p |-> p + 1, one |-> st = "num" /\ n = 1]
    ELSE IF st = "num" THEN IF s[p] = 5 THEN Tuple(s, p + 1, "comma", n) ELSE [p |-> 0, one |-> FALSE]
    ELSE IF s[p] \in Nums THEN Tuple(s, p + 1, "num", n + 1) ELSE [p |-> 0, one |-> FALSE]

RECURSIVE Entries(_, _, _, _)
\* verdict of the entries from position p: "ok", "gray", "dup" or "no"
Entries(s, p, have, g) ==
    IF p > Len(s) THEN "no"
    ELSE IF s[p] = 2
    THEN IF p # Len(s) THEN (IF have # {7, 8, 9} THEN "no" ELSE "gray")   \* something follows
         ELSE IF have # {7, 8, 9} THEN "no" ELSE g
    ELSE IF s[p] \notin {7, 8, 9} \/ p + 2 > Len(s) \/ s[p + 1] # 6 THEN "no"
    ELSE LET v == s[p + 2]
             t == IF s[p] = 9 /\ v = 3 THEN Tuple(s, p + 3, "first", 0) ELSE [p |-> 0, one |-> FALSE]
             good == CASE s[p] = 7 -> v \in Codes
                       [] s[p] = 8 -> v \in {13, 14}
                       [] s[p] = 9 -> t.p # 0
             q == IF s[p] = 9 THEN t.p ELSE p + 3
             g2 == IF s[p] \in have \/ g = "dup" THEN "dup"
                   ELSE IF t.one \/ g = "gray" THEN "gray" ELSE g
         IN IF ~good \/ q > Len(s) THEN "no"
            ELSE IF s[q] = 5 THEN Entries(s, q + 1, have \cup {s[p]}, g2)
            ELSE IF s[q] = 2 THEN Entries(s, q, have \cup {s[p]}, IF g2 = "ok" THEN "gray" ELSE g2)
            ELSE "no"

Verdict == IF Real = <<>> \/ Real[1] # 1 THEN "no" ELSE Entries(Real, 2, {}, "ok")

Text == Flatten([i \in 1..Len(toks) |-> (IF i = 1 \/ toks[i] \in {5, 6} THEN <<>> ELSE <<Space>>) \o Tok[toks[i]]]) \o <<Newline>>
Image == Magic \o <<1, 0, Len(Text) % 256, Len(Text) \div 256>> \o Text
         \o [i \in 1..40 |-> (i * 7) % 128]

\* The decoder is at least as strict as the grammar and understands what the grammar allows.
\* (Tokens with quotes or "2 1" glue together in ways the token grammar does not see.)
Glue == \E i \in 1..Len(toks) : toks[i] \in {26, 32, 35, 41, 40}
Agree == LET d == ParseDict(Text).v IN
    /\ Verdict = "ok" => d = "ok"
    /\ Verdict = "gray" => d \in {"gray"}
    /\ Verdict = "dup" => d = "any"
    /\ (Verdict = "no" /\ ~Glue) => d = "rej"

RECURSIVE Sum(_, _, _)
Sum(s, i, acc) == IF i > Len(s) THEN acc ELSE Sum(s, i + 1, (acc * 31 + s[i]) % 65521)

EmitCase == Sum(toks, 1, base) % EmitEvery = 0 => PrintT("CASE " \o ToJson([img |-> Image]))
=============================================================================
