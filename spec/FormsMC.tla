------------------------------- MODULE FormsMC -------------------------------
(***************************************************************************)
(* All pairs of a plain way of making and asking an archive and another     *)
(* one, over an ideal library or one in which some form loses something:    *)
(* Functional then fails, i.e. the pairs are enough to tell.               *)
(***************************************************************************)
EXTENDS Forms, TLC, Json

CONSTANT Defect   \* "none", or the form which is not as the others

VARIABLES step, form
mcVars == <<arr, obj, ans, step, form>>

Writers == {[kind |-> "s", path |-> "-"]} \cup {[kind |-> "f", path |-> p] : p \in {"str", "cstr", "path"}}
Opts == {<<-1, "D">>, <<0, "D">>, <<8, "D">>, <<0, "N">>, <<0, "L">>, <<0, "B">>, <<8, "N">>, <<8, "L">>, <<8, "B">>}
Readers == {[kind |-> "s", path |-> p] : p \in {"copy", "move"}} \cup {[kind |-> "f", path |-> p] : p \in {"str", "cstr", "path"}}
Reads == {"one", "two", "user", "user2"}
Writes == 0..3
Closes == {"close", "destroy"}

\* The forms of a variant; a destroyed in-memory writer is gone with its archive.
Variants == {v \in [w : Writers, o : Opts, wr : Writes, c : Closes, r : Readers, rd : Reads] :
                ~(v.w.kind = "s" /\ v.c = "destroy")}
Plain(o) == [w |-> [kind |-> "s", path |-> "-"], o |-> <<MethodMeant(o[1]), Meant(o[2])>>, wr |-> 0, c |-> "close",
             r |-> [kind |-> "s", path |-> "copy"], rd |-> "one"]

\* What the library makes of the options: the ideal one what is meant.
Effect(v) ==
    LET m == MethodMeant(v.o[1])
        e == Meant(v.o[2])
    IN CASE Defect = "path-order" /\ v.w.path = "path" -> <<m, "L">>
         [] Defect = "cstr-method" /\ v.w.path = "cstr" -> <<0, e>>
         [] Defect = "memory-order" /\ v.w.kind = "s" -> <<m, "L">>
         [] Defect = "native" /\ v.o[2] = "N" -> <<m, "B">>
         [] OTHER -> <<m, e>>
ReadEffect(v) == IF Defect = "two" /\ v.rd = "two" THEN "nothing" ELSE "array"

Init == FormInit /\ step = 0 /\ form \in Variants

\* the library at work: the plain way first, then the variant, in slots of their own
F(i) == IF i = 1 THEN Plain(form.o) ELSE form
S(i, n) == <<n, i>>
Next ==
    LET i == IF step < 5 THEN 1 ELSE 2
        k == step % 5
    IN  /\ step < 10 /\ step' = step + 1 /\ UNCHANGED form
        /\ CASE k = 0 -> Make("a", "array")
             [] k = 1 -> WOpen(S(i, "w"), F(i).o[1], F(i).o[2], [r |-> "ok"])
             [] k = 2 -> obj' = [obj EXCEPT ![S(i, "w")][4] = Append(@, <<"x", "array">>)] /\ UNCHANGED <<arr, ans>>
             [] k = 3 -> WDone(S(i, "w"), S(i, "z"), [r |-> "ok"])
             [] OTHER -> \* what is seen: the bytes, and what is read
                  LET tb == <<"bytes", obj[S(i, "z")]>>
                      tr == <<"read", obj[S(i, "z")]>>
                      put(f, t, x) == IF t \in DOMAIN f /\ f[t].x # x THEN PutF(f, t, [x |-> x, same |-> FALSE]) ELSE PutF(f, t, [x |-> x, same |-> TRUE])
                  IN  ans' = put(put(ans, tb, Effect(F(i))), tr, ReadEffect(F(i))) /\ UNCHANGED <<arr, obj>>

Spec == Init /\ [][Next]_mcVars

Functional == \A t \in DOMAIN ans : ans[t].same

\* The plain way and the variant denote the same.
SameTerm == step = 10 => obj[S(1, "z")] = obj[S(2, "z")]

EmitCase == step # 10 \/ Defect # "none" \/ PrintT("CASE " \o ToJson(form))
=============================================================================
