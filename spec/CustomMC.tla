------------------------------ MODULE CustomMC ------------------------------
(* All programs over one archive writer and one stream, with user tensors   *)
(* that write, throw halfway, or cannot be represented, between arrays.     *)
EXTENDS Custom, Json, SequencesExt

CONSTANTS MaxOps, Emit
VARIABLES hist, good
mcVars == <<arr, cust, st, fs, W, R, hist, good>>

\* what user tensors exist: [sh, f, code, pay, thr]
Shape(n) == [i \in 1..n |-> <<49>>]
CGood == [sh |-> <<<<50>>, <<51>>>>, f |-> 1, code |-> B("%i2"), pay |-> B("hello, world"), thr |-> -1]
CThrow == [sh |-> <<<<55>>>>, f |-> 0, code |-> B("%f4"), pay |-> B("partial"), thr |-> 4]
CEarly == [sh |-> <<>>, f |-> 0, code |-> B("|u1"), pay |-> B("x"), thr |-> 0]
A == [t |-> "u1", f |-> 0, sh |-> <<<<50>>>>, el |-> <<<<7>>, <<9>>>>]

Init == /\ arr = [d \in {"a"} |-> A]
        /\ cust = [d \in {"good", "throw", "early"} |-> IF d = "good" THEN CGood ELSE IF d = "throw" THEN CThrow ELSE CEarly]
        /\ st = [s \in {"s"} |-> [b |-> <<>>, p |-> 0]]
        /\ fs = << >> /\ R = << >> /\ hist = <<>> /\ good = <<>>
        /\ W = [w \in {"w"} |-> [en |-> "B", m |-> 8, ents |-> <<>>, closed |-> FALSE]]

Did(x) == hist' = Append(hist, x)
More == Len(hist) < MaxOps
Name(k) == <<97 + k>>   \* "a", "b"

SaveRes(c, en) == IF c.thr >= 0 THEN [r |-> "exc", k |-> "user", log |-> "d" \o en \o "s" \o en, pre |-> 1, app |-> CTorn(c, en)]
                  ELSE [r |-> "ok", log |-> "d" \o en \o "s" \o en, pre |-> 1, app |-> CImage(c, en), good |-> 1]
WriteRes(c) == IF W["w"].closed THEN [r |-> "exc", k |-> "rt"]
               ELSE IF c.thr >= 0 THEN [r |-> "exc", k |-> "user", log |-> "dBsB"] ELSE [r |-> "ok", log |-> "dBsB"]

Next ==
    \/ More /\ \E d \in DOMAIN cust : CSave("s", d, "B", SaveRes(cust[d], "B")) /\ Did([op |-> "csave", d |-> d]) /\ UNCHANGED good
    \/ More /\ Save("s", "a", "L", [r |-> "ok", app |-> Encode(A, "L")]) /\ Did([op |-> "ssave"]) /\ UNCHANGED good
    \/ More /\ \E d \in DOMAIN cust, k \in 0..1 :
          /\ CWrite("w", Name(k), d, WriteRes(cust[d])) /\ Did([op |-> "cwrite", d |-> d, k |-> k])
          /\ good' = IF ~W["w"].closed /\ cust[d].thr < 0 THEN Append(good, <<k, d>>) ELSE good
    \/ More /\ \E k \in 0..1 :
          /\ WWrite("w", Name(k), "a", IF W["w"].closed THEN [r |-> "exc", k |-> "rt"] ELSE [r |-> "ok"])
          /\ Did([op |-> "wwrite", k |-> k])
          /\ good' = IF ~W["w"].closed THEN Append(good, <<k, "a">>) ELSE good
    \/ More /\ WClose("w", [r |-> "ok"]) /\ Did([op |-> "wclose"]) /\ UNCHANGED good
    \/ UNCHANGED mcVars
Spec == Init /\ [][Next]_mcVars

\* the archive holds exactly what was written without an exception
OnlyGood ==
    /\ Len(W["w"].ents) = Len(good)
    /\ \A i \in 1..Len(good) : W["w"].ents[i] = [n |-> Stored(Name(good[i][1])),
            b |-> IF good[i][2] = "a" THEN Encode(A, "B") ELSE CImage(cust[good[i][2]], "B")]
\* what the built-in reader makes of a user tensor's image is what the codes say
ReadBack == \A i \in 1..Len(W["w"].ents) : Parse(W["w"].ents[i].b, 1).v = "ok"

EmitCase == (Emit /\ Len(hist) = MaxOps) => PrintT("CASE " \o ToJson([h |-> hist]))
=============================================================================
