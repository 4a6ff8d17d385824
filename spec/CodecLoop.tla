------------------------------ MODULE CodecLoop ------------------------------
(***************************************************************************)
(* The loop which decompresses an entry: input is handed to the codec in   *)
(* chunks of I units, output is taken in chunks of O units, and the codec  *)
(* keeps a window of D units which output passes through.                  *)
(*                                                                         *)
(* A compressed stream is a sequence of tokens: "i" takes a unit of input, *)
(* "o" yields a unit of output.  The codec is a transcription of           *)
(* mz_inflate as far as the flow of units goes; the loop is npy_inflate.   *)
(* Checked: for every stream, and also for every stream cut short, the     *)
(* loop ends; it succeeds exactly for complete streams, and then has       *)
(* yielded everything.                                                     *)
(*                                                                         *)
(* Drain = FALSE is the loop as it was: a buffer which is not full is      *)
(* taken to mean that all input has been consumed.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS D, O, I, N, Drain

Tokens == {"i", "o"}

VARIABLES
    s,      \* the stream
    cut,    \* so many units of input are missing at its end
    pos,    \* tokens processed
    inp,    \* units left in the input buffer
    fed,    \* units taken from the source so far
    lost,   \* units overwritten in the input buffer
    ofs, dav, last, \* codec: window offset, window units not handed out, last status
    out,    \* units handed out
    left,   \* did a window remain partly unread between two calls?
    ret, pc

vars == <<s, cut, pos, inp, fed, lost, ofs, dav, last, out, left, ret, pc>>

Min(x, y) == IF x < y THEN x ELSE y
Count(q, t) == LET RECURSIVE c(_)
                   c(k) == IF k = 0 THEN 0 ELSE c(k - 1) + IF q[k] = t THEN 1 ELSE 0
               IN c(Len(q))
Units == Count(s, "i")
Total == Count(s, "o")
Source == Units - cut

Streams == UNION {[1..n -> Tokens] : n \in 1..N}

Init == /\ s \in {q \in Streams : q[1] = "i"}
        /\ cut \in {0, 1} /\ cut <= Units
        /\ pos = 0 /\ inp = 0 /\ fed = 0 /\ lost = 0 /\ ofs = 0 /\ dav = 0 /\ last = "ok"
        /\ out = 0 /\ left = FALSE /\ ret = "OK" /\ pc = "read"

(* One call: what is in the window goes out first, and only that; otherwise *)
(* the window is filled and handed out until something runs out.            *)
RECURSIVE Call(_, _)
Call(c, room) == \* c: [pos, inp, ofs, dav, last, out, ret]
    LET r == LET RECURSIVE run(_, _, _)
                 run(p, used, made) ==
                    IF p = Len(s) THEN [pos |-> p, used |-> used, made |-> made, st |-> "done"]
                    ELSE IF s[p + 1] = "i"
                         THEN IF used = c.inp THEN [pos |-> p, used |-> used, made |-> made, st |-> "more in"]
                              ELSE run(p + 1, used + 1, made)
                         ELSE IF made = D - c.ofs THEN [pos |-> p, used |-> used, made |-> made, st |-> "more out"]
                              ELSE run(p + 1, used, made + 1)
             IN run(c.pos, 0, 0)
        n == Min(r.made, room)
        d == [pos |-> r.pos, inp |-> c.inp - r.used, ofs |-> (c.ofs + n) % D, dav |-> r.made - n,
              last |-> r.st, out |-> c.out + n, ret |-> "OK"]
    IN  IF r.st = "more in" /\ inp = 0 THEN [d EXCEPT !.ret = "BUF"]
        ELSE IF r.st = "done" \/ d.inp = 0 \/ room = n \/ d.dav > 0
        THEN [d EXCEPT !.ret = IF r.st = "done" /\ d.dav = 0 THEN "END" ELSE "OK"]
        ELSE Call(d, room - n)

Inflate1 ==
    LET now == [pos |-> pos, inp |-> inp, ofs |-> ofs, dav |-> dav, last |-> last, out |-> out, ret |-> "OK"]
        n == Min(dav, O)
    IN  IF dav > 0
        THEN [now EXCEPT !.out = out + n, !.dav = dav - n, !.ofs = (ofs + n) % D,
                         !.ret = IF last = "done" /\ dav = n THEN "END" ELSE "OK"]
        ELSE Call(now, O)

Read == /\ pc = "read"
        /\ LET n == Min(I, Source - fed)
           IN IF n = 0 THEN pc' = "end" /\ UNCHANGED <<fed, inp, lost>>
              ELSE fed' = fed + n /\ inp' = n /\ lost' = lost + inp /\ pc' = "call"
        /\ UNCHANGED <<s, cut, pos, ofs, dav, last, out, left, ret>>

Step == /\ pc = "call"
        /\ LET c == Inflate1
               have == c.out - out
               again == IF Drain THEN c.ret = "OK" ELSE have = O
           IN /\ pos' = c.pos /\ inp' = c.inp /\ ofs' = c.ofs /\ dav' = c.dav
              /\ last' = c.last /\ out' = c.out /\ ret' = c.ret
              /\ left' = (left \/ c.dav > 0)
              /\ pc' = IF again THEN "call" ELSE IF c.ret = "END" THEN "end" ELSE "read"
        /\ UNCHANGED <<s, cut, fed, lost>>

Done == /\ pc = "end"
        /\ pc' = "over"
        /\ PrintT("CASE " \o ToJson([chunks |-> (Source + I - 1) \div I, inrem |-> Source % I, orem |-> out % O,
                                       outs |-> out \div O, left |-> left, good |-> ret = "END"]))
        /\ UNCHANGED <<s, cut, pos, inp, fed, lost, ofs, dav, last, out, left, ret>>

Over == pc = "over" /\ UNCHANGED vars
Next == Read \/ Step \/ Done \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Step \/ Done)

NothingLost == lost = 0
Complete == pc = "over" =>
    /\ (ret = "END") <=> (cut = 0)
    /\ ret = "END" => out = Total
Ends == <>(pc = "over")
=============================================================================
