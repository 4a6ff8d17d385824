------------------------------- MODULE ZipMC -------------------------------
(***************************************************************************)
(* Producers of archives which make different choices: every combination    *)
(* of the choices in the configuration is built with the encoder of         *)
(* ZipFormat and given to its reader, which must recover what was put in    *)
(* (or refuse, when the archive needs more than version 4.5 or lacks a      *)
(* ZIP64 value).  The archives are printed for replay into the library.     *)
(***************************************************************************)
EXTENDS ZipFormat, Names, Json, IOUtils

CONSTANTS Wide   \* TRUE: full products

VARIABLE c

A1 == Encode([t |-> "u1", f |-> 0, sh |-> <<B("3")>>, el |-> <<<<7>>, <<0>>, <<255>>>>], "L")
A2 == Encode([t |-> "i2", f |-> 1, sh |-> <<>>, el |-> <<<<1, 2>>>>], "B")
\* Mostly not a header: a small image with other contents
Img(i) == IF i = 1 THEN A1 ELSE A2
Name(i) == IF i = 1 THEN B("a.npy") ELSE B("dir/b.npy")

Plain == [m |-> 0, lz |-> 0, dz |-> 0, ver |-> <<20, 20>>, flags |-> 0, pre |-> 0, gap |-> 0, rev |-> FALSE, e |-> 0]

Vers == {<<10, 10>>, <<20, 45>>, <<45, 20>>, <<46, 20>>, <<20, 46>>, <<63, 63>>, <<45, 45>>}
Flags == {0, 2, 4, 2048, 2054, 128}

Sizes == [m : {0, 8}, lz : 0..6, dz : 0..8, ver : Vers]
Layouts == [m : {0, 8}, lz : {0, 1}, dz : {0, 2}, flags : Flags, pre : {0, 5}, gap : {0, 3}, rev : BOOLEAN]
\* ZIP64 end records
Ends == [m : {0, 8}, dz : {0, 2}, pre : {0, 5}, gap : {0, 3}, rev : BOOLEAN, e : 1..8]

Producers == IF Wide
           THEN [m : {0, 8}, lz : 0..6, dz : 0..8, ver : Vers, flags : {0, 2048}, pre : {0, 5}, gap : {0, 3}, rev : BOOLEAN, e : {0, 2}]
           ELSE {[m |-> s.m, lz |-> s.lz, dz |-> s.dz, ver |-> s.ver, flags |-> 0, pre |-> 0, gap |-> 0, rev |-> FALSE, e |-> 0] : s \in Sizes}
                \cup {[m |-> s.m, lz |-> s.lz, dz |-> s.dz, ver |-> <<20, 20>>, flags |-> s.flags, pre |-> s.pre,
                       gap |-> s.gap, rev |-> s.rev, e |-> 0] : s \in Layouts}
                \cup {[m |-> s.m, lz |-> 0, dz |-> s.dz, ver |-> <<20, 20>>, flags |-> 0, pre |-> s.pre,
                       gap |-> s.gap, rev |-> s.rev, e |-> s.e] : s \in Ends}

\* local placeholders <<us, cs>> and ZIP64 values
LPh(z) == IF z \in {1, 4, 5} THEN <<TRUE, TRUE>> ELSE IF z = 3 THEN <<TRUE, FALSE>> ELSE IF z = 6 THEN <<FALSE, TRUE>>
          ELSE <<FALSE, FALSE>>
LVals(z, us, cs) == CASE z = 0 -> <<>> [] z = 1 -> <<us, cs>> [] z = 2 -> <<us, cs>> [] z = 3 -> <<us, cs>>
                      [] z = 4 -> <<us>> [] z = 5 -> <<>> [] z = 6 -> <<cs>>
LLacks(z) == z \in {4, 5}
\* directory placeholders <<us, cs, offset>>; -2 stands for the offset
DPh(z) == CASE z \in {0, 4} -> <<FALSE, FALSE, FALSE>> [] z = 1 -> <<TRUE, TRUE, FALSE>>
            [] z \in {2, 5} -> <<TRUE, TRUE, TRUE>> [] z \in {3, 6} -> <<FALSE, FALSE, TRUE>>
            [] z = 7 -> <<TRUE, FALSE, FALSE>> [] z = 8 -> <<FALSE, TRUE, TRUE>>
DVals(z, us, cs) == CASE z = 0 -> <<>> [] z = 1 -> <<us, cs>> [] z = 2 -> <<us, cs, -2>> [] z = 3 -> <<-2>>
                      [] z = 4 -> <<us, cs, -2>> [] z = 5 -> <<us, cs>> [] z = 6 -> <<>> [] z = 7 -> <<us, cs, -2>>
                      [] z = 8 -> <<cs, -2>>
DLacks(z) == z \in {5, 6}

Entry(i, h) ==
    LET img == Img(i)
        data == IF h.m = 0 THEN img ELSE DeflStored(img)
    IN  [n |-> Name(i), m |-> h.m, img |-> img, data |-> data, flags |-> h.flags,
         time |-> <<17 * i, 34, 51, 68>>, made |-> 788, attr |-> <<0, 0, 164, 129>>,
         lver |-> h.ver[1], dver |-> h.ver[2],
         lph |-> LPh(h.lz), lvals |-> LVals(h.lz, Len(img), Len(data)),
         dph |-> DPh(h.dz), dvals |-> DVals(h.dz, Len(img), Len(data))]

Junk(n) == [i \in 1..n |-> 79 + i]

\* placeholders of the end record: count, size, offset (1: none, though there is a ZIP64
\* end record; 7: which needs too new a version; 8: which is not there)
EPh(e) == CASE e \in {0, 1} -> <<FALSE, FALSE, FALSE>> [] e \in {2, 7, 8} -> <<TRUE, TRUE, TRUE>> [] e = 3 -> <<TRUE, FALSE, FALSE>>
            [] e = 4 -> <<FALSE, FALSE, TRUE>> [] e = 5 -> <<FALSE, TRUE, FALSE>> [] e = 6 -> <<FALSE, TRUE, TRUE>>

\* Two entries; the choices concern the first one.
Build(h) ==
    LET e1 == Entry(1, h)
        e2 == Entry(2, [Plain EXCEPT !.m = 8 - h.m])
        pre == Junk(h.pre)
        l1 == LocalRec(e1) \o e1.data
        l2 == LocalRec(e2) \o e2.data
        gap == Junk(h.gap)
        body == pre \o l1 \o gap \o l2 \o gap
        o1 == Len(pre)
        o2 == Len(pre) + Len(l1) + Len(gap)
        dir == IF h.rev THEN DirRec(e2, o2) \o DirRec(e1, o1) ELSE DirRec(e1, o1) \o DirRec(e2, o2)
        z64 == SigEnd64 \o Le64(44) \o Le16(45) \o Le16(IF h.e = 7 THEN 46 ELSE 45) \o LeW(<<0, 0>>) \o LeW(<<0, 0>>)
               \o Le64(2) \o Le64(2) \o Le64(Len(dir)) \o Le64(Len(body))
        loc == SigLocator \o LeW(<<0, 0>>) \o Le64(Len(body) + Len(dir)) \o Le32(1)
        n == IF EPh(h.e)[1] THEN <<255, 255, 255, 255>> ELSE <<2, 0, 2, 0>>
    IN  body \o dir \o (IF h.e \in {0, 8} THEN <<>> ELSE z64 \o loc)
        \o SigEnd \o <<0, 0, 0, 0>> \o n \o Val32(Len(dir), EPh(h.e)[2]) \o Val32(Len(body), EPh(h.e)[3]) \o <<0, 0>>

\* What the property says of it
Unreadable(h) == LLacks(h.lz) \/ DLacks(h.dz) \/ h.ver[1] > 45 \/ h.ver[2] > 45

Init == c = Plain
Next == c = Plain /\ c' \in Producers \ {Plain}
Spec == Init /\ [][Next]_c

ReadersRight ==
    LET b == Build(c)
        a == ArchiveRead(b)
        i == IF c.rev THEN 2 ELSE 1
    IN  /\ IF c.e \in {7, 8} THEN a.v = "rej"
           ELSE
           /\ Len(a.ents) = 2
           /\ a.ents[3 - i] = [n |-> Name(2), v |-> "ok", img |-> A2]
           /\ a.ents[i].n = Name(1)
           /\ IF Unreadable(c) THEN a.ents[i].v = "rej"
              ELSE a.v = "ok" /\ a.ents[i] = [n |-> Name(1), v |-> "ok", img |-> A1]
        /\ PrintT("CASE " \o ToJson([b |-> b, h |-> c]))

\* The strict archives are those without any of the liberties.
WritersRight ==
    LET b == Build(c)
        ents == <<[n |-> Name(1), img |-> A1, m |-> c.m], [n |-> Name(2), img |-> A2, m |-> 8 - c.m]>>
    IN  StrictArchive(b, ents) <=>
            /\ c.e = 0 /\ c.lz = 0 /\ c.dz = 0 /\ c.pre = 0 /\ c.gap = 0 /\ ~c.rev
            /\ c.flags \in {0, 2048} /\ c.ver[1] \in (IF c.m = 8 THEN 20 ELSE 10)..45
            /\ c.ver[2] \in (IF c.m = 8 THEN 20 ELSE 10)..45
=============================================================================
