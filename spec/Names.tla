------------------------------- MODULE Names -------------------------------
(* Names of entries, how they are stored and looked up; small common things. *)
EXTENDS Bytes

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

IsExc(res) == res.r = "exc" /\ res.k # "unk"
Exc(res, k) == res.r = "exc" /\ res.k = k

Suffix == B(".npy")
Stored(name) == IF HasSuffix(name, Suffix) THEN name ELSE name \o Suffix
MaxName == 65535

SupportedMethods == {0, 8}

\* Indices of the entries with exactly that name; the last one counts.
Exact(ents, name) == {i \in 1..Len(ents) : ents[i].n = name}
Find1(ents, name) == IF Exact(ents, name) = {} THEN 0 ELSE MaxOf(Exact(ents, name))
Lookup(ents, name) ==
    IF Find1(ents, name) # 0 THEN Find1(ents, name) ELSE Find1(ents, name \o Suffix)

NameSet(ents) == {ents[i].n : i \in 1..Len(ents)}
=============================================================================
