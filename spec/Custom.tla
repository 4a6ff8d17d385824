------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* Tensor types of the user: what the library asks of them, what it makes   *)
(* of their answers, and what it hands to them.                            *)
(*                                                                         *)
(* A user tensor reports a shape, an order and a type code (which may       *)
(* depend on the byte order: % stands for its mark) and writes a payload of *)
(* its own, or throws after some bytes of it.  It is loaded from whatever   *)
(* follows the header.  Everything is bytes here; built-in arrays and user  *)
(* tensors may read what the other has written.                            *)
(***************************************************************************)
EXTENDS Results

VARIABLES
    arr,    \* slot -> built-in array
    cust,   \* slot -> [sh: numerals, f, code: bytes, pay: bytes, thr: number of bytes after which save throws, or -1]
    st,     \* stream -> [b, p]
    fs,     \* file -> bytes
    W,      \* writer -> [en, m, ents: <<[n, b]>>, closed]
    R       \* reader -> entries

custVars == <<arr, cust, st, fs, W, R>>
CustInit == arr = << >> /\ cust = << >> /\ st = << >> /\ fs = << >> /\ W = << >> /\ R = << >>

Make(d, a) == arr' = Put(arr, d, a) /\ UNCHANGED <<cust, st, fs, W, R>>
New(d, c) == cust' = Put(cust, d, c) /\ UNCHANGED <<arr, st, fs, W, R>>

Mark(en) == IF Order(en) = "B" THEN 62 ELSE 60
CodeFor(c, en) == [i \in 1..Len(c.code) |-> IF c.code[i] = 37 THEN Mark(en) ELSE c.code[i]]
CHeader(c, en) == HeaderOf(CodeFor(c, en), c.f, c.sh)
CImage(c, en) == CHeader(c, en) \o c.pay
\* what has been written when the tensor throws
CTorn(c, en) == CHeader(c, en) \o SubSeq(c.pay, 1, c.thr)

Letter(en) == IF en = "D" THEN "N" ELSE en
\* the byte order asked for reaches the tensor, in dtype (before) and in save (once)
LogOk(en, log) == LET e == Letter(en) IN log \in {"d" \o e \o "s" \o e, "d" \o e \o "d" \o e \o "s" \o e}
LogRefused(en, log) == LET e == Letter(en) IN log \in {"d" \o e, "d" \o e \o "d" \o e}

---------------------------------------------------------------------------
(* Saving *)
StreamNew(s) == st' = Put(st, s, [b |-> <<>>, p |-> 0]) /\ UNCHANGED <<arr, cust, fs, W, R>>
StreamPut(s, b) == s \in DOMAIN st /\ st' = [st EXCEPT ![s].b = @ \o b] /\ UNCHANGED <<arr, cust, fs, W, R>>
StreamSeek(s, p) == s \in DOMAIN st /\ st' = [st EXCEPT ![s].p = p] /\ UNCHANGED <<arr, cust, fs, W, R>>

\* Outcome of a save: what the log and the result have to be
SaveCase(c, en) == IF CHeader(c, en) = <<>> THEN "refused" ELSE IF c.thr >= 0 THEN "throws" ELSE "saved"
SaveOutcome(c, en, res) ==
    CASE SaveCase(c, en) = "refused" -> IsExc(res) /\ res.k # "user" /\ LogRefused(en, res.log)
      [] SaveCase(c, en) = "throws" -> Exc(res, "user") /\ LogOk(en, res.log)
      [] OTHER -> res.r = "ok" /\ LogOk(en, res.log)

CSave(s, d, en, res) ==
    /\ s \in DOMAIN st /\ d \in DOMAIN cust
    /\ SaveOutcome(cust[d], en, res)
    /\ res.pre = 1
    /\ CASE SaveCase(cust[d], en) = "refused" -> res.app = <<>>
         [] SaveCase(cust[d], en) = "throws" -> res.app = CTorn(cust[d], en)
         [] OTHER -> res.app = CImage(cust[d], en) /\ res.good = 1
    /\ st' = [st EXCEPT ![s].b = @ \o res.app]
    /\ UNCHANGED <<arr, cust, fs, W, R>>

Save(s, d, en, res) ==
    /\ s \in DOMAIN st /\ d \in DOMAIN arr
    /\ res.r = "ok" /\ res.app = Encode(arr[d], en)
    /\ st' = [st EXCEPT ![s].b = @ \o res.app]
    /\ UNCHANGED <<arr, cust, fs, W, R>>

\* what a file holds whose save failed is not specified
Unknown == <<-1>>
CFileSave(p, d, en, res) ==
    /\ d \in DOMAIN cust
    /\ SaveOutcome(cust[d], en, res)
    /\ fs' = Put(fs, p, IF res.r = "ok" THEN CImage(cust[d], en) ELSE Unknown)
    /\ UNCHANGED <<arr, cust, st, W, R>>

FileSave(p, d, en, res) ==
    /\ d \in DOMAIN arr /\ res.r = "ok"
    /\ fs' = Put(fs, p, Encode(arr[d], en))
    /\ UNCHANGED <<arr, cust, st, W, R>>

FileRead(p, res) == p \in DOMAIN fs /\ res.r = "ok" /\ res.b = fs[p] /\ UNCHANGED custVars

---------------------------------------------------------------------------
(* Loading: the header goes to the tensor, and the stream stands behind it *)
\* b: bytes; p: position (1-based); take: how many bytes load reads (-1: all)
LoadGets(b, p, take, throws, res) ==
    LET h == ParseHeader(b, p)
        n == Len(b) - h.next + 1
        pay == IF take < 0 \/ take > n THEN SubSeq(b, h.next, Len(b)) ELSE SubSeq(b, h.next, h.next + take - 1)
    IN  CASE h.v = "rej" -> IsExc(res) /\ res.k # "user"
          [] h.v = "any" -> IsExc(res) \/ res.r = "ok"
          [] OTHER -> \/ h.v = "gray" /\ IsExc(res)
                      \/ IF throws THEN Exc(res, "user")
                         ELSE res.r = "ok" /\ HeadEq(h, res.h) /\ res.pay = pay

CLoad(s, take, throws, res) ==
    /\ s \in DOMAIN st /\ st[s].p >= 0
    /\ LoadGets(st[s].b, st[s].p + 1, take, throws, res)
    /\ LET h == ParseHeader(st[s].b, st[s].p + 1)
           left == Len(st[s].b) - (h.next - 1)
       IN  IF res.r = "ok" /\ take >= 0 /\ take <= left /\ h.v # "any"
           THEN res.pos = h.next - 1 + take /\ st' = [st EXCEPT ![s].p = res.pos]
           ELSE st' = [st EXCEPT ![s].p = -1]
    /\ UNCHANGED <<arr, cust, fs, W, R>>

Load(s, t, res) ==
    /\ s \in DOMAIN st /\ st[s].p >= 0
    /\ LET x == Parse(st[s].b, st[s].p + 1)
       IN  /\ LoadAllowed(x, t, res)
           /\ st' = [st EXCEPT ![s].p = IF res.r = "ok" THEN res.pos ELSE -1]
    /\ UNCHANGED <<arr, cust, fs, W, R>>

CFileLoad(p, take, throws, res) ==
    /\ IF p \in DOMAIN fs THEN fs[p] = Unknown \/ LoadGets(fs[p], 1, take, throws, res) ELSE IsExc(res) /\ res.k # "user"
    /\ UNCHANGED custVars
FileLoad(p, t, res) ==
    /\ IF p \in DOMAIN fs THEN fs[p] = Unknown \/ LoadAllowed(Parse(fs[p], 1), t, res) ELSE IsExc(res)
    /\ UNCHANGED custVars

---------------------------------------------------------------------------
(* Archives *)
WOpen(w, m, en, res) ==
    /\ res.r = "ok"
    /\ W' = Put(W, w, [en |-> en, m |-> m, ents |-> <<>>, closed |-> FALSE])
    /\ UNCHANGED <<arr, cust, st, fs, R>>

\* What is rejected - by the library or by the tensor - leaves nothing behind.
CWrite(w, name, d, res) ==
    /\ w \in DOMAIN W /\ d \in DOMAIN cust
    /\ LET c == cust[d]
           en == W[w].en
       IN  IF W[w].closed THEN IsExc(res) /\ UNCHANGED W
           ELSE IF W[w].m \notin SupportedMethods
           THEN IsExc(res) /\ UNCHANGED W
           ELSE /\ SaveOutcome(c, en, res)
                /\ W' = IF res.r = "ok"
                        THEN [W EXCEPT ![w].ents = Append(@, [n |-> Stored(name), b |-> CImage(c, en)])]
                        ELSE W
    /\ UNCHANGED <<arr, cust, st, fs, R>>

WWrite(w, name, d, res) ==
    /\ w \in DOMAIN W /\ d \in DOMAIN arr
    /\ IF W[w].closed \/ W[w].m \notin SupportedMethods THEN IsExc(res) /\ UNCHANGED W
       ELSE /\ res.r = "ok"
            /\ W' = [W EXCEPT ![w].ents = Append(@, [n |-> Stored(name), b |-> Encode(arr[d], W[w].en)])]
    /\ UNCHANGED <<arr, cust, st, fs, R>>

WClose(w, res) == w \in DOMAIN W /\ res.r = "ok" /\ W' = [W EXCEPT ![w].closed = TRUE]
                  /\ UNCHANGED <<arr, cust, st, fs, R>>

\* A reader of what the (closed) writer w left
ROpen(r, w, res) ==
    /\ w \in DOMAIN W /\ W[w].closed /\ res.r = "ok"
    /\ R' = Put(R, r, W[w].ents) /\ UNCHANGED <<arr, cust, st, fs, W>>

RKeys(r, res) ==
    /\ r \in DOMAIN R /\ res.r = "ok"
    /\ {res.keys[i] : i \in 1..Len(res.keys)} = NameSet(R[r])
    /\ UNCHANGED custVars

CRead(r, name, take, throws, res) ==
    /\ r \in DOMAIN R
    /\ LET i == Lookup(R[r], name)
       IN IF i = 0 THEN Exc(res, "ia") ELSE LoadGets(R[r][i].b, 1, take, throws, res)
    /\ UNCHANGED custVars

RRead(r, name, t, res) ==
    /\ r \in DOMAIN R
    /\ LET i == Lookup(R[r], name)
       IN IF i = 0 THEN Exc(res, "ia") ELSE LoadAllowed(Parse(R[r][i].b, 1), t, res)
    /\ UNCHANGED custVars

RPeek(r, name, res) ==
    /\ r \in DOMAIN R
    /\ LET i == Lookup(R[r], name)
       IN IF i = 0 THEN Exc(res, "ia") ELSE PeekAllowed(ParseHeader(R[r][i].b, 1), res)
    /\ UNCHANGED custVars
=============================================================================
