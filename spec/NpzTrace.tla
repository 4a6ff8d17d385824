------------------------------ MODULE NpzTrace ------------------------------
(* Recorded executions of the library against Npz. *)
EXTENDS Faults, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l
vars == <<arr, files, blobs, W, R, seen, ti, l>>

TraceInit == NpzInit /\ l = 1 /\ ti \in 1..Len(Traces)
Ev == Traces[ti].ev[l]

Step ==
    LET e == Ev
        r == e.res
    IN CASE Refused(e, r) -> RefusedStep(e)
         [] e.op = "amake" -> Make(e.d, e.a, r)
         [] e.op = "fsave" -> FileSave(e.p, e.d, e.en, r)
         [] e.op = "fload" -> FileLoad(e.p, e.t, r)
         [] e.op = "fpeek" -> FilePeek(e.p, r)
         [] e.op = "seq" -> SaveLoadAll(e.ds, r)
         [] e.op = "wopen" -> WOpen(e.w, e.kind, e.p, e.m, e.en, r)
         [] e.op = "wwrite" -> WWrite(e.w, e.name, e.d, r)
         [] e.op = "wthrow" -> WWriteThrows(e.w, r)
         [] e.op = "wstr" -> WStr(e.w, e.b, r)
         [] e.op = "wclose" -> WClose(e.w, r)
         [] e.op = "wisopen" -> WIsOpen(e.w, r)
         [] e.op = "wdel" -> WDestroy(e.w, r)
         [] e.op = "bload" -> BlobLoad(e.b, e.p, r)
         [] e.op = "bsave" -> BlobSave(e.b, e.p)
         [] e.op = "bdamage" -> r.r = "ok" /\ BlobDamage(e.b, e.d, e.name)
         [] e.op = "bjunk" -> BlobJunk(e.b)
         [] e.op = "bdig" -> BlobDigest(e.b, r)
         [] e.op = "bforeign" -> r.r = "ok" /\ BlobForeign(e.b, e.ents)
         [] e.op = "fforeign" -> r.r = "ok" /\ FileForeign(e.p, e.ents)
         [] e.op = "zcheck" -> BlobStreams(e.b, r)
         [] e.op = "ropenb" -> ROpenBlob(e.x, e.b, r)
         [] e.op = "ropenf" -> ROpenFile(e.x, e.p, r)
         [] e.op = "rkeys" -> RKeys(e.x, r)
         [] e.op = "rhas" -> RContains(e.x, e.name, r)
         [] e.op = "rpeek" -> RPeek(e.x, e.name, r)
         [] e.op = "rread" -> RRead(e.x, e.name, e.t, e.d, r)
         [] e.op = "rall" -> RAll(e.x, r)
         [] e.op = "rclose" -> RClose(e.x, r)
         [] e.op = "risopen" -> RIsOpen(e.x, r)
         [] e.op = "rmove" -> r.r = "ok" /\ RMove(e.x, e.y)
         [] e.op = "rdel" -> RDestroy(e.x)
         [] e.op = "locale" -> SetLocale
         [] e.op = "refused" -> IsExc(r) /\ UNCHANGED npzVars
         [] e.op = "nothing" -> r.r = "ok" /\ UNCHANGED npzVars
         [] e.op = "end" -> r.r = "end" /\ UNCHANGED npzVars
         [] OTHER -> FALSE

TraceNext ==
    \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED ti
    \/ l = Len(Traces[ti].ev) + 1 /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAlias == [ti |-> ti, l |-> l]
View == <<ti, l>>
=============================================================================
