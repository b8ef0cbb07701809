---------------------------- MODULE Trace_Rotate ----------------------------
(* Recorded calls on rotating logs, with storage failures and interruptions.        *)
EXTENDS RotateLog, Json, IOUtils
CONSTANTS Buffered,         \* the storage below may lose what was written and not synced
          HalfMade          \* accept that an interrupted creation leaves an unusable name (known finding)
VARIABLES l, hits, half
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Agrees(r) == \A k \in DOMAIN r : CASE k = "isd" -> (E.type % 2 = 1) = r.isd [] OTHER -> k \in DOMAIN E /\ E[k] = r[k]
(* a log is known by the last component of its path *)
Seps == {47, 92}
LastOf(p) == LET cut == {i \in 1 .. Len(p) : p[i] \in Seps} IN
  IF cut = {} THEN p ELSE Part(p, (CHOOSE i \in cut : \A j \in cut : j <= i) + 1, Len(p))
K(p) == LastOf(p)
Long(p) == Len(p) + 13 >= 256
Faulted == "fh" \in DOMAIN E /\ E.fh > hits
Crashed == "cls" \in DOMAIN E /\ E.cls = "crash"
Live == E.h \in DOMAIN lh
(* ---- the storage below: as many chunk files as configured, none too big, nothing else ---- *)
IsChunk(n) == Len(n) = 12 /\ n[1] = 99 /\ n[9] = 46
InLog(k) == {i \in DOMAIN E.tree : Len(E.tree[i].p) >= 2 /\ E.tree[i].p[Len(E.tree[i].p) - 1] = k}
NameAt(i) == E.tree[i].p[Len(E.tree[i].p)]
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Len(E.tree[i].c) + SumLen(S \ {i})
StorageOk == \A k \in DOMAIN logs :
  LET ch == {i \in InLog(k) : IsChunk(NameAt(i))}  L == logs[k] IN
  /\ Cardinality(ch) <= L.mc
  /\ \A i \in ch : Len(E.tree[i].c) <= L.cs
  /\ Cardinality(InLog(k) \ ch) = 1
  /\ IF Buffered THEN SumLen(ch) >= L.sy /\ SumLen(ch) <= Len(L.d) ELSE SumLen(ch) = Len(L.d)
NoneLeft == \A i \in DOMAIN E.tree : IsChunk(NameAt(i)) => (Len(E.tree[i].p) >= 2 /\ E.tree[i].p[Len(E.tree[i].p) - 1] \in DOMAIN logs)
(* ---- normal behaviour ---- *)
LongPath == Long(E.p)
Call ==
  CASE E.op \in {"init", "end", "fault", "blog", "mstat", "note"} -> LAnswer(None)
    [] E.op = "nofault" -> LAnswer(None)
    [] E.op = "reset" -> LReset
    [] E.op = "reg" /\ E.k = "rotate" -> IF ValidCfg(E.mc, E.cs) THEN Register(E.v, E.mc, E.cs) ELSE LAnswer(AnyErr)
    [] E.op = "reg" -> (IF "base" \in DOMAIN E /\ E.base \in DOMAIN lcfg THEN Register(E.v, lcfg[E.base][1], lcfg[E.base][2]) ELSE LAnswer(Fine))
    [] E.op = "unreg" -> LAnswer(Fine)
    [] E.op = "rotcfg" -> Configure(E.v, E.mc, E.cs)
    [] E.op = "put" -> LAnswer(None)
    [] E.op = "haslog" -> logs' = (E.k :> [mc |-> E.mc, cs |-> E.cs, d |-> E.d, sy |-> Len(E.d)]) @@ logs /\ lres' = None /\ UNCHANGED <<lh, lcfg, lro>>
    [] E.op = "vctl" /\ E.cmd = 46 -> lro' = (E.val # 0) /\ lres' = Fine /\ UNCHANGED <<logs, lh, lcfg>>
    [] E.op = "vctl" -> LAnswer(None)
    [] E.op \in {"mkdir", "setcwd"} /\ K(E.p) \notin DOMAIN logs -> LAnswer(Fine)
    [] E.op = "mkdir" -> LAnswer(AnyErr)
    [] E.op = "open" -> OpenLog(E.v, E.h, K(E.p), E.fl, LongPath)
    [] E.op = "close" -> CloseLog(E.h)
    [] E.op = "write" -> (IF Live THEN WriteLog(E.h, E.c) ELSE LAnswer(LErr(-12)))
    [] E.op = "read" -> (IF Live THEN ReadLog(E.h, E.n) ELSE LAnswer(LErr(-12)))
    [] E.op = "seek" -> (IF Live THEN SeekLog(E.h, E.o, E.org) ELSE LAnswer(LErr(-12)))
    [] E.op = "tell" -> (IF Live THEN TellLog(E.h) ELSE LAnswer(None))
    [] E.op = "size" -> (IF Live THEN SizeLog(E.h) ELSE LAnswer(None))
    [] E.op = "eof" -> (IF Live THEN EofLog(E.h) ELSE LAnswer(None))
    [] E.op = "sync" -> (IF Live THEN SyncLog(E.h) ELSE LAnswer(LErr(-12)))
    [] E.op = "trunc" -> (IF Live THEN TruncLog(E.h, E.n) ELSE LAnswer(LErr(-12)))
    [] E.op = "trim" -> (IF Live THEN TrimLog(E.h, E.n) ELSE LAnswer(LErr(-12)))
    [] E.op = "fctl" -> LAnswer(AnyErr)
    [] E.op = "del" -> DeleteLog(K(E.p))
    [] E.op = "ren" -> RenameLog(K(E.p), K(E.q))
    [] E.op = "stat" -> StatLog(K(E.p))
    [] E.op = "opend" -> OpenDirLog(K(E.p))
    [] E.op = "dump" -> (StorageOk = TRUE) /\ (NoneLeft = TRUE) /\ LAnswer(None)
    [] OTHER -> FALSE
(* ---- a failure below, or the end of the process, during the call ---- *)
Lost(L) == IF Buffered THEN {CutTo(L, m) : m \in L.sy .. Len(L.d)} ELSE {L}
Stop(k, S) == \E r \in S : \E L2 \in Lost(r.L) : logs' = [logs EXCEPT ![k] = L2] /\ lh' = None /\ UNCHANGED <<lcfg, lro>>
StopAll == IF DOMAIN lh # {} THEN \E h \in DOMAIN lh : Stop(lh[h].k, {[L |-> logs[lh[h].k]]}) ELSE lh' = None /\ UNCHANGED <<logs, lcfg, lro>>
Cutting == E.op = "open" /\ Bit(E.fl, 16)
OpenOutcomes == LET L == logs[K(E.p)] IN IF Cutting THEN PCut(L, Opened(K(E.p), E.fl), 0) ELSE {[L |-> L]}
Interrupted ==
  /\ lres' = None
  /\ CASE E.op = "write" /\ Live -> Stop(lh[E.h].k, PWrite(logs[lh[E.h].k], lh[E.h], E.c)) /\ UNCHANGED half
       [] E.op = "trunc" /\ Live -> Stop(lh[E.h].k, PCut(logs[lh[E.h].k], lh[E.h], E.n)) /\ UNCHANGED half
       [] E.op = "trim" /\ Live -> Stop(lh[E.h].k, PTrim(logs[lh[E.h].k], lh[E.h], E.n)) /\ UNCHANGED half
       [] E.op = "open" /\ K(E.p) \in DOMAIN logs -> Stop(K(E.p), OpenOutcomes) /\ UNCHANGED half
       [] E.op = "open" -> /\ lh' = None /\ UNCHANGED <<lcfg, lro>>
                           /\ \/ logs' = logs /\ UNCHANGED half
                              \/ logs' = (K(E.p) :> Fresh(E.v)) @@ logs /\ UNCHANGED half
                              \/ HalfMade /\ logs' = logs /\ half' = half \cup {K(E.p)}
       [] OTHER -> StopAll /\ UNCHANGED half
Failing ==
  CASE E.op = "write" /\ Live -> \E r \in PWrite(logs[lh[E.h].k], lh[E.h], E.c) :
            /\ Settle(E.h, r) /\ lres' = (IF r.k > 0 \/ E.c = <<>> THEN [cls |-> "ok", ret |-> r.k] ELSE AnyErr) /\ UNCHANGED half
    [] E.op = "read" /\ Live ->
         LET L == logs[lh[E.h].k]  x == lh[E.h]  m == Max2(0, Min2(E.n, Len(L.d) - x.pos)) IN
         \E r \in 0 .. m : /\ lres' = (IF r > 0 \/ m = 0 THEN [cls |-> "ok", ret |-> r, c |-> Part(L.d, x.pos + 1, x.pos + r)] ELSE AnyErr)
                           /\ lh' = [lh EXCEPT ![E.h].pos = @ + r] /\ UNCHANGED <<logs, lcfg, lro, half>>
    [] E.op = "trunc" /\ Live -> \E r \in PCut(logs[lh[E.h].k], lh[E.h], E.n) :
            /\ Settle(E.h, r) /\ UNCHANGED half
            /\ lres' \in {AnyErr} \cup (IF Len(r.L.d) <= E.n THEN {Fine} ELSE {})
    [] E.op = "trim" /\ Live -> \E r \in PTrim(logs[lh[E.h].k], lh[E.h], E.n) :
            LET g == Len(logs[lh[E.h].k].d) - Len(r.L.d)  w == TrimBytes(logs[lh[E.h].k], E.n) IN
            Settle(E.h, r) /\ UNCHANGED half /\ lres' \in {AnyErr} \cup (IF g = w THEN {[cls |-> "ok", ret |-> g]} ELSE {})
    [] E.op = "open" /\ K(E.p) \in DOMAIN logs ->
         /\ UNCHANGED half
         /\ \/ Call
            \/ \E r \in OpenOutcomes : lres' = AnyErr /\ logs' = [logs EXCEPT ![K(E.p)] = r.L] /\ lh' = Without(lh, E.h) /\ UNCHANGED <<lcfg, lro>>
    [] E.op = "open" -> \/ Call /\ UNCHANGED half
                        \/ /\ lres' = AnyErr /\ lh' = Without(lh, E.h) /\ UNCHANGED <<lcfg, lro>>
                           /\ \/ logs' = logs /\ UNCHANGED half
                              \/ E.fl # 1 /\ logs' = (K(E.p) :> Fresh(E.v)) @@ logs /\ UNCHANGED half
                              \/ HalfMade /\ E.fl # 1 /\ logs' = logs /\ half' = half \cup {K(E.p)}
    [] E.op \in {"sync", "stat", "opend", "setcwd", "fctl"} -> (Call \/ LAnswer(AnyErr)) /\ UNCHANGED half
    [] OTHER -> Call /\ UNCHANGED half
(* a name whose creation was cut short: nothing further is expected of it (known finding) *)
HalfName == "p" \in DOMAIN E /\ K(E.p) \in half
Step ==
  IF HalfName THEN E.op \in {"open", "stat", "del", "opend", "put"} /\ lres' = None /\ UNCHANGED <<logs, lcfg, lro, half, lh>> /\ (E.op = "open" => E.cls = "err")
  ELSE IF Crashed THEN Interrupted
  ELSE IF E.op = "abandon" THEN lres' = None /\ StopAll /\ UNCHANGED half
  ELSE IF Faulted THEN Failing
  ELSE Call /\ half' = IF E.op = "reset" THEN {} ELSE half
TraceInit == LInit /\ l = 1 /\ hits = 0 /\ half = {}
TraceNext == /\ l <= Len(Trace) /\ Step /\ (Agrees(lres') = TRUE)
             /\ hits' = IF E.op \in {"nofault", "reset", "fault", "abandon"} THEN 0 ELSE IF "fh" \in DOMAIN E THEN E.fh ELSE hits
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l, hits, half>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
