----------------------------- MODULE RotateLog -----------------------------
(* A self-rotating log as its users see it (src/shim_rotate.c): one linear file    *)
(* that keeps the newest data, at most mc chunks of cs bytes.                       *)
(*   logs[k]  [mc, cs, d retained bytes, sy bytes known to have reached storage]    *)
(*   lh[h]    open handle [k, pos, ap append mode, wr may change the log]           *)
(*   lcfg[v]  settings a layer gives to the logs it creates                          *)
(* A log starts at a chunk border, so the chunk a byte is in follows from its        *)
(* offset.  Every action sets lres, the observable outcome; the operators named      *)
(* P... give every state an interrupted or failing call may leave behind.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES logs, lh, lcfg, lro, lres
lvars == <<logs, lh, lcfg, lro, lres>>
None == [x \in {} |-> 0]
LInit == logs = None /\ lh = None /\ lcfg = None /\ lro = FALSE /\ lres = None
LReset == logs' = None /\ lh' = None /\ lcfg' = None /\ lro' = FALSE /\ lres' = None
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Part(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
Bit(fl, b) == (fl \div b) % 2 = 1
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Cap(L) == L.mc * L.cs
Fine == [cls |-> "ok", ret |-> 0]
LErr(c) == [cls |-> "err", ret |-> c]
AnyErr == [cls |-> "err"]
Same2 == UNCHANGED <<logs, lh, lcfg, lro>>
LAnswer(r) == lres' = r /\ Same2

(* ---- writing: the oldest chunk goes exactly when a further chunk is needed ---- *)
Full(L) == Len(L.d) = Cap(L)
Where(L, x) == IF x.ap THEN Len(L.d) ELSE x.pos
NeedsChunk(L, x) == Full(L) /\ Where(L, x) = Len(L.d)
DropOld(L) == [L EXCEPT !.d = Part(@, L.cs + 1, Len(@)), !.sy = Max2(0, @ - L.cs)]
Slide(x, n) == [x EXCEPT !.pos = Max2(0, @ - n)]
RECURSIVE Put(_, _, _)
Put(L, x, c) ==
  IF c = <<>> THEN [L |-> L, x |-> x]
  ELSE IF NeedsChunk(L, x) THEN Put(DropOld(L), Slide(x, L.cs), c)
  ELSE LET w == Where(L, x)
           n == Min2(L.cs - (w % L.cs), Len(c))
           d2 == Part(L.d, 1, w) \o Part(c, 1, n) \o Part(L.d, w + n + 1, Len(L.d)) IN
       Put([L EXCEPT !.d = d2], IF x.ap THEN x ELSE [x EXCEPT !.pos = @ + n], Part(c, n + 1, Len(c)))
(* ---- what an interrupted write may leave ---- *)
PWrite(L, x, c) ==
  LET After(k) == Put(L, x, Part(c, 1, k)) IN
  {[L |-> After(k).L, x |-> After(k).x, k |-> k] : k \in 0 .. Len(c)} \cup
  {LET a == After(k) IN [L |-> DropOld(a.L), x |-> Slide(a.x, L.cs), k |-> k] : k \in {j \in 0 .. Len(c) - 1 : NeedsChunk(After(j).L, After(j).x)}}
(* ---- truncating and trimming ---- *)
CutTo(L, n) == [L EXCEPT !.d = Part(@, 1, n), !.sy = Min2(@, n)]
Cut(L, x, n) == IF n >= Len(L.d) THEN [L |-> L, x |-> x] ELSE [L |-> CutTo(L, n), x |-> [x EXCEPT !.pos = Min2(@, n)]]
PCut(L, x, n) == IF n < 0 \/ n >= Len(L.d) THEN {[L |-> L, x |-> x]}
  ELSE {[L |-> CutTo(L, m), x |-> [x EXCEPT !.pos = Min2(@, IF q = 0 THEN n ELSE m)]] : m \in {n, Len(L.d)} \cup {j \in n .. Len(L.d) : j % L.cs = 0}, q \in {0, 1}}
TrimBytes(L, n) == LET k == (Max2(n, 0) \div L.cs) * L.cs IN IF k >= Len(L.d) THEN Len(L.d) ELSE k
DropFirst(L, n) == [L EXCEPT !.d = Part(@, n + 1, Len(@)), !.sy = Max2(0, @ - n)]
Trimmed(L, x, n) == [L |-> DropFirst(L, n), x |-> Slide(x, n)]
PTrim(L, x, n) == {Trimmed(L, x, m) : m \in {TrimBytes(L, n)} \cup {j \in 0 .. TrimBytes(L, n) : j % L.cs = 0}}

(* ---- the calls ---- *)
Register(v, mc, cs) == /\ lcfg' = (v :> <<mc, cs>>) @@ lcfg /\ lres' = Fine /\ UNCHANGED <<logs, lh, lro>>
ValidCfg(mc, cs) == mc >= 2 /\ mc <= 99999 /\ cs >= 32
Configure(v, mc, cs) == IF ValidCfg(mc, cs) THEN Register(v, mc, cs) ELSE LAnswer(AnyErr)
Fresh(v) == [mc |-> lcfg[v][1], cs |-> lcfg[v][2], d |-> <<>>, sy |-> 0]
Opened(k, fl) == [k |-> k, pos |-> 0, ap |-> Bit(fl, 32), wr |-> fl # 1]
OpenLog(v, h, k, fl, long) ==
  LET refuse(r) == lres' = r /\ lh' = Without(lh, h) /\ UNCHANGED <<logs, lcfg, lro>>
      go(L) == /\ logs' = (k :> L) @@ logs /\ lh' = (h :> Opened(k, fl)) @@ lh /\ lres' = [cls |-> "ok", ret |-> 0, null |-> 0]
               /\ UNCHANGED <<lcfg, lro>> IN
  IF long THEN refuse(AnyErr)
  ELSE IF k \in DOMAIN logs THEN
    IF Bit(fl, 8) THEN refuse(LErr(-7))
    ELSE IF Bit(fl, 16) THEN (IF lro /\ logs[k].d # <<>> THEN refuse(AnyErr) ELSE go(CutTo(logs[k], 0)))
    ELSE go(logs[k])
  ELSE IF fl = 1 THEN refuse(LErr(-6))
  ELSE IF lro THEN refuse(AnyErr)
  ELSE go(Fresh(v))
CloseLog(h) == IF h \notin DOMAIN lh THEN LAnswer(LErr(-12))
               ELSE lres' = Fine /\ lh' = Without(lh, h) /\ logs' = [logs EXCEPT ![lh[h].k].sy = Len(logs[lh[h].k].d)] /\ UNCHANGED <<lcfg, lro>>
Settle(h, r) == logs' = [logs EXCEPT ![lh[h].k] = r.L] /\ lh' = [lh EXCEPT ![h] = r.x] /\ UNCHANGED <<lcfg, lro>>
WriteLog(h, c) == LET x == lh[h]  L == logs[x.k] IN
  IF ~x.wr THEN LAnswer(LErr(-16))
  ELSE IF lro /\ c # <<>> THEN LAnswer(AnyErr)
  ELSE lres' = [cls |-> "ok", ret |-> Len(c)] /\ Settle(h, Put(L, x, c))
ReadLog(h, n) == LET x == lh[h]  L == logs[x.k]  m == Max2(0, Min2(n, Len(L.d) - x.pos)) IN
  /\ lres' = [cls |-> "ok", ret |-> m, c |-> Part(L.d, x.pos + 1, x.pos + m)]
  /\ lh' = [lh EXCEPT ![h].pos = @ + m] /\ UNCHANGED <<logs, lcfg, lro>>
SeekTo(h, o, org) == LET x == lh[h]  n == Len(logs[x.k].d)  t == IF (IF org = 3 THEN -o ELSE o) > 1000000000 THEN n + 1 ELSE IF org = 1 THEN o ELSE IF org = 2 THEN x.pos + o ELSE n - o IN Max2(0, t)
SeekLog(h, o, org) == LET t == SeekTo(h, o, org) IN
  IF t > Len(logs[lh[h].k].d) THEN LAnswer(LErr(-11))
  ELSE lres' = Fine /\ lh' = [lh EXCEPT ![h].pos = t] /\ UNCHANGED <<logs, lcfg, lro>>
TellLog(h) == LAnswer([ret |-> lh[h].pos])
SizeLog(h) == LAnswer([ret |-> Len(logs[lh[h].k].d)])
EofLog(h) == LAnswer([ret |-> IF lh[h].pos >= Len(logs[lh[h].k].d) THEN 1 ELSE 0])
SyncLog(h) == lres' = Fine /\ logs' = [logs EXCEPT ![lh[h].k].sy = Len(logs[lh[h].k].d)] /\ UNCHANGED <<lh, lcfg, lro>>
TruncLog(h, n) == LET x == lh[h]  L == logs[x.k] IN
  IF ~x.wr THEN LAnswer(LErr(-16))
  ELSE IF n < 0 \/ (lro /\ n < Len(L.d)) THEN LAnswer(AnyErr)
  ELSE lres' = Fine /\ Settle(h, Cut(L, x, n))
TrimLog(h, n) == LET x == lh[h]  L == logs[x.k]  m == TrimBytes(L, n) IN
  IF n < 0 THEN (LAnswer(AnyErr) \/ LAnswer([cls |-> "ok", ret |-> 0]))
  ELSE IF lro /\ m > 0 THEN LAnswer(AnyErr)
  ELSE lres' = [cls |-> "ok", ret |-> m] /\ Settle(h, Trimmed(L, x, m))
DeleteLog(k) == IF k \notin DOMAIN logs \/ lro THEN LAnswer(AnyErr)
                ELSE lres' = Fine /\ logs' = Without(logs, k) /\ UNCHANGED <<lh, lcfg, lro>>
RenameLog(k, j) == IF k \notin DOMAIN logs \/ j \in DOMAIN logs \/ lro THEN (k = j \/ LAnswer(AnyErr))
                   ELSE lres' = Fine /\ logs' = (j :> logs[k]) @@ Without(logs, k) /\ UNCHANGED <<lh, lcfg, lro>>
StatLog(k) == LAnswer(IF k \in DOMAIN logs THEN [cls |-> "ok", isd |-> TRUE] ELSE AnyErr)
OpenDirLog(k) == LAnswer(IF k \in DOMAIN logs THEN LErr(-8) ELSE AnyErr)

(* ---- soundness of the specification itself ---- *)
Bounded1 == \A k \in DOMAIN logs : Len(logs[k].d) <= Cap(logs[k])
PosInside == \A h \in DOMAIN lh : lh[h].k \in DOMAIN logs => lh[h].pos <= Len(logs[lh[h].k].d)
SyncedInside == \A k \in DOMAIN logs : logs[k].sy <= Len(logs[k].d)
=============================================================================
