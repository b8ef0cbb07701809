----------------------------- MODULE MC_Rotate -----------------------------
(* One log, every call with sizes and positions around chunk and capacity borders.   *)
EXTENDS RotateLog, Json
CONSTANTS Mc, Cs, Writes, Reads, Seeks, Cuts, Trims, Flags, MaxOps
VARIABLES hist, tot
vars == <<lvars, hist, tot>>
KEY == <<108>>
MCInit == LInit /\ hist = <<>> /\ tot = 0
Bytes(n) == [i \in 1 .. n |-> tot + i]
R(c) == hist' = Append(hist, c)
Keep == UNCHANGED tot
Sk(s) == CASE s = "s0" -> <<0, 1>> [] s = "s1" -> <<1, 1>> [] s = "scs" -> <<Cs, 1>> [] s = "sover" -> <<Cs * Mc + 1, 1>>
           [] s = "e0" -> <<0, 3>> [] s = "e1" -> <<1, 3>> [] s = "ecs" -> <<Cs, 3>> [] s = "r1" -> <<1, 2>> [] s = "rm" -> <<0 - 1, 2>> [] OTHER -> <<0, 2>>
MCNext ==
  \/ hist = <<>> /\ Register("r", Mc, Cs) /\ R([op |-> "reg"]) /\ Keep
  \/ hist # <<>> /\ lh = None /\ \E f \in Flags : OpenLog("r", 1, KEY, f, FALSE) /\ R([op |-> "open", fl |-> f]) /\ Keep
  \/ hist # <<>> /\ lh # None /\
     \/ CloseLog(1) /\ R([op |-> "close"]) /\ Keep
     \/ \E n \in Writes : WriteLog(1, Bytes(n)) /\ R([op |-> "write", n |-> n]) /\ tot' = tot + n
     \/ \E n \in Reads : ReadLog(1, n) /\ R([op |-> "read", n |-> n]) /\ Keep
     \/ \E s \in Seeks : SeekLog(1, Sk(s)[1], Sk(s)[2]) /\ R([op |-> "seek", o |-> Sk(s)[1], g |-> Sk(s)[2]]) /\ Keep
     \/ \E n \in Cuts : TruncLog(1, n) /\ R([op |-> "trunc", n |-> n]) /\ Keep
     \/ lh[1].wr /\ \E n \in Trims : TrimLog(1, n) /\ R([op |-> "trim", n |-> n]) /\ Keep
Spec == MCInit /\ [][MCNext]_vars
View == <<hist = <<>>, [k \in DOMAIN logs |-> Len(logs[k].d)], lh>>
Bounded == Len(hist) <= MaxOps
Gen == PrintT("GEN " \o ToJson(hist'))
Inv == Bounded1 /\ PosInside /\ SyncedInside
Last == hist'[Len(hist')]
D == IF KEY \in DOMAIN logs THEN logs[KEY].d ELSE <<>>
D2 == IF KEY \in DOMAIN logs' THEN logs'[KEY].d ELSE <<>>
Suffix(a, b) == Len(a) <= Len(b) /\ Part(b, Len(b) - Len(a) + 1, Len(b)) = a
Prefix(a, b) == Len(a) <= Len(b) /\ Part(b, 1, Len(a)) = a
Did(o) == hist' # hist /\ Last.op = o
AppendKeepsNewest == [][(Did("write") /\ lh[1].wr /\ lh[1].ap) =>
   /\ Suffix(D2, D \o Bytes(Last.n)) /\ Len(D2) >= Min2(Len(D) + Last.n, Mc * Cs - Cs + 1)
   /\ (Len(D \o Bytes(Last.n)) - Len(D2)) % Cs = 0]_vars
OverwriteKeepsSize == [][(Did("write") /\ ~lh[1].ap /\ lh[1].pos + Last.n <= Len(D)) => Len(D2) = Len(D)]_vars
CutIsPrefix == [][Did("trunc") => Prefix(D2, D)]_vars
TrimIsSuffix == [][Did("trim") => Suffix(D2, D)]_vars
OthersKeep == [][(Did("read") \/ Did("seek") \/ Did("close") \/ (Did("open") /\ ~Bit(Last.fl, 16))) => D2 = D]_vars
Progress == [][(Did("read") /\ lres'.cls = "ok") => lh'[1].pos = lh[1].pos + lres'.ret]_vars
(* every state an interruption may leave still holds what was written before, up to one chunk *)
PartialSound == (lh # None /\ KEY \in DOMAIN logs /\ 1 \in DOMAIN lh) =>
   \A r \in PWrite(logs[KEY], [lh[1] EXCEPT !.ap = TRUE], Bytes(Cs + 1)) :
      /\ Len(r.L.d) <= Cap(logs[KEY]) /\ Suffix(r.L.d, D \o Bytes(r.k)) /\ Len(r.L.d) >= Min2(Len(D) + r.k, Mc * Cs - Cs)
=============================================================================
