--------------------------- MODULE Trace_PathOps ---------------------------
EXTENDS PathOps, TLC, Json, IOUtils
VARIABLES l, cwd, drvs
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
drv == E.v \in drvs
RelDrive == ~IsAbs(E.p, drv) /\ Drive(E.p, drv) > 0
Outcome(err, texts) ==
  IF E.cls = "ok" THEN err # "must" /\ E.term = 1 /\ E.guard = 1 /\ E.out \in texts
  ELSE err # "no" /\ E.guard = 1
NormOk == IF RelDrive THEN E.guard = 1 ELSE Outcome(NormErr(E.p, E.cap, drv), {Norm(E.p, drv)})
JoinOk == Outcome(JoinErr(E.p, E.q, E.cap, drv), JoinResults(E.p, E.q, drv))
AbsOk == Outcome(AbsErr(E.p, cwd[E.v], E.cap, E.ip = 1, drv), {AbsPath(E.p, cwd[E.v], drv)})
SplitOk ==
  /\ E.rb = 0 /\ E.rd = 0 /\ E.rx = 0
  /\ E.base = Base(E.p) /\ E.bo = Len(E.p) - Len(Base(E.p))
  /\ E.do = 0 /\ (RelDrive \/ DirOk(E.p, E.dir, drv))
  /\ E.ext = Ext(E.p)
  /\ (E.abs = 1) = IsAbs(E.p, drv) /\ E.rabs = E.abs /\ E.root = Sub(E.p, 1, RootLen(E.p, drv))
  /\ E.scan = Components(E.p, drv)
\* reading the current directory: whole or refused
CwdOk == IF Fits(cwd[E.v], E.n) THEN E.cls = "ok" /\ E.p = cwd[E.v] /\ E.term = 1 /\ E.guard = 1 ELSE E.cls = "err" /\ E.guard = 1
Keep == UNCHANGED <<cwd, drvs>>
Step ==
  CASE E.op \in {"init", "end", "note"} -> Keep
    [] E.op = "reset" -> cwd' = [x \in {} |-> <<>>] /\ drvs' = {}
    [] E.op = "reg" -> E.cls = "ok" /\ cwd' = (E.v :> <<SLASH>>) @@ cwd /\ drvs' = IF E.k \in {"memd", "fat"} THEN drvs \cup {E.v} ELSE drvs
    [] E.op = "mcwd" -> cwd' = (E.v :> E.p) @@ cwd /\ UNCHANGED drvs
    [] E.op = "norm" -> NormOk /\ Keep
    [] E.op = "abs" -> AbsOk /\ Keep
    [] E.op = "join" -> JoinOk /\ Keep
    [] E.op = "split" -> SplitOk /\ Keep
    [] E.op = "getcwd" -> CwdOk /\ Keep
    [] OTHER -> FALSE
TraceInit == l = 1 /\ cwd = [x \in {} |-> <<>>] /\ drvs = {}
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cwd, drvs>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
