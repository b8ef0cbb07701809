--------------------------- MODULE Trace_Registry ---------------------------
EXTENDS Registry, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Mk == E.d = 1
Agrees(r) == \A k \in DOMAIN r : k = "reach" \/ (k \in {"cls", "ret"} /\ E.op \in {"exf", "exd"}) \/ (k \in DOMAIN E /\ E[k] = r[k])
\* every recorded call below went to the file system the operation had to reach
Reached(r) == "reach" \in DOMAIN r =>
   IF r.reach = "" THEN E.b = <<>> ELSE E.b # <<>> /\ \A i \in DOMAIN E.b : E.b[i].m = r.reach
Step ==
  CASE E.op = "init" -> Initialize
    [] E.op = "reset" -> UnregisterAll
    [] E.op = "note" -> (IF E.k = "noinit" THEN ini' = FALSE /\ res' = <<>> ELSE ini' = ini /\ res' = <<>>) /\ UNCHANGED <<reg, dflt>>
    [] E.op = "reg" /\ E.k = "mem" -> Register(E.v, E.v, Mk)
    [] E.op = "reg" /\ E.k \in {"jail", "trace", "rotate"} -> RegisterShim(E.v, E.base, Mk)
    [] E.op = "unreg" -> Unregister(E.v)
    [] E.op = "unregall" -> UnregisterAll
    [] E.op = "findvfs" -> FindVfs(E.v)
    [] E.op = "dfltname" -> DefaultName
    [] E.op \in {"stat", "open", "del", "ren", "mkdir", "mkpath", "opend", "getcwd", "setcwd", "vctl", "exf", "exd"} -> Operation(E.v)
    [] E.op = "end" -> UNCHANGED <<reg, dflt, ini>> /\ res' = <<>>
    [] OTHER -> FALSE
TraceInit == RInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ Agrees(res') /\ Reached(res') /\ UniqueNames' /\ DefaultCoherent' /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
