-------------------------- MODULE Trace_ConcFault --------------------------
(* Storage and memory fail while several threads are at work: a call may then answer anything, *)
(* but it returns, it passes down no path but its own, and nothing stays locked (the driver     *)
(* reports HANG when every thread waits; no event of that name is accepted here).               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES l, root
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
\* the plain absolute path p seen through a view whose root is pre
Own(p) == root[E.v] \o p
Same(a, b) == a = b \/ a \o <<47>> = b
OwnPaths == ("b" \in DOMAIN E /\ "v" \in DOMAIN E /\ E.v \in DOMAIN root) =>
  \A i \in DOMAIN E.b :
     /\ ("p" \in DOMAIN E.b[i] /\ E.op # "mkpath") => (\E k \in {"p", "q"} \cap DOMAIN E : Same(E.b[i].p, Own(E[k])))
     /\ "q" \in DOMAIN E.b[i] => ("q" \in DOMAIN E /\ Same(E.b[i].q, Own(E.q)))
FaultInit == l = 1 /\ root = << >>
FaultNext == /\ l <= Len(Trace) /\ E.op # "HANG" /\ E.op # "DIED" /\ (OwnPaths = TRUE)
             /\ root' = IF E.op = "reset" THEN << >> ELSE IF E.op = "root" THEN (E.v :> E.p) @@ root ELSE root
             /\ l' = l + 1
TraceSpec == FaultInit /\ [][FaultNext]_<<l, root>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
