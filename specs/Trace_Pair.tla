----------------------------- MODULE Trace_Pair -----------------------------
(* Two runs of the same calls, one on a file system (x) and one through a layer (y): *)
(* the layer is transparent when every pair of events agrees on everything observable.*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Jail              \* the two runs name files differently
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Ignored == {"v", "leak", "live", "b"} \cup (IF Jail THEN {"p", "q", "tree", "ops"} ELSE {})
(* a dump of the tree below lists entries in no particular order *)
Same(x, y) == /\ DOMAIN x \ Ignored = DOMAIN y \ Ignored
              /\ \A k \in DOMAIN x \ Ignored :
                   IF k = "tree" THEN {x[k][i] : i \in DOMAIN x[k]} = {y[k][i] : i \in DOMAIN y[k]} ELSE x[k] = y[k]
              /\ ("tree" \in DOMAIN x /\ "tree" \in DOMAIN y) =>
                   {x.tree[i] : i \in DOMAIN x.tree} = {y.tree[i] : i \in DOMAIN y.tree}
TraceInit == l = 1 /\ st = 0
TraceNext == l <= Len(Trace) /\ Same(E.x, E.y) /\ l' = l + 1 /\ st' = st + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
