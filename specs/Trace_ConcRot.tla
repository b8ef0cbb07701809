--------------------------- MODULE Trace_ConcRot ---------------------------
(* The same for rotating logs, each thread on logs of its own.                 *)
EXTENDS Trace_Rotate, Linear
VARIABLE done
ConcInit == LInit /\ hits = 0 /\ half = {} /\ done = NoneDone /\ l = 1
ConcNext == /\ l <= Len(Trace) /\ Step /\ (Agrees(lres') = TRUE) /\ hits' = 0
            /\ done' = With(done, l)
            /\ IF Eligible(Trace, done') = {} THEN l' = Len(Trace) + 1 ELSE l' \in Eligible(Trace, done')
ConcSpec == ConcInit /\ [][ConcNext]_<<lvars, l, hits, half, done>>
=============================================================================
