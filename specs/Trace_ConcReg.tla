--------------------------- MODULE Trace_ConcReg ---------------------------
(* The same for registrations and look-ups.                                    *)
EXTENDS Trace_Registry, Linear
VARIABLE done
(* a file system without the optional calls: they answer, and nothing is logged below *)
Bare == E.op = "reg" /\ E.k = "bare" /\ Register(E.v, "bare", Mk)
Quiet(r) == "reach" \in DOMAIN r /\ r.reach = "bare" /\ E.b = <<>> /\ (E.op \in {"exf", "exd"} \/ E.cls = "err")
ConcInit == RInit /\ done = NoneDone /\ l = 1
ConcNext == /\ l <= Len(Trace) /\ (Bare \/ ((E.op = "reg" => E.k # "bare") /\ Step)) /\ (Agrees(res') = TRUE) /\ ((Reached(res') \/ Quiet(res')) = TRUE) /\ UniqueNames' /\ DefaultCoherent'
            /\ done' = With(done, l)
            /\ IF Eligible(Trace, done') = {} THEN l' = Len(Trace) + 1 ELSE l' \in Eligible(Trace, done')
ConcSpec == ConcInit /\ [][ConcNext]_<<rvars, l, done>>
=============================================================================
