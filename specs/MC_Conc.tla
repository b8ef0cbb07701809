------------------------------ MODULE MC_Conc ------------------------------
(* Exhaustive exploration of Conc; every explored step is printed as the order in which the    *)
(* threads moved, to drive the real code the same way.                                          *)
EXTENDS Conc, Json
CONSTANT Shape
VARIABLE hist
K(k, d) == [k |-> k, d |-> d]
MCCalls == CASE Shape = "one" -> << <<K("ok", 1), K("bad", 1)>>, <<K("ok", 1), K("ok", 1)>> >>
             [] Shape = "deep" -> << <<K("ok", 2), K("ok", 1)>>, <<K("bad", 2), K("ok", 2)>> >>
             [] Shape = "read" -> << <<K("ok", 1), K("read", 1)>>, <<K("read", 1), K("bad", 1)>> >>
             [] Shape = "three" -> << <<K("ok", 1)>>, <<K("bad", 1)>>, <<K("ok", 2)>> >>
             [] OTHER -> << <<K("ok", 0)>>, <<K("ok", 0)>> >>
MCInit == ConcInit /\ hist = <<>>
MCNext == \E t \in Threads : Step(t) /\ hist' = Append(hist, t)
Spec == MCInit /\ [][MCNext]_<<cvars, hist>> /\ \A t \in Threads : WF_<<cvars, hist>>(Step(t) /\ hist' = Append(hist, t))
Live == MCInit /\ [][\E t \in Threads : Step(t) /\ UNCHANGED hist]_cvars /\ \A t \in Threads : WF_cvars(Step(t) /\ UNCHANGED hist)
View == cvars
Gen == PrintT("GEN " \o ToJson(hist'))
=============================================================================
