---------------------------- MODULE MC_Resources ----------------------------
EXTENDS Resources, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, why
vars == <<hs, objs, below, call, hist, why>>
DepthOf == [m |-> 1, j |-> 2, tj |-> 3]
MCInit == RInit /\ hist = <<>> /\ why = [w |-> "", at |-> 0]
Rec(c) == hist' = Append(hist, c)
Keep == UNCHANGED <<hist, why>>
MCNext ==
  \/ \E h \in Handles, v \in DOMAIN Depth, d \in BOOLEAN : Begin(h, v, d) /\ Keep
  \/ Alloc /\ Keep
  \/ NoMem /\ why' = [w |-> "mem", at |-> call.k + 1] /\ UNCHANGED hist
  \/ BaseNo /\ why' = [w |-> "base", at |-> 1] /\ UNCHANGED hist
  \/ Unwind /\ Keep
  \/ BaseOk /\ UNCHANGED why /\ Rec([op |-> "open", h |-> call.h, v |-> call.v, dir |-> call.dir, w |-> "", at |-> 0])
  \/ Refuse /\ UNCHANGED why /\ Rec([op |-> "open", h |-> call.h, v |-> call.v, dir |-> call.dir, w |-> why.w, at |-> why.at])
  \/ \E h \in Handles, b \in BOOLEAN : Close(h) /\ UNCHANGED why /\ Rec([op |-> "close", h |-> h, v |-> "", dir |-> hs[h].dir, w |-> IF b THEN "base" ELSE "", at |-> 0])
MCSpec == MCInit /\ [][MCNext]_vars
Bounded == Len(hist) < MaxLen
View == <<hs, objs, below, call, why, Len(hist)>>
Gen == hist' = hist \/ PrintT("GEN " \o ToJson(hist'))
LiveSpec == RInit /\ hist = <<>> /\ why = 0 /\ [][RNext /\ Keep]_vars
            /\ WF_vars(Alloc /\ Keep) /\ WF_vars(BaseOk /\ Keep) /\ WF_vars(Unwind /\ Keep) /\ WF_vars(Refuse /\ Keep)
=============================================================================
