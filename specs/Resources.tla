------------------------------ MODULE Resources ------------------------------
(* What calls hold on to.  A file system is a stack of layers over a base.  Opening  *)
(* allocates one object per layer on the way down and opens one file (or directory)  *)
(* of the base; any allocation and the base may refuse, and then everything taken so  *)
(* far is given back on the way up, so that between calls exactly the open handles    *)
(* hold anything.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Depth, Handles     \* Depth[v]: number of layers of stack v, the base included
VARIABLES hs, objs, below, call
rvars == <<hs, objs, below, call>>
Idle == [v |-> "", st |-> "idle", k |-> 0, h |-> 0, dir |-> FALSE]
RInit == hs = [h \in {} |-> 0] /\ objs = 0 /\ below = 0 /\ call = Idle
Free(h) == h \notin DOMAIN hs
Begin(h, v, dir) == /\ call.st = "idle" /\ Free(h)
                    /\ call' = [v |-> v, st |-> "down", k |-> 0, h |-> h, dir |-> dir] /\ UNCHANGED <<hs, objs, below>>
Alloc == /\ call.st = "down" /\ call.k < Depth[call.v]
         /\ call' = [call EXCEPT !.k = @ + 1] /\ objs' = objs + 1 /\ UNCHANGED <<hs, below>>
NoMem == /\ call.st = "down" /\ call.k < Depth[call.v] /\ call' = [call EXCEPT !.st = "fail"] /\ UNCHANGED <<hs, objs, below>>
BaseOk == /\ call.st = "down" /\ call.k = Depth[call.v]
          /\ below' = below + 1 /\ hs' = [x \in DOMAIN hs \cup {call.h} |-> IF x = call.h THEN [v |-> call.v, dir |-> call.dir] ELSE hs[x]]
          /\ call' = Idle /\ UNCHANGED objs
BaseNo == /\ call.st = "down" /\ call.k = Depth[call.v] /\ call' = [call EXCEPT !.st = "fail"] /\ UNCHANGED <<hs, objs, below>>
Unwind == /\ call.st = "fail" /\ call.k > 0 /\ call' = [call EXCEPT !.k = @ - 1] /\ objs' = objs - 1 /\ UNCHANGED <<hs, below>>
Refuse == /\ call.st = "fail" /\ call.k = 0 /\ call' = Idle /\ UNCHANGED <<hs, objs, below>>
\* closing gives everything back whether or not the base complains
Close(h) == /\ call.st = "idle" /\ ~Free(h)
            /\ objs' = objs - Depth[hs[h].v] /\ below' = below - 1 /\ hs' = [x \in DOMAIN hs \ {h} |-> hs[x]] /\ UNCHANGED call
RNext == \/ \E h \in Handles, v \in DOMAIN Depth, d \in BOOLEAN : Begin(h, v, d)
         \/ Alloc \/ NoMem \/ BaseOk \/ BaseNo \/ Unwind \/ Refuse \/ \E h \in Handles : Close(h)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET h == CHOOSE x \in S : TRUE IN Depth[hs[h].v] + Total(S \ {h})
Accounted == call.st = "idle" => objs = Total(DOMAIN hs) /\ below = Cardinality(DOMAIN hs)
NothingHeld == (call.st = "idle" /\ DOMAIN hs = {}) => objs = 0 /\ below = 0
Returns == (call.st # "idle") ~> (call.st = "idle")
=============================================================================
