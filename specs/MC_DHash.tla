------------------------------ MODULE MC_DHash ------------------------------
EXTENDS DHash, TLC, Json
CONSTANTS MaxLen, Fixed            \* Fixed: the table cannot grow
VARIABLES hist
vars == <<tab, sz, map, gone, nid, hist>>
Fill == {"f1", "f2", "f3", "f4", "f5", "f6"}
\* six entries are there from the start; the other keys meet around the end of the table
H11 == [k \in Keys |-> CASE k = "f1" -> 3 [] k = "f2" -> 4 [] k = "f3" -> 4 [] k = "f4" -> 5 [] k = "f5" -> 6 [] k = "f6" -> 7
                        [] k = "a" -> 9 [] k = "b" -> 10 [] k = "c" -> 10 [] k = "d" -> 0 [] OTHER -> 1]
H29 == [k \in Keys |-> CASE k = "f1" -> 28 [] k = "f2" -> 28 [] k = "f3" -> 0 [] k = "f4" -> 0 [] k = "f5" -> 1 [] k = "f6" -> 1
                        [] k = "a" -> 28 [] k = "b" -> 28 [] k = "c" -> 0 [] k = "d" -> 27 [] OTHER -> 5]
Homes == (11 :> H11 @@ 29 :> H29)
Loads == (11 :> 10 @@ 29 :> 27)
TwoSizes == <<11, 29>>
Order == <<"f1", "f2", "f3", "f4", "f5", "f6">>
RECURSIVE Prefill(_)
Prefill(j) == IF j = 0 THEN [b \in 0..10 |-> Unused] ELSE Add(Prefill(j - 1), 11, Order[j], j)
MCInit == /\ tab = Prefill(6) /\ sz = 1 /\ map = [k \in Fill |-> CHOOSE j \in 1..6 : Order[j] = k] /\ gone = {} /\ nid = 7 /\ hist = <<>>
Rec(c) == hist' = Append(hist, c)
MCNext == \E k \in Keys :
  \/ k \notin Fill \ {"f2"} /\ Insert(k, ~Fixed) /\ Rec([op |-> "ins", k |-> k])
  \/ Remove(k) /\ Rec([op |-> "rem", k |-> k])
MCSpec == MCInit /\ [][MCNext]_vars
Bounded == Len(hist) < MaxLen
\* what values are called does not matter
View == <<[b \in DOMAIN tab |-> <<tab[b].k, tab[b].p>>], sz, Len(hist)>>
Gen == hist' = hist \/ PrintT("GEN " \o ToJson(hist'))
=============================================================================
