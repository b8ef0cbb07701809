---------------------------- MODULE MC_PathOps ----------------------------
(* Every path up to N characters over Alphabet: the specified functions have    *)
(* the properties claimed of them, stated independently of how they are defined *)
EXTENDS PathOps, TLC, Json
CONSTANTS N, Alphabet, Drv
VARIABLES p, hist
Init == p = <<>> /\ hist = <<>>
Next == /\ Len(p) < N /\ \E c \in Alphabet : p' = Append(p, c) /\ hist' = p'
Spec == Init /\ [][Next]_<<p, hist>>
Gen == PrintT("GEN " \o ToJson(hist'))
n == Norm(p, Drv)
RelDrive == ~IsAbs(p, Drv) /\ Drive(p, Drv) > 0
\* canonical form, characterised
NoDup == \A i \in 1 .. Len(n) - 1 : ~(IsSep(n[i]) /\ IsSep(n[i + 1]))
NoBack == \A i \in 1 .. Len(n) : n[i] # BSLASH
NoTrail == Len(n) > RootLen(n, Drv) => ~IsSep(n[Len(n)])
CS == Components(n, Drv)
NoDots == \A i \in DOMAIN CS : CS[i] # <<DOT>>
DotDotFront == \A i \in DOMAIN CS : CS[i] = <<DOT, DOT>> => ~IsAbs(n, Drv) /\ \A j \in 1 .. i : CS[j] = <<DOT, DOT>>
SameRoot == IsAbs(n, Drv) = IsAbs(p, Drv)
Idem == Norm(n, Drv) = n
\* meaning: walking the components from any directory deep enough ends at the same place
Deep == <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>>>
SamePlace == Walk(Components(p, Drv), 1, IF IsAbs(p, Drv) THEN <<>> ELSE Deep, TRUE) = Walk(CS, 1, IF IsAbs(n, Drv) THEN <<>> ELSE Deep, TRUE)
SplitLossless == LET b == Base(p) IN \E k \in 0 .. Len(p) : DirOk(p, Sub(p, 1, k), Drv)
Canonical == RelDrive \/ (NoDup /\ NoBack /\ NoTrail /\ NoDots /\ DotDotFront /\ SameRoot /\ Idem /\ SamePlace)
ExtOk == Ext(p) = <<>> \/ (Ext(p)[1] = DOT /\ Len(Ext(p)) < Len(Base(p)) /\ \A i \in 2 .. Len(Ext(p)) : Ext(p)[i] # DOT)
AbsOk == LET cwd == <<SLASH, 97, SLASH, 98>> a == AbsPath(p, cwd, FALSE) IN
         IsAbs(a, FALSE) /\ Norm(a, FALSE) = a /\ AbsPath(a, <<SLASH, 99>>, FALSE) = a
=============================================================================
