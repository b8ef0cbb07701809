---------------------------- MODULE MC_Registry ----------------------------
EXTENDS Registry, TLC, Json
CONSTANTS Base, Shim     \* names of base file systems; function shim name -> base name
VARIABLE hist
vars == <<reg, dflt, ini, res, hist>>
BaseSet == {"m1", "m2", "m3"}
ShimBase == [j |-> "m1", t |-> "j"]
Names == Base \cup Shim
Rec(c) == hist' = Append(hist, c)
MCInit == RInit /\ hist = <<>>
MCReg == \E n \in Base, d \in BOOLEAN : Register(n, n, d) /\ Rec([op |-> "reg", n |-> n, d |-> d, k |-> "mem"])
MCRegShim == \E n \in Shim, d \in BOOLEAN : RegisterShim(n, ShimBase[n], d) /\ Rec([op |-> "reg", n |-> n, d |-> d, k |-> "shim", b |-> ShimBase[n]])
MCUnreg == \E n \in Names : Unregister(n) /\ Rec([op |-> "unreg", n |-> n])
MCUnregAll == UnregisterAll /\ Rec([op |-> "unregall"])
\* a shim is only unregistered before the file system below it (documented use)
NoDangling == \A i \in DOMAIN reg : reg[i].n \in Shim => ShimBase[reg[i].n] \in Registered
MCNext == (MCReg \/ MCRegShim \/ MCUnreg \/ MCUnregAll) /\ NoDangling'
Spec == MCInit /\ [][MCNext]_vars
View == <<reg, dflt>>
Gen == PrintT("GEN " \o ToJson(hist'))
LastMadeDefaultWins == [][\A n \in Names : (hist' # hist /\ hist'[Len(hist')].op = "reg" /\ hist'[Len(hist')].d /\ hist'[Len(hist')].n = n /\ n \in NamesOf(reg')) => dflt' = n]_vars
OthersKeepTheirTargets == [][\A n \in NamesOf(reg) \cap NamesOf(reg') : TargetIn(reg, n) = TargetIn(reg', n) ]_vars
NoSpuriousDefaultChange == [][(dflt' # dflt) => (dflt = "" \/ hist'[Len(hist')].op = "unregall" \/ (hist'[Len(hist')].n = dflt) \/ (hist'[Len(hist')].op = "reg" /\ hist'[Len(hist')].d))]_vars
=============================================================================
