------------------------------ MODULE Registry ------------------------------
(* The list of registered file systems and the default (src/evfs.c).           *)
(* State: reg  - sequence of [n, t], most recently added first; t is the        *)
(*               in-memory base file system that calls through n end up in      *)
(*        dflt - name of the default file system, "" when none                  *)
(*        ini  - evfs_init() has been called                                    *)
(* Every action sets res, the observable outcome of the call.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES reg, dflt, ini, res
rvars == <<reg, dflt, ini, res>>

NamesOf(r) == {r[i].n : i \in DOMAIN r}
Registered == NamesOf(reg)
TargetIn(r, n) == LET i == CHOOSE i \in DOMAIN r : r[i].n = n IN r[i].t
Drop(r, n) == SelectSeq(r, LAMBDA x : x.n # n)

RInit == reg = <<>> /\ dflt = "" /\ ini = TRUE /\ res = <<>>

(* Registering: a fresh name joins the list; a name in use keeps the object it   *)
(* names and only its default status changes.                                    *)
DfltAfter(n, mk, r) ==        \* allowed defaults after registering n with make_default = mk giving list r
  IF Len(r) = 1 THEN {n}
  ELSE IF mk THEN {n}
  ELSE IF dflt = n THEN (NamesOf(r) \ {n})
  ELSE {dflt}

Register(n, t, mk) ==
  IF ~ini THEN res' = [ret |-> -18] /\ UNCHANGED <<reg, dflt, ini>>
  ELSE LET r == IF n \in Registered THEN reg ELSE <<[n |-> n, t |-> t]>> \o reg IN
       /\ reg' = r
       /\ dflt' \in DfltAfter(n, mk, r)
       /\ res' = [ret |-> 0]
       /\ UNCHANGED ini

(* A layer is registered over a base file system, which must be registered.      *)
RegisterShim(n, base, mk) ==
  IF base \notin Registered THEN res' = [ret |-> -3] /\ UNCHANGED <<reg, dflt, ini>>
  ELSE Register(n, TargetIn(reg, base), mk)

Unregister(n) ==
  IF n \notin Registered THEN res' = [cls |-> "err"] /\ UNCHANGED <<reg, dflt, ini>>
  ELSE LET r == Drop(reg, n) IN
       /\ reg' = r
       /\ dflt' \in (IF dflt # n THEN {dflt} ELSE IF r = <<>> THEN {""} ELSE NamesOf(r))
       /\ res' = [ret |-> 0]
       /\ UNCHANGED ini

UnregisterAll == reg' = <<>> /\ dflt' = "" /\ res' = <<>> /\ UNCHANGED ini

FindVfs(n) == res' = [found |-> IF n \in Registered THEN n ELSE ""] /\ UNCHANGED <<reg, dflt, ini>>
DefaultName == res' = [name |-> dflt] /\ UNCHANGED <<reg, dflt, ini>>

(* Any operation, naming file system n or "-" for the default.  reach is the     *)
(* base file system that must receive it ("" : none, the call reports no VFS).   *)
Operation(n) ==
  /\ LET m == IF n = "-" THEN dflt ELSE n IN
     /\ n = "-" \/ n \in Registered \/ reg = <<>>
     /\ res' = IF m = "" \/ reg = <<>> THEN [cls |-> "err", ret |-> -3, reach |-> ""]
               ELSE [reach |-> TargetIn(reg, m)]
  /\ UNCHANGED <<reg, dflt, ini>>

Initialize == ini' = TRUE /\ res' = <<>> /\ UNCHANGED <<reg, dflt>>

(* ---- the property, on the specification itself ---- *)
UniqueNames == Cardinality(Registered) = Len(reg)
DefaultCoherent == IF reg = <<>> THEN dflt = "" ELSE dflt \in Registered
=============================================================================
