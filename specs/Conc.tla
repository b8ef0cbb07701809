-------------------------------- MODULE Conc --------------------------------
(* Threads calling into stacked layers (src/evfs.c, shim_jail.c, shim_rotate.c, tar_fs.c,     *)
(* romfs_fs.c). A call looks its file system up under the registry lock, then goes down the    *)
(* stack: each layer takes its lock, writes the path for the layer below into its one buffer,  *)
(* calls down, and releases. A path that does not fit ends the call there. A read of a mounted *)
(* archive moves the shared position of the archive file and reads, under the layer's lock.    *)
(*   calls[t]  what thread t does: [k |-> "ok"|"bad"|"read", d |-> layers it goes through]     *)
(*   pc[t]     [i |-> call, s |-> next step of that call]                                      *)
(*   owner[n]  thread holding lock n (0: the registry), None when free                         *)
(*   buf[n]    what layer n's buffer holds; pos: where the archive file stands                 *)
(*   got       what the lowest layer was given, per call                                       *)
(* One step per point at which the real code can be made to hand over to another thread.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Calls, Layers
VARIABLES pc, owner, buf, pos, got
cvars == <<pc, owner, buf, pos, got>>
None == 0
Threads == DOMAIN Calls
Steps(c) ==     \* the steps of one call
  LET down == [n \in 1 .. c.d |-> [k |-> "lock", n |-> n]]
      up == [n \in 1 .. c.d |-> [k |-> "unlock", n |-> c.d + 1 - n]]
      mid == IF c.k = "bad" THEN <<>> ELSE IF c.k = "read" THEN <<[k |-> "seek", n |-> 0], [k |-> "read", n |-> 0]>> ELSE <<[k |-> "base", n |-> 0]>>
      look == IF c.k = "read" THEN <<>> ELSE <<[k |-> "lock", n |-> 0], [k |-> "unlock", n |-> 0]>> IN
  <<[k |-> "start", n |-> 0]>> \o look \o down \o mid \o up \o <<[k |-> "end", n |-> 0]>>
Running(t) == pc[t].i <= Len(Calls[t])
Call(t) == Calls[t][pc[t].i]
Now(t) == Steps(Call(t))[pc[t].s]
Name(t) == <<t, pc[t].i>>
Advance(t) == pc' = [pc EXCEPT ![t] = IF @.s = Len(Steps(Call(t))) THEN [i |-> @.i + 1, s |-> 1] ELSE [i |-> @.i, s |-> @.s + 1]]
ConcInit == /\ pc = [t \in Threads |-> [i |-> 1, s |-> 1]] /\ owner = [n \in 0 .. Layers |-> None]
            /\ buf = [n \in 1 .. Layers |-> <<>>] /\ pos = <<>> /\ got = {}
Lock(t) == /\ Now(t).k = "lock" /\ owner[Now(t).n] = None
           /\ owner' = [owner EXCEPT ![Now(t).n] = t]
           \* the path made for the layer below: from the caller's for the first, from the layer above's buffer after that
           /\ buf' = IF Now(t).n = 0 \/ Call(t).k # "ok" THEN buf
                     ELSE [buf EXCEPT ![Now(t).n] = IF Now(t).n = 1 THEN Name(t) ELSE buf[Now(t).n - 1]]
           /\ UNCHANGED <<pos, got>>
Unlock(t) == Now(t).k = "unlock" /\ owner' = [owner EXCEPT ![Now(t).n] = None] /\ UNCHANGED <<buf, pos, got>>
Base(t) == Now(t).k = "base" /\ got' = got \cup {[c |-> Name(t), g |-> IF Call(t).d = 0 THEN Name(t) ELSE buf[Call(t).d]]} /\ UNCHANGED <<owner, buf, pos>>
Seek(t) == Now(t).k = "seek" /\ pos' = Name(t) /\ UNCHANGED <<owner, buf, got>>
Read(t) == Now(t).k = "read" /\ got' = got \cup {[c |-> Name(t), g |-> pos]} /\ UNCHANGED <<owner, buf, pos>>
Edge(t) == Now(t).k \in {"start", "end"} /\ UNCHANGED <<owner, buf, pos, got>>
Step(t) == Running(t) /\ (Lock(t) \/ Unlock(t) \/ Base(t) \/ Seek(t) \/ Read(t) \/ Edge(t)) /\ Advance(t)
ConcNext == \E t \in Threads : Step(t)
ConcSpec == ConcInit /\ [][ConcNext]_cvars /\ \A t \in Threads : WF_cvars(Step(t))
(* ---- the property ---- *)
OwnOnly == \A x \in got : x.g = x.c                                   \* never another thread's path or position
FreeWhenIdle == (\A t \in Threads : ~Running(t)) => \A n \in DOMAIN owner : owner[n] = None
HeldByRunner == \A n \in DOMAIN owner : owner[n] # None => Running(owner[n])
NoDeadlock == (\E t \in Threads : Running(t)) => \E t \in Threads : Running(t) /\ (Now(t).k # "lock" \/ owner[Now(t).n] = None)
AllReturn == <>(\A t \in Threads : ~Running(t))
=============================================================================
