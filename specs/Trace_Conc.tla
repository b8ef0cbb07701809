---------------------------- MODULE Trace_Conc ----------------------------
(* Calls of several threads on mounted file systems and layers: every call returns with the   *)
(* answer and the effect it has at one instant of some one-at-a-time execution of Fs that      *)
(* respects the order in which calls returned and were made.                                   *)
EXTENDS Trace_Fs, Linear
VARIABLE done
ConcInit == FsInit /\ done = NoneDone /\ l = 1
ConcNext == /\ l \notin done.ahead /\ l > done.n
            /\ l <= Len(Trace) /\ Step /\ Agrees(res') /\ (Confined = TRUE)
            /\ done' = With(done, l)
            /\ IF Eligible(Trace, done') = {} THEN l' = Len(Trace) + 1 ELSE l' \in Eligible(Trace, done')
ConcSpec == ConcInit /\ [][ConcNext]_<<fsvars, l, done>>
=============================================================================
