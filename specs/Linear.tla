------------------------------ MODULE Linear ------------------------------
(* Which recorded call may take effect next, when calls of several threads overlap in time.     *)
(* A call carries inv (how many calls of the parallel phase had returned when it was made) and  *)
(* rt (its own place among the returns). It may take effect before another unless the other had *)
(* returned when it was made. Calls without stamps were made while nothing else was running.    *)
EXTENDS Naturals, Sequences
(* A call made of several steps is recorded as several entries with the same stamps, in order.   *)
Stamped(e) == "inv" \in DOMAIN e
Before(t, k, j) == IF Stamped(t[k]) /\ Stamped(t[j]) THEN t[k].rt <= t[j].inv \/ (t[k].rt = t[j].rt /\ k < j) ELSE k < j
(* done: [n |-> all of 1..n took effect, ahead |-> those later ones that did] *)
NoneDone == [n |-> 0, ahead |-> {}]
RECURSIVE Compact(_)
Compact(d) == IF d.n + 1 \in d.ahead THEN Compact([n |-> d.n + 1, ahead |-> d.ahead \ {d.n + 1}]) ELSE d
With(d, j) == Compact([n |-> d.n, ahead |-> d.ahead \cup {j}])
RECURSIVE LastOpen(_, _)
LastOpen(t, j) == IF j < Len(t) /\ Stamped(t[j]) /\ Stamped(t[j + 1]) THEN LastOpen(t, j + 1) ELSE j
Eligible(t, d) ==
  IF d.n >= Len(t) THEN {}
  ELSE LET hi == LastOpen(t, d.n + 1)
           open == ((d.n + 1) .. hi) \ d.ahead IN
       {j \in open : \A k \in open : k # j => ~Before(t, k, j)}
=============================================================================
