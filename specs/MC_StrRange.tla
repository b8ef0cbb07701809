----------------------------- MODULE MC_StrRange -----------------------------
(* A small buffer filled step by step: what was accepted is there, in order, and ends. *)
EXTENDS StrRange, TLC, Json
CONSTANTS Size, Texts, MaxLen
VARIABLES b, st, said, bare, hist
vars == <<b, st, said, bare, hist>>
A1 == <<97>>  B2 == <<98, 98>>  C3 == <<99, 99, 99>>
Words == {<<>>, A1, B2, C3}
\* what an implementation that does not stop early leaves behind when something is refused
Leaves(B, s, t) == [B EXCEPT ![s + 1] = 0]
Do(op, t) ==
  LET A(x, s, r) == [b |-> x, st |-> s, r |-> r]
      fit == Fits(b, st, t)
      nb == CASE op \in {"cats", "catr"} -> IF fit THEN Splice(b, st, t \o Nul) ELSE IF Room(b, st) > 0 THEN Leaves(b, st, t) ELSE b
             [] op = "catsn" -> IF fit THEN Splice(b, st, t) ELSE IF Room(b, st) > 0 THEN Leaves(b, st, t) ELSE b
             [] op = "catc" -> IF Room(b, st) >= 2 THEN Splice(b, st, <<120, 0>>) ELSE b
             [] OTHER -> b
      add == CASE op \in {"cats", "catr", "catsn"} -> IF fit THEN t ELSE <<>>
              [] op = "catc" -> IF Room(b, st) >= 2 THEN <<120>> ELSE <<>>
              [] OTHER -> <<>>
      nx == A(nb, st + Len(add), IF add = <<>> /\ ~(op # "catc" /\ fit) THEN (IF op = "catc" THEN -1 ELSE -Len(t)) ELSE Len(add))
  IN /\ Assert(CASE op \in {"cats", "catr"} -> CatOK(b, st, t, nx) [] op = "catsn" -> CatBareOK(b, st, t, nx) [] OTHER -> CatCharOK(b, st, 120, nx), "model step")
     /\ b' = nx.b /\ st' = nx.st /\ said' = said \o add
     /\ bare' = (CASE op = "catsn" /\ fit /\ t # <<>> -> TRUE
                   [] op = "catsn" /\ fit -> bare
                   [] op = "catc" -> (bare /\ add = <<>>)
                   [] OTHER -> FALSE)
     /\ hist' = Append(hist, [op |-> op, t |-> t])
MCInit == b = [i \in 1..Size |-> 90] /\ st = 0 /\ said = <<>> /\ bare = TRUE /\ hist = <<>>
MCNext == \/ \E op \in {"cats", "catr", "catsn"}, t \in Texts : Do(op, t)
          \/ Do("catc", <<>>)
MCSpec == MCInit /\ [][MCNext]_vars
Bounded == Len(hist) < MaxLen
InOrder == SubSeq(b, 1, st) = said
Inside == st <= Size
\* unless NULs were declined, what is there is a string
Ends == ~bare /\ Size > 0 => (st < Size /\ b[st + 1] = 0 /\ CStr(b) = said)
View == <<b, st, Len(hist)>>
Gen == hist' = hist \/ PrintT("GEN " \o ToJson(hist'))
=============================================================================
