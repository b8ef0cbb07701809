-------------------------------- MODULE Glob --------------------------------
(* The documented wildcard rules: '?' any one character, '*' any run, '[set]' one  *)
(* character of a set with ranges, '[!set]' one character outside it.  No wildcard  *)
(* crosses a separator.                                                            *)
EXTENDS Naturals, Integers, Sequences
QM == 63   STAR == 42   LB == 91   RB == 93   BANG == 33   DASH == 45
GSep(c) == c = 47 \/ c = 92
\* index of the first ']' from i on, 0 if none
RECURSIVE CloseAt(_, _)
CloseAt(p, i) == IF i > Len(p) THEN 0 ELSE IF p[i] = RB THEN i ELSE CloseAt(p, i + 1)
SetBody(p, i) == IF i + 1 <= Len(p) /\ p[i + 1] = BANG THEN i + 2 ELSE i + 1
SetEnd(p, i) == CloseAt(p, SetBody(p, i))
RECURSIVE InSet(_, _, _, _)
InSet(p, a, z, c) ==        \* members p[a..z]
  IF a > z THEN FALSE
  ELSE IF a + 2 <= z /\ p[a + 1] = DASH THEN (p[a] <= c /\ c <= p[a + 2]) \/ InSet(p, a + 3, z, c)
  ELSE p[a] = c \/ InSet(p, a + 1, z, c)
RECURSIVE WellFormed(_, _)
\* every '[' opens a closed, non-empty set; a dash stands only between two members
RECURSIVE RangesOk(_, _, _)
RangesOk(p, a, z) == IF a > z THEN TRUE
                     ELSE IF p[a] = DASH \/ GSep(p[a]) THEN FALSE
                     ELSE IF a + 1 <= z /\ p[a + 1] = DASH THEN a + 2 <= z /\ p[a + 2] # DASH /\ p[a] <= p[a + 2] /\ RangesOk(p, a + 3, z)
                     ELSE RangesOk(p, a + 1, z)
WellFormed(p, i) == IF i > Len(p) THEN TRUE
                    ELSE IF p[i] # LB THEN WellFormed(p, i + 1)
                    ELSE LET e == SetEnd(p, i) IN e > SetBody(p, i) /\ RangesOk(p, SetBody(p, i), e - 1) /\ WellFormed(p, e + 1)
RECURSIVE GM(_, _, _, _)
GM(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = STAR THEN GM(p, i + 1, s, j) \/ (j <= Len(s) /\ ~GSep(s[j]) /\ GM(p, i, s, j + 1))
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF p[i] = QM THEN ~GSep(s[j]) /\ GM(p, i + 1, s, j + 1)
  ELSE IF p[i] = LB THEN
    LET neg == i + 1 <= Len(p) /\ p[i + 1] = BANG  e == SetEnd(p, i) IN
    ~GSep(s[j]) /\ (InSet(p, SetBody(p, i), e - 1, s[j]) # neg) /\ GM(p, e + 1, s, j + 1)
  ELSE p[i] = s[j] /\ GM(p, i + 1, s, j + 1)
Match(p, s) == GM(p, 1, s, 1)
=============================================================================
