------------------------------- MODULE StrRange -------------------------------
(* Bounded strings (util/range_strings.h, bsd/string.h): a buffer of n bytes whose free  *)
(* part starts at st.  Every operation is given by the result it must report, the bytes   *)
(* it leaves and where the free part starts afterwards.  Bytes before st never change,    *)
(* whatever happens.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Room(B, st) == Len(B) - st
Sub(s, i, j) == SubSeq(s, i + 1, j)                                  \* bytes i..j-1
Splice(B, at, t) == [i \in 1..Len(B) |-> IF i > at /\ i <= at + Len(t) THEN t[i - at] ELSE B[i]]
Nul == <<0>>
Zeros(k) == [i \in 1..k |-> 0]
\* length up to the first NUL, or all of it
RECURSIVE CLenFrom(_, _)
CLenFrom(s, i) == IF i > Len(s) \/ s[i] = 0 THEN i - 1 ELSE CLenFrom(s, i + 1)
CLen(s) == CLenFrom(s, 1)
CStr(s) == SubSeq(s, 1, CLen(s))
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsDigit(c) == c >= 48 /\ c <= 57
\* ---- appending ----------------------------------------------------------------------
\* A: what is there afterwards: [b |-> bytes, st |-> start, r |-> result]
Kept(B, st, A) == Len(A.b) = Len(B) /\ SubSeq(A.b, 1, st) = SubSeq(B, 1, st)
Fits(B, st, t) == Len(t) + 1 <= Room(B, st)
Appended(B, st, t, A) == A.r = Len(t) /\ A.st = st + Len(t) /\ A.b = Splice(B, st, t \o Nul)
\* what was being added does not fit: an empty string is left and the size needed is told
Refused(B, st, t, A) == /\ Kept(B, st, A) /\ A.st = st /\ A.r = -Len(t)
                        /\ (Room(B, st) > 0 => A.b[st + 1] = 0)
Nothing(B, st, A) == A.b = B /\ A.st = st
CatOK(B, st, t, A) == IF Fits(B, st, t) THEN Appended(B, st, t, A) ELSE Refused(B, st, t, A)
\* a number's sign may be there already when its digits do not fit
CatIntOK(B, st, t, A) == IF Fits(B, st, t) THEN Appended(B, st, t, A)
                         ELSE Kept(B, st, A) /\ A.r = -Len(t) /\ (A.st = st \/ (A.st = st + 1 /\ t[1] = 45 /\ A.b[A.st] = 45))
\* zero goes through the single character operation
CatZeroOK(B, st, t, A) == IF Fits(B, st, t) THEN Appended(B, st, t, A) ELSE Nothing(B, st, A) /\ A.r = -1
\* without a NUL; whether a place for one must remain is left open
Bare(B, st, t, A) == A.r = Len(t) /\ A.st = st + Len(t) /\ A.b = Splice(B, st, t)
CatBareOK(B, st, t, A) == CASE Len(t) < Room(B, st) -> Bare(B, st, t, A)
                            [] Len(t) = Room(B, st) -> (Bare(B, st, t, A) \/ Refused(B, st, t, A))
                            [] OTHER -> Refused(B, st, t, A)
CatCharOK(B, st, c, A) == IF Room(B, st) >= 2 THEN Appended(B, st, <<c>>, A) ELSE A.r = -1 /\ Nothing(B, st, A)
CatCharBareOK(B, st, c, A) == CASE Room(B, st) >= 2 -> Bare(B, st, <<c>>, A)
                                [] Room(B, st) = 1 -> (Bare(B, st, <<c>>, A) \/ (A.r = -1 /\ Nothing(B, st, A)))
                                [] OTHER -> A.r = -1 /\ Nothing(B, st, A)
\* ---- copying -------------------------------------------------------------------------
CopyOK(B, st, t, trunc, A) ==
  /\ A.st = st
  /\ IF Fits(B, st, t) THEN A.r = Len(t) /\ A.b = Splice(B, st, t \o Nul)
     ELSE IF trunc THEN /\ A.r = -Room(B, st) /\ (Room(B, st) = 0 => A.b = B)       \* one less than the negated count, so never 0
                        /\ (Room(B, st) > 0 => A.b = Splice(B, st, SubSeq(t, 1, Room(B, st) - 1) \o Nul))
          ELSE Refused(B, st, t, A)
\* ---- shaping -------------------------------------------------------------------------
Part(B, st) == Sub(B, st, Len(B))
TerminateOK(B, st, A) == A.st = st /\ A.b = (IF Room(B, st) > 0 /\ CLen(Part(B, st)) = Room(B, st) THEN [B EXCEPT ![Len(B)] = 0] ELSE B)
SetLenOK(B, st, k, A) == A.st = st /\ A.b = (IF k < Room(B, st) THEN Splice(B, st + k, Zeros(Room(B, st) - k)) ELSE B)
PadOK(B, st, c, A) == LET n == CLen(Part(B, st)) w == Room(B, st) - 1 IN
  /\ A.st = st
  /\ IF n < w THEN A.r = w - n /\ A.b = Splice(B, st + n, [i \in 1..(w - n) |-> c] \o Nul) ELSE A.r = 0 /\ A.b = B
\* ---- looking -------------------------------------------------------------------------
RECURSIVE LTrim(_, _)
LTrim(s, i) == IF i < Len(s) /\ IsSpace(s[i + 1]) THEN LTrim(s, i + 1) ELSE i      \* bytes dropped in front
RECURSIVE RTrim(_, _)
RTrim(s, n) == IF n > 0 /\ IsSpace(s[n]) THEN RTrim(s, n - 1) ELSE n               \* bytes kept
\* <<first, one past last>> of what remains
LTrimmed(s) == <<LTrim(s, 0), Len(s)>>
RTrimmed(s) == <<0, RTrim(s, CLen(s))>>
Trimmed(s) == LET f == LTrim(s, 0) IN <<f, f + RTrim(SubSeq(s, f + 1, Len(s)), CLen(SubSeq(s, f + 1, Len(s))))>>
IsInt(s) == \A i \in DOMAIN s : IsDigit(s[i])
\* the longest runs free of delimiters, as <<first, one past last>>
Delim(s, i, D) == \E j \in DOMAIN D : D[j] = s[i]
RECURSIVE Tokens(_, _, _)
RECURSIVE EndOf(_, _, _)
EndOf(s, i, D) == IF i > Len(s) \/ Delim(s, i, D) THEN i - 1 ELSE EndOf(s, i + 1, D)
Tokens(s, i, D) == IF i > Len(s) THEN <<>> ELSE IF Delim(s, i, D) THEN Tokens(s, i + 1, D)
                   ELSE LET e == EndOf(s, i, D) IN <<<<i - 1, e>>>> \o Tokens(s, e + 1, D)
\* ---- decimal text of a number ---------------------------------------------------------
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
\* ---- the BSD functions on a buffer of given size --------------------------------------
LCopyOK(B, t, size, A) == A.r = Len(t) /\ A.b = (IF size = 0 THEN B ELSE Splice(B, 0, SubSeq(t, 1, Min(Len(t), size - 1)) \o Nul))
XCopyOK(B, t, size, A) == A.r = Min(Len(t), Max(size - 1, 0)) /\ A.b = (IF size = 0 THEN B ELSE Splice(B, 0, SubSeq(t, 1, Min(Len(t), size - 1)) \o Nul))
LCatOK(B, t, size, A) == LET n == CLen(SubSeq(B, 1, size)) IN
  IF n = size THEN A.b = B /\ (size > 0 => A.r = size + Len(t))       \* no string to append to
  ELSE A.r = n + Len(t) /\ A.b = Splice(B, n, SubSeq(t, 1, Min(Len(t), size - 1 - n)) \o Nul)
=============================================================================
