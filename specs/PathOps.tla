------------------------------ MODULE PathOps ------------------------------
(* What the path functions of evfs compute (src/evfs_path.c).  A path is a      *)
(* sequence of character codes.  drv = TRUE: the file system has DOS drive      *)
(* prefixes ("C:/x"), otherwise a root is just leading separators.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
SLASH == 47   BSLASH == 92   DOT == 46   COLON == 58
IsSep(c) == c = SLASH \/ c = BSLASH
IsAlnum(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Sub(p, a, b) == IF a > b THEN <<>> ELSE SubSeq(p, a, b)
From(p, a) == Sub(p, a, Len(p))
MaxPath == 256

Drive(p, drv) == IF drv /\ Len(p) >= 2 /\ IsAlnum(p[1]) /\ p[2] = COLON THEN 2 ELSE 0
RECURSIVE SepsFrom(_, _)
SepsFrom(p, i) == IF i <= Len(p) /\ IsSep(p[i]) THEN 1 + SepsFrom(p, i + 1) ELSE 0
RootLen(p, drv) == Drive(p, drv) + SepsFrom(p, Drive(p, drv) + 1)
IsAbs(p, drv) == RootLen(p, drv) > Drive(p, drv)
MinRoot(p, drv) == Sub(p, 1, Drive(p, drv)) \o <<SLASH>>

\* components: maximal runs of non-separators of p from position i
RECURSIVE Comps(_, _, _)
Comps(p, i, cur) ==
  IF i > Len(p) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF IsSep(p[i]) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Comps(p, i + 1, <<>>)
  ELSE Comps(p, i + 1, Append(cur, p[i]))
Components(p, drv) == Comps(p, IF IsAbs(p, drv) THEN RootLen(p, drv) + 1 ELSE 1, <<>>)

\* a stack machine over the components
RECURSIVE Walk(_, _, _, _)
Walk(cs, i, st, abs) ==
  IF i > Len(cs) THEN st
  ELSE LET c == cs[i] IN
    IF c = <<DOT>> THEN Walk(cs, i + 1, st, abs)
    ELSE IF c = <<DOT, DOT>> THEN
      IF st # <<>> /\ st[Len(st)] # <<DOT, DOT>> THEN Walk(cs, i + 1, Sub(st, 1, Len(st) - 1), abs)
      ELSE IF abs THEN Walk(cs, i + 1, st, abs)
      ELSE Walk(cs, i + 1, Append(st, c), abs)
    ELSE Walk(cs, i + 1, Append(st, c), abs)
RECURSIVE Joined(_)
Joined(st) == IF st = <<>> THEN <<>> ELSE IF Len(st) = 1 THEN st[1] ELSE st[1] \o <<SLASH>> \o Joined(Tail(st))
NormSegs(p, drv) == Walk(Components(p, drv), 1, <<>>, IsAbs(p, drv))
Norm(p, drv) == (IF IsAbs(p, drv) THEN MinRoot(p, drv) ELSE <<>>) \o Joined(NormSegs(p, drv))

\* joining: one separator between head and tail unless the head is empty or just a root
NeedsSep(h, drv) == h # <<>> /\ Len(h) # RootLen(h, drv)
EndsSep(h) == h # <<>> /\ IsSep(h[Len(h)])
JoinResults(h, t, drv) == {h \o (IF NeedsSep(h, drv) THEN <<SLASH>> ELSE <<>>) \o t}
                          \cup (IF EndsSep(h) THEN {h \o t} ELSE {})
Join(h, t, drv) == h \o (IF NeedsSep(h, drv) THEN <<SLASH>> ELSE <<>>) \o t

\* the un-normalized absolute text; a drive on a relative path replaces the drive of the current directory
AbsRaw(p, cwd, drv) ==
  IF IsAbs(p, drv) THEN p
  ELSE LET d == Drive(p, drv)  c == IF d > 0 THEN From(cwd, Drive(cwd, drv) + 1) ELSE cwd
       IN Sub(p, 1, d) \o c \o <<SLASH>> \o From(p, d + 1)
AbsPath(p, cwd, drv) == Norm(AbsRaw(p, cwd, drv), drv)

\* splitting
RECURSIVE LastSep(_, _)
LastSep(p, i) == IF i = 0 THEN 0 ELSE IF IsSep(p[i]) THEN i ELSE LastSep(p, i - 1)
Base(p) == From(p, LastSep(p, Len(p)) + 1)
\* the directory part is a prefix holding all of the text before the name; a root keeps its separators
DirOk(p, d, drv) ==
  /\ Len(d) <= LastSep(p, Len(p)) /\ d = Sub(p, 1, Len(d))
  /\ \A i \in Len(d) + 1 .. LastSep(p, Len(p)) : IsSep(p[i])
  /\ Len(d) >= (IF RootLen(p, drv) <= LastSep(p, Len(p)) THEN RootLen(p, drv) ELSE LastSep(p, Len(p)))
  /\ Norm(Join(d, Base(p), drv), drv) = Norm(p, drv)
RECURSIVE LastDot(_, _)
LastDot(n, i) == IF i = 0 THEN 0 ELSE IF n[i] = DOT THEN i ELSE LastDot(n, i - 1)
Ext(p) == LET n == Base(p)  k == LastDot(n, Len(n))
          IN IF k > 1 /\ \E j \in 1 .. k - 1 : n[j] # DOT THEN From(n, k) ELSE <<>>

Fits(out, cap) == Len(out) + 1 <= cap
\* ---- allowed results of one call: err \in {"no", "may", "must"} and the text on success ----
NormErr(p, cap, drv) == IF Fits(Norm(p, drv), cap) THEN "no" ELSE "must"
JoinErr(h, t, cap, drv) == IF Fits(Join(h, t, drv), cap) /\ Len(Join(h, t, drv)) < MaxPath THEN "no"
                           ELSE IF \E r \in JoinResults(h, t, drv) : Fits(r, cap) THEN "may" ELSE "must"
AbsErr(p, cwd, cap, ip, drv) ==
  IF ~Fits(AbsPath(p, cwd, drv), cap) THEN "must"
  ELSE IF cap > MaxPath THEN "may"
  ELSE IF IsAbs(p, drv) THEN "no"
  ELSE IF Len(AbsRaw(p, cwd, drv)) >= MaxPath - 1 \/ Len(cwd) + 3 > cap \/ (ip /\ Len(p) + Len(cwd) + 2 > cap) THEN "may"
  ELSE "no"
=============================================================================
