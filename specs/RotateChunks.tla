---------------------------- MODULE RotateChunks ----------------------------
(* The chunk files behind a rotating log (src/shim_rotate.c), one storage operation   *)
(* per step, with an interruption or a failing operation possible between any two.    *)
(* Data is abstract: byte i of everything ever appended is the number i, a chunk file  *)
(* holds an interval <<a, n>> (n bytes from a on).                                      *)
(*   files      set of [c, g, a, n]: chunk number, generation, contents                *)
(*   up         a handle is open; s, e its first and last chunk <<c, g>>, t total size  *)
(*   want       bytes the running append still has to write; cut the first byte kept    *)
(*   tot        bytes ever written                                                      *)
(* trunc and trim remove chunk files one by one.                                        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Mc, Cs, MaxTot
VARIABLES files, up, s, e, t, want, job, tot, base
vars == <<files, up, s, e, t, want, job, tot, base>>
Zero == <<0, 0>>
Next2(id) == IF id[1] + 1 >= Mc THEN <<0, 1 - id[2]>> ELSE <<id[1] + 1, id[2]>>
Prev2(id) == IF id[1] = 0 THEN <<Mc - 1, 1 - id[2]>> ELSE <<id[1] - 1, id[2]>>
Is(f, id) == f.c = id[1] /\ f.g = id[2]
Exists(id) == \E f \in files : Is(f, id)
At(id) == CHOOSE f \in files : Is(f, id)
(* the chunk a position falls in, and the offset there *)
IdAt(p) == LET q == IF p \div Cs >= Mc THEN Mc ELSE p \div Cs IN
  <<(q + s[1]) % Mc, IF q + s[1] >= Mc THEN 1 - s[2] ELSE s[2]>>
OffAt(p) == IF p \div Cs >= Mc THEN 0 ELSE p % Cs
(* ---- what opening finds: empty chunk files are removed, the sequence starts after the gap ---- *)
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
Found(fs) ==
  LET live == {f \in fs : f.n > 0}
      G(g) == {f.c : f \in {h \in live : h.g = g}} IN
  IF live = {} THEN [s |-> Zero, e |-> Zero]
  ELSE IF G(0) # {} /\ G(1) # {} THEN
    IF Mn(G(0)) < Mn(G(1)) THEN [s |-> <<Mn(G(1)), 1>>, e |-> <<Mx(G(0)), 0>>] ELSE [s |-> <<Mn(G(0)), 0>>, e |-> <<Mx(G(1)), 1>>]
  ELSE LET g == IF G(0) # {} THEN 0 ELSE 1 IN [s |-> <<Mn(G(g)), g>>, e |-> <<Mx(G(g)), g>>]
RECURSIVE Sum(_)
Sum(fs) == IF fs = {} THEN 0 ELSE LET f == CHOOSE f \in fs : TRUE IN f.n + Sum(fs \ {f})
(* the sequence of chunks from a to b *)
RECURSIVE Chain(_, _, _)
Chain(a, b, k) == IF k = 0 THEN <<>> ELSE IF a = b THEN <<a>> ELSE <<a>> \o Chain(Next2(a), b, k - 1)
Live(fs) == {f \in fs : f.n > 0}
(* contents as an interval <<first, count>>; <<-1, -1>> when the files do not form one *)
Reads(fs) ==
  IF Live(fs) = {} THEN <<base, 0>>
  ELSE LET w == Found(fs)  ch == Chain(w.s, w.e, Mc)  F(i) == CHOOSE f \in Live(fs) : Is(f, ch[i]) IN
       IF \/ Len(ch) # Cardinality(Live(fs)) \/ \E i \in DOMAIN ch : ~ \E f \in Live(fs) : Is(f, ch[i]) THEN <<-1, -1>>
       ELSE IF \A i \in 1 .. Len(ch) - 1 : F(i).n = Cs /\ F(i + 1).a = F(i).a + Cs THEN <<F(1).a, Sum(Live(fs))>> ELSE <<-1, -1>>

Init == files = {} /\ up = TRUE /\ s = Zero /\ e = Zero /\ t = 0 /\ want = 0 /\ job = "none" /\ tot = 0 /\ base = 0
(* ---- appending ---- *)
Idle == up /\ want = 0 /\ job = "none"
Begin == /\ Idle /\ \E n \in 1 .. Cs * Mc + 1 : tot + n <= MaxTot /\ want' = n /\ UNCHANGED <<files, up, s, e, t, job, tot, base>>
Target == IdAt(t)
NeedNew == ~Exists(Target)
NewId == IF t = 0 THEN e ELSE Next2(e)
MustEvict == t # 0 /\ NewId[1] = s[1]
Evict == /\ up /\ want > 0 /\ job = "none" /\ NeedNew /\ MustEvict
         /\ Exists(s) /\ files' = files \ {At(s)} /\ t' = t - At(s).n /\ s' = Next2(s) /\ job' = "new"
         /\ UNCHANGED <<up, e, want, tot, base>>
Create == /\ up /\ want > 0 /\ ((job = "none" /\ NeedNew /\ ~MustEvict) \/ job = "new")
          /\ files' = {f \in files : ~Is(f, NewId)} \cup {[c |-> NewId[1], g |-> NewId[2], a |-> tot, n |-> 0]} /\ e' = NewId /\ job' = "none"
          /\ UNCHANGED <<up, s, t, want, tot, base>>
Fill == /\ up /\ want > 0 /\ job = "none" /\ ~NeedNew
        /\ \E m \in 1 .. want : /\ OffAt(t) + m <= Cs
             /\ files' = (files \ {At(Target)}) \cup {[At(Target) EXCEPT !.a = IF @ = At(Target).a /\ At(Target).n = 0 THEN tot ELSE @, !.n = OffAt(t) + m]}
             /\ t' = t + m /\ want' = want - m /\ tot' = tot + m
        /\ UNCHANGED <<up, s, e, job, base>>
(* a failing operation ends the call, the handle stays *)
Fail == /\ up /\ want > 0 /\ want' = 0 /\ job' = "none" /\ UNCHANGED <<files, up, s, e, t, tot, base>>
(* ---- dropping the oldest (trim) and the newest (truncate) chunk by chunk ---- *)
BeginTrim == Idle /\ t > Cs /\ job' = "trim" /\ UNCHANGED <<files, up, s, e, t, want, tot, base>>
Trim == /\ up /\ job = "trim" /\ Exists(s) /\ files' = files \ {At(s)} /\ t' = t - At(s).n
        /\ IF s = e THEN s' = Zero /\ e' = Zero ELSE s' = Next2(s) /\ UNCHANGED e
        /\ job' \in (IF s = e THEN {"none"} ELSE IF t' = 0 THEN {"trim"} ELSE {"none", "trim"})
        /\ UNCHANGED <<up, want, tot, base>>
BeginCut == Idle /\ t > 0 /\ job' = "cut" /\ UNCHANGED <<files, up, s, e, t, want, tot, base>>
Cut == /\ up /\ job = "cut" /\ Exists(e)
       /\ \/ /\ files' = files \ {At(e)} /\ t' = t - At(e).n        \* a whole chunk
             /\ IF t' = 0 THEN s' = Zero /\ e' = Zero ELSE e' = Prev2(e) /\ UNCHANGED s
             /\ job' \in (IF t' = 0 THEN {"none"} ELSE {"none", "cut"})
             /\ tot' = tot - At(e).n
          \/ /\ At(e).n > 1 /\ \E m \in 1 .. At(e).n - 1 : /\ files' = (files \ {At(e)}) \cup {[At(e) EXCEPT !.n = m]}
                                                           /\ t' = t - (At(e).n - m) /\ tot' = tot - (At(e).n - m)
             /\ job' = "none" /\ UNCHANGED <<s, e>>
       /\ UNCHANGED <<up, want, base>>
Done == up /\ job \in {"trim", "cut"} /\ job' = "none" /\ UNCHANGED <<files, up, s, e, t, want, tot, base>>
(* ---- the process stops; a later one opens the log ---- *)
Stop == up /\ up' = FALSE /\ want' = 0 /\ job' = "none" /\ s' = Zero /\ e' = Zero /\ t' = 0 /\ UNCHANGED <<files, tot, base>>
Open == /\ ~up /\ up' = TRUE /\ files' = Live(files) /\ s' = Found(files).s /\ e' = Found(files).e /\ t' = Sum(files)
        /\ want' = 0 /\ job' = "none" /\ UNCHANGED <<tot, base>>
Next == Begin \/ Evict \/ Create \/ Fill \/ Fail \/ BeginTrim \/ Trim \/ BeginCut \/ Cut \/ Done \/ Stop \/ Open
Spec == Init /\ [][Next]_vars
(* ---- the properties ---- *)
StorageBound == Cardinality(files) <= Mc /\ \A f \in files : f.n <= Cs
Contiguous == Reads(files)[2] >= 0
(* the newest byte is the last one written: only the oldest data is ever missing *)
NothingLost == Reads(files)[2] > 0 => Reads(files)[1] + Reads(files)[2] = tot
HandleAgrees == (up /\ Live(files) # {}) => (t = Reads(files)[2] /\ s = Found(files).s)
ReopenAgrees == up => t = Sum(files)
=============================================================================
