----------------------------- MODULE Trace_DHash -----------------------------
(* Calls on the real table against a finite map: every answer, every callback and the  *)
(* storage used.  A value's number stands for its bytes, a key object's for its address. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, t
tvars == <<l, t>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Gone == [on |-> FALSE]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Size(m) == Cardinality(DOMAIN m)
Items(m) == {[k |-> k, o |-> m[k].o, i |-> m[k].i] : k \in DOMAIN m}
Set(s) == {s[j] : j \in DOMAIN s}
IsGrow(c) == c.cb = "grow"
Rest == SelectSeq(E.calls, LAMBDA c : ~IsGrow(c))
Grew == \E j \in DOMAIN E.calls : IsGrow(E.calls[j]) /\ E.calls[j].yes = 1
Denied == \/ \E j \in DOMAIN E.calls : IsGrow(E.calls[j]) /\ E.calls[j].yes = 0     \* the owner said no,
          \/ E.mf = 1                                                                \* memory ran out,
          \/ t.lim > 0 /\ t.lim < 3 * t.bytes                                        \* or the next size is too big
Kill(m, k) == [cb |-> "destroy", k |-> k, o |-> m[k].o, i |-> m[k].i]
\* after any call that leaves the entries m
After(m) == /\ E.num = Size(m) /\ E.num <= E.cap /\ E.cap >= t.cap /\ E.bad = 0
            /\ (t.static => E.cap = t.cap /\ E.bytes = 0)
            /\ (t.lim > 0 => E.bytes <= t.lim)
            /\ (t.asks /\ E.cap > t.cap => Grew)                 \* growth is announced
            /\ \A j \in DOMAIN E.calls : IsGrow(E.calls[j]) /\ E.calls[j].yes = 1 /\ E.cap > t.cap => E.calls[j].n = E.cap
            /\ t' = [t EXCEPT !.m = m, !.cap = E.cap, !.bytes = E.bytes]
Here(k) == k \in DOMAIN t.m
Quiet == E.calls = <<>>
\* the replace callback, if there is one, is asked first
Asked == IF t.rep = 0 THEN <<>> ELSE <<[cb |-> "replace", k |-> E.k, i |-> t.m[E.k].i, n |-> E.i, yes |-> E.ret]>>
Ins == /\ E.over = 0
       /\ IF E.ret = 1
          THEN /\ Rest = (IF Here(E.k) THEN Asked \o <<Kill(t.m, E.k)>> ELSE <<>>)
               /\ After(Put(t.m, E.k, [i |-> E.i, o |-> E.o]))
          ELSE /\ \/ Here(E.k) /\ t.rep = 2 /\ E.i % 2 = 1 /\ Rest = Asked
                  \/ ~Here(E.k) /\ Rest = <<>> /\ Size(t.m) >= t.cap /\ (t.static \/ (Denied = TRUE))
               /\ After(t.m)
Take == /\ E.over = 0 /\ (E.ret = 1) = Here(E.k)
        /\ E.i = (IF Here(E.k) /\ E.op = "take" THEN t.m[E.k].i ELSE -2)
        /\ E.calls = (IF Here(E.k) /\ E.op = "rem" THEN <<Kill(t.m, E.k)>> ELSE <<>>)
        /\ E.cap = t.cap /\ After(Del(t.m, E.k))
Look == /\ (E.op = "look" => E.over = 0) /\ Quiet /\ (E.ret = 1) = Here(E.k)
        /\ (E.op # "exists" => E.i = (IF Here(E.k) THEN t.m[E.k].i ELSE -2)) /\ E.cap = t.cap /\ After(t.m)
Poke == Quiet /\ (E.ret = 1) = Here(E.k) /\ After(IF Here(E.k) THEN [t.m EXCEPT ![E.k].i = E.i] ELSE t.m)
Walk == /\ Quiet /\ Len(E.items) = Cardinality(Set(E.items)) /\ Set(E.items) \subseteq Items(t.m)
        /\ IF E.op = "iter" THEN Len(E.items) = Size(t.m) /\ E.again = 0
           ELSE Len(E.items) = (IF E.stop > 0 /\ E.stop < Size(t.m) THEN E.stop ELSE Size(t.m))
        /\ After(t.m)
Reserve == /\ Rest = <<>>
           /\ IF E.ret = 1 THEN E.cap - Size(t.m) >= E.n
              ELSE E.cap = t.cap /\ t.cap - Size(t.m) < E.n /\ (t.static \/ (Denied = TRUE) \/ t.lim > 0)
           /\ After(t.m)
Num(j) == [i |-> j % 1000, o |-> -1]
\* n times: the key "keep" behind goes, a new one comes
Churn == /\ E.ok = E.n
         /\ After([k \in DOMAIN t.m \cup {ToString(j) : j \in (E.first + E.n - E.keep)..(E.first + E.n - 1)} |->
                    IF k \in DOMAIN t.m THEN t.m[k] ELSE Num(CHOOSE j \in (E.first + E.n - E.keep)..(E.first + E.n - 1) : ToString(j) = k)])
Bulk == E.ok = E.n /\ E.num = Size(t.m) + E.n /\ E.num <= E.cap /\ E.bad = 0 /\ t' = [t EXCEPT !.cap = E.cap, !.bytes = E.bytes, !.more = [first |-> E.first, n |-> E.n]]
All == E.ok = E.n /\ E.first = t.more.first /\ E.n = t.more.n /\ E.num = Size(t.m) + E.n /\ t' = t
Fresh == [on |-> TRUE, m |-> [x \in {} |-> 0], cap |-> E.cap, static |-> E.static = 1, lim |-> E.lim, rep |-> E.rep, asks |-> E.grow >= 0,
          bytes |-> E.bytes, more |-> [first |-> 0, n |-> 0]]
New == /\ IF E.ret = 1 THEN /\ E.num = 0 /\ E.bad = 0 /\ Rest = <<>>
                            /\ IF E.static = 1 THEN E.bytes = 0 /\ E.cap <= E.fit /\ E.cap >= 10 ELSE E.cap >= (E.b * 15) \div 16
                            /\ (E.lim > 0 => E.bytes <= E.lim) /\ t' = Fresh
          ELSE /\ E.bytes = 0 /\ E.bad = 0 /\ t' = Gone
               /\ \/ E.static = 1 /\ E.fit < 16
                  \/ E.static = 0 /\ (E.mf = 1 \/ \E j \in DOMAIN E.calls : IsGrow(E.calls[j]) /\ E.calls[j].yes = 0)
                  \/ E.static = 0 /\ E.lim > 0 /\ E.fit < 3 * (IF E.b < 11 THEN 11 ELSE E.b)
Free == Len(E.calls) = Size(t.m) /\ Set(E.calls) = {Kill(t.m, k) : k \in DOMAIN t.m} /\ E.bytes = 0 /\ E.bad = 0 /\ t' = Gone
Step ==
  CASE E.op = "reset" -> t' = Gone
    [] E.op \in {"init", "end"} -> t' = t
    [] E.op = "new" -> New
    [] E.op = "ins" -> Ins
    [] E.op \in {"rem", "take"} -> Take
    [] E.op \in {"look", "exists", "peek"} -> Look
    [] E.op = "poke" -> Poke
    [] E.op \in {"iter", "each"} -> Walk
    [] E.op = "reserve" -> Reserve
    [] E.op = "growok" -> Quiet /\ After(t.m)
    [] E.op = "churn" -> Churn
    [] E.op = "bulk" -> Bulk
    [] E.op = "checksum" -> All
    [] E.op = "free" -> Free
    [] OTHER -> FALSE
TraceInit == l = 1 /\ t = Gone
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
