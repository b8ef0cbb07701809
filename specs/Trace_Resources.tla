--------------------------- MODULE Trace_Resources ---------------------------
(* What the real code holds on to, against Resources.tla: after every call the files   *)
(* and directories open in the base and the memory held are those of the open handles  *)
(* and of the file systems registered, whatever failed on the way; and a call that      *)
(* failed changed nothing below.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, vs, held, snap, calm, loose
tvars == <<l, vs, held, snap, calm, loose>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
None == [x \in {} |-> 0]
Has(k) == k \in DOMAIN E
Leak == IF Has("leak") THEN E.leak ELSE 0
Failed == Has("cls") /\ E.cls = "err"
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN f[k].cost + Sum(f, S \ {k})
Key == IF E.op \in {"open", "close"} THEN <<"f", E.h>> ELSE <<"d", E.d>>
Rot(v) == v \in DOMAIN vs /\ vs[v].rot
Vague(b) == \E k \in DOMAIN held : held[k].b = b /\ held[k].rot     \* how many chunk files a log keeps open is its business
N(b, kind) == Cardinality({k \in DOMAIN held : held[k].b = b /\ k[1] = kind}) + Cardinality({v \in DOMAIN vs : kind = "f" /\ vs[v].img = b})
Same == UNCHANGED <<vs, held, snap, calm, loose>>
Quiet == UNCHANGED <<vs, held, snap, loose>> /\ calm' = (calm /\ (Failed \/ (Has("ret") /\ E.op \in {"exf", "exd"})))
Reg ==
  IF E.cls = "err" THEN Leak = 0 /\ Same
  ELSE /\ vs' = Put(vs, E.v, [b |-> IF E.k \in {"jail", "trace", "rotate"} THEN vs[E.base].b ELSE E.v, bare |-> E.k = "bare",
                              rot |-> E.k = "rotate" \/ (E.k \in {"jail", "trace"} /\ Rot(E.base)),
                              img |-> IF E.k \in {"tar", "romfs"} /\ Has("base") THEN E.base ELSE "", cost |-> Leak])
       /\ UNCHANGED <<held, snap, calm, loose>>
BareCall == E.v \in DOMAIN vs /\ vs[E.v].bare
Opening ==
  /\ (E.null = 1) <=> (E.cls # "ok")
  /\ IF E.cls = "ok" THEN /\ held' = Put(held, Key, [b |-> vs[E.v].b, rot |-> Rot(E.v), cost |-> Leak])
                          /\ calm' = (calm /\ E.op = "opend") /\ UNCHANGED <<vs, snap, loose>>
     ELSE /\ E.cls = "err" /\ Leak = 0 /\ held' = Del(held, Key)
          /\ calm' = (calm /\ ~Rot(E.v)) /\ UNCHANGED <<vs, snap, loose>>
Closing ==       \* gone whether or not the base complained
  /\ IF Key \in DOMAIN held THEN E.cls \in {"ok", "err"} ELSE E.cls = "err"
  /\ held' = Del(held, Key) /\ calm' = (calm /\ E.op = "closed") /\ UNCHANGED <<vs, snap, loose>>
Stat ==
  /\ IF Vague(E.v) THEN TRUE
     ELSE IF E.v = "stdio" THEN E.of = N(E.v, "f") + N(E.v, "d")
     ELSE E.of = N(E.v, "f") /\ E.od = N(E.v, "d")
  /\ IF loose \/ \E k \in DOMAIN held : held[k].rot THEN TRUE ELSE E.live = Sum(vs, DOMAIN vs) + Sum(held, DOMAIN held)
  /\ Same
Step ==
  CASE E.op = "reset" -> vs' = None /\ held' = None /\ snap' = <<"?">> /\ calm' = FALSE /\ loose' = FALSE
    [] E.op \in {"init", "end", "image", "content", "put", "fault", "nofault", "mfail", "nomfail", "note", "reports", "rotcfg", "size", "tell", "eof", "vctl"} -> Same
    [] E.op = "reg" -> Reg
    [] E.op = "unreg" -> E.cls = "ok" /\ vs' = Del(vs, E.v) /\ UNCHANGED <<held, snap, calm, loose>>
    [] E.op \in {"open", "opend"} -> Opening
    [] E.op \in {"close", "closed"} -> Closing
    [] E.op = "mstat" -> Stat
    [] E.op \in {"mkpath", "copy"} -> Leak = 0 /\ calm' = FALSE /\ UNCHANGED <<vs, held, snap, loose>>
    [] E.op = "setcwd" -> (BareCall => E.cls = "err") /\ loose' = (loose \/ E.cls = "ok") /\ UNCHANGED <<vs, held, snap, calm>>
    [] E.op \in {"del", "ren", "mkdir", "stat", "exf", "exd", "getcwd"} ->
         IF BareCall THEN (IF E.op \in {"exf", "exd"} THEN E.ret = 0 ELSE E.cls = "err") /\ Same
         ELSE IF Rot(E.v) /\ E.op \in {"del", "ren"} THEN calm' = FALSE /\ UNCHANGED <<vs, held, snap, loose>>
         ELSE IF E.op \in {"del", "ren", "mkdir"} THEN Quiet ELSE Same
    [] E.op \in {"read", "rdd", "find", "rwd", "seek"} -> Same
    [] E.op \in {"write", "trunc", "sync", "puts", "printf", "trim", "fctl"} -> calm' = FALSE /\ UNCHANGED <<vs, held, snap, loose>>
    [] E.op \in {"nullarg", "nullfh"} -> E.ok = E.n /\ Same         \* every one of the n calls was refused
    [] E.op = "bare" -> Same
    [] E.op = "dump" -> (calm => E.tree = snap) /\ snap' = E.tree /\ calm' = TRUE /\ UNCHANGED <<vs, held, loose>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ vs = None /\ held = None /\ snap = <<"?">> /\ calm = FALSE /\ loose = FALSE
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
