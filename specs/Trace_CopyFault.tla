--------------------------- MODULE Trace_CopyFault ---------------------------
(* Copying and text output while the storage below or memory may fail.              *)
EXTENDS Fs, Json, IOUtils
VARIABLES l, last, armed, base0
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
\* contents of a name in a dumped tree; <<-1>> if it is not there
Find(T, q) == IF \E i \in DOMAIN T : T[i].p = q THEN T[CHOOSE i \in DOMAIN T : T[i].p = q].c ELSE <<-1>>
SRC == << <<115, 114, 99>> >>   DST == << <<100, 115, 116>> >>   X == << <<120>> >>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Sub(b, 1, Len(a)) = a
F == [op |-> "", r |-> 0, c |-> <<>>, hit |-> 0]
Step ==
  CASE E.op = "reset" -> last' = F /\ armed' = FALSE /\ base0' = <<>>
    [] E.op \in {"init", "end", "reg", "mfail"} -> UNCHANGED <<last, base0>> /\ armed' = (armed \/ E.op = "mfail") /\ (E.op = "reg" => E.cls = "ok")
    [] E.op = "fault" -> armed' = TRUE /\ UNCHANGED <<last, base0>>
    [] E.op = "put" -> base0' = E.c /\ UNCHANGED <<last, armed>>
    [] E.op = "open" -> E.cls = "ok" /\ UNCHANGED <<last, armed, base0>>
    [] E.op \in {"copy", "write"} -> last' = [op |-> E.op, r |-> E.ret, c |-> IF E.op = "write" THEN E.c ELSE base0, hit |-> 0] /\ UNCHANGED <<armed, base0>>
    [] E.op = "nofault" -> last' = [last EXCEPT !.hit = @ + E.hits] /\ UNCHANGED <<armed, base0>>
    [] E.op = "nomfail" -> last' = [last EXCEPT !.hit = @ + E.hit] /\ UNCHANGED <<armed, base0>>
    [] E.op = "dump" ->
         /\ UNCHANGED <<last, armed, base0>>
         /\ IF last.op = "copy" THEN
              /\ Find(E.tree, SRC) = base0
              /\ (last.r >= 0) => (last.r = 0 /\ Find(E.tree, DST) = base0)
              /\ (last.hit = 0) => last.r = 0
              /\ (last.r < 0) => last.hit > 0
            ELSE IF last.op = "write" THEN   \* what was stored is what was reported
              /\ (last.r >= 0) => (last.r <= Len(last.c) /\ Find(E.tree, X) = Sub(last.c, 1, last.r))
              /\ (last.hit = 0) => last.r = Len(last.c)
            ELSE TRUE
    [] OTHER -> FALSE
TraceInit == FsInit /\ l = 1 /\ last = F /\ armed = FALSE /\ base0 = <<>>
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED fsvars
TraceSpec == TraceInit /\ [][TraceNext]_<<fsvars, l, last, armed, base0>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
