---------------------------- MODULE Trace_StrRange ----------------------------
(* Calls on real buffers: each event carries the bytes and the start afterwards.  *)
EXTENDS StrRange, TLC, Json, IOUtils
VARIABLES l, b, st
tvars == <<l, b, st>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
A == [b |-> E.b, st |-> E.st, r |-> E.r]
Does ==
  CASE E.op \in {"cats", "fmt", "vfmt"} -> CatOK(b, st, E.t, A)
    [] E.op = "catr" -> CatOK(b, st, CStr(E.t), A)
    [] E.op = "uint" -> /\ ("n" \in DOMAIN E => E.t = Decimal(E.n))
                        /\ IF E.t = <<48>> THEN CatZeroOK(b, st, E.t, A) ELSE CatOK(b, st, E.t, A)
    [] E.op = "int" -> /\ ("n" \in DOMAIN E => E.t = Decimal(E.n))
                       /\ IF E.t = <<48>> THEN CatZeroOK(b, st, E.t, A) ELSE CatIntOK(b, st, E.t, A)
    [] E.op \in {"catsn", "catrn"} -> CatBareOK(b, st, CStr(E.t), A)
    [] E.op = "catc" -> CatCharOK(b, st, E.c, A)
    [] E.op = "catcn" -> CatCharBareOK(b, st, E.c, A)
    [] E.op = "copy" -> CopyOK(b, st, E.t, E.trunc = 1, A)
    [] E.op = "term" -> TerminateOK(b, st, A)
    [] E.op = "setlen" -> SetLenOK(b, st, E.c, A)
    [] E.op = "pad" -> PadOK(b, st, E.c, A)
    [] E.op = "len" -> A.b = b /\ A.st = st /\ A.r = CLen(Part(b, st))
    [] E.op = "strlcpy" -> LCopyOK(b, E.t, E.size, A)
    [] E.op = "strxcpy" -> XCopyOK(b, E.t, E.size, A)
    [] E.op = "strlcat" -> LCatOK(b, E.t, E.size, A)
    [] OTHER -> FALSE
Looks ==
  CASE E.op = "ltrim" -> E.r = LTrimmed(E.t)
    [] E.op = "rtrim" -> E.r = RTrimmed(E.t)
    [] E.op = "trim" -> E.r = Trimmed(E.t)
    [] E.op = "eq" -> (E.r = 1) = (E.t = E.u)
    [] E.op = "eqr" -> (E.r = 1) = (E.t = E.u)
    [] E.op = "isint" -> (E.r = 1) = IsInt(E.t)
    [] E.op = "tok" -> E.r = Tokens(E.t, 1, E.u)
    [] E.op = "tokl" -> E.r = Tokens(SubSeq(E.t, 1, E.n), 1, E.u)
    [] E.op = "puts" -> E.r = CStr(E.t)
    [] OTHER -> FALSE
LookOps == {"ltrim", "rtrim", "trim", "eq", "eqr", "isint", "tok", "tokl", "puts"}
Step ==
  CASE E.op = "reset" -> b' = <<>> /\ st' = 0
    [] E.op \in {"init", "end"} -> UNCHANGED <<b, st>>
    [] E.op = "new" -> b' = E.b /\ st' = E.st
    [] E.op \in LookOps -> (Looks = TRUE) /\ UNCHANGED <<b, st>>
    [] OTHER -> (Does = TRUE) /\ b' = E.b /\ st' = E.st
TraceInit == l = 1 /\ b = <<>> /\ st = 0
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
