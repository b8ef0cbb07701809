------------------------------ MODULE Trace_Fs ------------------------------
EXTENDS Fs, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Agrees(r) == \A k \in DOMAIN r :
  CASE k = "le" -> E.ret <= r.le
    [] k = "c" -> CEq(E.c, r.c)
    [] k = "fname" -> Fold(E.name) = r.fname
    [] k = "jp" -> Fold(From(E.p, Drive(E.p, TRUE) + 1)) = r.jp
    [] k = "fp" -> Fold(E.p) = r.fp
    [] k = "isd" -> (E.type % 2 = 1) = r.isd
    [] OTHER -> k \in DOMAIN E /\ E[k] = r[k]
(* Everything handed to the file system below lies inside the view the call went through. *)
BelowPath(p) == Walk(Components(p, FALSE), 1, <<>>, TRUE)
PathOf == {"p", "q"} \cap DOMAIN E
Confined ==
  ("b" \in DOMAIN E /\ "v" \in DOMAIN E /\ E.v \in DOMAIN views) =>
     \A i \in DOMAIN E.b : LET w == views[E.v] IN
        /\ PathOf = {} \/ E.op = "copy" \/ E.b[i].m = w.b
        /\ ("p" \in DOMAIN E.b[i] /\ w.pre # <<>>) => E.b[i].m = w.b /\ (IsAbs(E.b[i].p, FALSE) /\ Below(w.pre, BelowPath(E.b[i].p)))
        /\ ("q" \in DOMAIN E.b[i] /\ w.pre # <<>>) => (IsAbs(E.b[i].q, FALSE) /\ Below(w.pre, BelowPath(E.b[i].q)))
(* A jail may refuse a path that does not fit its path buffer, must when it cannot be represented, *)
(* and then touches nothing below.                                                                 *)
AbsLen(v, p) == Len(Joined(LexSegs(v, p))) + 1
RawLen(v, p) == Len(p) + (IF IsAbs(p, FALSE) THEN 0 ELSE Len(CwdText(v))) + 1
Jailed == E.v \in DOMAIN views /\ views[E.v].rl > 0
Boxed == E.v \in DOMAIN views /\ (views[E.v].rl > 0 \/ Arch(views[E.v].b))
LongPath(p) == views[E.v].rl + RawLen(E.v, p) >= 250
TooLongPath(p) == views[E.v].rl + AbsLen(E.v, p) >= 256
PathCall == E.op \in {"open", "stat", "exf", "exd", "del", "ren", "mkdir", "mkpath", "setcwd", "opend", "copy"}
MayRefuse == PathCall /\ Boxed /\ \E k \in PathOf : LongPath(E[k])
MustRefuse == PathCall /\ Jailed /\ \E k \in PathOf : TooLongPath(E[k])
Refused == /\ MayRefuse
           /\ IF E.op \in {"exf", "exd"} THEN E.ret = 0 ELSE E.cls = "err"
           /\ ("b" \in DOMAIN E) => (E.op = "mkpath" \/ E.b = <<>>)
           /\ fh' = IF E.op = "open" THEN Drop(fh, E.h) ELSE fh
           /\ ("null" \in DOMAIN E) => E.null = 1
           /\ IF E.op = "mkpath"     \* the parts that fit may have been made
              THEN \E n \in 0 .. Len(Components(E.p, FALSE)) : SetTree(views[E.v].b, MkUpTo(E.v, E.p, n).t)
              ELSE UNCHANGED tree /\ dh' = IF E.op = "opend" THEN Drop(dh, E.d) ELSE dh
           /\ res' = Nothing /\ UNCHANGED <<dat, nid, views, flav, cwds, ro, nodots, dirty, ntr>>
Set(s) == {s[i] : i \in DOMAIN s}
(* An archive: the event before the mount says whether its bytes make one and where they are. *)
Image == Trace[l - 1]
Mounting == IF Image.ok = "yes" \/ (Image.ok = "any" /\ E.cls = "ok")
            THEN RegBase(E.v, IF Image.mem = 1 THEN (IF E.k = "tar" THEN "tarmem" ELSE "rommem") ELSE E.k)
            ELSE Answer([cls |-> "err"]) /\ UNCHANGED ntr
(* While the storage below an archive misbehaves, a read may fail or come out short, but never wrong, *)
(* and then the position says how far it came.                                                        *)
Shaky == "fh" \in DOMAIN E /\ E.op = "read" /\ E.h \in DOMAIN fh /\ Arch(fh[E.h].b)
ShakyRead ==
  LET f == fh[E.h]  n == IF E.ret < 0 THEN 0 ELSE E.ret IN
  /\ IF E.ret < 0 THEN E.cls = "err" ELSE n <= E.n /\ (n = 0 \/ f.pos + n <= Len(dat[f.id])) /\ E.c = (IF n = 0 THEN <<>> ELSE Sub(dat[f.id], f.pos + 1, f.pos + n))
  /\ fh' = [fh EXCEPT ![E.h].pos = f.pos + n] /\ res' = Nothing
  /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, dh, dirty, ntr>>
(* Failing storage below a FAT volume: a call that only looks may fail and changes nothing, an open file  *)
(* or directory that failed is good for nothing but closing, a change that failed leaves the volume in no *)
(* known state.  A call that reports success has done its work.                                           *)
Hit == "fh" \in DOMAIN E /\ E.fh > 0
OpenFat == {f \in DOMAIN fh : flav[fh[f].b] = "fat"}
FatCall == \/ "v" \in DOMAIN E /\ E.v \in DOMAIN views /\ flav[views[E.v].b] = "fat"
           \/ "h" \in DOMAIN E /\ E.h \in OpenFat
           \/ "d" \in DOMAIN E /\ E.d \in DOMAIN dh /\ flav[dh[E.d].b] = "fat"
ArchCall == \/ "v" \in DOMAIN E /\ E.v \in DOMAIN views /\ Arch(views[E.v].b)
            \/ "d" \in DOMAIN E /\ E.d \in DOMAIN dh /\ Arch(dh[E.d].b)
Unwell == ((FatCall = TRUE) \/ (ArchCall = TRUE)) /\ Hit /\ E.op # "dump" /\ IF E.op \in {"exf", "exd"} THEN E.ret = 0 ELSE ("cls" \in DOMAIN E /\ E.cls = "err")
Looks == E.op \in {"read", "stat", "exf", "exd", "opend", "rdd", "find", "rwd", "closed", "getcwd", "size", "tell", "eof"} \/ (E.op = "open" /\ E.fl = 1)
         \/ (E.op \in {"close", "seek", "sync"} /\ E.h \in DOMAIN fh /\ ~fh[E.h].wr)
UnwellCall ==
  IF (ArchCall = TRUE) \/ ((Looks = TRUE) /\ dirty = {})     \* nothing an archive holds ever changes
  THEN /\ fh' = IF E.op \in {"open", "close"} THEN Drop(fh, E.h)
                ELSE IF E.op \in {"read", "seek", "sync"} THEN [fh EXCEPT ![E.h].eof = "broken"] ELSE fh
       /\ dh' = IF E.op \in {"opend", "closed"} THEN Drop(dh, E.d)
                ELSE IF E.op \in {"rdd", "find", "rwd"} THEN [dh EXCEPT ![E.d].stale = TRUE] ELSE dh
       /\ ("null" \in DOMAIN E => E.null = 1)
       /\ res' = Nothing /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, dirty, ntr>>
  ELSE flav' = [b \in DOMAIN flav |-> "lost"] /\ res' = Nothing
       /\ UNCHANGED <<tree, dat, nid, views, cwds, ro, nodots, fh, dh, dirty, ntr>>
Poisoned == \E b \in DOMAIN flav : flav[b] = "lost"
Broken == "h" \in DOMAIN E /\ E.h \in DOMAIN fh /\ fh[E.h].eof = "broken" /\ E.op \notin {"close", "open"}
Call ==
  CASE E.op # "reset" /\ Poisoned -> Answer(Nothing) /\ UNCHANGED ntr
    [] Unwell -> UnwellCall
    [] Broken -> Answer(Nothing) /\ UNCHANGED ntr
    [] E.op \in {"init", "end", "blog", "image", "fault", "nofault", "mfail", "nomfail"} -> Answer(Nothing) /\ UNCHANGED ntr
    [] E.op = "reset" -> FsReset
    [] E.op = "reg" /\ E.k = "fat" -> RegFat(E.v, E.vol, E.img, E.cs, E.tot)
    [] E.op = "fatmk" /\ Hit /\ E.cls = "err" -> Answer(Nothing) /\ UNCHANGED ntr /\ E.leak = 0
    [] E.op = "fatmk" -> FatMake(E.img, E.n, E.cls = "ok") /\ E.leak = 0
    [] E.op = "fatmnt" /\ Hit /\ E.cls = "err" -> Answer(Nothing) /\ UNCHANGED ntr
    [] E.op = "fatmnt" -> FatMount(E.img, E.vol, E.cs, E.tot)
    [] E.op = "fatumnt" -> FatUnmount(E.vol)
    [] E.op = "reg" /\ E.k \in {"mem", "stdio"} -> RegBase(E.v, E.k)
    [] E.op = "reg" /\ E.k \in {"tar", "romfs"} -> Mounting
    [] E.op = "reg" /\ E.k \in {"trace", "rotate"} -> RegLayer(E.v, E.k, E.base)
    [] E.op = "reg" /\ E.k = "jail" -> RegJail(E.v, E.base, E.root)
    [] E.op = "unreg" -> Unreg(E.v)
    [] E.op = "findvfs" -> Answer([found |-> IF E.v \in DOMAIN views THEN E.v ELSE ""]) /\ UNCHANGED ntr
    [] E.op = "put" -> Put(E.v, E.p, E.dir = 1, E.c)
    [] E.op = "content" -> Put(E.v, E.p, E.dir = 1, E.c)          \* what a mounted archive was built from
    [] E.op = "open" -> Open(E.v, E.h, E.p, E.fl) \/ (E.cls = "err" /\ OpenX(E.v, E.h, E.p, E.fl, TRUE))
    [] E.op = "close" -> Close(E.h)
    [] Shaky -> ShakyRead
    [] E.op = "read" -> Read(E.h, E.n)
    [] E.op = "write" -> Write(E.h, E.c) \/ (~NoHandle(E.h) /\ E.cls = "ok" /\ E.ret >= 0 /\ E.ret < Len(E.c) /\ WriteShort(E.h, E.c, E.ret))
    [] E.op = "trunc" -> Truncate(E.h, E.n)
    [] E.op = "sync" -> Sync(E.h)
    [] E.op = "size" -> Size(E.h)
    [] E.op = "seek" -> Seek(E.h, E.o, E.org)
    [] E.op = "tell" -> Tell(E.h)
    [] E.op = "eof" -> Eof(E.h)
    [] E.op = "stat" -> Stat(E.v, E.p)
    [] E.op = "exf" -> ExFile(E.v, E.p)
    [] E.op = "exd" -> ExDir(E.v, E.p)
    [] E.op = "del" -> Delete(E.v, E.p)
    [] E.op = "ren" -> Rename(E.v, E.p, E.q)
    [] E.op = "mkdir" -> MkDir(E.v, E.p) \/ (E.cls = "err" /\ MkDirX(E.v, E.p, TRUE))
    [] E.op = "mkpath" -> MkPath(E.v, E.p)
    [] E.op = "setcwd" -> SetCwd(E.v, E.p)
    [] E.op = "getcwd" -> GetCwd(E.v, E.n, IF E.v = "stdio" /\ cwds["stdio"] = <<>> THEN 1 ELSE 0)
    [] E.op = "vctl" -> VfsCtrl(E.v, E.cmd, E.val)
    [] E.op = "opend" -> OpenDir(E.v, E.d, E.p)
    [] E.op = "rdd" -> ReadDir(E.d)
    [] E.op = "find" -> FindDir(E.d, E.pat)
    [] E.op = "rwd" -> RewindDir(E.d)
    [] E.op = "closed" -> CloseDir(E.d)
    [] E.op = "copy" -> Copy(E.v, E.p, E.h)
    [] E.op = "rsrc" -> Answer(IF E.h \notin DOMAIN fh THEN NullArg ELSE IF views[fh[E.h].v].kind \in {"tarmem", "rommem"}
                               \/ (E.cls = "ok" /\ Arch(fh[E.h].b))
                               THEN [cls |-> "ok", c |-> Sub(dat[fh[E.h].id], 1, E.n)] ELSE [cls |-> "err"]) /\ UNCHANGED ntr
    [] E.op = "reports" -> Reports(E.n)
    [] E.op = "dump" -> TreeIs(E.v, Set(E.tree)) = TRUE /\ Answer(Nothing) /\ UNCHANGED ntr
    [] E.op = "glob" -> Answer(IF WellFormed(E.pat, 1) THEN [ret |-> IF Match(E.pat, E.s) THEN 1 ELSE 0] ELSE Nothing) /\ UNCHANGED ntr
    [] E.op = "mkstep" -> LET k == Len(Parts(E.p, Drv(E.v))) IN     \* the first parts of a path being made (Trace_Conc)
         SetTree(views[E.v].b, MkUpTo(E.v, E.p, IF E.i < k THEN E.i ELSE k).t) /\ TreeOnly /\ res' = Nothing /\ UNCHANGED ntr
    [] OTHER -> FALSE
Step == (~MustRefuse /\ Call) \/ Refused
TraceInit == FsInit /\ l = 1
(* A field an answer is declared to hold is valid; one it is not declared to hold is empty. *)
TimeOf(n) == IF HasTime(n) THEN 1 ELSE 0
Metadata == Poisoned \/
  /\ (E.op = "stat" /\ E.cls = "ok" /\ "mt" \in DOMAIN E) =>
        LET f == flav[views[E.v].b] IN CASE f = "mem" -> E.mt = 0 [] ~Declares(f) -> TRUE
          [] OTHER -> (E.mt = TimeOf(StatFields(f)) \/ (f = "fat" /\ Place(E.v, E.p) = <<>>)) /\ E.named = StatFields(f) % 2
  /\ (E.op \in {"rdd", "find"} /\ E.cls = "ok" /\ "mt" \in DOMAIN E) =>
        LET f == flav[dh[E.d].b] IN CASE f = "mem" -> E.mt = 0 [] ~Declares(f) -> TRUE [] OTHER -> E.mt = TimeOf(DirFields(f))
TraceNext == l <= Len(Trace) /\ Step /\ Agrees(res') /\ (Confined = TRUE) /\ (Metadata = TRUE) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fsvars, l>>
Accepted == PrintT("TRACE-LEN " \o ToString(Len(Trace)) \o " MATCHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
