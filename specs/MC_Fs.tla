------------------------------- MODULE MC_Fs -------------------------------
(* Exhaustive exploration of Fs over small name, handle and content sets; every      *)
(* explored transition is printed as a history of calls to replay on the real code.  *)
EXTENDS Fs, Json
CONSTANTS Layout, Ops, Paths, Flags, Hs, Ds, Chunks, Ns, Offs, Pats, MaxLen, MaxFile, MaxBusy
VARIABLE hist
P(s) == CASE s = "/" -> <<47>> [] s = "a" -> <<47,97>> [] s = "b" -> <<47,98>> [] s = "ab" -> <<47,97,47,98>> [] s = "aa" -> <<47,97,47,97>>
          [] s = "aba" -> <<47,97,47,98,47,97>> [] s = "bb" -> <<47,98,47,98>> [] s = "ba" -> <<47,98,47,97>>
          [] s = "rel" -> <<98>> [] s = "up" -> <<46,46>> [] s = "upb" -> <<46,46,47,98>> [] s = "upupa" -> <<46,46,47,46,46,47,97>>
          [] s = "cur" -> <<46>> [] s = "rela" -> <<97>> [] s = "A" -> <<47,65>> [] s = "0:b" -> <<48,58,98>> [] s = "0:/a" -> <<48,58,47,97>> [] s = "aB" -> <<47,97,47,66>> [] s = "dup" -> <<47,47,97,47,46,47,98>> [] OTHER -> <<47>>
C(s) == CASE s = "" -> <<>> [] s = "x" -> <<120>> [] s = "yz" -> <<121,122>> [] s = "pqr" -> <<112,113,114>>
          [] s = "*" -> <<42>> [] s = "a*" -> <<97,42>> [] s = "?" -> <<63>> [] s = "[!a]" -> <<91,33,97,93>> [] s = "b" -> <<98>> [] OTHER -> <<>>
\* layouts of mounted file systems
Mount ==
  LET base == IF Layout \in {"stdio"} THEN "stdio" ELSE "mem"
      bn == IF base = "stdio" THEN "stdio" ELSE "m"
      jpre == << <<97>> >>
      V(tr, kind, pre, ck, lex, rl) == View(bn, pre, ck, lex, tr, kind, rl)
      direct == bn :> V(FALSE, base, <<>>, bn, base = "mem", 0)
      jv == "j" :> V(FALSE, "jail", jpre, "j", TRUE, 2)
      tv == "t" :> V(TRUE, "trace", <<>>, bn, TRUE, 0) IN
  /\ views = CASE Layout = "mem" -> direct [] Layout = "stdio" -> direct [] Layout = "jail" -> jv @@ direct [] Layout = "trace" -> tv @@ direct [] OTHER -> direct
  /\ tree = (bn :> IF Layout = "jail" THEN (<<>> :> 0) @@ (jpre :> 0) ELSE (<<>> :> 0)) /\ flav = (bn :> base)
  /\ cwds = (bn :> <<>>) @@ (IF Layout = "jail" THEN ("j" :> <<>>) ELSE Nothing)
  /\ ro = (bn :> FALSE) /\ nodots = (bn :> TRUE)
\* a mounted archive of one directory and two files
ArchLayout == Layout \in {"tar", "romfs"}
MountArch ==
  /\ views = ("m" :> View("m", <<>>, "m", TRUE, FALSE, Layout, 0)) /\ flav = ("m" :> Layout) /\ cwds = ("m" :> <<>>)
  /\ ro = ("m" :> TRUE) /\ nodots = ("m" :> TRUE)
  /\ tree = ("m" :> ((<<>> :> 0) @@ (<< <<97>> >> :> 0) @@ (<< <<97>>, <<98>> >> :> 1) @@ (<< <<98>> >> :> 2)))
  /\ dat = (1 :> <<120,121,122>>) @@ (2 :> <<112,113>>) /\ nid = 3
\* a FAT volume, made and mounted
MountFat ==
  /\ views = ("f" :> [View("A", <<>>, VolKey(0), FALSE, FALSE, "fat", 0) EXCEPT !.drv = <<48, COLON>>, !.vol = 0]) /\ flav = ("A" :> "fat")
  /\ cwds = (VolKey(0) :> <<>>) /\ ro = ("A" :> FALSE) /\ nodots = ("A" :> TRUE) /\ tree = ("A" :> (<<>> :> 0))
\* what FatFs asks of its users: open files stay where they are, and one that is written is open once
Unused(v, p) == Layout # "fat" \/ \A h \in DOMAIN fh : IsFile(fh[h].b, Place(v, p)) => fh[h].id # tree[fh[h].b][Place(v, p)]
Idle == Layout # "fat" \/ (DOMAIN fh = {} /\ DOMAIN dh = {})
Single(v, p, fl) == Layout # "fat" \/ Unused(v, p) \/ (fl = 1 /\ \A h \in DOMAIN fh : fh[h].wr => fh[h].id # tree[fh[h].b][Place(v, p)])
MCInit == /\ (IF Layout = "fat" THEN MountFat /\ dat = Nothing /\ nid = 1 ELSE IF ArchLayout THEN MountArch ELSE Mount /\ dat = Nothing /\ nid = 1) /\ fh = Nothing /\ dh = Nothing /\ dirty = {} /\ ntr = 0 /\ res = Nothing /\ hist = <<>>
R(c) == hist' = Append(hist, c)
On(o) == o \in Ops
FreshH(h) == h \notin DOMAIN fh
Vs == DOMAIN views
MCNext ==
  \/ On("open") /\ \E v \in Vs, h \in Hs, p \in Paths, fl \in Flags : FreshH(h) /\ (\A g \in Hs : g < h => ~FreshH(g)) /\ (Single(v, P(p), fl) = TRUE) /\ Open(v, h, P(p), fl) /\ R([op |-> "open", v |-> v, h |-> h, p |-> P(p), fl |-> fl])
  \/ On("close") /\ \E h \in DOMAIN fh : Close(h) /\ R([op |-> "close", h |-> h])
  \/ On("read") /\ \E h \in DOMAIN fh, n \in Ns : Read(h, n) /\ R([op |-> "read", h |-> h, n |-> n])
  \/ On("write") /\ \E h \in DOMAIN fh, c \in Chunks : Write(h, C(c)) /\ R([op |-> "write", h |-> h, c |-> C(c)])
  \/ On("trunc") /\ \E h \in DOMAIN fh, n \in Ns : Truncate(h, n) /\ R([op |-> "trunc", h |-> h, n |-> n])
  \/ On("sync") /\ \E h \in DOMAIN fh : Sync(h) /\ R([op |-> "sync", h |-> h])
  \/ On("seek") /\ \E h \in DOMAIN fh, o \in Offs, org \in 1 .. 3, g \in {1, -1} : (g = 1 \/ (org = 2 /\ o > 0)) /\ Seek(h, o * g, org) /\ R([op |-> "seek", h |-> h, o |-> o * g, org |-> org])
  \/ On("stat") /\ \E v \in Vs, p \in Paths : Stat(v, P(p)) /\ R([op |-> "stat", v |-> v, p |-> P(p)])
  \/ On("del") /\ \E v \in Vs, p \in Paths : (Unused(v, P(p)) = TRUE) /\ Delete(v, P(p)) /\ R([op |-> "del", v |-> v, p |-> P(p)])
  \/ On("ren") /\ \E v \in Vs, p, q \in Paths : (Idle = TRUE) /\ Rename(v, P(p), P(q)) /\ R([op |-> "ren", v |-> v, p |-> P(p), q |-> P(q)])
  \/ On("mkdir") /\ \E v \in Vs, p \in Paths : MkDir(v, P(p)) /\ R([op |-> "mkdir", v |-> v, p |-> P(p)])
  \/ On("mkpath") /\ \E v \in Vs, p \in Paths : MkPath(v, P(p)) /\ R([op |-> "mkpath", v |-> v, p |-> P(p)])
  \/ On("mkfile") /\ \E v \in Vs, p \in Paths : FreshH(1) /\ OpenErr(v, P(p), 10) = 0 /\ PutAt(views[v].b, Place(v, P(p)), FALSE, <<>>) /\ R([op |-> "mkfile", v |-> v, p |-> P(p)])
  \/ On("setcwd") /\ \E v \in Vs, p \in Paths : SetCwd(v, P(p)) /\ R([op |-> "setcwd", v |-> v, p |-> P(p)])
  \/ On("ro") /\ \E v \in Vs, x \in {0, 1} : VfsCtrl(v, 46, x) /\ R([op |-> "vctl", v |-> v, cmd |-> 46, val |-> x])
  \/ On("opend") /\ \E v \in Vs, d \in Ds, p \in Paths : d \notin DOMAIN dh /\ OpenDir(v, d, P(p)) /\ R([op |-> "opend", v |-> v, d |-> d, p |-> P(p)])
  \/ On("rdd") /\ \E d \in DOMAIN dh : ReadDir(d) /\ R([op |-> "rdd", d |-> d])
  \/ On("find") /\ \E d \in DOMAIN dh, pt \in Pats : FindDir(d, C(pt)) /\ R([op |-> "find", d |-> d, pat |-> C(pt)])
  \/ On("rwd") /\ \E d \in DOMAIN dh : RewindDir(d) /\ R([op |-> "rwd", d |-> d])
  \/ On("closed") /\ \E d \in DOMAIN dh : CloseDir(d) /\ R([op |-> "closed", d |-> d])
  \/ On("copy") /\ \E v \in Vs, h \in DOMAIN fh, p \in Paths : fh[h].rd /\ fh[h].pos = 0 /\ Copy(v, P(p), h) /\ R([op |-> "copy", v |-> v, h |-> h, p |-> P(p)])
  \/ On("remount") /\ (Idle = TRUE) /\ FatMount("A", 0, 0, 0) /\ R([op |-> "remount"])
Spec == MCInit /\ [][MCNext]_<<fsvars, hist>>
\* file ids are arbitrary: only what they hold and who refers to them matters
Canon == [t |-> [b \in DOMAIN tree |-> [q \in DOMAIN tree[b] |-> IF tree[b][q] = 0 THEN 0 ELSE <<dat[tree[b][q]], {h \in DOMAIN fh : fh[h].id = tree[b][q]}>>]],
          f |-> [h \in DOMAIN fh |-> <<[fh[h] EXCEPT !.id = 0], dat[fh[h].id], {g \in DOMAIN fh : fh[g].id = fh[h].id}>>],
          d |-> dh, c |-> cwds, r |-> ro]
Bounded == /\ Len(hist) <= MaxLen /\ \A i \in DOMAIN dat : Len(dat[i]) <= MaxFile
           /\ \A b \in DOMAIN tree : Cardinality({q \in DOMAIN tree[b] : q # <<>>}) <= MaxBusy
           /\ \A h \in DOMAIN fh : fh[h].pos <= MaxFile
Gen == PrintT("GEN " \o ToJson(hist'))
Inv == TreeSound /\ HandlesSound /\ DirsSound /\ CwdNormal
Failed == "cls" \in DOMAIN res' /\ res'.cls = "err"
FailedChangesNothing == [][Failed => (tree' = tree /\ dat' = dat /\ cwds' = cwds)]_<<fsvars, hist>>
ReadOnlyFrame == [][\A b \in DOMAIN ro : ro[b] => tree'[b] = tree[b] /\ (\A i \in DOMAIN dat : dat'[i] = dat[i])]_<<fsvars, hist>>
OneFileAtATime == [][Cardinality({i \in DOMAIN dat : dat'[i] # dat[i]}) <= 1]_<<fsvars, hist>>
JailCwdsApart == [][\A k \in DOMAIN cwds : cwds'[k] # cwds[k] => (hist' # hist /\ hist'[Len(hist')].op = "setcwd" /\ views[hist'[Len(hist')].v].ck = k)]_<<fsvars, hist>>
=============================================================================
