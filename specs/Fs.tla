--------------------------------- MODULE Fs ---------------------------------
(* A file system as seen through the public calls of evfs: a tree of names, the    *)
(* contents behind them, open files with a position, open directories, a current   *)
(* directory per instance, a read-only switch, and stacked views (jail, trace,      *)
(* rotate, archives) of one tree.                                                   *)
(*   tree[b]   path (sequence of components) -> 0 for a directory, else a file id   *)
(*   dat[id]   contents; survives removal of the name while a handle is open        *)
(*   views[v]  [b tree, pre root of the view in it, ck key of its current directory, *)
(*              lex paths resolved lexically, tr a trace layer in the stack, kind]   *)
(*   flav[b]   "mem" (exact error codes known), "stdio", "fat", "tar", "romfs"      *)
(*   a FAT volume: b is the image mounted on drive vol of the view, names are kept  *)
(*   folded to lower case, the current directory belongs to the drive               *)
(*   dirty     ids with data still buffered in an stdio stream                      *)
(* Every action sets res, the observable outcome.  Keys of res: cls, ret, and what   *)
(* the call returns; le: the return value is at most this; isd: type says directory. *)
EXTENDS PathOps, Glob, TLC, FiniteSetsExt
VARIABLES tree, dat, nid, views, flav, cwds, ro, nodots, fh, dh, dirty, ntr, res
fsvars == <<tree, dat, nid, views, flav, cwds, ro, nodots, fh, dh, dirty, ntr, res>>
Nothing == [x \in {} |-> 0]
FsInit == /\ tree = Nothing /\ dat = Nothing /\ nid = 1 /\ views = Nothing /\ flav = Nothing /\ cwds = Nothing
          /\ ro = Nothing /\ nodots = Nothing /\ fh = Nothing /\ dh = Nothing /\ dirty = {} /\ ntr = 0 /\ res = Nothing
FsReset == /\ tree' = Nothing /\ dat' = Nothing /\ nid' = 1 /\ views' = Nothing /\ flav' = Nothing /\ cwds' = Nothing
           /\ ro' = Nothing /\ nodots' = Nothing /\ fh' = Nothing /\ dh' = Nothing /\ dirty' = {} /\ ntr' = 0 /\ res' = Nothing

Has(fl, bit) == (fl \div bit) % 2 = 1
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
OK == [cls |-> "ok", ret |-> 0]
Err(b, code) == IF flav[b] = "mem" THEN [cls |-> "err", ret |-> code] ELSE [cls |-> "err"]
NullArg == [cls |-> "err", ret |-> -12]
FREEPOS == -1
ANY == -1                                    \* a byte of a file that may have any value
Fat(b) == flav[b] = "fat"
Fold(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
FatBad(c) == \E i \in DOMAIN c : c[i] \in {34, 42, 58, 60, 62, 63, 124, 127}    \* not in names of a FAT volume
VolKey(d) == IF d = 0 THEN "drive 0" ELSE "drive 1"
Arch(b) == flav[b] \in {"tar", "romfs"}      \* a mounted archive: nothing in it ever changes

(* ---------------- names ---------------- *)
Parent(q) == Sub(q, 1, Len(q) - 1)
Below(q, r) == Len(r) >= Len(q) /\ Sub(r, 1, Len(q)) = q
IsDir(b, q) == q \in DOMAIN tree[b] /\ tree[b][q] = 0
IsFile(b, q) == q \in DOMAIN tree[b] /\ tree[b][q] # 0
KidPaths(t, q) == {r \in DOMAIN t : Len(r) = Len(q) + 1 /\ Below(q, r)}
Kids(t, q) == {[n |-> r[Len(r)], d |-> t[r] = 0] : r \in KidPaths(t, q)}
Lost == << <<0>>, <<0>> >>               \* a place that does not exist and whose parent does not
Parts(p, drv) == Comps(p, RootLen(p, drv) + 1, <<>>)       \* a drive alone does not make a path absolute
Drv(v) == flav[views[v].b] = "fat"
RECURSIVE Phys(_, _, _, _)
Phys(t, cs, i, cur) ==
  IF i > Len(cs) THEN cur
  ELSE IF ~(cur \in DOMAIN t /\ t[cur] = 0) THEN Lost
  ELSE IF cs[i] = <<DOT>> THEN Phys(t, cs, i + 1, cur)
  ELSE IF cs[i] = <<DOT, DOT>> THEN Phys(t, cs, i + 1, Parent(cur))
  ELSE Phys(t, cs, i + 1, Append(cur, cs[i]))
Shown(b, s) == IF Fat(b) THEN [fname |-> s] ELSE [name |-> s]
Start(v, abs) == IF abs THEN <<>> ELSE cwds[views[v].ck]
LexSegs(v, p) == Walk(Parts(p, Drv(v)), 1, Start(v, IsAbs(p, Drv(v))), TRUE)
PlaceOf(t, v, cs0, abs) == LET w == views[v]  cs == IF Fat(w.b) THEN [i \in DOMAIN cs0 |-> Fold(cs0[i])] ELSE cs0 IN
  LET q == IF w.lex THEN w.pre \o Walk(cs, 1, Start(v, abs), TRUE) ELSE Phys(t, cs, 1, Start(v, abs)) IN
  IF Fat(w.b) /\ (\E i \in DOMAIN q : FatBad(q[i])) THEN Lost ELSE q
Place(v, p) == PlaceOf(tree[views[v].b], v, Parts(p, Drv(v)), IsAbs(p, Drv(v)))
NoName(b, q) == IF IsDir(b, Parent(q)) THEN -6 ELSE -8
CwdText(v) == LET s == cwds[views[v].ck] IN views[v].drv \o <<SLASH>> \o Joined(s)

(* open directories follow the tree: entries that come or go while one is open may   *)
(* or may not be reported                                                            *)
FollowDir(x, b, t2) ==
  IF x.b # b THEN x
  ELSE IF x.p \notin DOMAIN t2 THEN [x EXCEPT !.stale = TRUE]
  ELSE LET old == Kids(tree[b], x.p)  new == Kids(t2, x.p) IN
       [x EXCEPT !.must = @ \ (old \ new), !.may = (@ \cup (x.must \cap (old \ new))) \cup (new \ old)]
SetTree(b, t2) == tree' = [tree EXCEPT ![b] = t2] /\ dh' = [d \in DOMAIN dh |-> FollowDir(dh[d], b, t2)]
Count(v) == ntr' = ntr + (IF views[v].tr THEN 1 ELSE 0)
CountH(h) == ntr' = ntr + (IF h \in DOMAIN fh /\ views[fh[h].v].tr THEN 1 ELSE 0)
CountD(d) == ntr' = ntr + (IF d \in DOMAIN dh /\ views[dh[d].v].tr THEN 1 ELSE 0)
Nochange == UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, fh, dh, dirty>>
Answer(r) == res' = r /\ Nochange

(* ---------------- mounting ---------------- *)
View(b, pre, ck, lex, tr, kind, rl) == [b |-> b, pre |-> pre, ck |-> ck, lex |-> lex, tr |-> tr, kind |-> kind, rl |-> rl,
                                        drv |-> <<>>, vol |-> -1, cs |-> 0, tot |-> 0]
RegBase(v, kind) ==          \* a file system that holds a tree itself
  LET fl == IF kind = "tarmem" THEN "tar" ELSE IF kind = "rommem" THEN "romfs" ELSE kind  arch == fl \in {"tar", "romfs"} IN
  /\ IF v \in DOMAIN tree THEN UNCHANGED <<tree, flav, ro, nodots>>
     ELSE /\ tree' = (v :> (<<>> :> 0)) @@ tree /\ flav' = (v :> fl) @@ flav
          /\ ro' = (v :> arch) @@ ro /\ nodots' = (v :> FALSE) @@ nodots
  /\ views' = (v :> View(v, <<>>, v, kind # "stdio", FALSE, kind, 0)) @@ views
  /\ cwds' = IF v \in DOMAIN cwds THEN cwds ELSE (v :> <<>>) @@ cwds
  /\ res' = OK /\ UNCHANGED <<dat, nid, fh, dh, dirty, ntr>>
RegLayer(v, kind, base) ==   \* trace and rotate: the same tree, the same current directory
  LET w == views[base] IN
  /\ views' = (v :> [w EXCEPT !.tr = @ \/ kind = "trace", !.kind = kind]) @@ views
  /\ res' = OK /\ UNCHANGED <<tree, dat, nid, flav, cwds, ro, nodots, fh, dh, dirty, ntr>>
RegJail(v, base, root) ==
  LET w == views[base]  s == LexSegs(base, root) IN
  /\ views' = (v :> [View(w.b, w.pre \o (IF Fat(w.b) THEN [i \in DOMAIN s |-> Fold(s[i])] ELSE s), v, TRUE, w.tr, "jail", w.rl + Len(Joined(s)) + 1 + Len(w.drv))
                     EXCEPT !.vol = w.vol, !.cs = w.cs, !.tot = w.tot]) @@ views
  /\ cwds' = (v :> <<>>) @@ cwds
  /\ res' = OK /\ UNCHANGED <<tree, dat, nid, flav, ro, nodots, fh, dh, dirty, ntr>>
Unreg(v) == /\ v \in DOMAIN views /\ views' = Drop(views, v)
            /\ res' = OK /\ UNCHANGED <<tree, dat, nid, flav, cwds, ro, nodots, fh, dh, dirty, ntr>>
(* FAT volumes: images are made and mounted on drives; a drive with nothing on it refuses every path *)
NoVolume == "nothing"
HasVolume == NoVolume \in DOMAIN tree
Volume(i, t) == /\ tree' = (i :> t) @@ tree /\ flav' = (i :> "fat") @@ flav /\ ro' = (i :> FALSE) @@ ro /\ nodots' = (i :> TRUE) @@ nodots
RegFat(v, d, i, cs, tot) ==
  LET b == IF i = "" THEN NoVolume ELSE i IN
  /\ views' = (v :> [View(b, <<>>, VolKey(d), FALSE, FALSE, "fat", 0) EXCEPT !.drv = <<48 + d, COLON>>, !.vol = d, !.cs = cs, !.tot = tot]) @@ views
  /\ IF i = "" THEN Volume(NoVolume, Nothing) ELSE UNCHANGED <<tree, flav, ro, nodots>>
  /\ cwds' = IF VolKey(d) \in DOMAIN cwds THEN cwds ELSE (VolKey(d) :> <<>>) @@ cwds
  /\ res' = OK /\ UNCHANGED <<dat, nid, fh, dh, dirty, ntr>>
FatMake(i, n, made) ==       \* an image that is there already is not made again
  IF i \in DOMAIN tree THEN Answer([cls |-> "err"]) /\ UNCHANGED ntr
  ELSE \/ made /\ Volume(i, (<<>> :> 0)) /\ res' = OK /\ UNCHANGED <<dat, nid, views, cwds, fh, dh, dirty, ntr>>
       \/ ~made /\ n < 100000 /\ Answer([cls |-> "err"]) /\ UNCHANGED ntr
Switch(d, b, cs, tot) == views' = [v \in DOMAIN views |-> IF views[v].vol = d THEN [views[v] EXCEPT !.b = b, !.cs = cs, !.tot = tot] ELSE views[v]]
FatMount(i, d, cs, tot) ==
  IF i \notin DOMAIN tree THEN Answer([cls |-> "err"]) /\ UNCHANGED ntr
  ELSE /\ Switch(d, i, cs, tot) /\ cwds' = (VolKey(d) :> <<>>) @@ cwds /\ res' = OK
       /\ UNCHANGED <<tree, dat, nid, flav, ro, nodots, fh, dh, dirty, ntr>>
FatUnmount(d) == /\ Switch(d, NoVolume, 0, 0) /\ Volume(NoVolume, Nothing) /\ res' = Nothing
                 /\ UNCHANGED <<dat, nid, cwds, fh, dh, dirty, ntr>>
\* there may not be room for this many bytes more
Up(n, cs) == ((n + cs - 1) \div cs) * cs
Crowded(v, extra) == LET w == views[v] IN
  w.tot > 0 /\ MapThenSumSet(LAMBDA q : IF tree[w.b][q] = 0 THEN 3 * w.cs ELSE Up(Len(dat[tree[w.b][q]]), w.cs), DOMAIN tree[w.b]) + Up(extra, w.cs) + 2 * w.cs >= w.tot
VolCwd(v) == IF views[v].vol < 0 THEN <<>> ELSE cwds[VolKey(views[v].vol)]
PutAt(v, q, dir, c) ==       \* content placed below, not through the library
  /\ SetTree(v, (q :> (IF dir THEN 0 ELSE nid)) @@ tree[v])
  /\ dat' = IF dir THEN dat ELSE (nid :> c) @@ dat
  /\ nid' = nid + 1 /\ res' = Nothing /\ UNCHANGED <<views, flav, cwds, ro, nodots, fh, dirty, ntr>>
Put(v, p, dir, c) == PutAt(v, Walk(Components(p, FALSE), 1, <<>>, TRUE), dir, c)

(* ---------------- opening ---------------- *)
Mode(fl) == IF Has(fl, 32) THEN "a" ELSE IF Has(fl, 16) \/ Has(fl, 8) \/ (Has(fl, 2) /\ ~Has(fl, 1)) THEN "w" ELSE "r"
Plus(fl) == Has(fl, 1) /\ Has(fl, 2)
CanRd(fl) == Mode(fl) = "r" \/ Plus(fl)
CanWr(fl) == Mode(fl) # "r" \/ Plus(fl)
Creates(fl) == Mode(fl) # "r" \/ Has(fl, 4)
Empties(b, fl) == IF Fat(b) THEN Has(fl, 16) ELSE Mode(fl) = "w"       \* on FAT writing alone does not empty or make a file
Makes(b, fl) == IF Fat(b) THEN Has(fl, 4) \/ Has(fl, 8) \/ Has(fl, 16) \/ Has(fl, 32) ELSE Creates(fl)
Handle(v, b, id, fl, n) ==
  [v |-> v, b |-> b, id |-> id, rd |-> CanRd(fl), wr |-> CanWr(fl), ap |-> Mode(fl) = "a",
   pos |-> IF Mode(fl) # "a" THEN 0 ELSE IF flav[b] = "stdio" THEN FREEPOS ELSE n, eof |-> "f"]
OpenErr(v, p, fl) ==         \* the error code, 0 when the file opens
  LET b == views[v].b  q == Place(v, p) IN
  IF ro[b] /\ (CanWr(fl) \/ Has(fl, 4)) THEN -19
  ELSE IF IsDir(b, q) THEN -9
  ELSE IF IsFile(b, q) THEN (IF Has(fl, 8) THEN -7 ELSE 0)
  ELSE IF ~IsDir(b, Parent(q)) THEN -8
  ELSE IF Makes(b, fl) THEN 0 ELSE -6
OpenX(v, h, p, fl, refused) ==   \* refused: for want of room
  LET b == views[v].b  q == Place(v, p)  e == OpenErr(v, p, fl) IN
  /\ Count(v)
  /\ IF e # 0 THEN /\ res' = [null |-> 1] @@ Err(b, e) /\ fh' = Drop(fh, h)
                   /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, dh, dirty>>
     ELSE IF refused THEN /\ Fat(b) /\ ~IsFile(b, q) /\ Crowded(v, 1) /\ res' = [null |-> 1] @@ Err(b, -13) /\ fh' = Drop(fh, h)
                   /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, dh, dirty>>
     ELSE /\ res' = [null |-> 0] @@ OK
          /\ UNCHANGED <<views, flav, cwds, ro, nodots, dirty>>
          /\ IF IsFile(b, q)
             THEN LET id == tree[b][q] IN
                  /\ dat' = IF Empties(b, fl) THEN [dat EXCEPT ![id] = <<>>] ELSE dat
                  /\ fh' = (h :> Handle(v, b, id, fl, Len(dat[id]))) @@ fh
                  /\ UNCHANGED <<tree, nid, dh>>
             ELSE /\ SetTree(b, (q :> nid) @@ tree[b]) /\ dat' = (nid :> <<>>) @@ dat /\ nid' = nid + 1
                  /\ fh' = (h :> Handle(v, b, nid, fl, 0)) @@ fh
Open(v, h, p, fl) == OpenX(v, h, p, fl, FALSE)

(* ---------------- open files ---------------- *)
Overlay(d, pos, c) == IF c = <<>> THEN d
  ELSE IF pos <= Len(d) THEN Sub(d, 1, pos) \o c \o From(d, pos + Len(c) + 1)
  ELSE d \o [i \in 1 .. pos - Len(d) |-> 0] \o c
Grown(d, n) == d \o [i \in 1 .. n - Len(d) |-> ANY]
Resize(d, n) == IF n <= Len(d) THEN Sub(d, 1, n) ELSE d \o [i \in 1 .. n - Len(d) |-> 0]
FileFrame == UNCHANGED <<tree, nid, views, flav, cwds, ro, nodots, dh>>
NoHandle(h) == h \notin DOMAIN fh
OnlyHandle == UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, dh>>
Buffered(f) == flav[f.b] \in {"stdio", "fat"}      \* the directory entry on a FAT volume is brought up to date later
Settles(f) == IF Fat(f.b) THEN dirty ELSE dirty \ {f.id}

Close(h) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE res' = OK /\ fh' = Drop(fh, h) /\ dirty' = dirty \ {fh[h].id} /\ OnlyHandle
Read(h, n) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE LET f == fh[h]  c == Sub(dat[f.id], f.pos + 1, IF f.pos + n < Len(dat[f.id]) THEN f.pos + n ELSE Len(dat[f.id])) IN
       IF ~f.rd THEN Answer(IF flav[f.b] = "mem" THEN Err(f.b, -1) ELSE [le |-> 0])
       ELSE IF f.pos = FREEPOS THEN Answer(Nothing)
       ELSE /\ res' = [cls |-> "ok", ret |-> Len(c), c |-> c]
            /\ fh' = [fh EXCEPT ![h].pos = f.pos + Len(c), ![h].eof = IF n = 0 THEN "any" ELSE IF Len(c) < n THEN "t" ELSE IF f.eof = "t" THEN "any" ELSE "f"]
            /\ UNCHANGED dirty /\ OnlyHandle
WriteShort(h, c, k) ==       \* no room for all of it
  LET f == fh[h]  d == Sub(c, 1, k) IN
  /\ CountH(h) /\ Fat(f.b) /\ f.wr /\ ~ro[f.b] /\ Crowded(f.v, Len(c))
  /\ res' = [cls |-> "ok", ret |-> k]
  /\ dat' = [dat EXCEPT ![f.id] = Overlay(@, IF f.ap THEN Len(dat[f.id]) ELSE f.pos, d)]
  /\ fh' = [fh EXCEPT ![h].pos = (IF f.ap THEN Len(dat[f.id]) ELSE f.pos) + k]
  /\ dirty' = dirty \cup {f.id} /\ FileFrame
Write(h, c) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE LET f == fh[h]  at == IF f.ap THEN Len(dat[f.id]) ELSE f.pos IN
       IF ~f.wr THEN Answer(IF flav[f.b] = "mem" THEN Err(f.b, -1) ELSE IF Arch(f.b) /\ c # <<>> THEN Err(f.b, -2) ELSE [le |-> 0])
       ELSE IF ro[f.b] THEN Answer(Err(f.b, -19))
       ELSE /\ res' = [cls |-> "ok", ret |-> Len(c)]
            /\ dat' = [dat EXCEPT ![f.id] = Overlay(@, at, c)]
            /\ fh' = [fh EXCEPT ![h].pos = IF f.ap /\ c = <<>> THEN f.pos ELSE at + Len(c), ![h].eof = "any"]
            /\ dirty' = IF Buffered(f) /\ c # <<>> THEN dirty \cup {f.id} ELSE dirty
            /\ FileFrame
Truncate(h, n) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE LET f == fh[h] IN
       IF ~f.wr THEN Answer(Err(f.b, -12))
       ELSE IF ro[f.b] /\ n < 0 THEN Answer([cls |-> "err"])      \* two reasons to refuse
       ELSE IF ro[f.b] THEN Answer(Err(f.b, -19))
       ELSE IF n < 0 THEN Answer(Err(f.b, -12))      \* there is no such length
       ELSE IF flav[f.b] = "fat" /\ n > Len(dat[f.id]) THEN
            /\ \/ res' = [cls |-> "err"] /\ UNCHANGED dat
               \/ res' = OK /\ (UNCHANGED dat \/ dat' = [dat EXCEPT ![f.id] = Grown(@, n)])
            /\ dirty' = dirty \cup {f.id} /\ UNCHANGED fh /\ FileFrame
       ELSE IF Fat(f.b) THEN  \* the position may stay behind the new end or be moved to it
            /\ res' = OK /\ dat' = [dat EXCEPT ![f.id] = Resize(@, n)] /\ dirty' = dirty \cup {f.id}
            /\ \E u \in {f.pos, IF f.pos > n THEN n ELSE f.pos} : fh' = [fh EXCEPT ![h].pos = u]
            /\ FileFrame
       ELSE /\ res' = OK /\ dat' = [dat EXCEPT ![f.id] = Resize(@, n)]
            /\ fh' = [fh EXCEPT ![h].eof = "any"] /\ dirty' = dirty \ {f.id} /\ FileFrame
Sync(h) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg) ELSE res' = OK /\ dirty' = dirty \ {fh[h].id} /\ UNCHANGED fh /\ OnlyHandle
Size(h) == CountH(h) /\ IF NoHandle(h) THEN Answer([le |-> -1])
           ELSE res' = [ret |-> Len(dat[fh[h].id])] /\ dirty' = Settles(fh[h]) /\ UNCHANGED fh /\ OnlyHandle
HUGE == 1000000000
Seek(h, o, org) ==
  /\ CountH(h)
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE LET f == fh[h]  n == Len(dat[f.id])
              far == IF org = 3 THEN o < -HUGE ELSE o > HUGE
              t == IF far THEN HUGE ELSE IF org = 1 THEN o ELSE IF org = 2 THEN f.pos + o ELSE n - o IN
       IF org = 2 /\ f.pos = FREEPOS THEN Answer(Nothing)
       ELSE IF far                                        \* nowhere near the file, whatever it is counted from
            THEN \/ res' = [cls |-> "err"] /\ UNCHANGED <<fh, dirty>> /\ OnlyHandle
                 \/ res' = OK /\ fh' = [fh EXCEPT ![h].pos = n] /\ UNCHANGED dirty /\ OnlyHandle
       ELSE IF t < 0 /\ flav[f.b] = "stdio" THEN res' = [cls |-> "err"] /\ fh' = [fh EXCEPT ![h].eof = "any"] /\ dirty' = dirty \ {f.id} /\ OnlyHandle
       ELSE IF t > n /\ Fat(f.b) /\ f.wr /\ ~ro[f.b]     \* a file open for writing grows
            THEN /\ res' = OK /\ fh' = [fh EXCEPT ![h].pos = t] /\ dat' = [dat EXCEPT ![f.id] = Grown(@, t)]
                 /\ dirty' = dirty \cup {f.id} /\ FileFrame
       ELSE IF t > n /\ Fat(f.b)
            THEN res' = OK /\ fh' = [fh EXCEPT ![h].pos = n] /\ UNCHANGED dirty /\ OnlyHandle
       ELSE IF t > n /\ Arch(f.b)
            THEN \/ res' = [cls |-> "err"] /\ UNCHANGED <<fh, dirty>> /\ OnlyHandle
                 \/ \E u \in {n, t} : res' = OK /\ fh' = [fh EXCEPT ![h].pos = u] /\ UNCHANGED dirty /\ OnlyHandle
       ELSE IF t < 0 /\ flav[f.b] # "mem"
            THEN \/ res' = [cls |-> "err"] /\ UNCHANGED <<fh, dirty>> /\ OnlyHandle
                 \/ res' = OK /\ fh' = [fh EXCEPT ![h].pos = 0] /\ UNCHANGED dirty /\ OnlyHandle
       ELSE /\ res' = OK /\ fh' = [fh EXCEPT ![h].pos = IF t < 0 THEN 0 ELSE t, ![h].eof = "f"]
            /\ dirty' = Settles(f) /\ OnlyHandle
Tell(h) == CountH(h) /\ Answer(IF NoHandle(h) THEN [le |-> -1] ELSE IF fh[h].pos = FREEPOS THEN Nothing ELSE [ret |-> fh[h].pos])
Eof(h) == CountH(h) /\ Answer(IF NoHandle(h) THEN Nothing
            ELSE LET f == fh[h] IN
              IF flav[f.b] = "stdio" THEN (IF f.eof = "any" THEN Nothing ELSE [ret |-> IF f.eof = "t" THEN 1 ELSE 0])
              ELSE [ret |-> IF f.pos >= Len(dat[f.id]) THEN 1 ELSE 0])

(* ---------------- names and metadata ---------------- *)
Stat(v, p) == LET b == views[v].b  q == Place(v, p) IN
  Count(v) /\ Answer(IF IsDir(b, q) THEN [isd |-> TRUE] @@ (IF flav[b] = "mem" THEN [size |-> 0] ELSE Nothing) @@ OK
                     ELSE IF IsFile(b, q) THEN [isd |-> FALSE] @@ (IF tree[b][q] \in dirty THEN Nothing ELSE [size |-> Len(dat[tree[b][q]])]) @@ OK
                     ELSE Err(b, NoName(b, q)))
ExFile(v, p) == Count(v) /\ Answer([ret |-> IF IsFile(views[v].b, Place(v, p)) THEN 1 ELSE 0])
ExDir(v, p) == Count(v) /\ Answer([ret |-> IF IsDir(views[v].b, Place(v, p)) THEN 1 ELSE 0])
TreeOnly == UNCHANGED <<dat, nid, views, flav, cwds, ro, nodots, fh, dirty>>

DeleteErr(b, q) ==
  IF ro[b] THEN -19 ELSE IF q = <<>> THEN -1
  ELSE IF Fat(b) /\ (\E v \in DOMAIN views : views[v].b = b /\ q = VolCwd(v)) THEN -16      \* in use
  ELSE IF q \notin DOMAIN tree[b] THEN NoName(b, q)
  ELSE IF KidPaths(tree[b], q) # {} THEN -10 ELSE 0
\* FatFs takes no name that ends in a dot component
Dotted(v, p) == LET cs == Parts(p, Drv(v)) IN Drv(v) /\ ~views[v].lex /\ cs # <<>> /\ cs[Len(cs)] \in {<<DOT>>, <<DOT, DOT>>}
Delete(v, p) ==
  LET b == views[v].b  q == Place(v, p)  e == IF Dotted(v, p) THEN -17 ELSE DeleteErr(b, q) IN
  /\ Count(v)
  /\ IF e # 0 THEN Answer(Err(b, e))
     ELSE res' = OK /\ SetTree(b, Drop(tree[b], q)) /\ TreeOnly

RenameErr(b, q, r) ==
  LET t == tree[b] IN
  IF ro[b] THEN -19 ELSE IF q = <<>> \/ q \notin DOMAIN t THEN -6
  ELSE IF r = <<>> THEN -7
  ELSE IF q = r THEN 0
  ELSE IF Below(q, r) THEN -12
  ELSE IF ~IsDir(b, Parent(r)) THEN -8
  ELSE IF r \in DOMAIN t THEN
    (IF flav[b] = "fat" THEN -7
     ELSE IF t[q] # 0 /\ t[r] # 0 THEN 0
     ELSE IF flav[b] = "stdio" /\ t[q] = 0 /\ t[r] = 0 /\ KidPaths(t, r) = {} THEN 0 ELSE -7)
  ELSE 0
Moved(t, q, r) ==            \* everything at or below q appears at r instead
  LET keep == {x \in DOMAIN t : ~Below(q, x) /\ x # r}
      to == {r \o From(x, Len(q) + 1) : x \in {y \in DOMAIN t : Below(q, y)}} IN
  [x \in keep \cup to |-> IF x \in to THEN t[q \o From(x, Len(r) + 1)] ELSE t[x]]
Rename(v, p, p2) ==
  LET b == views[v].b  q == Place(v, p)  r == Place(v, p2)  e == IF Dotted(v, p) \/ Dotted(v, p2) THEN -17 ELSE RenameErr(b, q, r) IN
  /\ Count(v)
  /\ IF e # 0 THEN Answer(Err(b, e))
     ELSE IF q = r /\ Fat(b)          \* a change of case, perhaps: the entry may have moved
          THEN /\ res' = OK /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, fh, dirty>>
               /\ dh' = [d \in DOMAIN dh |-> LET x == dh[d]  es == {y \in Kids(tree[b], x.p) : x.p \o <<y.n>> = q} IN
                                            IF x.b # b \/ x.stale THEN x ELSE [x EXCEPT !.must = @ \ es, !.may = @ \cup es]]
     ELSE IF q = r THEN Answer(OK)
     ELSE /\ res' = OK /\ SetTree(b, Moved(tree[b], q, r)) /\ UNCHANGED <<dat, nid, views, flav, ro, nodots, fh, dirty>>
          \* the current directory of a drive goes where the directory goes
          /\ cwds' = IF views[v].vol >= 0 /\ Below(q, VolCwd(v)) THEN [cwds EXCEPT ![VolKey(views[v].vol)] = r \o From(@, Len(q) + 1)] ELSE cwds

MkDirErr(b, q) == IF ro[b] THEN -19 ELSE IF q \in DOMAIN tree[b] THEN -7 ELSE IF ~IsDir(b, Parent(q)) THEN -8 ELSE 0
MkDirX(v, p, refused) ==
  LET b == views[v].b  q == Place(v, p)  e == MkDirErr(b, q) IN
  /\ Count(v)
  /\ IF e # 0 THEN Answer(Err(b, e))
     ELSE IF refused THEN Fat(b) /\ Crowded(v, 1) /\ Answer(Err(b, -13))
     ELSE res' = OK /\ SetTree(b, (q :> 0) @@ tree[b]) /\ TreeOnly
MkDir(v, p) == MkDirX(v, p, FALSE)
\* every leading part of a path, in order: made if missing, refused if it is a file
RECURSIVE MkWalk(_, _, _, _, _, _)
MkWalk(v, cs, abs, n, i, t) ==
  IF i > n THEN [t |-> t, e |-> 0]
  ELSE LET q == PlaceOf(t, v, Sub(cs, 1, i), abs)  b == views[v].b IN
       IF q \in DOMAIN t THEN (IF t[q] = 0 THEN MkWalk(v, cs, abs, n, i + 1, t) ELSE [t |-> t, e |-> -8])
       ELSE IF ~(Parent(q) \in DOMAIN t /\ t[Parent(q)] = 0) THEN [t |-> t, e |-> -8]
       ELSE IF ro[b] THEN [t |-> t, e |-> -19]
       ELSE MkWalk(v, cs, abs, n, i + 1, (q :> 0) @@ t)
MkUpTo(v, p, n) == MkWalk(v, Parts(p, Drv(v)), IsAbs(p, Drv(v)), n, 1, tree[views[v].b])
MkPath(v, p) ==
  LET b == views[v].b  m == MkUpTo(v, p, Len(Parts(p, Drv(v)))) IN
  /\ ntr' = ntr
  /\ IF Arch(b) /\ (m.e = 0 \/ IsDir(b, Place(v, p))) THEN Answer(Nothing)    \* nothing to make: either answer will do
     ELSE res' = (IF m.e = 0 THEN OK ELSE Err(b, m.e)) /\ SetTree(b, m.t) /\ TreeOnly

SetCwd(v, p) ==
  LET w == views[v]  q == Place(v, p) IN
  /\ Count(v)
  /\ IF IsDir(w.b, q)
     THEN /\ res' = OK /\ cwds' = [cwds EXCEPT ![w.ck] = From(q, Len(w.pre) + 1)]
          /\ UNCHANGED <<tree, dat, nid, views, flav, ro, nodots, fh, dh, dirty>>
     ELSE Answer(IF w.ck = w.b THEN Err(w.b, IF IsFile(w.b, q) THEN -8 ELSE -6) ELSE [cls |-> "err"])
GetCwd(v, n, short) ==       \* short: how much of the text does not count against the room given
  LET t == CwdText(v) IN      \* a jail keeps its own, so what is below it is not asked
  ntr' = ntr + (IF views[v].kind = "trace" THEN 1 ELSE 0) /\ Answer(IF views[v].pre # <<>> /\ Drv(v)     \* a drive named in a path given to a jail is kept in the text and means nothing
             THEN (IF Len(t) + 3 <= n THEN [jp |-> t, term |-> 1, guard |-> 1] @@ OK ELSE IF Len(t) + 1 <= n THEN [guard |-> 1] ELSE [cls |-> "err", guard |-> 1])
             ELSE IF views[v].kind # "jail" /\ views[v].b = NoVolume THEN [cls |-> "err", guard |-> 1]
             ELSE IF Len(t) - short + 1 <= n THEN (IF Fat(views[v].b) THEN [fp |-> t, term |-> 1, guard |-> 1] ELSE [p |-> t, term |-> 1, guard |-> 1]) @@ OK ELSE [cls |-> "err", guard |-> 1])
(* What a file system says its answers hold (name 1, size 2, time 4, kind 8), and what it answers with. *)
StatFields(f) == CASE f = "stdio" -> 14 [] f = "tar" -> 10 [] f = "romfs" -> 10 [] f = "fat" -> 11
DirFields(f) == CASE f = "stdio" -> 9 [] f = "tar" -> 0 [] f = "romfs" -> 11 [] f = "fat" -> 15
Declares(f) == f \in {"stdio", "tar", "romfs", "fat"}
HasTime(n) == (n \div 4) % 2 = 1
VfsCtrl(v, cmd, val) ==
  LET b == views[v].b  on == val # 0 IN
  /\ Count(v)
  /\ IF flav[b] \in {"mem", "stdio", "fat"} /\ cmd = 46 THEN /\ res' = OK /\ ro' = [ro EXCEPT ![b] = on]
                           /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, nodots, fh, dh, dirty>>
     ELSE IF cmd = 50 THEN /\ res' = (IF flav[b] \in {"mem", "stdio", "romfs"} THEN OK ELSE Nothing)
                           /\ nodots' = [nodots EXCEPT ![b] = on \/ Fat(b)]
                           /\ dh' = [d \in DOMAIN dh |-> IF dh[d].b = b THEN [dh[d] EXCEPT !.nd = @ /\ on] ELSE dh[d]]
                           /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, fh, dirty>>
     ELSE IF cmd = 53 /\ Declares(flav[b]) THEN Answer([out |-> StatFields(flav[b])] @@ OK)
     ELSE IF cmd = 57 /\ Declares(flav[b]) THEN Answer([out |-> DirFields(flav[b])] @@ OK)
     ELSE Answer(Nothing)

(* ---------------- directories ---------------- *)
Fresh(v, b, q) == [v |-> v, b |-> b, p |-> q, must |-> Kids(tree[b], q), may |-> {}, dots |-> {}, stale |-> FALSE, nd |-> nodots[b]]
OpenDir(v, d, p) ==
  LET b == views[v].b  q == Place(v, p) IN
  /\ Count(v)
  /\ IF IsDir(b, q) /\ flav[b] # "tar" THEN res' = [null |-> 0] @@ OK /\ dh' = (d :> Fresh(v, b, q)) @@ dh
     ELSE res' = [null |-> 1] @@ Err(b, IF IsFile(b, q) THEN -8 ELSE -6) /\ dh' = Drop(dh, d)
  /\ UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, fh, dirty>>
DirOnly == UNCHANGED <<tree, dat, nid, views, flav, cwds, ro, nodots, fh, dirty>>
EntrySize(x, e) == IF (flav[x.b] = "mem" \/ (flav[x.b] = "romfs" /\ ~e.d) \/ (Fat(x.b) /\ ~e.d /\ Append(x.p, e.n) \in DOMAIN tree[x.b] /\ tree[x.b][Append(x.p, e.n)] \notin dirty)) /\ ~x.stale /\ Append(x.p, e.n) \in DOMAIN tree[x.b] /\ e.d = IsDir(x.b, Append(x.p, e.n))
                   THEN [size |-> IF e.d THEN 0 ELSE Len(dat[tree[x.b][Append(x.p, e.n)]])] ELSE Nothing
\* one step of iteration restricted to the entries sel() admits; those passed over are consumed
NextEntry(d, Sel(_)) ==
  IF d \notin DOMAIN dh THEN Answer(NullArg)
  ELSE LET x == dh[d]  dotset == IF nodots[x.b] /\ (x.nd \/ ~Arch(x.b)) THEN {} ELSE {<<DOT>>, <<DOT, DOT>>} \ x.dots IN
    IF x.stale THEN Answer(Nothing)
    ELSE \/ \E e \in {y \in x.must \cup x.may : Sel(y.n)} :
              /\ res' = Shown(x.b, e.n) @@ [isd |-> e.d] @@ EntrySize(x, e) @@ OK
              /\ dh' = [dh EXCEPT ![d].must = {y \in x.must : Sel(y.n)} \ {e}, ![d].may = (@ \cup {y \in x.must : ~Sel(y.n)}) \ {e}]
              /\ DirOnly
         \/ \E s \in {y \in dotset : Sel(y)} :
              /\ res' = [name |-> s, isd |-> TRUE] @@ OK
              /\ dh' = [dh EXCEPT ![d].dots = @ \cup {s}, ![d].must = {y \in x.must : Sel(y.n)}, ![d].may = @ \cup {y \in x.must : ~Sel(y.n)}]
              /\ DirOnly
         \/ /\ {y \in x.must : Sel(y.n)} = {}
            /\ res' = [cls |-> "done", ret |-> 1]
            /\ dh' = [dh EXCEPT ![d].must = {}, ![d].may = {}, ![d].dots = {<<DOT>>, <<DOT, DOT>>}]
            /\ DirOnly
ReadDir(d) == CountD(d) /\ NextEntry(d, LAMBDA n : TRUE)
FindDir(d, pat) == CountD(d) /\ NextEntry(d, LAMBDA n : Match(pat, n))
RewindDir(d) ==
  /\ CountD(d)
  /\ IF d \notin DOMAIN dh THEN Answer(NullArg)
     ELSE res' = OK /\ dh' = [dh EXCEPT ![d] = IF @.stale THEN @ ELSE Fresh(@.v, @.b, @.p)] /\ DirOnly
CloseDir(d) == CountD(d) /\ IF d \notin DOMAIN dh THEN Answer(NullArg) ELSE res' = OK /\ dh' = Drop(dh, d) /\ DirOnly

(* ---------------- copying: from an open, readable, rewound file to a new name ---------------- *)
Copy(v, p, h) ==
  LET b == views[v].b  q == Place(v, p)  e == OpenErr(v, p, 10) IN
  /\ ntr' = ntr
  /\ IF NoHandle(h) THEN Answer(NullArg)
     ELSE IF e # 0 THEN Answer(Err(b, e))
     ELSE LET f == fh[h]  n == Len(dat[f.id]) IN
          /\ f.rd /\ f.pos = 0
          /\ res' = OK
          /\ SetTree(b, (q :> nid) @@ tree[b]) /\ dat' = (nid :> dat[f.id]) @@ dat /\ nid' = nid + 1
          /\ fh' = [fh EXCEPT ![h].pos = n, ![h].eof = IF n = 0 THEN @ ELSE "any"]
          /\ dirty' = dirty \ {f.id}
          /\ UNCHANGED <<views, flav, cwds, ro, nodots>>
Reports(n) == n >= ntr /\ ntr' = 0 /\ res' = Nothing /\ Nochange

CEq(c, want) == Len(c) = Len(want) /\ (c = want \/ \A i \in DOMAIN c : want[i] = ANY \/ want[i] = c[i])
(* ---------------- the whole tree as found below ---------------- *)
TreeIs(b, T) ==              \* T: set of [p, d, c]
  LET At(e) == IF Fat(b) THEN [i \in DOMAIN e.p |-> Fold(e.p[i])] ELSE e.p IN
  /\ {At(e) : e \in T} = DOMAIN tree[b] \ {<<>>}
  /\ \A e \in T : (e.d = (tree[b][At(e)] = 0)) /\ (e.d \/ tree[b][At(e)] \in dirty \/ CEq(e.c, dat[tree[b][At(e)]]))

(* ---------------- what must always hold of the specification itself ---------------- *)
TreeSound == \A b \in DOMAIN tree : /\ IsDir(b, <<>>)
                                    /\ \A q \in DOMAIN tree[b] : q # <<>> => IsDir(b, Parent(q))
                                    /\ \A q \in DOMAIN tree[b] : tree[b][q] # 0 => tree[b][q] \in DOMAIN dat
HandlesSound == \A h \in DOMAIN fh : fh[h].id \in DOMAIN dat /\ (fh[h].rd \/ fh[h].wr)
DirsSound == \A d \in DOMAIN dh : dh[d].stale \/ (dh[d].must \subseteq Kids(tree[dh[d].b], dh[d].p) /\ dh[d].must \cap dh[d].may = {})
CwdNormal == \A k \in DOMAIN cwds : \A i \in DOMAIN cwds[k] : cwds[k][i] \notin {<<DOT>>, <<DOT, DOT>>, <<>>}
=============================================================================
