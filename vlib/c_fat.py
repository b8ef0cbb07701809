"""E21: FAT volumes in image files.  Histories for specs/Fs.tla over the vendored FatFs library."""
from .core import *
from .fsgen import *
from .c_fs import ALL, FILES, TREE, DIRS, CWD, COPY, RO, BASE, INVS, A, NUM, SEQ, line

FATFLAGS = [1, 3, 2, 19, 35, 11, 10, 7, 5, 18, 34, 6]
BIG = 262144


class FatGen(Gen):
    """one writer per file, open files keep their names, names of files and directories differ"""
    def __init__(self, *a, long=False, **kw):
        super().__init__(*a, flags=FATFLAGS, pats=["*", "?", "??", "*1", "*2", "?[12]", "zz", "", "?[!1]", "*?"], **kw)
        self.long = long
        self.rov = set()

    def real(self, w): return w.base != "m"

    def comp(self, w, cls):
        r = self.rng
        cls = cls or r.choice("fd")
        n = cls + r.choice("12")
        if self.long and r.random() < .4: n = cls + r.choice(["long name with spaces 1", "2.text.more", "." + "x" * 60])
        if r.random() < .2: n = n.upper()
        if r.random() < .03: n = n[0] + r.choice('*?<>|"') + n[1:]
        return n

    def key(self, n): return n.lower()

    def spell(self, w, segs, mutator, last=True):
        r = self.rng
        text = list(segs)
        if r.random() < .3:
            i = r.randint(0, len(text) - (1 if mutator else 0))
            text[i:i] = r.choice([["."], ["d1", ".."], ["zz", ".."], [".."], ["..", ".."], [".", "."]])
        if mutator and text[-1] in (".", ".."): text.append(segs[-1])
        p = "".join((r.choice(["/", "/", "/", "//", "\\", "/./"]) if i else "") + t for i, t in enumerate(text))
        if r.random() < .55: p = r.choice(["/", "/", "//", "\\"]) + p
        if not w.lex and r.random() < .25: p = w.drive + ":" + p
        if w.lex and r.random() < .15: p = r.choice("01") + ":" + p
        if not mutator and r.random() < .04: p = r.choice(["/", ".", "..", "/.", "/.."])
        return H(p)

    def p(self, w, cls=None, mutator=False):
        cls = cls or self.rng.choice("fd")
        if not mutator and self.rng.random() < .06: return H("/") if w.lex or self.rng.random() < .5 else H(w.drive + ":/")
        return self.spell(w, self.segs(w, cls), mutator)

    def op_open(self, w):
        r = self.rng
        h = self.free_h()
        if h is None: return self.op_close(w)
        fl = r.choice(self.flags)
        segs = self.segs(w, "f"); n = segs[-1].lower()
        canw = fl & ~1 != 0
        for (b, m, wr) in self.h.values():
            if b == w.base and m == n and (wr or canw): return
        self.add(f"open {h} {w.view} {self.spell(w, segs, True)} {fl}")
        self.h[h] = (w.base, n, canw)
        self.last[h] = None; self.app[h] = bool(fl & 32); self.readable[h] = bool(fl & 1)

    def busy(self, w, n): return any(b == w.base and m == n.lower() for b, m, _ in self.h.values())

    def op_del(self, w):
        segs = self.segs(w, self.rng.choice("fd"))
        if self.busy(w, segs[-1]): return
        self.add(f"del {w.view} {self.spell(w, segs, True)}")

    def op_ren(self, w):
        if any(b == w.base for b, _, _ in self.h.values()): return
        c = self.rng.choice("fd")
        self.add(f"ren {w.view} {self.p(w, c, True)} {self.p(w, c, True)}")

    def op_mkfile(self, w):
        segs = self.segs(w, "f")
        if self.busy(w, segs[-1]): return
        self.add(f"open 9 {w.view} {self.spell(w, segs, True)} 10")
        self.add(f"write 9 {H(self.data())}"); self.add("close 9")

    def op_mkpath(self, w):
        if self.d: return
        segs = [self.comp(w, "d") for _ in range(self.rng.randint(1, 4))]
        self.add(f"{self.rng.choice(['mkpath', 'mkpathr'])} {w.view} {self.spell(w, segs, True)}")

    def op_setcwd(self, w): self.add(f"setcwd {w.view} {self.p(w, 'd')}")

    def op_getcwd(self, w): self.add(f"getcwd {w.view} {self.rng.choice([4, 5, 6, 8, 20, 256, 256])}")

    def op_ro(self, w):
        on = w.top not in self.rov
        self.rov ^= {w.top}
        self.add(f"vctl {w.view} 46 {int(on)}")

    def op_copy(self, w):
        h = self.some_h()
        if not h or not self.readable.get(h): return
        segs = self.segs(w, "f")
        if self.busy(w, segs[-1]): return
        self.add(f"seek {h} 0 1")
        self.add(f"copy {w.view} {self.spell(w, segs, True)} {h} {self.rng.choice([0, -1, -64, 1, 7, 64, 600, 1000])}")
        self.add(f"seek {h} 0 1")

    def op_seek(self, w):
        h = self.some_h()
        if not h: return
        r = self.rng; org = r.choice([1, 1, 2, 3])
        o = r.choice([0, 0, 1, 2, 5, 33, 511, 512, 513, 1500]) if org != 2 else r.choice([0, 1, -1, -3, 4, -600])
        self.add(f"seek {h} {o} {org}"); self.last[h] = None

    def op_trunc(self, w):
        h = self.some_h()
        if h: self.add(f"trunc {h} {self.rng.choice([0, 1, 2, 5, 40, 200, 512, 600, 3000, 0, 1, 600, -1, -600])}")

    def data(self):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 5, 16, 33, 100, 511, 512, 513, 700] + ([2048, 5000] if self.longn else []))
        return bytes(r.randrange(256) for _ in range(n))

    def op_dump(self, w): self.add(f"dump {w.base}")

    def op_remount(self, w):
        """the drive is emptied and filled again: the same files are there, the current directory is the root"""
        for h in sorted(self.h):
            if self.h[h][0] == w.base: self.add(f"close {h}"); del self.h[h]
        for d in sorted(self.d): self.add(f"closed {d}")
        self.d = {}
        if w.top in self.rov: self.add(f"vctl {w.view} 46 0"); self.rov.discard(w.top)
        self.add(f"fatumnt {w.drive}")
        r = self.rng
        if r.random() < .3:
            for _ in range(r.randint(1, 4)):
                self.add(r.choice([f"stat {w.top} {H('/f1')}", f"exd {w.top} {H('/d1')}", f"open 1 {w.top} {H('/f1')} {r.choice([1, 10, 19, 7])}", f"mkdir {w.top} {H('/d1')}",
                                   f"opend 1 {w.top} {H('/')}", f"del {w.top} {H('/f1')}", f"ren {w.top} {H('/f1')} {H('/f2')}", f"getcwd {w.top} 256", f"setcwd {w.top} {H('/')}"]))
        if w.spare and r.random() < .5:       # the other image has its turn
            self.add(f"fatmnt {w.spare} {w.drive} {w.paths[w.spare]}")
            self.add(f"dump {w.spare}")
            for x in self.ws:
                if x.drive == w.drive: x.base, x.spare = x.spare, x.base
        else: self.add(f"fatmnt {w.base} {w.drive} {w.paths[w.base]}")
        self.add(f"dump {w.base}")


def fw(view, base, lex, drive, top, paths, spare=None):
    w = World(view, base, lex, kind="fat")
    w.drive, w.top, w.paths, w.spare = str(drive), top, paths, spare
    return w


def fatstack(name, size=BIG):
    M = ["reg_mem m 1", "memmax 700000"]
    A, B = H("/img a"), H("/imgb")
    P = {"A": A, "B": B}
    up = lambda d, img: [f"fatmk {img} {d} {P[img]} {size}", f"fatmnt {img} {d} {P[img]}"]
    if name == "fat": return M + up(0, "A") + ["fatreg f 0 0"], [fw("f", "A", False, 0, "f", P)]
    if name == "fat early": return M + ["fatreg f 0 0"] + up(0, "A"), [fw("f", "A", False, 0, "f", P)]
    if name == "fat1": return M + up(1, "A") + ["fatreg f 1 0"], [fw("f", "A", False, 1, "f", P)]
    if name == "trace/fat": return M + up(0, "A") + ["fatreg f 0 0", "reg_trace t f 0"], [fw("t", "A", False, 0, "f", P)]
    if name == "jail/fat": return M + up(0, "A") + ["fatreg f 0 0", f"mkdir f {H('/d1')}", f"reg_jail j f {H('/d1')} 0"], [fw("f", "A", False, 0, "f", P), fw("j", "A", True, 0, "f", P), fw("j", "A", True, 0, "f", P)]
    if name == "jail/fat1": return M + up(1, "A") + ["fatreg f 1 0", f"mkdir f {H('/d1')}", f"reg_jail j f {H('1:/d1')} 0", "reg_trace t j 0"], [fw("f", "A", False, 1, "f", P), fw("t", "A", True, 1, "f", P)]
    if name == "two": return M + up(0, "A") + up(1, "B") + ["fatreg f 0 0", "fatreg g 1 0"], [fw("f", "A", False, 0, "f", P), fw("g", "B", False, 1, "g", P)]
    if name == "jail/two":
        return (M + up(0, "A") + up(1, "B") + ["fatreg f 0 0", "fatreg g 1 0", f"mkdir f {H('/d1')}", f"mkdir g {H('/d2')}", f"reg_jail j f {H('/d1')} 0", f"reg_jail k g {H('1:/d2')} 0"],
                [fw("f", "A", False, 0, "f", P), fw("j", "A", True, 0, "f", P), fw("g", "B", False, 1, "g", P), fw("k", "B", True, 1, "g", P)])
    if name == "swap": return M + up(0, "A") + [f"fatmk B 1 {B} {size}", "fatreg f 0 0"], [fw("f", "A", False, 0, "f", P, "B")]
    if name == "fat/stdio":
        P = {"A": S("/img"), "B": S("/img2")}
        return ["reg_stdio 1"] + [f"fatmk A 0 {P['A']} {size}", f"fatmnt A 0 {P['A']}", "fatreg f 0 0"], [fw("f", "A", False, 0, "f", P)]
    raise KeyError(name)


STACKS = ["fat", "fat early", "fat1", "trace/fat", "jail/fat", "jail/fat1", "jail/two", "two", "swap", "fat/stdio"]


def fathist(ctx, exe, stacks, weights, n, nops, tag, remount=.6, size=BIG, pre=(), **kw):
    scripts = []
    W = {k: v for k, v in weights.items() if k not in ("dots", "reports", "puts")}
    if remount: W["remount"] = remount
    for i in range(n):
        prelude, worlds = fatstack(stacks[i % len(stacks)], size)
        g = FatGen(ctx.rng, worlds, W, nops, **kw)
        s = g.run(list(prelude) + list(pre))
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Fs", tag=tag)
    return scripts


def full(ctx, exe, n):
    """a volume filled to the brim, emptied and filled again"""
    scripts = []
    for i in range(n):
        r = ctx.rng
        size = r.choice([131072, 150000, 200000])
        s, (w,) = fatstack(["fat", "fat1"][i % 2], size)
        s = list(s)
        s.append(f"mkdir f {H('/d1')}")
        names = ["/f%d" % k for k in range(1, 8)] + ["/d1/f%d" % k for k in range(1, 4)]
        for _ in range(3):
            for nm in r.sample(names, r.randint(3, len(names))):
                s.append(f"open 1 f {H(nm)} {r.choice([19, 3, 35, 18, 10])}")
                for _ in range(r.randint(1, 12)):
                    k = r.choice([1, 100, 512, 4096, 9000, 20000, 20000])
                    s.append(f"write 1 {H(bytes([r.randrange(256)]) * k)}")
                    if r.random() < .2: s.append("tell 1")
                s += ["size 1", "close 1"]
            s.append("dump A")
            if r.random() < .4: s += [f"mkdir f {H('/d%d' % k)}" for k in range(2, 5)]
            if r.random() < .5: s += [f"fatumnt {w.drive}", f"fatmnt A {w.drive} {w.paths['A']}", "dump A"]
            for nm in r.sample(names, r.randint(1, 6)): s.append(f"del f {H(nm)}")
            s.append("dump A")
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Fs", tag="full", batch_events=400)


def images(ctx, exe, n):
    """images of many sizes, made on either drive; making one again, mounting what is not there"""
    scripts = []
    for i in range(n):
        r = ctx.rng
        s = ["reg_mem m 1", "memmax 700000"]
        done = []
        for k in range(4):
            d = r.randint(0, 1); sz = r.choice([100, 20000, 65535, 66000, 100000, 131072, 131073, 200001, 300000, 600000])
            nm = "I%d" % k
            s.append(f"fatmk {nm} {d} {H('/' + nm)} {sz}")
            if r.random() < .3: s.append(f"fatmk {nm} {1 - d} {H('/' + nm)} {sz}")
            if sz >= 100000: done.append(nm)
            s.append(f"fatmnt none {d} {H('/none')}")
            s += [f"fatreg v {d} 0", f"stat v {H('/')}", f"open 1 v {H('/a')} 19", "unreg v"]
            if done:
                nm = r.choice(done)
                s += [f"fatmnt {nm} {d} {H('/' + nm)}", f"fatreg v {d} 0", f"exd v {H('/')}", f"stat v {H('/')}", f"open 1 v {H('/f%d' % k)} 19", f"write 1 {H(b'x' * r.choice([1, 600, 5000]))}", "close 1",
                      f"mkdir v {H('/D%d' % r.randint(1, 2))}", f"dump {nm}", f"stat v {H('/F%d' % k)}", "unreg v", f"fatumnt {d}"]
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Fs", tag="images")


LOOK = dict(open=8, close=3, read=9, seek=3, stat=8, opend=5, rdd=12, info=2, getcwd=1, dump=.5)
MUTATE = ["write", "close", "sync", "mkdir", "del", "ren", "trunc", "copy", "mkpath", "open", "stat", "read"]


def storage(ctx, exe, n):
    """the storage of the image fails below single calls"""
    arm = lambda r: f"fault {r.choice([1, 1, 2, 3, 4, 6])} {r.choice([1, 1, 2, 50])} {r.choice([1, 1, 2, 3])} {r.choice([-1, 64, 128, 512, 1024, 64 | 128 | 512 | 1024])}"
    scripts = []
    for i in range(n):
        r = ctx.rng
        pre, (w, *rest) = fatstack(["fat", "fat1", "trace/fat"][i % 3])
        W = {k: v for k, v in ALL.items() if k not in ("dots", "reports", "puts", "open", "write", "trunc")}
        s = FatGen(r, [w], W, 30).run(pre)
        if r.random() < .6:
            s += [f"fatumnt {w.drive}"]
            for _ in range(3): s += [arm(r), f"fatmnt A {w.drive} {w.paths['A']}", "nofault", f"exd {w.top} {H('/')}", f"fatumnt {w.drive}"]
            s += [arm(r), f"fatmk C {1 - int(w.drive)} {H('/c')} 131072", "nofault", f"fatmnt A {w.drive} {w.paths['A']}"]
        if i % 2:     # looking only
            g = FatGen(r, [w], LOOK, 40); g.flags = [1]
        else:
            g = FatGen(r, [w], dict(ALL, dump=3, write=10, sync=3), 40)
            g.w = {k: v for k, v in g.w.items() if k not in ("dots", "reports", "puts")}
        for c in g.run([]):
            k = c.split()[0]
            if k not in ("dump", "getcwd") and r.random() < (.3 if i % 2 else .12): s += [arm(r), c, "nofault"]
            else: s.append(c)
        s.append("dump A")
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Fs", tag="storage")


def model(ctx, exe, ops, label, limit, **kw):
    c = dict(BASE); c.update(kw); c["Layout"] = '"fat"'; c["Ops"] = A(*ops)
    hs = maximal(ctx.mc("MC_Fs", cfg(consts=c, invariants=INVS, properties=["FailedChangesNothing", "ReadOnlyFrame", "OneFileAtATime"], view="Canon", constraint="Bounded", action_constraint="Gen"), label=label))
    hs = sorted(hs, key=lambda g: json.dumps(g))
    if len(hs) > limit: hs = ctx.rng.sample(hs, limit)
    pre, (w,) = fatstack("fat", 131072)
    ctx.conform(exe, [replayed(pre, w, h) for h in hs], "Trace_Fs", tag="mc", batch_events=4000)


def replayed(pre, w, hist):
    s = list(pre); hs, ds = {}, {}
    for c in hist:
        o = c["op"]
        if o == "remount": s += ["fatumnt 0", f"fatmnt A 0 {w.paths['A']}"]
        else: s += line(c)
        if o == "open": hs[c["h"]] = 1
        if o == "close": hs.pop(c["h"], None)
        if o == "opend": ds[c["d"]] = 1
        if o == "closed": ds.pop(c["d"], None)
    for h in sorted(hs): s += [f"tell {h}", f"size {h}", f"eof {h}", f"seek {h} 0 1", f"read {h} 9", f"close {h}"]
    for d in sorted(ds): s += [f"rdd {d}"] * 3
    return s + ["getcwd f 256", "dump A"]


def e21(ctx):
    exe = ctx.build("base+fat")
    n = ctx.pick(1, 10)
    q = ctx.pick(0, 1)
    model(ctx, exe, ["open", "close", "read", "write", "trunc", "seek"], "FAT files", 2500 * (1 + 9 * q), Flags=NUM(*FATFLAGS), Ns=NUM(0, 2), Offs="{0, 1, 3}", Chunks=SEQ("x", "yz"), MaxLen=4 + q, MaxFile=4)
    model(ctx, exe, ["mkdir", "del", "ren", "mkfile", "setcwd", "remount", "stat"], "FAT names", 2500 * (1 + 9 * q), Paths=A("/", "a", "A", "ab", "aB", "b", "0:b", "rel", "up", "0:/a"), MaxLen=4 + q, MaxBusy=2 + q)
    model(ctx, exe, ["mkdir", "del", "ro", "mkpath", "open", "close", "write", "opend", "rdd", "remount"], "FAT mixed", 2000 * (1 + 9 * q), Paths=A("/", "a", "A", "ab", "0:b"), Flags=NUM(19, 1, 35), MaxLen=4 + q, MaxBusy=2)
    fathist(ctx, exe, STACKS, ALL, 90 * n, 80, "all")
    fathist(ctx, exe, STACKS, FILES, 60 * n, 90, "files", longn=True)
    fathist(ctx, exe, STACKS, TREE, 60 * n, 80, "tree")
    fathist(ctx, exe, STACKS, {k: v for k, v in TREE.items() if k not in ("opend", "rdd")}, 45 * n, 80, "names", long=True)
    fathist(ctx, exe, STACKS, DIRS, 45 * n, 70, "dirs")
    fathist(ctx, exe, STACKS, CWD, 60 * n, 80, "cwd")
    fathist(ctx, exe, STACKS, COPY, 45 * n, 60, "copy")
    fathist(ctx, exe, STACKS, RO, 45 * n, 80, "ro")
    storage(ctx, exe, 90 * n)
    images(ctx, exe, 24 * n)
    full(ctx, exe, 16 * n)
    return ctx.finish("model_checking", ["names are compared without regard to case; only ASCII names", "one writer per open file, open files are not removed or renamed, as FatFs requires",
                                         "bytes of a gap left by seeking past the end are unspecified", "a volume is not pulled while files are open on it"])


def run(ctx): return e21(ctx)
