"""Random histories of file system calls for the Fs specification (driver commands)."""
from .core import H, S

FLAGS = [1, 3, 2, 16, 19, 32, 35, 8, 11, 10, 7, 5, 18, 34]   # the documented combinations
ANYFLAGS = [f for f in range(1, 64) if f & 40 != 40]          # what appending to a file that must not exist means is not documented
SPELL = ["/", "/", "/", "/", "//", "\\", "/./"]


class World:
    """what the generator knows about one mounted stack"""
    def __init__(self, view, base, lex, abs_prefix=False, kind="mem"):
        self.view, self.base, self.lex, self.at, self.kind = view, base, lex, abs_prefix, kind


class Gen:
    def __init__(self, rng, worlds, weights, nops, flags=FLAGS, maxlen=400, names=None, depth=3, hs=4, ds=2, roview=True, pats=None, longn=False, clean=False):
        self.clean = clean     # absolute plain paths only, marked for substitution
        self.rng, self.ws, self.w, self.n = rng, worlds, weights, nops
        self.flags, self.maxlen, self.depth, self.hs, self.ds = flags, maxlen, depth, hs, ds
        self.h, self.d, self.s = {}, {}, []
        self.cwd = {w.view: [] for w in worlds}
        self.names = names or ["a", "b", "c", "ab"]
        self.ro = False
        self.pats = pats or ["*", "a*", "?", "*b", "[a-c]", "[!a]*", "*a*b", "f?", "d*", "zz", "", "[fd]1"]
        self.longn = longn

    # ---- paths
    def real(self, w): return w.base == "stdio"

    def comp(self, w, cls):
        r = self.rng
        if self.real(w) and cls: return cls + r.choice("12")
        return r.choice(self.names)

    def segs(self, w, cls, parentcls="d"):
        r = self.rng
        k = r.choice([0, 0, 0, 1, 1, 2][:3 + self.depth])
        out = [self.comp(w, parentcls) for _ in range(k)]
        return out + [self.comp(w, cls)]

    def spell(self, w, segs, mutator, last=True):
        """a spelling of the absolute or relative path segs"""
        r = self.rng
        if self.clean: return "P" + ("/" + "/".join(segs)).encode().hex()
        if r.random() < .45:   # relative to the current directory (the result may differ from segs: that is the point)
            text, absolute = list(segs), False
        else: text, absolute = list(segs), True
        if w.lex:
            if r.random() < .35:
                i = r.randint(0, len(text) - (1 if mutator and self.real(w) else 0))
                text[i:i] = r.choice([["."], ["a", ".."], ["zz", ".."], [".."], ["..", ".."], [".", "."]])
            sep = "".join
            p = ""
            for i, t in enumerate(text): p += (r.choice(SPELL) if i else "") + t
            if absolute: p = r.choice(["/", "/", "/", "//", "\\"]) + p
            named = mutator and self.real(w)     # a name of the kind asked for must come last
            if not named and r.random() < .08: p += r.choice(["/", "/.", "//"])
            if not named and r.random() < .02: p = r.choice(["", "/", ".", "..", "/..", "//", "\\", "./", "../.."])
            if not p: p = "."
            return H(p)
        # physical file system below: stay inside the scratch directory, no trailing separators
        if r.random() < .25:
            i = r.randint(0, len(text) - 1)
            text[i:i] = r.choice([["."], ["w", ".."], ["w", "w", "..", ".."], [".", "."], ["d1", ".."]])
        p = ""
        for i, t in enumerate(text): p += (r.choice(["/", "/", "//", "/./"]) if i else "") + t
        return S("/" + p) if absolute else H(p)

    # ---- calls
    def add(self, c): self.s.append(c)

    def free_h(self):
        f = [h for h in range(1, self.hs + 1) if h not in self.h]
        return self.rng.choice(f) if f else None

    def op_open(self, w):
        r = self.rng
        h = self.free_h()
        if h is None: return self.op_close(w)
        fl = r.choice(self.flags)
        if w.kind == "rotate":
            fl = r.choice([1, 1, 3]); name = r.choice(["p1", "p2"])
            segs = [name]
        else:
            segs = self.segs(w, "f")
        canw = fl & (2 | 8 | 16 | 32) != 0 or fl & 3 == 3
        if self.real(w):
            for (b, n, wr) in self.h.values():
                if b == w.base and n == segs[-1] and (wr or canw): return
        p = self.spell(w, segs, True) if w.kind != "rotate" else (S("/" + segs[0]) if w.at else H("/" + segs[0]))
        self.add(f"open {h} {w.view} {p} {fl}")
        self.h[h] = (w.base, segs[-1], canw)
        self.last = getattr(self, "last", {}); self.last[h] = None
        self.app = getattr(self, "app", {}); self.app[h] = bool(fl & 32)
        self.readable[h] = (fl & 3 == 3) or not (fl & (8 | 16 | 32) or fl & 2)

    def some_h(self, real=None):
        if not self.h: return None
        return self.rng.choice(sorted(self.h))

    def sw(self, h, kind):
        """a position call between reading and writing one stream"""
        if self.last.get(h) not in (None, kind) and self.h[h][0] == "stdio":
            self.add(f"seek {h} {self.rng.randint(0, 30)} 1" if self.app[h] else f"seek {h} 0 2")
        elif kind == "r" and self.app[h] and self.last.get(h) is None and self.h[h][0] == "stdio":
            self.add(f"seek {h} {self.rng.randint(0, 20)} 1")
        self.last[h] = kind

    def op_close(self, w):
        h = self.some_h()
        if h: self.add(f"close {h}"); del self.h[h]

    def data(self):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 16, 33, 64, 100]) if not self.longn else r.choice([1, 7, 100, 1000, 4000, 5000])
        return bytes(r.randrange(256) for _ in range(min(n, self.maxlen)))

    def op_read(self, w):
        h = self.some_h()
        if not h: return (self.op_opex if "opex" in self.w and "open" not in self.w else self.op_open)(w)
        self.sw(h, "r"); self.add(f"read {h} {self.rng.choice([0, 1, 2, 3, 7, 20, 64, 500])}")

    def op_write(self, w):
        h = self.some_h()
        if not h: return (self.op_opex if "opex" in self.w and "open" not in self.w else self.op_open)(w)
        self.sw(h, "w"); self.add(f"write {h} {H(self.data())}")

    def op_puts(self, w):
        h = self.some_h()
        if not h: return
        self.sw(h, "w")
        t = "".join(self.rng.choice("ab %ds\n") for _ in range(self.rng.choice([1, 3, 20, 70, 300])))
        self.add(f"puts {h} {H(t)}" if self.rng.random() < .5 else f"printf {h} {H(t)} {self.rng.randint(-10**6, 10**6)}")

    def op_trunc(self, w):
        h = self.some_h()
        if h: self.add(f"trunc {h} {self.rng.choice([0, 1, 2, 5, 10, 40, 200, 0, 1, 2, 5, 10, 40, 200, -1, -40])}"); self.last[h] = "t"

    def op_sync(self, w):
        h = self.some_h()
        if h: self.add(f"sync {h}")

    def op_seek(self, w):
        h = self.some_h()
        if not h: return
        org = self.rng.choice([1, 1, 2, 3])
        o = self.rng.choice([0, 0, 1, 2, 5, 10, 33, 100]) if org != 2 else self.rng.choice([0, 1, -1, -3, 4, -20, 20])
        if org == 2 and self.app[h] and self.h[h][0] == "stdio": org, o = 1, abs(o)
        if self.rng.random() < .03 and org == 3: o = -self.rng.randint(1, 4)
        if self.rng.random() < .05 and w.kind == "arch" and self.h[h][0] == w.base: o = self.rng.choice([2147483647, 2147480000]) * (-1 if org == 3 else 1)
        self.add(f"seek {h} {o} {org}"); self.last[h] = None

    def op_info(self, w):
        h = self.some_h()
        if h: self.add(f"{self.rng.choice(['size', 'tell', 'eof', 'tell', 'eof'])} {h}")

    def p(self, w, cls=None, mutator=False):
        cls = cls or self.rng.choice("fd")
        if w.kind == "rotate" and not mutator and self.rng.random() < .4:
            return S("/p1") if w.at else H("/p1")
        if not mutator and self.rng.random() < .06: return "P2f" if self.clean else (S("/") if w.at else H("/"))
        return self.spell(w, self.segs(w, cls), mutator)

    def op_stat(self, w): self.add(f"{self.rng.choice(['stat', 'stat', 'exf', 'exd'])} {w.view} {self.p(w)}")

    def op_del(self, w):
        self.add(f"del {w.view} {self.p(w, mutator=True)}")

    def op_ren(self, w):
        if self.real(w) and any(b == "stdio" for b, _, _ in self.h.values()): return
        c = self.rng.choice("fd")
        self.add(f"ren {w.view} {self.p(w, c, True)} {self.p(w, c, True)}")

    def op_mkdir(self, w): self.add(f"mkdir {w.view} {self.p(w, 'd', True)}")

    def op_mkpath(self, w):
        segs = [self.comp(w, "d") for _ in range(self.rng.randint(1, 4))]
        self.add(f"{self.rng.choice(['mkpath', 'mkpathr'])} {w.view} {self.spell(w, segs, True)}")

    def op_mkfile(self, w):
        if w.kind == "rotate": return
        self.add(f"open 9 {w.view} {self.spell(w, self.segs(w, 'f'), True)} 10")
        self.add(f"write 9 {H(self.data())}"); self.add("close 9")

    def op_opex(self, w):        # a file known to exist under a name nothing else uses
        h = self.free_h()
        if h is None: return self.op_close(w)
        fl = self.rng.choice(self.flags)
        self.add(f"open {h} {w.view} {H(self.rng.choice(['/keep1', '/keep2', '//keep1', '/a/../keep2']))} {fl}")
        if fl & 8: return
        self.h[h] = (w.base, "keep", True); self.last[h] = None; self.app[h] = bool(fl & 32); self.readable[h] = False

    def op_setcwd(self, w):
        if w.lex:
            self.add(f"setcwd {w.view} {self.p(w, 'd')}")
        else:
            t = self.rng.choice(["/w", "/w/w", "/", "/nodir", "/w/no"])
            self.add(f"setcwd {w.view} {S(t)}")

    def op_getcwd(self, w): self.add(f"getcwd {w.view} {self.rng.choice([1, 2, 3, 5, 8, 20, 256, 256]) if w.lex or w.view == 'stdio' else 700}")

    def op_ro(self, w):
        if self.real(w):
            for h, (b, _, wr) in sorted(self.h.items()):
                if b == "stdio" and wr: self.add(f"sync {h}")
        self.ro = not self.ro
        self.add(f"vctl {w.view} 46 {int(self.ro)}")

    def op_dots(self, w): self.add(f"vctl {w.view} 50 {self.rng.choice([0, 1])}")

    def op_fields(self, w): self.add(f"vctl {w.view} {self.rng.choice([53, 57])} {self.rng.choice([0, 99])}")     # what the answers hold

    def op_trim(self, w):
        h = self.some_h()
        if h and self.h[h][2]: self.add(f"trim {h} {self.rng.choice([0, 1, 31, 32, 33, 40, 64, 70, 100, 500, -1])}")

    def op_ctl(self, w):      # control commands of the layer below, and unknown ones
        h, r = self.some_h(), self.rng.random()
        if h and r < .4: self.add(f"fctl {h} {self.rng.choice([999, 5, 41])}")
        elif r < .8: self.add(f"rotcfg {w.view} {self.rng.choice([2, 3, 4, 5, 1])} {self.rng.choice([32, 40, 64, 31])}")
        else: self.add(f"vctl {w.view} {self.rng.choice([999, 5, 41])} {self.rng.choice([0, 1])}")

    def op_opend(self, w):
        f = [d for d in range(1, self.ds + 1) if d not in self.d]
        if not f: return self.op_rdd(w)
        d = self.rng.choice(f); self.d[d] = w.view
        r = self.rng.random()
        p = ("P2f" if self.clean else S("/") if w.at else H("/")) if r < .3 else self.p(w, "d")
        self.add(f"opend {d} {w.view} {p}")

    def op_rdd(self, w):
        if not self.d: return self.op_opend(w)
        d = self.rng.choice(sorted(self.d)); r = self.rng.random()
        if r < .35: self.add(f"rdd {d}")
        elif r < .5: self.s += [f"rdd {d}"] * 6
        elif r < .75: self.add(f"find {d} {H(self.rng.choice(self.pats))}")
        elif r < .9: self.add(f"rwd {d}")
        else: self.add(f"closed {d}"); del self.d[d]

    def op_copy(self, w):
        if w.kind == "rotate": return
        h = self.some_h()
        if not h: return
        segs = self.segs(w, "f")
        if self.real(w) and any(n == segs[-1] for b, n, wr in self.h.values()): return
        if not self.readable.get(h): return
        self.add(f"seek {h} 0 1"); self.last[h] = "r"
        self.add(f"copy {w.view} {self.spell(w, segs, True)} {h} {self.rng.choice([0, -1, -64, -100, 1, 2, 7, 64, 100, 1000])}")
        self.add(f"seek {h} 0 1"); self.last[h] = None

    def op_reports(self, w): self.add("reports")

    def op_dump(self, w): self.add(f"dump {w.base}")

    def run(self, prelude):
        self.s = list(prelude); self.last = {}; self.app = {}; self.readable = {}
        ops = sorted(self.w)
        for _ in range(self.n):
            w = self.rng.choice(self.ws)
            o = self.rng.choices(ops, [self.w[k] for k in ops])[0]
            getattr(self, "op_" + o)(w)
        for h in sorted(self.h): self.add(f"close {h}")
        for b in sorted({w.base for w in self.ws}): self.add(f"dump {b}")
        return self.s


# ---- stacks of file systems: (prelude, worlds)
def stack(name):
    m = World("m", "m", True)
    st = World("stdio", "stdio", False, True)
    W = [f"hput {S('/w')} 1 x", f"hput {S('/w/w')} 1 x"]
    P = [f"hput {S('/p1')} 0 {H('plain one')}", f"hput {S('/p2')} 0 {H('P2' * 30)}"]
    PM = [f"mput m {H('/p1')} 0 {H('plain one')}", f"mput m {H('/p2')} 0 {H('P2' * 30)}"]
    if name == "mem": return ["reg_mem m 1"], [m]
    if name == "stdio": return ["reg_stdio 1"] + W, [st]
    if name == "trace/mem": return ["reg_mem m 1", "reg_trace t m 0"], [World("t", "m", True)]
    if name == "trace/stdio": return ["reg_stdio 1", "reg_trace t stdio 0"] + W, [World("t", "stdio", False, True)]
    if name == "jail/mem": return ["reg_mem m 1", f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0"], [m, World("j", "m", True, kind="jail"), World("j", "m", True, kind="jail")]
    if name == "jail2/mem": return ["reg_mem m 1", f"mput m {H('/a')} 1 x", f"mput m {H('/a/b')} 1 x", f"reg_jail j m {H('//a/./')} 0", f"reg_jail k j {H('zz/../b')} 0"], [World("j", "m", True, kind="jail"), World("k", "m", True, kind="jail")]
    if name == "jail/stdio": return ["reg_stdio 1"] + W + [f"hput {S('/d1')} 1 x", f"reg_jail j stdio {S('/d1')} 0"], [st, World("j", "stdio", True, kind="jail"), World("j", "stdio", True, kind="jail")]
    if name == "rjail/stdio": return ["reg_stdio 1"] + W + [f"setcwd stdio {S('/w')}", f"reg_jail j stdio {H('w')} 0", f"setcwd stdio {S('/')}"], [st, World("j", "stdio", True, kind="jail")]
    if name == "trace/jail/mem": return ["reg_mem m 1", f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0", "reg_trace t j 0"], [m, World("t", "m", True, kind="jail")]
    if name == "jail/trace/mem": return ["reg_mem m 1", f"mput m {H('/a')} 1 x", "reg_trace t m 0", f"reg_jail j t {H('/a')} 0"], [World("t", "m", True), World("j", "m", True, kind="jail")]
    if name == "two": return ["reg_mem m 1", "reg_mem n 0", f"mput m {H('/a')} 1 x", f"mput n {H('/b')} 1 x", f"mput n {H('/b/c')} 1 x", f"reg_jail j m {H('/a')} 0", f"reg_jail k m {H('/a')} 0", f"reg_jail l n {H('/b')} 0"], [m, World("n", "n", True), World("j", "m", True, kind="jail"), World("k", "m", True, kind="jail"), World("l", "n", True, kind="jail")]
    if name == "mem+stdio": return ["reg_mem m 1", "reg_stdio 0"] + W + [f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0"], [m, st, World("j", "m", True, kind="jail")]
    if name == "jaillong/mem":
        a, b = "R" * 100, "S" * 90
        return ["reg_mem m 1", f"mput m {H('/' + a)} 1 x", f"mput m {H('/' + a + '/' + b)} 1 x", f"reg_jail j m {H('/' + a)} 0", f"reg_jail k m {H('/' + a + '/' + b)} 0", f"reg_jail l j {H(b)} 0"], [World("j", "m", True, kind="jail"), World("k", "m", True, kind="jail"), World("l", "m", True, kind="jail")]
    if name == "rotate/mem": return ["reg_mem m 1"] + PM + ["reg_rotate r m 8 64 0"], [World("r", "m", True, kind="rotate"), World("r", "m", True, kind="rotate")]
    if name == "rotate/stdio": return ["reg_stdio 1"] + W + P + ["reg_rotate r stdio 8 64 0"], [World("r", "stdio", False, True, kind="rotate")]
    if name == "rotate/jail/mem": return ["reg_mem m 1", f"mput m {H('/a')} 1 x", f"mput m {H('/a/p1')} 0 {H('plain one')}", f"mput m {H('/a/p2')} 0 {H('P2' * 30)}", f"reg_jail j m {H('/a')} 0", "reg_trace t j 0", "reg_rotate r t 8 64 0"], [m, World("r", "m", True, kind="rotate")]
    raise KeyError(name)


MEMSTACKS = ["mem", "trace/mem", "jail/mem", "jail2/mem", "trace/jail/mem", "jail/trace/mem"]
STDSTACKS = ["stdio", "trace/stdio", "jail/stdio", "rjail/stdio"]
ROTSTACKS = ["rotate/mem", "rotate/stdio", "rotate/jail/mem"]
