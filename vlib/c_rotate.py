"""Rotating logs: E08 E09 E10 E11, decided with specs/RotateLog.tla and specs/RotateChunks.tla."""
import struct
from .core import *
from . import c_fs
from .fsgen import *


def rset(*x): return "{" + ", ".join(map(str, x)) + "}"
def sset(*x): return "{" + ", ".join('"%s"' % y for y in x) + "}"


PROPS = ["AppendKeepsNewest", "OverwriteKeepsSize", "CutIsPrefix", "TrimIsSuffix", "OthersKeep", "Progress"]
TC = {"Buffered": "FALSE", "HalfMade": "FALSE"}
TB = {"Buffered": "TRUE", "HalfMade": "FALSE"}


def data(r, n): return bytes(r.randrange(256) for _ in range(n))


# ---- stacks: (prelude builder, name of the view the log is used through, path prefix function, base to dump)
def stack_cmds(name, mc, cs):
    R = lambda b, v="r": f"reg_rotate {v} {b} {mc} {cs} 0"
    return {
        "mem": (["reg_mem m 0", R("m")], "r", H, "m"),
        "membuf": (["reg_mem m 0", "membuf m 1", R("m")], "r", H, "m"),
        "stdio": (["reg_stdio 0", R("stdio")], "r", S, "stdio"),
        "rot/jail": (["reg_mem m 0", f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0", R("j")], "r", H, "m"),
        "jail/rot": (["reg_mem m 0", f"mput m {H('/a')} 1 x", R("m"), f"reg_jail j r {H('/a')} 0"], "j", H, "m"),
        "trace/rot": (["reg_mem m 0", R("m"), "reg_trace t r 0"], "t", H, "m"),
        "rot/trace": (["reg_mem m 0", "reg_trace t m 0", R("t")], "r", H, "m"),
        "rot/jail/stdio": (["reg_stdio 0", f"hput {S('/a')} 1 x", f"reg_jail j stdio {S('/a')} 0", R("j")], "r", H, "stdio"),
    }[name]


MEMS = ["mem", "membuf", "rot/jail", "jail/rot", "trace/rot", "rot/trace"]
STDS = ["stdio", "rot/jail/stdio"]


def tail(v, P, base, p="/log", h=1, opened=True, again=True):
    """everything observable at the end of a history"""
    s = []
    if opened: s += [f"tell {h}", f"size {h}", f"eof {h}", f"seek {h} 0 1", f"read {h} 4000", f"eof {h}", f"close {h}"]
    s += [f"dump {base}", f"open {h} {v} {P(p)} 1", f"size {h}", f"read {h} 4000", f"close {h}"]
    if again: s += [f"open {h} {v} {P(p)} 35", f"write {h} {H(b'tail-of-the-log-' * 3)}", f"seek {h} 0 1", f"read {h} 4000", f"close {h}", f"dump {base}",
                    f"open {h} {v} {P(p)} 1", f"read {h} 4000", f"close {h}"]
    return s


def model(ctx, label, mc=2, cs=32, **kw):
    c = dict(Mc=mc, Cs=cs, Writes=rset(1, cs, cs + 1), Reads=rset(1), Seeks=sset("s0"), Cuts=rset(), Trims=rset(), Flags=rset(35), MaxOps=6)
    c.update(kw)
    g = ctx.mc("MC_Rotate", cfg(consts=c, invariants=["Inv", "PartialSound"], properties=PROPS, view="View", constraint="Bounded", action_constraint="Gen"), label=label)
    return [(mc, cs, x[1:]) for x in maximal(g) if len(x) > 1]


def body(r, hist, v, P):
    s, live = [], False
    for c in hist:
        o = c["op"]
        if o == "open": s.append(f"open 1 {v} {P('/log')} {c['fl']}"); live = c["fl"] != 1 or any(x["op"] == "open" and x["fl"] != 1 for x in hist)
        elif o == "close": s.append("close 1")
        elif o == "write": s.append(f"write 1 {H(data(r, c['n']))}")
        elif o in ("read", "trunc", "trim"): s.append(f"{o} 1 {c['n']}")
        elif o == "seek": s.append(f"seek 1 {c['o']} {c['g']}")
    return s


def is_open(hist):
    st = False
    for c in hist:
        if c["op"] == "open": st = True      # refused opens leave nothing open; the trailing calls are answered by the spec either way
        if c["op"] == "close": st = False
    return st


def replay(ctx, exe, stacks, hists, limit, tag):
    hists = sorted(hists, key=lambda g: json.dumps(g))
    if len(hists) > limit: hists = ctx.rng.sample(hists, limit)
    for sk in stacks:
        scripts = []
        for mc, cs, h in hists:
            pre, v, P, base = stack_cmds(sk, mc, cs)
            scripts.append(pre + body(ctx.rng, h, v, P) + tail(v, P, base, opened=is_open(h)))
        ctx.conform(exe, scripts, "Trace_Rotate", TB if sk == "membuf" else TC, tag=tag)


# ---- random histories
class RGen:
    """one log, tracking its approximate length so that sizes and positions fall around the borders"""
    def __init__(self, r, v, P, base, mc, cs, w, name="/log"):
        self.r, self.v, self.P, self.base, self.mc, self.cs, self.w, self.name = r, v, P, base, mc, cs, w, name
        self.n, self.open, self.fl, self.pos, self.s = 0, False, 0, 0, []
        self.exists = False

    def add(self, c): self.s.append(c)
    cap = property(lambda s: s.mc * s.cs)

    def size(self):
        r = self.r
        c = [1, 2, 3, self.cs - 1, self.cs, self.cs + 1, self.cs - self.n % self.cs, self.cs - self.n % self.cs + 1, max(1, self.cap - self.n), max(1, self.cap - self.n + 1),
             r.randint(1, self.cs), r.randint(1, 2 * self.cs)]
        if r.random() < .15: c = [self.cap, self.cap + 1, self.cap - 1, 2 * self.cap + 3, self.cap + self.cs, 0]
        return r.choice(c)

    def grow(self, k):
        if self.fl & 32: p = self.n
        else: p = self.pos
        e = p + k
        while e > self.cap: e -= self.cs
        self.n = max(self.n, e) if p + k <= self.cap else max(e, self.cap - self.cs + 1)
        if not self.fl & 32: self.pos = e

    def step(self):
        r = self.r
        if not self.open:
            fl = r.choice([35, 35, 35, 3, 3, 1, 32, 34, 7, 11, 2] + ([19, 16, 10] if r.random() < .3 else []))
            if not self.exists and fl == 1 and r.random() < .8: fl = 35
            self.add(f"open 1 {self.v} {self.P(self.name)} {fl}")
            if (self.exists and fl & 8) or (not self.exists and fl == 1): return
            self.open, self.fl, self.pos, self.exists = True, fl, 0, True
            if fl & 16: self.n = 0
            return
        o = r.choices(list(self.w), list(self.w.values()))[0]
        rd, wr = bool(self.fl & 1), self.fl != 1
        if o == "write":
            k = self.size(); self.add(f"write 1 {H(data(r, k))}")
            if wr: self.grow(k)
        elif o == "puts": self.add(f"puts 1 {H(bytes(r.randint(32, 126) for _ in range(self.size())))}"); self.open and wr and self.grow(1)
        elif o == "read":
            if not rd: return
            k = r.choice([1, 2, self.cs - 1, self.cs, self.cs + 1, self.cap, self.cap + 9, self.n - self.pos if self.n > self.pos else 1, r.randint(0, self.cap)])
            self.add(f"read 1 {k}"); self.pos = min(self.n, self.pos + k)
        elif o == "seek":
            org = r.choice([1, 1, 1, 2, 3, 3])
            if org == 1: off = r.choice([0, 1, self.cs - 1, self.cs, self.cs + 1, self.n, max(0, self.n - 1), self.n + 1, self.cap, r.randint(0, self.cap), self.n // self.cs * self.cs])
            elif org == 2: off = r.choice([0, 1, -1, self.cs, -self.cs, self.n - self.pos, -self.pos, -self.pos - 3, r.randint(-self.cap, self.cap)])
            else: off = r.choice([0, 1, self.cs, self.n, max(0, self.n - 1), self.n + 2, r.randint(0, self.cap)])
            if r.random() < .04: off = r.choice([2147483647, 2147483000]) * (-1 if org == 3 else 1)
            self.add(f"seek 1 {off} {org}")
            t = max(0, off if org == 1 else self.pos + off if org == 2 else self.n - off)
            if t <= self.n: self.pos = t
        elif o == "trunc":
            k = r.choice([0, 1, self.cs - 1, self.cs, self.cs + 1, max(0, self.n - 1), self.n, self.n + 1, max(0, self.n - self.cs), self.n // self.cs * self.cs, r.randint(0, self.cap), -1, -self.n, -r.randint(1, self.cap)])
            self.add(f"trunc 1 {k}")
            if wr and k >= 0: self.n = min(self.n, k); self.pos = min(self.pos, self.n)
        elif o == "trim":
            if not wr: return
            k = r.choice([0, 1, self.cs - 1, self.cs, self.cs + 1, 2 * self.cs, self.n, max(0, self.n - 1), self.n + 1, self.cap, 99999, r.randint(0, self.cap), -self.cs, -1, -r.randint(1, 2 * self.cap)])
            self.add(f"trim 1 {k}")
            d = min(self.n, max(0, k) // self.cs * self.cs)
            self.n -= d; self.pos = max(0, self.pos - d)
        elif o == "info": self.add(f"{r.choice(['tell', 'size', 'eof'])} 1")
        elif o == "sync": self.add("sync 1")
        elif o == "dump":                            # stdio keeps unflushed data of an open file to itself
            if not (self.open and self.base == "stdio"): self.add(f"dump {self.base}")
        elif o == "fctl": self.add(f"fctl 1 {r.choice([1, 44, 999])}")
        elif o == "close": self.add("close 1"); self.open = False
        elif o == "stat": self.add(f"{r.choice(['stat', 'opend 1'])} {self.v} {self.P(self.name)}")
        elif o == "readback": self.s += ["seek 1 0 1", f"read 1 {self.cap + 5}"] if rd else []; self.pos = self.n if rd else self.pos

    def run(self, n):
        for _ in range(n): self.step()
        return self.s


WAPP = dict(write=12, puts=1, readback=5, info=3, dump=2, close=2, sync=1, read=2, seek=1)
WACC = dict(write=8, read=8, seek=8, info=6, trunc=3, trim=3, readback=2, close=1.5, dump=1, sync=.5, fctl=.3, stat=.3)
WOPEN = dict(write=8, close=8, info=2, trunc=1.5, trim=1.5, readback=1, dump=1, stat=1)


def rand(ctx, exe, stacks, w, n, nops, tag, big=False):
    r = ctx.rng
    groups = {}
    for i in range(n):
        sk = stacks[i % len(stacks)]
        mc, cs = r.choice([2, 2, 3, 3, 4, 5] + ([11, 40] if big else [])), r.choice([32, 32, 33, 40, 64, 100])
        pre, v, P, base = stack_cmds(sk, mc, cs)
        g = RGen(r, v, P, base, mc, cs, w)
        s = pre + g.run(nops)
        if not g.exists: continue
        s += (["close 1"] if g.open else []) + tail(v, P, base, opened=False)
        groups.setdefault(sk == "membuf", []).append(s)
    for buf, ss in groups.items(): ctx.conform(exe, ss, "Trace_Rotate", TB if buf else TC, tag=tag)


def e08(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    chunks(ctx)
    hs = []
    for mc, cs in [(2, 32), (3, 32)] + ([(4, 33), (2, 64)] if ctx.thorough else []):
        cap = mc * cs
        hs += model(ctx, f"appends, {mc} chunks of {cs}", mc, cs, Writes=rset(1, cs - 1, cs, cs + 1, cap, cap + 1), Seeks=sset(), Reads=rset(), Flags=rset(35), MaxOps=ctx.pick(7, 10))
    replay(ctx, exe, ["mem", "membuf"], hs, ctx.pick(1500, 20000), "app")
    replay(ctx, exe, ["stdio"], hs, ctx.pick(1000, 10000), "app")
    rand(ctx, exe, MEMS, WAPP, 150 * n, 50, "appr", big=True)
    rand(ctx, exe, STDS, WAPP, 60 * n, 50, "apps")
    ex2 = ctx.build("noshared")
    rand(ctx, ex2, ["mem", "stdio"], WAPP, 30 * n, 50, "appn")
    return ctx.finish("model_checking", ASSUME)


ASSUME = ["a log is used through one handle at a time (documented)", "containers hold nothing but what the library put there"]


def grid(r, v, P, base, mc, cs, st, cnt, fill, op):
    """a log of cnt chunks whose oldest one has number st, then one cut or trim at every border"""
    ln = (cnt - 1) * cs + fill
    s = [f"open 1 {v} {P('/log')} 35", f"write 1 {H(data(r, (mc + st) * cs if st or cnt == mc else cnt * cs))}", f"trunc 1 {ln}", f"seek 1 {r.choice([0, ln, ln // 2, cs, ln - 1])} 1"]
    return s + [op, "tell 1", "size 1", f"write 1 {H(data(r, r.choice([1, cs, cs + 5])))}"] + tail(v, P, base)


def grids(ctx, exe, limit):
    r, out = ctx.rng, []
    for mc in (2, 3, 4, 5, 6):
        for st in range(mc):
            for cnt in range(1, mc + 1):
                for k in range(0, cnt + 2):
                    for o in ("trim", "trunc"):
                        for off in ((0, -1, 1) if o == "trunc" else (0, 1)):
                            out.append((mc, st, cnt, k, o, off))
    if len(out) > limit: out = r.sample(out, limit)
    scripts = []
    for mc, st, cnt, k, o, off in out:
        cs = r.choice([32, 33, 50])
        pre, v, P, base = stack_cmds("mem", mc, cs)
        scripts.append(pre + grid(r, v, P, base, mc, cs, st, cnt, r.choice([1, cs, cs, r.randint(1, cs)]), f"{o} 1 {max(0, k * cs + off)}"))
    ctx.conform(exe, scripts, "Trace_Rotate", TC, tag="grid")


def e09(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    hs = []
    for mc, cs in [(2, 32), (3, 32)]:
        cap = mc * cs
        hs += model(ctx, f"random access, {mc} chunks of {cs}", mc, cs, Writes=rset(1, cs, cap), Reads=rset(1, cs, cap + 1), Seeks=sset("s0", "s1", "scs", "e0", "e1", "sover", "rm"),
                    Cuts=rset(0, 1, cs, cs + 1), Trims=rset(cs, cs - 1, 2 * cs), Flags=rset(3, 35), MaxOps=ctx.pick(6, 8))
    replay(ctx, exe, ["mem"], hs, ctx.pick(4000, 60000), "acc")
    replay(ctx, exe, ["stdio", "membuf"], hs, ctx.pick(1500, 15000), "acc")
    grids(ctx, exe, ctx.pick(700, 100000))
    rand(ctx, exe, MEMS, WACC, 160 * n, 60, "accr", big=True)
    rand(ctx, exe, STDS, WACC, 80 * n, 60, "accs")
    return ctx.finish("model_checking", ASSUME)


GEOM = lambda mc, cs: struct.pack("<IBBHII", 0x53465645, 1, 1, 0, cs, mc)


def crafted(r, v, P, base, k="log", path="/log"):
    """a container as an earlier session left it: any start chunk, either generation, any fill"""
    mc, cs = r.choice([2, 2, 3, 4, 5, 12]), r.choice([32, 33, 50, 64])
    cnt = r.randint(0, mc)
    start, gen = r.randrange(mc), r.randrange(2)
    full = bytearray()
    put = [f"mput {base} {H(path)} 1 x", f"mput {base} {H(path + '/geom.dat')} 0 {H(GEOM(mc, cs))}"]
    files = []
    for i in range(cnt):
        last = i == cnt - 1
        d = data(r, r.choice([cs, 1, cs - 1, r.randint(1, cs)]) if last else cs)
        ch = start + i
        files.append(f"mput {base} {H(path + '/c%05d_%d.cnk' % (ch % mc, gen ^ (ch >= mc)))} 0 {H(d)}")
        full += d
    # a sequence not starting at chunk 0 exists only after a full turn; an empty newest chunk is what an interruption leaves
    r.shuffle(files)
    hasl = "raw " + json.dumps({"op": "haslog", "k": list(k.encode()), "mc": mc, "cs": cs, "d": list(full)}, separators=(",", ":"))
    return put + files + [hasl], mc, cs, len(full)


def e10(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    r = ctx.rng
    hs = []
    for mc, cs in [(2, 32), (3, 32)]:
        cap = mc * cs
        hs += model(ctx, f"reopening, {mc} chunks of {cs}", mc, cs, Writes=rset(1, cs, cap), Reads=rset(cs), Seeks=sset("e0"), Cuts=rset(0, cs), Trims=rset(cs),
                    Flags=rset(1, 3, 35, 32, 19, 11, 7), MaxOps=ctx.pick(7, 9))
    replay(ctx, exe, ["mem"], hs, ctx.pick(3000, 60000), "reo")
    replay(ctx, exe, ["stdio", "membuf"], hs, ctx.pick(1200, 15000), "reo")
    rand(ctx, exe, MEMS, WOPEN, 120 * n, 60, "reor", big=True)
    rand(ctx, exe, STDS, WOPEN, 50 * n, 60, "reos")
    scripts = []
    for i in range(ctx.pick(150, 2500)):          # containers left by an earlier session, settings of the layer differ
        mc0, cs0 = r.choice([(2, 32), (7, 90)])
        pre, v, P, base = stack_cmds("mem", mc0, cs0)
        put, mc, cs, ln = crafted(r, v, P, base)
        g = RGen(r, v, P, base, mc, cs, r.choice([WACC, WOPEN, WAPP])); g.exists, g.n = True, ln
        s = pre[:1] + put + pre[1:] + g.run(25)
        scripts.append(s + (["close 1"] if g.open else []) + tail(v, P, base, opened=False))
    for i in range(ctx.pick(150, 2500)):          # several logs, several sessions and layers with other settings, names, current directories
        mc, cs, mc2, cs2 = r.choice([2, 3]), r.choice([32, 40]), r.choice([2, 4, 6]), r.choice([32, 64])
        sd = r.random() < .3
        b = "stdio" if sd else "m"
        P = S if sd else H
        s = ["reg_stdio 0" if sd else "reg_mem m 0", f"reg_rotate r {b} {mc} {cs} 0", f"reg_rotate q {b} {mc2} {cs2} 0"]
        logs, op = {}, {}
        moved = False
        for _ in range(40):
            o = r.choices(["open", "write", "close", "cfg", "sess", "del", "ren", "read", "cwd", "stat"], [10, 16, 8, 1.5, 1, 1, 1, 5, 1.5, 1])[0]
            if o == "open":
                nm = r.choice(["l1", "l2", "l3"]); h = r.choice([1, 2, 3])
                if h in op or nm in op.values(): continue
                fl = r.choice([35, 35, 3, 1, 19 if r.random() < .3 else 35])
                p = ["/" + nm] if r.random() < .6 or moved else [nm, "./" + nm, "../" + nm] if not sd else [nm, "./" + nm]
                if fl == 1 and nm not in logs: continue
                p = r.choice(p)
                s.append(f"open {h} {r.choice('rq')} {P(p) if p[0] == '/' else H(p)} {fl}"); op[h] = nm; logs[nm] = 1
            elif o == "write" and op: s.append(f"write {r.choice(list(op))} {H(data(r, r.choice([1, 31, 32, 33, 64, 100, 200])))}")
            elif o == "read" and op: h = r.choice(list(op)); s += [f"seek {h} 0 1", f"read {h} 999", f"size {h}"]
            elif o == "close" and op: h = r.choice(list(op)); s.append(f"close {h}"); del op[h]
            elif o == "cfg": s.append(f"rotcfg {r.choice('rq')} {r.choice([2, 3, 5, 1, 0, 99999, 100000])} {r.choice([32, 33, 64, 31, 0])}")
            elif o == "sess" and not moved:
                s += [f"close {h}" for h in op]; op = {}
                s += ["unreg r", "unreg q", f"reg_rotate q {b} {mc2} {cs2} 0", f"reg_rotate r {b} {mc} {cs} 0"]
            elif o == "cwd" and not moved:       # open handles stay on their log
                moved = True; s += [f"mkdir {b} {P('/w')}", f"setcwd {b} {P('/w')}"]
            elif o == "del":
                c = [x for x in logs if x not in op.values()]
                if c: nm = r.choice(c); s.append(f"del {r.choice('rq')} {P('/' + nm)}"); del logs[nm]
            elif o == "ren":
                c = [x for x in logs if x not in op.values()]; f = [x for x in ("l1", "l2", "l3") if x not in logs]
                if c and f: a, z = r.choice(c), r.choice(f); s.append(f"ren {r.choice('rq')} {P('/' + a)} {P('/' + z)}"); del logs[a]; logs[z] = 1
            elif o == "stat" and logs: nm = r.choice(list(logs)); s.append(f"{r.choice(['stat', 'opend 1', 'mkdir'])} {r.choice('rq')} {P('/' + nm)}")
        s += [f"close {h}" for h in op] + [f"dump {b}"]
        for nm in sorted(logs): s += [f"open 1 r {P('/' + nm)} 1", "size 1", "read 1 2000", "close 1"]
        scripts.append(s)
    for ln in list(range(225, 262)) + [60, 150]:   # names around the longest a container may have
        comps, rest = [], ln
        while rest > 0:
            k = min(100, rest - 1); comps.append("n" * k); rest -= k + 1
            if rest == 1: comps[-1] = comps[-1][:-1]; rest = 2
        p = "/" + "/".join(comps)
        s = ["reg_mem m 0", "reg_rotate r m 2 32 0"] + [f"mput m {H('/' + '/'.join(comps[:i]))} 1 x" for i in range(1, len(comps))]
        s += [f"open 1 r {H(p)} 35", f"write 1 {H(data(r, 70))}", "seek 1 0 1", "read 1 99", "close 1", f"open 1 r {H(p)} 1", "read 1 99", "close 1", "dump m"]
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Rotate", TC, tag="sess")
    ordinary(ctx, exe, n)
    return ctx.finish("model_checking", ASSUME)


def ordinary(ctx, exe, n):
    """ordinary files and directories behave as without the layer; opening a missing name to write would make a log"""
    r = ctx.rng
    pre = ["reg_mem m 1"] + [f"mput m {H(p)} 1 x" for p in ["/a", "/a/a", "/c", "/c/b"]]
    pre += [f"mput m {H(p)} 0 {H(data(r, 20))}" for p in ["/keep1", "/keep2", "/b", "/a/b", "/a/c", "/c/a"]]
    W = dict(c_fs.ALL, opex=9)
    for k in ("copy", "mkfile", "open"): W.pop(k)
    c_fs.pairs(ctx, exe, pre, pre + ["reg_rotate r m 3 32 0"], "m", "r", "", W, 120 * n, 60, "ordp", faults=False)
    c_fs.histories(ctx, exe, ROTSTACKS, dict(c_fs.ALL, mkfile=0, copy=0, ren=0), 60 * n, 60, "ord")


FCLS = [-1, -1, -1, 1, 2, 4, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 524288, 65536, 1 | 128, 4 | 128]


def seed_log(r, v, P, mc, cs):
    """a few calls that bring a log to an interesting state; returns commands, whether a handle stays open, approximate length"""
    s = [f"open 1 {v} {P('/log')} 35"]
    n = 0
    for _ in range(r.randint(0, 4)):
        k = r.choice([1, cs - 1, cs, cs + 1, mc * cs - n if mc * cs > n else 1, r.randint(1, mc * cs), (mc + 1) * cs])
        s.append(f"write 1 {H(data(r, k))}")
        n += k
        while n > mc * cs: n -= cs
    x = r.random()
    if x < .12: k = r.choice([cs, 2 * cs]); s.append(f"trim 1 {k}"); n = max(0, n - k)
    elif x < .24: k = r.choice([0, cs, n // 2, n // cs * cs]); s.append(f"trunc 1 {k}"); n = min(n, k)
    if r.random() < .3: s.append("sync 1")
    return s, n


def victim(r, v, P, mc, cs, n, append=True):
    k = r.random()
    if k < .55: return [f"write 1 {H(data(r, r.choice([1, cs - n % cs, cs - n % cs + 1, cs, cs + 1, max(1, mc * cs - n), mc * cs - n + 1, 2 * cs + 3, mc * cs + cs + 1])))}"]
    if k < .7: return [f"trunc 1 {r.choice([0, 1, n // 2, max(0, n - 1), n // cs * cs, max(0, n - cs), max(0, n - cs - 1)])}"]
    if k < .82: return [f"trim 1 {r.choice([cs, 2 * cs, cs * mc, cs + 1, n])}"]
    if k < .9: return ["close 1", f"open 1 {v} {P('/log')} {r.choice([35, 1, 3, 19, 19])}"]
    if k < .95: return ["seek 1 0 1", f"read 1 {r.choice([5, n + 9])}"]
    return ["sync 1"]


def e11(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 10)
    r = ctx.rng
    chunks(ctx)
    model(ctx, "what interruptions may leave", 3, 32, Writes=rset(1, 31, 32, 33, 97), Seeks=sset(), Reads=rset(), Cuts=rset(0, 32, 33), Trims=rset(32, 64), MaxOps=6)
    again = lambda mc, cs, mode: ["abandon"] + stack_cmds(mode, mc, cs)[0]
    for mode, T in (("mem", TC), ("membuf", TB), ("rot/jail", TC), ("trace/rot", TC)):
        scripts = []
        for i in range((ctx.pick(420, 4200) if mode in ("mem", "membuf") else ctx.pick(60, 600))):
            mc, cs = r.choice([2, 2, 3, 4]), r.choice([32, 33, 40])
            pre, v, P, base = stack_cmds(mode, mc, cs)
            pre2 = [c for c in pre if not c.startswith("mput")]
            s0, ln = seed_log(r, v, P, mc, cs)
            vic = victim(r, v, P, mc, cs, ln)
            if r.random() < .3: vic += victim(r, v, P, mc, cs, ln)
            at = r.choice(range(1, 22)) if r.random() < .6 else r.randint(1, 7)
            s = pre + s0
            rounds = 1 if r.random() < .7 else r.randint(2, 4)
            for q in range(rounds):              # stop the process after that many operations below, then come back
                s += [f"fault {at} 1 4 -1"] + vic + ["abandon"] + pre2
                s += [f"open 1 {v} {P('/log')} {r.choice([1, 3, 35, 35])}", "size 1", "seek 1 0 1", f"read 1 {mc * cs + 9}"]
                if q + 1 < rounds: s += ["close 1", f"open 1 {v} {P('/log')} 35"]; at = r.randint(1, 12)
            s += ["close 1"] + tail(v, P, base, opened=False)
            scripts.append(s)
        ctx.conform(exe, scripts, "Trace_Rotate", T, tag="crash")
    scripts = []
    for i in range(ctx.pick(900, 9000)):           # storage errors, the handle stays in use
        mode = r.choice(["mem", "mem", "mem", "rot/jail", "jail/rot", "rot/trace"])
        mc, cs = r.choice([2, 2, 3, 4]), r.choice([32, 33, 40])
        pre, v, P, base = stack_cmds(mode, mc, cs)
        s0, ln = seed_log(r, v, P, mc, cs)
        s = pre + s0
        for _ in range(r.randint(1, 3)):
            s += [f"fault {r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11])} {r.choice([1, 1, 1, 2, 3, 99])} {r.choice([1, 1, 2, 3])} {r.choice(FCLS)}"]
            for _ in range(r.randint(1, 2)): s += victim(r, v, P, mc, cs, ln)
            s += ["nofault", "size 1", "tell 1"]
            if r.random() < .7: s += ["seek 1 0 1", f"read 1 {mc * cs + 9}", "size 1"]
            if r.random() < .5: s += [f"write 1 {H(data(r, r.choice([1, cs, cs + 1])))}"]
        s += ["close 1"] + tail(v, P, base, opened=False)
        scripts.append(s)
    for kind in (1, 2, 3):                         # creating a log while one operation fails
        for at in range(1, 14):
            for mode in ("mem", "jail/rot", "rot/jail"):
                pre, v, P, base = stack_cmds(mode, 2, 32)
                s = pre + [f"fault {at} 1 {kind} -1", f"open 1 {v} {P('/log')} 35", "nofault", "close 1", f"open 2 {v} {P('/log')} 35", f"write 2 {H(data(r, 70))}", "close 2"]
                scripts.append(s + [f"open 3 {v} {P('/log')} 1", "read 3 99", "close 3"])
    ctx.conform(exe, scripts, "Trace_Rotate", TC, tag="fault")
    creation(ctx, exe)
    return ctx.finish("model_checking", ASSUME + ["the storage below keeps what was synced; one operation below is atomic"])


def creation(ctx, exe):
    """the process stops while a log is being created: operations in the known-findings list leave an unusable name"""
    known = known_findings("E11")
    names = ["mkdir-done", "geometry-file-created", "geometry-header-written"]
    for at in range(1, 16):
        pre, v, P, base = stack_cmds("mem", 2, 32)
        s = pre + ["blog 1", f"fault {at} 1 4 -1", f"open 1 {v} {P('/log')} 35", "abandon"] + pre + ["dump m", f"open 1 {v} {P('/log')} 35", f"write 1 {H(b'after' * 9)}", "close 1", f"open 1 {v} {P('/log')} 1", "read 1 99", "close 1"]
        evs, rc, asan = ctx.drive(exe, [s], "create")
        ctx.nscripts += 1
        nn, k, out = ctx._trace_tlc("Trace_Rotate", TC, evs)
        if k == nn: ctx.traces += 1; ctx.events += k; continue
        d = next((e for e in evs if e["op"] == "dump"), {"tree": []})
        files = {len(t["p"]): len(t["c"]) for t in d["tree"]}
        st = names[0] if 2 not in files else names[1] if files[2] == 0 else names[2] if files[2] == 8 else "other"
        hit = [f for f in known if f.get("left") == st]
        n2, k2, _ = ctx._trace_tlc("Trace_Rotate", dict(TC, HalfMade="TRUE"), evs)
        if hit and n2 == k2:
            ctx.known.append(hit[0]["what"])
        else: ctx.violation("create", [s], evs, k, "Trace_Rotate", TC, asan, exe)
    ctx.known = sorted(set(ctx.known))


def chunks(ctx):
    """the chunk-file algorithm refines the log, also when it is interrupted anywhere"""
    for mc in ([2, 3] if not ctx.thorough else [2, 3, 4]):
        c = dict(Mc=mc, Cs=2, MaxTot=ctx.pick(4 * mc, 6 * mc))
        ctx.mc("RotateChunks", cfg(consts=c, invariants=["StorageBound", "Contiguous", "NothingLost", "HandleAgrees", "ReopenAgrees"]), label=f"chunk files, {mc} chunks")


RUN = dict(E08=e08, E09=e09, E10=e10, E11=e11)


def run(ctx): return RUN[ctx.pid](ctx)
