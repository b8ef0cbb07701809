"""E17 (tar) and E18 (romfs): archives built here, mounted by the real code, every call checked against Fs.tla."""
from .core import *
from .fsgen import *
from .archives import *
from . import c_fs

W_TAR = dict(open=9, close=4, read=14, seek=9, info=9, stat=9, setcwd=3, getcwd=2, opend=1, rdd=1, mkdir=.4, mkpath=.4, ren=.4,
             write=.6, trunc=.4, mkfile=.3, sync=.5, rsrc=2, shaky=2, ill=3, copy=.6, puts=.2, fields=.3)
W_TAR["del"] = .4
W_ROM = dict(W_TAR, fields=.4, opend=4, rdd=14, dots=.7)


class ArchGen(Gen):
    """calls that mostly name what is there"""
    def __init__(self, rng, worlds, weights, nops, tree, fault_ok=False, **kw):
        super().__init__(rng, worlds, weights, nops, **kw)
        self.tree, self.fault_ok = tree, fault_ok
        self.paths = sorted(tree) or [("none",)]

    def segs(self, w, cls, parentcls="d"):
        r = self.rng
        if w.base == "m" or r.random() < .1: return super().segs(w, cls)
        for _ in range(4):
            p = list(r.choice(self.paths))
            if (cls == "d") == (tuple(p) in self.tree and self.tree[tuple(p)][0]): break
        if r.random() < .06: p[-1] += r.choice("x/.") if r.random() < .7 else " "
        if r.random() < .05 and len(p[-1]) > 1: p[-1] = p[-1][:-1]
        if r.random() < .06: p.append(r.choice(["a", "zz", p[-1]]))
        if r.random() < .06 and len(p) > 1: p = p[1:]
        return [x for x in "/".join(p).split("/") if x] or ["a"]

    def op_rsrc(self, w):
        h = self.some_h()
        if h: self.add(f"rsrc {h} -1")

    def op_shaky(self, w):
        h = self.some_h()
        if not h or not self.fault_ok or self.h[h][0] == "m": return
        self.add(f"fault {self.rng.randint(1, 2)} {self.rng.choice([1, 9])} {self.rng.choice([1, 2])} {self.rng.choice([64, 1024, 64 | 1024])}")
        self.add(f"read {h} {self.rng.choice([1, 3, 20, 600])}"); self.add("nofault")
        self.add(f"tell {h}"); self.add(f"read {h} {self.rng.choice([1, 3, 20, 600])}")

    def op_ill(self, w):      # a call that looks something up while the storage below fails
        if w.base == "m" or not self.fault_ok: return
        k = len(self.s)
        self.rng.choice([self.op_stat, self.op_stat, self.op_opend, self.op_rdd, self.op_rdd, self.op_open, self.op_setcwd])(w)
        new, self.s[k:] = self.s[k:], []
        f = f"fault {self.rng.choice([1, 1, 2, 3, 5, 9])} {self.rng.choice([1, 1, 9])} {self.rng.choice([1, 2])} {self.rng.choice([64, 1024, 64 | 1024])}"
        for c in new: self.s += [f, c, "nofault"] if c.split()[0] in ("stat", "exf", "exd", "opend", "rdd", "find", "open", "setcwd", "rwd") else [c]

    def op_dump(self, w): pass

    def run(self, prelude):
        s = super().run(prelude)
        return [c for c in s if not (c.startswith("dump ") and c != "dump m")]


def raw(d): return "raw " + json.dumps(d, separators=(",", ":"))


def contents(v, tree, special={}):
    out = []
    for p in sorted(tree):
        out.append(raw({"op": "content", "v": v, "p": list(("/" + "/".join(p)).encode("latin-1")), "dir": int(tree[p][0]), "c": list(tree[p][1])}))
    for p in sorted(special):
        out.append(raw({"op": "content", "v": v, "p": list(("/" + "/".join(p)).encode("latin-1")), "dir": 0, "c": list(special[p][1])}))
    return out


def mount(kind, v, how, img, tree, rng, special={}, ok="yes", trouble=None):
    """commands that mount img as v from memory, an in-memory file system or a real file; trouble: what fails meanwhile"""
    s = []
    im = raw({"op": "image", "v": v, "ok": "any" if trouble else ok, "mem": int(how == "rsrc")})
    if trouble:
        s = mount(kind, v, how, img, {}, rng, {}, "any")
        return s[:-2] + [trouble] + s[-2:] + ["nofault", "nomfail", f"need {v}"] + contents(v, tree, special)
    if how == "rsrc": s += [im, f"reg_rsrc {kind} {v} {H(img)} 0"]
    elif how == "stdio": s += [f"hput {S('/im' + v)} 0 {H(img)}", im, f"reg_img {kind} {v} stdio {S('/im' + v)} 0"]
    else: s += [f"mput m {H('/im' + v)} 0 {H(img)}", im, f"reg_img {kind} {v} m {H('/im' + v)} 0"]
    return s + contents(v, tree, special)


def scripts(ctx, kind, n, nops, weights, big=False, many=0, cut=None):
    out = []
    r = ctx.rng
    for i in range(n):
        if kind == "tar": img, tree = make_tar(r, big, many); special = {}
        else: img, tree, special = make_romfs(r, big, many); 
        how = r.choice(["rsrc", "m", "m", "stdio"])
        s = ["reg_mem m 1"] + (["reg_stdio 0"] if how == "stdio" else [])
        s += mount(kind, "t", how, img, tree, r, special)
        ws = [World("t", "t", True, kind="arch")] * 3
        k = r.random()
        dirs = sorted(p for p in tree if tree[p][0])
        if k < .15: s.append("reg_trace x t 0"); ws.append(World("x", "t", True, kind="arch"))
        elif k < .35 and dirs:
            root = "/" + "/".join(r.choice(dirs)); s.append(f"reg_jail j t {H(root)} 0"); ws += [World("j", "t", True, kind="arch")] * 2
        elif k < .55:    # the same bytes mounted the other way
            h2 = "m" if how == "rsrc" else "rsrc"
            s += mount(kind, "u", h2, img, tree, r, special); ws += [World("u", "u", True, kind="arch")] * 2
        elif k < .65:
            i2, t2 = make_tar(r) if kind == "tar" else make_romfs(r)[:2]
            sp2 = {}
            if kind != "tar": i2, t2, sp2 = make_romfs(r)
            s += mount(kind, "u", r.choice(["rsrc", "m"]), i2, t2, r, sp2); ws += [World("u", "u", True, kind="arch")]
        ws.append(World("m", "m", True))
        g = ArchGen(r, ws, weights, nops, tree, fault_ok=how == "m", flags=[1] * 12 + FLAGS, names=["a", "b", "c", "ab", "f.txt", "zz"])
        out.append(g.run(s))
    return out


def sweep(ctx, kind, n, trouble=False):
    """every member of an archive read whole, at every small position, and every directory listed"""
    out = []
    r = ctx.rng
    for i in range(n):
        if kind == "tar": img, tree = make_tar(r, True, many=r.choice([0, 0, 0, 40])); special = {}
        else: img, tree, special = make_romfs(r, True, many=r.choice([0, 0, 0, 40]))
        how = r.choice(["rsrc", "m", "stdio"])
        tr = None
        if trouble:     # storage or memory fails once or for a while during the mount: refused, or all there
            at = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 60)])
            tr = f"mfail {r.randint(1, 5 + 2 * sum(1 for p in tree if tree[p][0]))}" if how != "m" or r.random() < .4 else f"fault {at} {r.choice([1, 1, 1, 2, 3, 9])} {r.choice([1, 1, 2])} -1"
        s = ["reg_mem m 1"] + (["reg_stdio 0"] if how == "stdio" else []) + mount(kind, "t", how, img, tree, r, special, trouble=tr)
        if kind == "romfs": s.append(f"vctl t 50 {r.choice([0, 1])}")
        for p in sorted(tree):
            t = H("/" + "/".join(p)); s += [f"stat t {t}", f"exf t {t}", f"exd t {t}"]
            if tree[p][0]:
                s += [f"open 1 t {t} 1", f"opend 1 t {t}"] + ["rdd 1"] * (sum(1 for q in tree if q[:-1] == p) + 4) + ["closed 1"]
                s += [f"setcwd t {t}", "getcwd t 256"]
            else:
                n = len(tree[p][1])
                s += [f"open 1 t {t} 1", "size 1", f"read 1 {n + 5}", "eof 1", "seek 1 0 1", "rsrc 1 -1"]
                for at in sorted({0, 1, n // 2, max(0, n - 1), n}): s += [f"seek 1 {at} 1", f"read 1 {r.choice([1, 2, 600])}", "tell 1", "eof 1"]
                s += [f"seek 1 {r.randint(0, n)} 3", "tell 1", "read 1 9", "close 1", f"opend 1 t {t}", f"setcwd t {t}"]
        s += [f"opend 1 t {H('/')}"] + ["rdd 1"] * (sum(1 for q in tree if len(q) == 1) + 5) + ["rwd 1", "rdd 1", "closed 1", f"stat t {H('/')}", f"setcwd t {H('/')}"]
        for w in ["/nope", "/a/nope/x", "/imt", "/." + "x", "/" + "n" * 250]: s += [f"stat t {H(w)}", f"open 1 t {H(w)} 1", f"exf t {H(w)}", f"exd t {H(w)}"]
        out.append(s)
    return out


def model(ctx, kind, exe, depth):
    """every history of the small model, on a real archive holding the model's tree"""
    r = ctx.rng
    ops = ["open", "close", "read", "seek", "stat", "setcwd", "opend", "rdd", "rwd", "write", "mkdir", "del"]
    hs = c_fs.model(ctx, kind, ops, f"mounted {kind}", Paths=c_fs.A("/", "a", "ab", "b", "rel", "up", "ba"), Flags=c_fs.NUM(1, 3), Hs=c_fs.NUM(1, 2), Ns=c_fs.NUM(2), Offs="{0, 1}", MaxLen=depth)
    lim = ctx.pick(2500, 40000)
    hs = sorted(hs, key=json.dumps)
    if len(hs) > lim: hs = r.sample(hs, lim)
    tree = {("a",): (True, b""), ("a", "b"): (False, b"xyz"), ("b",): (False, b"pq")}
    imgs = []
    if kind == "tar":
        out = b"".join([tar_member(r, b"a/", b"5", b""), tar_member(r, b"a/b", b"0", b"xyz"), tar_member(r, b"b", b"0", b"pq")]) + b"\0" * 1024
        imgs.append((out, {}))
    else:
        while len(imgs) < 3:
            img, t, sp = romfs_from(r, tree)
            imgs.append((img, sp))
    sc = []
    for h in hs:
        img, sp = r.choice(imgs)
        s = ["reg_mem m 1"] + mount(kind, "m2", r.choice(["rsrc", "m"]), img, tree, r, sp)
        for c in h:
            if c.get("v") == "m": c = dict(c, v="m2")
            s += c_fs.line(c)
        sc.append(s)
    ctx.conform(exe, sc, "Trace_Fs", tag="arch")


def e17(ctx):
    n = ctx.pick(1, 12)
    for var in ("base", "noshared"):
        exe = ctx.build(var)
        if var == "base": model(ctx, "tar", exe, ctx.pick(4, 5))
        ctx.conform(exe, scripts(ctx, "tar", 130 * n, 70, W_TAR), "Trace_Fs", tag="tar")
        ctx.conform(exe, sweep(ctx, "tar", 40 * n), "Trace_Fs", tag="tarsw")
        ctx.conform(exe, cuts(ctx, 150 * n), "Trace_Fs", tag="tarcut")
        ctx.conform(exe, sweep(ctx, "tar", 60 * n, True), "Trace_Fs", tag="tarmnt")
    ctx.conform(exe, scripts(ctx, "tar", 30 * n, 70, W_TAR, big=True, many=60), "Trace_Fs", tag="tarbig")
    return ctx.finish("model_checking", ["archives in the supported GNU ustar form, names held in the member headers", "directories are those the archive lists"])


def e18(ctx):
    n = ctx.pick(1, 12)
    for var in ("base", "romwalk", "romwalk+noshared"):
        exe = ctx.build(var)
        if var != "romwalk+noshared": model(ctx, "romfs", exe, ctx.pick(4, 5) if var == "base" else ctx.pick(3, 5))
        ctx.conform(exe, scripts(ctx, "romfs", 90 * n, 70, W_ROM), "Trace_Fs", tag="rom")
        ctx.conform(exe, sweep(ctx, "romfs", 30 * n), "Trace_Fs", tag="romsw")
        ctx.conform(exe, scripts(ctx, "romfs", 15 * n, 70, W_ROM, big=True, many=60), "Trace_Fs", tag="rombig")
        ctx.conform(exe, invalid(ctx, 80 * n), "Trace_Fs", tag="rombad")
        ctx.conform(exe, sweep(ctx, "romfs", 40 * n, True), "Trace_Fs", tag="rommnt")
    return ctx.finish("model_checking", ["regular files, directories and hard links to files; other entries are only listed"])


def invalid(ctx, n):
    out = []
    r = ctx.rng
    for i in range(n):
        img, tree, sp = make_romfs(r)
        bad, k = break_romfs(r, img)
        s = ["reg_mem m 1"] + mount("romfs", "t", r.choice(["rsrc", "m"]), bad, {}, r, {}, "no") + [f"stat m {H('/')}", "findvfs t"]
        out.append(s)
    return out


def cuts(ctx, n):
    """archives that end early: what is left whole is served, nothing is read outside"""
    out = []
    r = ctx.rng
    while len(out) < n:
        img, tree = make_tar(r, r.random() < .3)
        c = cut_tar(r, img, tree)
        if not c: continue
        img, tree = c
        how = r.choice(["rsrc", "rsrc", "m", "stdio"])
        s = ["reg_mem m 1"] + (["reg_stdio 0"] if how == "stdio" else []) + mount("tar", "t", how, img, tree, r, {}, ok="yes" if tree else "any")
        for p in sorted(tree):
            t = H("/" + "/".join(p)); s += [f"stat t {t}", f"exf t {t}", f"exd t {t}"]
            if tree[p][0]: s += [f"open 1 t {t} 1", f"setcwd t {t}", "getcwd t 256"]
            else: s += [f"open 1 t {t} 1", "size 1", f"read 1 {len(tree[p][1]) + 5}", "eof 1", "close 1"]
        out.append(s + ([f"stat t {H('/none-such')}", f"stat t {H('/')}", "unreg t"] if tree else []))
    return out


RUN = dict(E17=e17, E18=e18)


def run(ctx): return RUN[ctx.pid](ctx)
