"""Checks decided with specs/Fs.tla: E05 E06 E07 E12 E13 E14 E15 E16 E20 (and the shared parts of others)."""
from .core import *
from .fsgen import *

A = lambda *x: "{" + ", ".join('"%s"' % y for y in x) + "}"
SEQ = A
NUM = lambda *x: "{" + ", ".join(map(str, x)) + "}"
INVS = ["Inv"]
PROPS = ["FailedChangesNothing", "ReadOnlyFrame", "OneFileAtATime", "JailCwdsApart"]
BASE = dict(Paths=A("a"), Flags=NUM(1), Hs=NUM(1), Ds=NUM(1), Chunks=SEQ("x"), Ns=NUM(1), Offs=NUM(0), Pats=SEQ("*"),
            MaxLen=4, MaxFile=4, MaxBusy=3)


def model(ctx, layout, ops, label, **kw):
    c = dict(BASE); c.update(kw); c["Layout"] = f'"{layout}"'; c["Ops"] = A(*ops)
    g = ctx.mc("MC_Fs", cfg(consts=c, invariants=INVS, properties=PROPS, view="Canon", constraint="Bounded", action_constraint="Gen"), label=label)
    return maximal(g)


def line(c, at=False):
    """driver command of a model call; at: absolute paths live below the scratch directory"""
    P = lambda p: (S(bytes(p)) if at and p[:1] == [47] else H(bytes(p)))
    o = c["op"]
    if o == "open": return [f"open {c['h']} {c['v']} {P(c['p'])} {c['fl']}"]
    if o in ("close", "sync", "tell", "size", "eof"): return [f"{o} {c['h']}"]
    if o in ("read", "trunc"): return [f"{o} {c['h']} {c['n']}"]
    if o == "write": return [f"write {c['h']} {H(bytes(c['c']))}"]
    if o == "seek": return [f"seek {c['h']} {c['o']} {c['org']}"]
    if o in ("stat", "del", "mkdir", "mkpath", "setcwd"): return [f"{o} {c['v']} {P(c['p'])}"]
    if o == "ren": return [f"ren {c['v']} {P(c['p'])} {P(c['q'])}"]
    if o == "mkfile": return [f"open 63 {c['v']} {P(c['p'])} 10", "close 63"]
    if o == "vctl": return [f"vctl {c['v']} {c['cmd']} {c['val']}"]
    if o == "opend": return [f"opend {c['d']} {c['v']} {P(c['p'])}"]
    if o in ("rdd", "rwd", "closed"): return [f"{o} {c['d']}"]
    if o == "find": return [f"find {c['d']} {H(bytes(c['pat']))}"]
    if o == "copy": return [f"copy {c['v']} {P(c['p'])} {c['h']} {(len(c['p']) * 7) % 5}"]
    raise KeyError(o)


LAY = {"mem": (["reg_mem m 1", "vctl m 50 1"], "m", ["m"]),
       "stdio": (["reg_stdio 1", "vctl stdio 50 1"], "stdio", ["stdio"]),
       "jail": (["reg_mem m 1", "vctl m 50 1", f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0", "blog 1"], "m", ["m", "j"]),
       "trace": (["reg_mem m 1", "vctl m 50 1", "reg_trace t m 0"], "m", ["m", "t"])}


def script(layout, hist, rng, hs=(), seq_guard=False):
    pre, base, views = LAY[layout]
    at = layout == "stdio"
    s = list(pre)
    last, app = {}, {}
    for c in hist:
        o = c["op"]
        if c.get("v") == "m" and base != "m": c = dict(c, v=base)
        if at and o in ("read", "write"):
            h = c["h"]
            if last.get(h) not in (None, o): s.append(f"seek {h} 0 2" if not app.get(h) else f"seek {h} 0 1")
            elif o == "read" and app.get(h) and last.get(h) is None: s.append(f"seek {h} 0 1")
            last[h] = o
        if o == "open": last[c["h"]] = None; app[c["h"]] = bool(c["fl"] & 32)
        if at and o == "seek":
            if c["org"] == 2 and app.get(c["h"]): c = dict(c, org=1, o=abs(c["o"]))
            last[c["h"]] = None
        if at and o == "trunc": last[c["h"]] = "t"      # end-of-file of a C stream is sticky until a position call
        if at and o == "vctl" and c["cmd"] == 46:
            s += [f"sync {h}" for h in sorted(last)]
        if o == "close": last.pop(c["h"], None)
        s += line(c, at)
    live = {}
    for c in hist:
        if c["op"] == "open": live[c["h"]] = 1
        if c["op"] == "close": live.pop(c["h"], None)
    for h in sorted(live): s += [f"tell {h}", f"size {h}", f"eof {h}", f"seek {h} 0 1", f"read {h} 9"]
    opn = {}
    for c in hist:
        if c["op"] == "opend": opn[c["d"]] = 1
        if c["op"] == "closed": opn.pop(c["d"], None)
    for d in sorted(opn): s += [f"rdd {d}"] * 4
    for v in views: s.append(f"getcwd {v} 256")
    s.append(f"dump {base}")
    return s


def opens_dir(h):
    """a C stream opens directories for reading: not a history for stdio"""
    dirs = set()
    for c in h:
        if c["op"] in ("mkdir", "mkpath"): dirs |= set(bytes(c["p"]).split(b"/"))
        if c["op"] == "ren" and bytes(c["p"]).strip(b"/").rpartition(b"/")[2] in dirs: dirs.add(bytes(c["q"]).strip(b"/").rpartition(b"/")[2])
        if c["op"] == "open" and bytes(c["p"]).strip(b"/").rpartition(b"/")[2] in dirs: return True
    return False


def replay(ctx, exe, layout, hists, limit, tag):
    if layout == "stdio": hists = [h for h in hists if not opens_dir(h)]
    hists = sorted(hists, key=lambda g: json.dumps(g))
    if len(hists) > limit: hists = ctx.rng.sample(hists, limit)
    ctx.conform(exe, [script(layout, g, ctx.rng) for g in hists], "Trace_Fs", tag=tag)


def histories(ctx, exe, stacks, weights, n, nops, tag, blog=False, pre=(), **kw):
    scripts = []
    for i in range(n):
        name = stacks[i % len(stacks)]
        prelude, worlds = stack(name)
        prelude = list(prelude) + list(pre) + (["blog 1"] if blog and "stdio" not in name else [])
        scripts.append(Gen(ctx.rng, worlds, weights, nops, **kw).run(prelude))
    ctx.conform(exe, scripts, "Trace_Fs", tag=tag)
    return scripts


ALL = dict(open=6, close=3, read=5, write=6, trunc=2, sync=1, seek=4, info=4, stat=5, ren=2, mkdir=4, mkpath=2, mkfile=4,
           setcwd=2, getcwd=2, dots=.3, fields=.3, opend=2, rdd=5, copy=1, dump=1, puts=1)
ALL["del"] = 3
FILES = dict(open=8, close=4, read=10, write=10, trunc=4, sync=2, seek=8, info=8, stat=2, mkfile=2, dump=1, puts=2)
RO = dict(ALL, ro=4, setcwd=1, dump=3, rdd=1, opend=1)
TREE = dict(stat=10, ren=6, mkdir=8, mkpath=5, mkfile=8, dump=2, open=2, close=2, write=2, setcwd=1, opend=1, rdd=2)
TREE["del"] = 7
DIRS = dict(fields=.3, mkdir=6, mkfile=6, opend=6, rdd=20, dots=1, ren=1, stat=1)
DIRS["del"] = 3
CWD = dict(setcwd=10, getcwd=8, stat=8, mkdir=6, mkfile=4, ren=3, open=3, close=2, write=2, mkpath=2, opend=2, rdd=2, dump=1)
CWD["del"] = 3
COPY = dict(open=6, write=8, copy=12, close=3, mkfile=4, mkdir=3, dump=2, stat=2, puts=5, seek=2, sync=1, read=1)


def e12(ctx):
    exe = ctx.build()
    F = NUM(1, 3, 2, 16, 19, 32, 35, 8, 11, 10, 7, 5, 6)
    ops = ["open", "close", "read", "write", "trunc", "seek"]
    hs = model(ctx, "mem", ops, "files, one handle", Flags=F, Ns=NUM(0, 1, 3), Offs="{0, 1, 2}", Chunks=SEQ("x", "yz"), MaxLen=ctx.pick(5, 6), MaxFile=3)
    replay(ctx, exe, "mem", hs, ctx.pick(9000, 120000), "files1")
    replay(ctx, exe, "stdio", hs, ctx.pick(4000, 40000), "files1")
    hs = model(ctx, "mem", ops, "files, two handles", Flags=NUM(3, 1, 19, 35), Hs=NUM(1, 2), Ns=NUM(1, 2), Offs="{0, 1}", Chunks=SEQ("x", "yz"), MaxLen=ctx.pick(5, 6), MaxFile=3)
    replay(ctx, exe, "mem", hs, ctx.pick(4000, 60000), "files2")
    n = ctx.pick(1, 12)
    for fl, k in ((FLAGS, 50), (ANYFLAGS, 50)):
        histories(ctx, exe, MEMSTACKS, FILES, k * n, 70, "filesm", flags=fl)
        histories(ctx, exe, STDSTACKS, FILES, k * n, 70, "filess", flags=fl)
    histories(ctx, exe, ["stdio", "mem", "trace/jail/mem"], FILES, 12 * n, 60, "filesl", longn=True, maxlen=6000, names=["a", "b"])
    return ctx.finish("model_checking", [])


HOSTILE = A("/", "a", "b", "ab", "rel", "up", "upb", "upupa", "cur", "dup")
LONG = ["a", "b", "c", "L" * 60, "M" * 100, "N" * 33, "a"]


def pairs(ctx, exe, pre_x, pre_y, view_x, view_y, prefix_x, weights, n, nops, tag, faults=True, clean=False, probe="m"):
    """the same calls on a file system and through a layer over it: Trace_Pair says how the events must relate"""
    jobs = []
    nd = max(NCPU, n // 24)
    for i in range(nd):
        xs, ys = [], []
        for _ in range(max(1, n // nd)):
            body = Gen(ctx.rng, [World("VIEW", "m", True)], weights, nops, clean=clean).run([])
            out = []
            for c in body:
                if faults and ctx.rng.random() < .12:
                    out.append(f"fault {ctx.rng.randint(1, 4)} {ctx.rng.choice([1, 1, 3, 50])} {ctx.rng.choice([1, 1, 2, 3])} {ctx.rng.choice([-1, -1, 1 | 64 | 128, 64, 128, 8192 | 4096, 2048 | 524288, 512, 256, 2 | 4 | 8 | 16])}")
                    out += [c, "nofault"]
                else: out.append(c)
            cur = []
            inf = False
            for c in out:
                t = c.split()
                if t[0] == "fault": inf = True
                if t[0] == "nofault": inf = False
                if clean and inf and t[0] in ("mkpath", "mkpathr", "setcwd"): continue
                cur.append(c)
            bx, by = [], []
            for c in cur:
                bx.append(" ".join(view_x if t == "VIEW" else ("x" + prefix_x.encode().hex() + t[1:]) if t.startswith("P2f") else t for t in c.split(" ")))
                by.append(" ".join(view_y if t == "VIEW" else ("x" + t[1:]) if t.startswith("P2f") else t for t in c.split(" ")))
            # a directory made by mistake outside the prefix would be seen by the dumps
            xs.append(pre_x + ["note start 0"] + bx); ys.append(pre_y + ["note start 0"] + by)
        jobs.append((xs, ys))

    def cut(evs):
        res, on = [], False
        for e in evs:
            if e["op"] == "reset": on = False
            if e["op"] in ("DIED", "HANG"): on = True
            if e["op"] == "note": on = True
            if on: res.append(e)
        return res

    def one(job):
        xs, ys = job
        ex, _, ax = ctx.drive(exe, xs, tag)
        ey, _, ay = ctx.drive(exe, ys, tag)
        cx, cy = cut(ex), cut(ey)
        m = max(len(cx), len(cy)); gone = {"op": "missing"}
        ev = [{"x": cx[i] if i < len(cx) else gone, "y": cy[i] if i < len(cy) else gone} for i in range(m)]
        k = ctx._trace_tlc("Trace_Pair", {"Jail": "TRUE" if clean else "FALSE"}, ev)
        return ev, k, ax + ay
    with ThreadPoolExecutor(NCPU) as tp:
        for (xs, ys), (ev, (nn, k, out), asan) in zip(jobs, tp.map(one, jobs)):
            ctx.nscripts += 2 * len(xs); ctx.events += 2 * k; ctx.traces += len(xs) if k == nn else 0
            for e in ev: ctx.kinds[e["x"]["op"]] = ctx.kinds.get(e["x"]["op"], 0) + 2
            if k < nn:
                ev2, (n2, k2, _), asan = one((xs, ys))
                if k2 < n2:
                    idx = sum(1 for e in ev2[:k2] if e["x"]["op"] == "note") - 1
                    idx = min(max(idx, 0), len(xs) - 1)
                    evs, (n3, k3, _), asan3 = one(([xs[idx]], [ys[idx]]))
                    if k3 < n3: ctx.violation(tag, [xs[idx], ys[idx]], evs, k3, "Trace_Pair", None, asan3, exe)
                    else: ctx.violation(tag, xs + ys, ev2, k2, "Trace_Pair", None, asan, exe)
                else: ctx.flaky += 1


def e05(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["open", "close", "stat", "del", "ren", "mkdir", "mkpath", "setcwd", "opend"]
    hs = model(ctx, "jail", ops, "jail, hostile paths", Paths=HOSTILE, Flags=NUM(16, 1), MaxLen=ctx.pick(3, 4), MaxBusy=ctx.pick(3, 4))
    replay(ctx, exe, "jail", hs, ctx.pick(9000, 150000), "jail")
    JS = ["jail/mem", "jail2/mem", "trace/jail/mem", "jail/trace/mem", "two"]
    W = dict(ALL, setcwd=5, ren=4, stat=6)
    histories(ctx, exe, JS, W, 100 * n, 70, "jailr", blog=True)
    histories(ctx, exe, ["jaillong/mem", "jail/mem", "jail2/mem"], dict(W, setcwd=9, mkpath=6, mkdir=8), 100 * n, 70, "jaill", blog=True, names=LONG)
    histories(ctx, exe, ["jail/stdio", "rjail/stdio"], W, 40 * n, 70, "jails")
    from .c_fat import fathist
    fathist(ctx, ctx.build("base+fat"), ["jail/two", "jail/fat", "jail/fat1"], W, 45 * n, 70, "jailfat")
    return ctx.finish("model_checking", ["a path that fits once normalized but not as written may also be refused", "jails hold no symbolic links (the library has none)"])


def e06(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["stat", "del", "ren", "mkdir", "mkfile", "setcwd"]
    hs = model(ctx, "jail", ops, "jail and base side by side", Paths=A("/", "a", "b", "ab", "rel", "up", "upb", "cur"), MaxLen=ctx.pick(3, 4), MaxBusy=ctx.pick(3, 4))
    replay(ctx, exe, "jail", hs, ctx.pick(6000, 100000), "jail")
    hs = model(ctx, "jail", ["open", "close", "write", "read", "del", "mkpath", "opend", "rdd"], "jail: files and directories", Paths=A("/", "a", "ab", "rel", "upb"), Flags=NUM(3, 16, 1), Ns=NUM(2), MaxLen=ctx.pick(3, 4))
    replay(ctx, exe, "jail", hs, ctx.pick(4000, 60000), "jailf")
    JS = ["jail/mem", "jail2/mem", "trace/jail/mem", "jail/trace/mem", "two"]
    histories(ctx, exe, JS, dict(ALL, setcwd=4, getcwd=5), 100 * n, 70, "jailr")
    histories(ctx, exe, ["jail/stdio", "rjail/stdio"], dict(ALL, setcwd=4, getcwd=4), 60 * n, 70, "jails")
    histories(ctx, exe, ["jaillong/mem"], dict(CWD), 30 * n, 60, "jaill", names=LONG)
    pre = ["reg_mem m 1", f"mput m {H('/a')} 1 x"]
    W = {k: v for k, v in dict(ALL, copy=3).items() if k not in ("getcwd", "setcwd")}
    pairs(ctx, exe, pre, pre + [f"reg_jail j m {H('/a')} 0"], "m", "j", "/a", W, 96 * n, 60, "jailp", clean=True)
    pairs(ctx, exe, pre, pre + [f"reg_trace t m 0", f"reg_jail j t {H('/a')} 0"], "m", "j", "/a", W, 32 * n, 60, "jailtp", clean=True)
    from .c_fat import fathist
    fathist(ctx, ctx.build("base+fat"), ["jail/fat", "jail/fat1", "jail/two"], dict(ALL, setcwd=4, getcwd=5), 36 * n, 70, "jailfat")
    return ctx.finish("model_checking", [])


def e07(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["open", "close", "read", "write", "stat", "del", "ren", "mkdir", "setcwd", "opend", "rdd", "seek", "trunc"]
    hs = model(ctx, "trace", ops, "traced and direct views side by side", Paths=A("/", "a", "b", "ab"), Flags=NUM(3, 1), Ns=NUM(2), MaxLen=3)
    replay(ctx, exe, "trace", hs, ctx.pick(6000, 60000), "trace")
    W = dict(ALL, reports=25, copy=2, seek=6, ro=1)
    histories(ctx, exe, ["trace/mem", "trace/stdio", "trace/jail/mem", "jail/trace/mem"], W, 80 * n, 80, "reports")
    pre = ["reg_mem m 1"]
    W = dict(ALL, copy=3, ro=1)
    pairs(ctx, exe, pre, pre + ["reg_trace t m 0"], "m", "t", "", W, 120 * n, 60, "tracep")
    pairs(ctx, exe, pre, pre + ["reg_trace t m 0", "reg_trace u t 0"], "m", "u", "", W, 32 * n, 60, "trace2p")
    pj = pre + [f"mput m {H('/a')} 1 x", f"reg_jail j m {H('/a')} 0"]
    pairs(ctx, exe, pj, pj + ["reg_trace t j 0"], "j", "t", "", W, 48 * n, 60, "tracejp")
    pr = pre + ["reg_rotate r m 3 32 0"]
    WR = dict(W, trim=4, ctl=3, open=9, write=10)
    pairs(ctx, exe, pr, pr + ["reg_trace t r 0"], "r", "t", "", WR, 32 * n, 60, "tracerp")
    pairs(ctx, exe, pr, pr + [f"reg_jail j r {H('/')} 0", "reg_trace t j 0"], "r", "t", "", {k: v for k, v in WR.items() if k not in ("getcwd", "setcwd")}, 16 * n, 60, "tracejrp")
    pairs(ctx, exe, pre + [f"reg_jail j m {H('/')} 0"], pre + ["reg_trace t m 0", f"reg_jail j t {H('/')} 0"], "j", "j", "", W, 32 * n, 60, "jailtp")
    return ctx.finish("model_checking", ["reports are counted, their wording is not constrained"])


def e13(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["open", "close", "write", "trunc", "del", "ren", "mkdir", "mkpath", "mkfile", "ro", "copy"]
    hs = model(ctx, "mem", ops, "read-only setting", Paths=A("a", "b", "ab"), Flags=NUM(1, 3, 16, 32, 8, 10, 5, 7), Hs=NUM(1), Ns=NUM(0, 2), MaxLen=ctx.pick(4, 5), MaxBusy=2)
    replay(ctx, exe, "mem", hs, ctx.pick(7000, 80000), "ro")
    replay(ctx, exe, "stdio", hs, ctx.pick(4000, 50000), "ro")
    hs = model(ctx, "jail", ops, "read-only setting through a jail", Paths=A("a", "rel"), Flags=NUM(3, 16, 32, 8), Ns=NUM(0), MaxLen=ctx.pick(3, 4), MaxBusy=3)
    replay(ctx, exe, "jail", hs, ctx.pick(3000, 50000), "rojail")
    histories(ctx, exe, STDSTACKS + ["stdio"], RO, 100 * n, 70, "ros")
    histories(ctx, exe, MEMSTACKS, RO, 60 * n, 70, "rom")
    histories(ctx, exe, ["rotate/mem", "rotate/stdio", "rotate/jail/mem"], dict(RO, mkfile=0, copy=0, ren=0), 30 * n, 60, "ror")
    from . import c_arch
    w = dict(c_arch.W_ROM, write=6, trunc=5, mkdir=5, mkpath=5, ren=5, mkfile=5, puts=3, copy=4, sync=2, shaky=0, opend=2, rdd=4)
    w["del"] = 5
    for kind in ("tar", "romfs"): ctx.conform(exe, c_arch.scripts(ctx, kind, 50 * n, 60, w), "Trace_Fs", tag="ro" + kind)
    from .c_fat import fathist
    fathist(ctx, ctx.build("base+fat"), ["fat", "trace/fat", "jail/fat", "two"], RO, 40 * n, 70, "rofat")
    return ctx.finish("model_checking", [])


def e14(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["stat", "del", "ren", "mkdir", "mkpath", "mkfile"]
    hs = model(ctx, "mem", ops, "tree operations", Paths=A("/", "a", "b", "ab", "aa", "ba", "aba"), MaxLen=ctx.pick(4, 5), MaxBusy=ctx.pick(3, 4))
    replay(ctx, exe, "mem", hs, ctx.pick(5000, 100000), "tree")
    hs = [h for h in hs if all(len(c.get("p", "x")) > 1 and len(c.get("q", "xx")) > 1 for c in h)]
    replay(ctx, exe, "stdio", hs, ctx.pick(9000, 100000), "tree")
    histories(ctx, exe, STDSTACKS, TREE, 100 * n, 80, "trees")
    histories(ctx, exe, MEMSTACKS + ["two"], TREE, 90 * n, 80, "treem")
    histories(ctx, exe, ROTSTACKS, dict(TREE, mkfile=0, ren=0), 30 * n, 60, "treer")
    # making deep paths through every kind of spelling, with obstacles
    histories(ctx, exe, MEMSTACKS + STDSTACKS, dict(mkpath=12, mkdir=3, mkfile=3, stat=4, dump=2, setcwd=1), 60 * n, 40, "mkpath", depth=4)
    return ctx.finish("model_checking", [])


def e15(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["mkdir", "mkfile", "del", "opend", "rdd", "find", "rwd", "closed"]
    hs = model(ctx, "mem", ops, "directory iteration", Paths=A("/", "a", "b", "ab", "aa"), Pats=SEQ("*", "b", "[!a]"), Ds=NUM(1), MaxLen=ctx.pick(5, 6), MaxBusy=3)
    replay(ctx, exe, "mem", hs, ctx.pick(4000, 60000), "dirs")
    hs = [h for h in hs if all(not (c["op"] in ("del", "mkdir", "mkfile") and len(c["p"]) == 1) for c in h)]
    replay(ctx, exe, "stdio", hs, ctx.pick(4000, 60000), "dirs")
    histories(ctx, exe, STDSTACKS, DIRS, 80 * n, 70, "dirss", pats=PATSD)
    histories(ctx, exe, MEMSTACKS, DIRS, 60 * n, 70, "dirsm", pats=PATSM)
    globs(ctx, exe)
    return ctx.finish("model_checking", ["sets whose first member is ']' or that hold a dash as a member, and unclosed sets, are not constrained (undocumented)"])


PATSD = ["*", "f*", "d*", "?1", "*2", "[df]1", "[!d]*", "f[0-9]", "??", "???", "*[12]", "w", "*f*", "**", "*?", ".*", "", "[a-e]?", "zz", "f1*"]
PATSM = ["*", "a*", "?", "*b", "[a-c]", "[!a]*", "*a*b", "ab", "a?", "[ab][ab]", "**", ".*", "", "*[!b]", "[a-bc]"]


def globs(ctx, exe):
    import itertools
    alpha = ["a", "b", "?", "*", "[ab]", "[!a]", "[a-c]", "/", "[!a-b]", "-"]
    texts = ["".join(t) for k in range(0, ctx.pick(4, 5)) for t in itertools.product("ab/", repeat=k)]
    scripts = []
    r = ctx.rng
    pats = ["".join(p) for k in range(0, ctx.pick(4, 5)) for p in itertools.product(alpha, repeat=k)]
    if len(pats) > ctx.pick(1200, 12000): pats = r.sample(pats, ctx.pick(1200, 12000))
    for p in pats:
        scripts.append([f"glob {H(p)} {H(t)}" for t in r.sample(texts, min(len(texts), 14))])
    # every byte value against single-character matchers
    for p in ("?", "*", "[!a]", "[\x01-\xff]", "[ -~]", "[\x80-\xff]", "[a-z]"):
        scripts.append([f"glob {H(p)} {H(bytes([c]))}" for c in range(1, 256)])
        scripts.append([f"glob {H('x' + p + 'y')} {H(b'x' + bytes([c]) + b'y')}" for c in range(1, 256)])
    # random longer patterns derived from a text so that they often match
    for _ in range(ctx.pick(400, 6000)):
        cmds = []
        for _ in range(20):
            t = "".join(r.choice("abc.x-1/\\") if r.random() < .5 else chr(r.randint(1, 255)) for _ in range(r.randint(0, 12)))
            p = ""
            for c in t:
                x = r.random()
                if x < .45: p += c if c not in "[]*?" else "?"
                elif x < .55: p += "?"
                elif x < .65: p += "*"
                elif x < .72: p += "*" + (c if c not in "[]*?" else "?")
                elif x < .8 and c not in "]!-/\\": p += "[" + r.choice(["q", "", "0-9"]) + c + "]"
                elif x < .86 and c not in "/\\": p += "[!" + r.choice(["q", "0-9", "A-F", "Z"]) + "]"
                elif x < .92 and 2 < ord(c) < 250 and c not in "/\\]-": p += "[" + chr(ord(c) - 1).replace("]", "a").replace("-", "a").replace("!", "0").replace("/", "0").replace("\\", "0") + "-" + chr(ord(c) + 1).replace("]", "^").replace("-", ".").replace("/", "0").replace("\\", "^") + "]"
                elif x < .96: pass
                else: p += r.choice("abc*?")
            cmds.append(f"glob {H(p)} {H(t)}")
        scripts.append(cmds)
    # malformed patterns: only that they come back
    for _ in range(ctx.pick(60, 600)):
        scripts.append([f"glob {H(''.join(r.choice('[]!-*?ab') for _ in range(r.randint(1, 9))))} {H(''.join(r.choice('ab-]!') for _ in range(r.randint(0, 6))))}" for _ in range(20)])
    ctx.conform(exe, scripts, "Trace_Fs", tag="glob")


def e16(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["open", "close", "write", "seek", "copy", "mkdir", "del", "mkfile"]
    hs = model(ctx, "mem", ops, "copying", Paths=A("a", "b", "ab"), Flags=NUM(3), Chunks=SEQ("x", "pqr"), MaxLen=ctx.pick(5, 6), MaxBusy=2)
    replay(ctx, exe, "mem", hs, ctx.pick(4000, 60000), "copy")
    replay(ctx, exe, "stdio", hs, ctx.pick(3000, 40000), "copy")
    histories(ctx, exe, MEMSTACKS + STDSTACKS + ["mem+stdio"], COPY, 120 * n, 70, "copyr")
    histories(ctx, exe, ["mem+stdio", "stdio", "mem", "jail/mem"], COPY, 24 * n, 40, "copyl", longn=True, maxlen=6000)
    copyfaults(ctx, exe)
    return ctx.finish("model_checking", [])


def copyfaults(ctx, exe):
    """copies during which the storage below or memory fails: reported, and success means complete"""
    r = ctx.rng
    scripts = []
    for i in range(ctx.pick(500, 6000)):
        size = r.choice([0, 1, 2, 10, 64, 65, 130, 300, 1000, 4097])
        stacks = [["reg_mem m 1"], ["reg_mem m 1", "reg_trace t m 0"], ["reg_mem m 1", f"reg_jail j m {H('/')} 0"]]
        pre = r.choice(stacks)
        v = pre[-1].split()[1]
        data = bytes(r.randrange(256) for _ in range(size))
        s = list(pre) + [f"mput m {H('/src')} 0 {H(data)}", f"open 1 {r.choice(['m', v])} {H('/src')} 1"]
        buf = r.choice([0, 1, 7, 64, 100, 1000, -7, -100])
        k = r.random()
        if k < .75:
            mask = r.choice([64, 128, 64 | 128, 2048, 65536, 1, -1, 512])
            s += [f"fault {r.choice([1, 1, 2, 3, 5, 9])} {r.choice([1, 1, 2, 99])} {r.choice([1, 1, 2, 3])} {mask}"]
        else:
            s += [f"mfail {r.randint(1, 5)}"]
        s += [f"copy {v} {H('/dst')} 1 {buf}", "nofault", "nomfail", "dump m"]
        scripts.append(s)
    # formatted output under failures
    for i in range(ctx.pick(200, 2000)):
        s = ["reg_mem m 1", f"open 1 m {H('/x')} 16"]
        t = "".join(r.choice("ab%s d") for _ in range(r.choice([0, 1, 10, 63, 64, 65, 200, 900])))
        cmd = f"puts 1 {H(t)}" if r.random() < .5 else f"printf 1 {H(t)} {r.randint(-9**9, 9**9)}"
        s += [r.choice([f"fault 1 {r.choice([1, 9])} {r.choice([1, 2, 3])} 128", f"mfail {r.randint(1, 3)}"]), cmd, "nofault", "nomfail", "dump m"]
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_CopyFault", tag="copyf")


def e20(ctx):
    exe = ctx.build()
    n = ctx.pick(1, 12)
    ops = ["mkdir", "del", "setcwd", "stat", "mkfile"]
    hs = model(ctx, "mem", ops, "current directory", Paths=A("/", "a", "ab", "rel", "rela", "up", "upb", "upupa", "cur", "dup"), MaxLen=ctx.pick(4, 5), MaxBusy=3)
    replay(ctx, exe, "mem", hs, ctx.pick(6000, 80000), "cwd")
    hs = model(ctx, "jail", ["mkdir", "setcwd", "stat"], "current directories of a jail and its base", Paths=A("/", "a", "ab", "rel", "up", "upb", "cur"), MaxLen=ctx.pick(4, 5), MaxBusy=3)
    replay(ctx, exe, "jail", hs, ctx.pick(6000, 80000), "cwdj")
    histories(ctx, exe, MEMSTACKS + ["two", "two", "jaillong/mem", "mem+stdio"], CWD, 100 * n, 80, "cwdm")
    histories(ctx, exe, STDSTACKS, dict(CWD, stat=12), 60 * n, 70, "cwds")
    histories(ctx, exe, ["two", "jaillong/mem", "mem"], dict(CWD, mkpath=5), 40 * n, 70, "cwdl", names=LONG)
    from .c_fat import fathist
    fathist(ctx, ctx.build("base+fat"), ["fat", "fat1", "two", "trace/fat", "jail/fat1"], CWD, 60 * n, 80, "cwdfat")
    return ctx.finish("model_checking", ["current directories are not deleted or renamed while in use on stdio"])


RUN = dict(E05=e05, E06=e06, E07=e07, E12=e12, E13=e13, E14=e14, E15=e15, E16=e16, E20=e20)


def run(ctx): return RUN[ctx.pid](ctx)
