"""E23: threads. Conc.tla gives the orders in which threads move; the real library (threads on) is driven through them and
through hand-overs at any basic block, and every recorded history must be explained by some one-at-a-time execution."""
from .core import *
from .archives import *
from . import c_arch, c_res

A, B = "/", "/d"
LONG = "/" + "x" * 120 + "/" + "x" * 123


class World:
    """what one scenario mounts, what each thread may call, and what is looked at afterwards"""
    def __init__(self, setup, mk, final, module="Trace_Conc", consts=None, shape="one"):
        self.setup, self.mk, self.final, self.module, self.consts, self.shape = setup, mk, final, module, consts, shape


def fs_calls(rng, views, t, n, P=H, files=("/f", "/g"), dirs=("/d", "/e"), deep=True, bad=True, ro=False):
    """calls of thread t: names of its own and names all threads use; handles of its own"""
    own = [f"/t{t}", f"/t{t}x"]
    out, h, d = [], None, None
    while len(out) < n:
        v = rng.choice(views)
        shared = list(files) + ["/d/" + x[1:] for x in files] if deep else list(files)
        p = rng.choice(shared + own)
        r = rng.random()
        if bad and r < .14:
            x = rng.choice([LONG, LONG + "/" + "y" * 30, "/nope/x"]); k = rng.random()
            out.append(f"stat {v} {P(x)}" if k < .4 else f"open {10 * t + 9} {v} {P(x)} 1" if k < .6 else f"mkdir {v} {P(x)}" if k < .7 else f"opend {10 * t + 9} {v} {P(x)}" if k < .8 else f"ren {v} {P(p)} {P(x)}" if k < .9 else f"del {v} {P(x)}")
        elif r < .30: out.append(f"stat {v} {P(rng.choice([p] + list(dirs)))}")
        elif r < .36: out.append(rng.choice(["exf", "exd"]) + f" {v} {P(rng.choice([p] + list(dirs)))}")
        elif r < .44 and not ro: out.append(f"mkdir {v} {P(rng.choice(list(dirs) + own))}")
        elif r < .50 and not ro: out.append(f"del {v} {P(rng.choice([p, rng.choice(dirs)]))}")
        elif r < .58 and not ro: out.append(f"ren {v} {P(p)} {P(rng.choice(shared + own))}")
        elif r < .62: out.append(f"getcwd {v} 256")
        elif r < .67 and not ro: out.append(f"mkpath {v} {P(rng.choice(['/p/q', '/p/r', '/p/q/s', '/p']))}")
        elif r < .74:
            if d is None: d = 10 * t + 1; out.append(f"opend {d} {v} {P(rng.choice(['/'] + list(dirs)))}")
            else: out.append(rng.choice([f"rdd {d}", f"rdd {d}", f"rwd {d}", f"closed {d}"])); d = None if out[-1].startswith("closed") else d
        else:
            if h is None: h = 10 * t + 1; out.append(f"open {h} {v} {P(p)} {rng.choice([1, 1] if ro else [1, 3, 19, 35, 7, 11, 10])}")
            else:
                k = rng.random()
                if k < .3 and not ro: out.append(f"write {h} {H(bytes([65 + t]) * rng.randint(1, 4))}")
                elif k < .6: out.append(f"read {h} {rng.randint(1, 5)}")
                elif k < .7: out.append(f"seek {h} {rng.randint(0, 4)} 1")
                elif k < .75: out.append(f"tell {h}")
                elif k < .8: out.append(f"size {h}")
                elif k < .85 and not ro: out.append(f"trunc {h} {rng.randint(0, 3)}")
                else: out.append(f"close {h}"); h = None
    return out


def look(views, paths, P=H):
    """afterwards: every layer still answers, and answers what it should"""
    s = []
    for v in views:
        for p in paths: s.append(f"stat {v} {P(p)}")
        s += [f"open 60 {v} {P(paths[0])} 1", "read 60 50", "close 60", f"opend 60 {v} {P('/')}", "rdd 60", "closed 60"]
    return s


def base_tree(root=""):
    return [f"mput m {H(root + '/d')} 1 x", f"mput m {H(root + '/f')} 0 {H('file f')}", f"mput m {H(root + '/d/f')} 0 {H('f in d')}", f"mput m {H(root + '/e')} 1 x"]


def w_jail(rng):
    kind = rng.choice(["one", "deep", "deep", "trace", "two"])
    pre = ["reg_mem m 1", "vctl m 50 1", f"mput m {H('/a')} 1 x"] + base_tree("/a")
    if kind == "one": setup, views = pre + [f"reg_jail j m {H('/a')} 0"], ["j", "m"]
    elif kind == "deep": setup, views = pre + [f"reg_jail j m {H('/a')} 0", f"reg_jail k j {H('/d')} 0"], ["j", "k"]
    elif kind == "trace": setup, views = pre + [f"reg_jail j m {H('/a')} 0", "reg_trace t j 0"], ["j", "t"]
    else: setup, views = pre + ["reg_trace t m 0", f"reg_jail j t {H('/a')} 0", f"reg_jail k m {H('/a/d')} 0"], ["j", "k"]
    return World(setup + ["blog 1"], lambda t, n: fs_calls(rng, views if rng.random() < .6 else [rng.choice(views)], t, n), look(views, ["/f", "/t0", "/t1"]) + ["dump m"], shape="deep")


def w_arch(rng, kinds=("tar", "romfs")):
    """an archive mounted from a file and one from memory; possibly a jail above"""
    kind = rng.choice(kinds)
    tree = {("d",): (True, b""), ("d", "f"): (False, b"in d " * 3), ("f",): (False, b"0123456789abcdef" * 4), ("g",): (False, b"GGGG" * 200), ("e",): (True, b"")}
    if kind == "tar":
        img = b"".join([tar_member(rng, b"d/", b"5", b""), tar_member(rng, b"d/f", b"0", tree["d", "f"][1]), tar_member(rng, b"f", b"0", tree["f",][1]), tar_member(rng, b"g", b"0", tree["g",][1]), tar_member(rng, b"e/", b"5", b"")]) + b"\0" * 1024
        sp = {}
    else: img, tree, sp = romfs_from(rng, tree)
    how = rng.choice(["m", "m", "rsrc"])
    setup = ["reg_mem m 1"] + c_arch.mount(kind, "a", how, img, tree, rng, sp) + ([f"vctl a 50 1"] if kind == "romfs" else [])
    views = ["a"]; setup += [f"mput m {H('/o')} 1 x"]
    if rng.random() < .3 and kind == "tar": setup.append(f"reg_jail j a {H('/')} 0"); views = ["a", "j"]
    def mk(t, n):
        out, h = [], 10 * t + 1
        while len(out) < n:
            v = rng.choice(views); p = rng.choice(["/f", "/g", "/d/f", "/d", "/zz"]); k = rng.random()
            if k < .12: x = rng.choice([LONG + "/" + "y" * 30, LONG]); out.append(rng.choice([f"stat {v} {H(x)}", f"exf {v} {H(x)}", f"open {h + 8} {v} {H(x)} 1"]))
            elif k < .4: out.append(f"stat {v} {H(p)}")
            elif k < .45: out += [f"open {h + 2} m {H(f'/o/{t}')} 10", f"copy {v} {H(rng.choice(['/g', '/f', '/zz']))} {h + 2} {rng.choice([7, 200, 0])}", f"close {h + 2}"]
            elif k < .52: out.append(rng.choice([f"exd {v} {H(p)}", f"exf {v} {H(p)}", f"getcwd {v} 256", f"opend {h + 1} {v} {H('/d')}"]))
            elif kind == "romfs" and k < .65: out += [f"opend {h} {v} {H(rng.choice(['/', '/d']))}"] + [f"rdd {h}"] * rng.randint(1, 4) + [f"closed {h}"]
            else:
                out += [f"open {h} {v} {H(rng.choice(['/f', '/g', '/d/f']))} 1"]
                for _ in range(rng.randint(1, 3)): out.append(rng.choice([f"read {h} {rng.choice([1, 5, 20, 600])}", f"read {h} 7", f"seek {h} {rng.randint(0, 60)} 1", f"tell {h}", f"eof {h}"]))
                out.append(f"close {h}")
        return out
    fin = []
    for v in views: fin += [f"stat {v} {H('/f')}", f"open 60 {v} {H('/g')} 1", "read 60 900", "close 60", f"stat {v} {H('/zz')}"]
    return World(setup, mk, fin, shape="read")


def w_read(rng):
    """threads that read from one mount at once, each its own file or place"""
    kind, how = w_read.turn[w_read.n % len(w_read.turn)]; w_read.n += 1
    tree = {("d",): (True, b""), ("d", "f"): (False, b"in d " * 3), ("f",): (False, bytes(range(48, 112))), ("g",): (False, b"GHIJ" * 200)}
    if kind == "tar": img, sp = b"".join([tar_member(rng, b"d/", b"5", b""), tar_member(rng, b"d/f", b"0", tree["d", "f"][1]), tar_member(rng, b"f", b"0", tree["f",][1]), tar_member(rng, b"g", b"0", tree["g",][1])]) + b"\0" * 1024, {}
    else: img, tree, sp = romfs_from(rng, tree)
    files = ["/f", "/g"]
    setup = ["reg_mem m 1"] + c_arch.mount(kind, "a", how, img, tree, rng, sp) + ["reg_trace t a 0"]
    vs = rng.choice([["a", "a"], ["a", "t"]])
    for t in range(3):
        setup += [f"open {40 + t} {vs[t % 2]} {H(files[t % 2])} 1", f"read {40 + t} {rng.choice([1, 3])}"]
    def mk(t, n):
        h = 40 + t
        return rng.choice([[f"read {h} {rng.choice([2, 7])}", f"read {h} 3"], [f"seek {h} {rng.randint(0, 40)} 1", f"read {h} 5"], [f"read {h} 9", f"tell {h}"], [f"read {h} 900", f"eof {h}"],
                           [f"stat a {H(files[t % 2])}", f"read {h} 4"]])
    return World(setup, mk, [f"read {40 + t} 5" for t in range(3)] + [f"stat a {H('/f')}"] + [f"close {40 + t}" for t in range(3)], shape="read")


w_read.n, w_read.turn = 0, [("tar", "m"), ("romfs", "m"), ("tar", "rsrc"), ("romfs", "rsrc")]


def w_rotate(rng):
    """each thread on logs of its own, all behind one shared set of buffers"""
    mc, cs = rng.choice([(2, 32), (3, 40), (2, 50)])
    top = rng.choice(["r", "r", "t", "j"])
    setup = ["reg_mem m 0", f"mput m {H('/a')} 1 x", f"reg_rotate r m {mc} {cs} 0"] + (["reg_trace t r 0"] if top == "t" else [f"reg_jail j r {H('/a')} 0"] if top == "j" else [])
    nt = 2
    for t in range(nt): setup += [f"open {40 + t} {top} {H(f'/l{t}')} 3", f"write {40 + t} {H(bytes([97 + t]) * rng.randint(1, 2 * cs))}", f"close {40 + t}"]
    def mk(t, n):
        out, h = [], 10 * t + 1
        p = f"/l{t}"; out.append(f"open {h} {top} {H(p)} {rng.choice([3, 35, 35, 19])}")
        while len(out) < n:
            k = rng.random()
            if k < .45: out.append(f"write {h} {H(bytes([65 + t + len(out)]) * rng.choice([1, 5, cs - 1, cs, cs + 3, 2 * cs]))}")
            elif k < .6: out += [f"seek {h} 0 1", f"read {h} {rng.choice([5, cs, 3 * cs])}"]
            elif k < .68: out.append(f"trunc {h} {rng.choice([0, 1, cs, cs + 1])}")
            elif k < .75: out.append(f"trim {h} {rng.choice([1, cs, 2 * cs])}")
            elif k < .8: out.append(f"open {h + 5} {top} {H(LONG + "/" + "y" * 30)} 3")
            elif k < .86: out.append(f"stat {top} {H(p)}")
            elif k < .9: out += [f"close {h}", f"open {h} {top} {H(p)} {rng.choice([3, 35])}"]
            elif k < .95: out.append(f"size {h}")
            else: out += [f"close {h}", f"del {top} {H(p)}", f"open {h} {top} {H(p)} 35"]
        out.append(f"close {h}"); return out
    fin = []
    for t in range(nt): fin += [f"open 60 {top} {H(f'/l{t}')} 35", f"seek 60 0 1", "read 60 4000", f"write 60 {H('zzzz')}", "close 60"]
    return World(setup, mk, fin + ["dump m"], module="Trace_ConcRot", consts={"Buffered": "FALSE", "HalfMade": "FALSE"}, shape="deep")


def w_bare(rng):
    """a file system without optional calls becomes the default while the default is in use"""
    def mk(t, n):
        if t == 0: return [f"reg_bared b{i} 1" for i in range(rng.randint(1, 2))] + [f"findvfs b0"]
        return [rng.choice([f"del - {H('/x')}", f"mkdir - {H('/nodir/x')}", f"opend 11 - {H('/nodir')}", f"ren - {H('/x')} {H('/y')}", f"getcwd - 50", f"setcwd - {H('/nodir')}", f"vctl - 1 0", "dfltname", f"exd - {H('/nodir/x')}"]) for _ in range(n + 1)]
    return World(["blog 1", "reg_mem m1 1"], mk, ["dfltname", "findvfs b0", "findvfs m1"], module="Trace_ConcReg", shape="zero")


def w_path(rng):
    """paths made by several threads at once; directories nobody removes"""
    pre = ["reg_mem m 1", f"mput m {H('/a')} 1 x", f"mput m {H('/a/f')} 0 x"] + [f"reg_jail j m {H('/a')} 0"]
    top = rng.choice(["m", "j"]); ps = ["/p", "/p/q", "/p/q/r", "/p/s", "/f/x", "/w/p"]
    mk = lambda t, n: [rng.choice([f"mkpath {top} {H(rng.choice(ps))}"] * 3 + [f"exd {top} {H(rng.choice(ps))}", f"mkdir {top} {H('/p')}"]) for _ in range(n)]
    return World(pre + ["blog 1"], mk, [f"exd {top} {H(p)}" for p in ps] + ["dump m"], shape="one")


def w_stdio(rng):
    """real files: names of one's own, a directory in common"""
    pre = ["reg_stdio 1", "vctl stdio 50 1", f"hput {S('/a')} 1 x", f"hput {S('/a/f')} 0 {H('shared text')}", f"reg_jail j stdio {S('/a')} 0", "reg_trace t j 0"]
    def mk(t, n):
        out, h, p = [], 10 * t + 1, f"/t{t}"
        while len(out) < n:
            v = rng.choice(["j", "j", "t"]); k = rng.random()
            if k < .2: out += [f"open {h} {v} {H('/f')} 1", f"read {h} {rng.randint(1, 20)}", f"close {h}"]
            elif k < .5: out += [f"open {h} {v} {H(p)} {rng.choice([19, 7, 35])}", f"write {h} {H(bytes([65 + t]) * 3)}", f"close {h}"]
            elif k < .7: out.append(f"stat {v} {H(rng.choice(['/f', '/d', p]))}")
            elif k < .8: out.append(f"stat {v} {H(LONG)}")
            elif k < .9: out.append(f"mkdir {v} {H(rng.choice(['/d', p + 'd']))}")
            else: out.append(rng.choice([f"ren {v} {H(p)} {H(p + 'x')}", f"del {v} {H(p)}", f"exf {v} {H(p)}"]))
        return out
    return World(pre, mk, [f"stat j {H('/t0')}", f"stat t {H('/t1')}", "dump stdio"], shape="deep")


def w_reg(rng):
    empty = rng.random() < .4
    setup = [] if empty else ["reg_mem m1 1"] + rng.choice([[], ["reg_mem m2 0"], [f"reg_jail j m1 {H('/')} 0"]])
    def mk(t, n):
        me, out, mine = [f"t{t}", f"u{t}"] if not empty else [], [], []
        if empty: out.append(f"reg_mem {rng.choice(['m1', 'm2', 'm3'][t:t + 2])} {rng.choice([0, 0, 1])}")
        while len(out) < n:
            k = rng.random()
            if k < .4 and not empty:
                x = rng.choice(me)
                if x in mine: out.append(f"unreg {x}"); mine.remove(x)
                else: out.append(rng.choice([f"reg_trace {x} m1 {rng.choice([0, 0, 1])}", f"reg_jail {x} m1 {H('/')} {rng.choice([0, 0, 1])}"])); mine.append(x)
            elif k < .75: out.append(f"findvfs {rng.choice(['m1', 'm2', 't0', 't1', 'u0', 'j', 'zz'])}")
            elif k < .85: out.append("dfltname") if empty else out.append(f"stat m1 {H('/x')}")
            else: out.append(f"exf m1 {H('/x')}" if not empty else "findvfs m1")
        return out
    fin = [f"findvfs {x}" for x in ["m1", "m2", "m3", "t0", "t1", "u0", "u1", "j"]] + ["dfltname", f"stat - {H('/x')}"]
    return World(["blog 1"] + setup, mk, fin, module="Trace_ConcReg", shape="zero")


def w_fault(rng):
    """storage and memory failures meanwhile: every call still returns and names only its own paths"""
    pre = ["reg_mem m 1", f"mput m {H('/a')} 1 x"] + base_tree("/a") + [f"reg_jail j m {H('/a')} 0", f"reg_jail k j {H('/d')} 0"]
    roots = [c_arch.raw({"op": "root", "v": v, "p": list(p)}) for v, p in (("m", b""), ("j", b"/a"), ("k", b"/a/d"))]
    flt = rng.choice([f"fault {rng.randint(1, 6)} {rng.choice([1, 2, 99])} {rng.choice([1, 3])} -1", f"mfail {rng.randint(1, 6)}"])
    return World(pre + roots + ["blog 1", flt], lambda t, n: fs_calls(rng, ["j", "k"], t, n), ["nofault", "nomfail"] + look(["j", "k"], ["/f", "/t0"]), module="Trace_ConcFault", shape="deep")


KINDS = {"jail": w_jail, "arch": w_arch, "read": w_read, "rotate": w_rotate, "reg": w_reg, "fault": w_fault, "bare": w_bare, "path": w_path, "stdio": w_stdio}


def split(evs):
    out, cur = [], None
    for e in evs:
        if e["op"] == "reset": cur = []; out.append(cur)
        if cur is not None: cur.append(e)
    return out


def explore(ctx, exe, kind, nscen, budget, orders):
    """scenarios of one kind under many schedules; identical histories are judged once"""
    rng = ctx.rng
    scen = []
    for i in range(nscen):
        w = KINDS[kind](rng); nt = 3 if kind in ("jail", "arch", "fault") and rng.random() < .15 else 2
        if kind == "reg": nt = 2
        lens = rng.choice([(2, 2), (1, 3), (3, 3), (4, 2)]) + (2,)
        th = [w.mk(t, lens[t]) for t in range(nt)]
        scen.append((w, w.setup + [f"@{t} {c}" for t in range(nt) for c in th[t]], nt))
    # how many steps each takes when nobody is disturbed
    probe = [s + [f"go f {t}"] for (w, s, nt) in scen for t in range(nt)]
    par = []
    def chunked(scripts, per):
        return [scripts[i:i + per] for i in range(0, len(scripts), per)]
    with ThreadPoolExecutor(NCPU) as ex:
        for evs, rc, asan in ex.map(lambda b: ctx.drive(exe, b, "probe", 60), chunked(probe, 60)): par += [[e for e in g if e["op"] == "par"] for g in split(evs)]
    jobs, at = [], 0
    for (w, s, nt) in scen:
        st = [par[at + t][0]["st"] if at + t < len(par) and par[at + t] else None for t in range(nt)]; at += nt
        if None in st: jobs.append((w, s + ["go f 0"] + w.final)); continue    # it hung: let the judgement say so
        scheds = []
        for a in range(nt):                       # one hand-over anywhere, and back at once or when the other is through
            for k in range(1, st[a][a] + 1):
                b = rng.choice([x for x in range(nt) if x != a])
                scheds.append([a, f"{k}:{b}"])
        if len(scheds) > budget * 6 // 10: scheds = rng.sample(scheds, budget * 6 // 10)
        tot = sum(st[0])
        while len(scheds) < budget * 8 // 10:     # several hand-overs
            pts = sorted(rng.sample(range(1, tot + 2), min(tot, rng.choice([2, 2, 3, 4, 6, 12]))))
            scheds.append([rng.randrange(nt)] + [f"{p}:{rng.randrange(nt)}" for p in pts])
        sc = [s + ["go f " + " ".join(map(str, x))] + w.final for x in scheds]
        os_ = [o for o in orders[w.shape if nt == 2 else "three"]]
        for o in rng.sample(os_, min(len(os_), budget * 2 // 10)): sc.append(s + ["go c " + " ".join(str(t - 1) for t in o)] + w.final)
        jobs += [(w, x) for x in sc]
    ctx.nscripts += len(jobs)
    seen = {}
    def run(b):
        evs, rc, asan = ctx.drive(exe, [x for w, x in b], kind, 60)
        return b, split(evs), asan
    with ThreadPoolExecutor(NCPU) as ex:
        for b, gs, asan in ex.map(run, chunked(jobs, 250)):
            for (w, x), g in zip(b, gs):
                g = steps(w.module, [e for e in g if e["op"] not in ("par", "end")])
                for e in g:
                    e.pop("leak", None); e.pop("live", None); e.pop("fh", None); e.pop("th", None)
                key = json.dumps(g)
                if key not in seen: seen[key] = (w, x, g, asan)
    ctx.schedules = getattr(ctx, "schedules", 0) + len(jobs); ctx.distinct = getattr(ctx, "distinct", 0) + len(seen)
    # judge
    groups = {}
    for w, x, g, asan in seen.values(): groups.setdefault((w.module, json.dumps(w.consts)), []).append((w, x, g, asan))
    for (mod, cj), lst in groups.items():
        rng.shuffle(lst); consts = json.loads(cj)
        per = max(1, min(150, (len(lst) + NCPU - 1) // NCPU))
        bs = chunked(lst, per)
        def judge(b):
            evs = [e for (_, _, g, _) in b for e in g]
            n, k, out = ctx._trace_tlc(mod, consts, evs)
            return b, evs, n, k
        with ThreadPoolExecutor(NCPU) as ex:
            for b, evs, n, k in ex.map(judge, bs):
                ctx.events += k
                for e in evs: ctx.kinds[e["op"]] = ctx.kinds.get(e["op"], 0) + 1
                if k >= n: ctx.traces += len(b); continue
                acc = 0
                for i, (w, x, g, asan) in enumerate(b):
                    if acc + len(g) > k: break
                    acc += len(g)
                ctx.traces += i
                if len(ctx.violations) < 3: confirm(ctx, exe, w, x, kind)
        if len(ctx.samples) < 4: ctx.samples.append({"script": lst[0][1][:30], "events": [json.dumps(e)[:200] for e in lst[0][2][-12:]]})


def steps(mod, g):
    """making a path is not one step: each part of it may come into being at its own moment within the call"""
    if mod != "Trace_Conc": return g
    out = []
    for e in g:
        if e["op"] == "mkpath" and "inv" in e:
            n = len([x for x in bytes(e["p"]).replace(b"\\", b"/").split(b"/") if x])
            out += [dict(op="mkstep", v=e["v"], p=e["p"], i=i, inv=e["inv"], rt=e["rt"]) for i in range(1, n)]
        out.append(e)
    return out


def leftovers(ctx, exe):
    """one thread, every call answered or refused for every reason: the next call on the same layer must not wait"""
    r, out = ctx.rng, []
    longs = ["/" + "/".join(["n" * 60] * k) for k in (4, 5)]
    for name in sorted(c_res.stacks(r)):
        pre, base, views = c_res.stacks(r)[name]
        v, P, tp, rot = views[0]
        cs = [(c, z) for c, z in c_res.calls(v, P, tp, rot)]
        for x in longs + [tp + "/nope/x", tp + "/f/x"]:
            q = P(x); ok = P(tp + "/f")
            cs += [(c, None) for c in (f"stat {v} {q}", f"exf {v} {q}", f"exd {v} {q}", f"del {v} {q}", f"mkdir {v} {q}", f"mkpath {v} {q}", f"setcwd {v} {q}", f"ren {v} {q} {ok}", f"ren {v} {ok} {q}", f"copy {v} {q} 7 0", f"getcwd {v} 3")]
            cs += [(f"open 5 {v} {q} {fl}", "close 5") for fl in (1, 3, 35)] + [(f"opend 5 {v} {q}", "closed 5")]
        steps = []
        for c, z in cs:
            for what in [None] + ([f"fault {k} {n} {kind} -1" for k in (1, 2, 3, 5) for n, kind in ((1, 1), (9, 1), (1, 2))] if base == "m" else []) + [f"mfail {k}" for k in (1, 2, 3)]:
                if what and r.random() < ctx.pick(.75, 0): continue
                steps += ([what] if what else []) + [c] + (["nomfail", "nofault"] if what else []) + ([z] if z else []) + [f"stat {v} {P(tp + '/f')}"]
        if rot == 1:      # logs whose storage fails somewhere inside one call
            lg = P(tp + "/log")
            steps += [f"open 1 {v} {lg} 10"] + [f"write 1 {H(b'0123456789' * 5)}"] * 2 + ["close 1"]
            for k in range(1, ctx.pick(10, 40)):
                for mask in (-1, 1, 2, 4, 64 | 128):
                    w = [f"open 5 {v} {lg} {r.choice([3, 35, 1, 3])}"] + r.sample([f"write 5 {H(b'abc' * r.randint(1, 20))}", "seek 5 0 1", "seek 5 60 1", "read 5 99", "read 5 3", f"trunc 5 {r.randint(0, 90)}", "trim 5 41", "size 5"], r.randint(2, 6)) + ["close 5"]
                    fl = f"fault {k if mask == -1 else r.randint(1, 3)} {r.choice([1, 1, 9])} 1 {mask}" if base == "m" else f"mfail {k}"
                    at = r.randint(0, len(w) - 1); w[at:at] = [fl]
                    steps += w + ["nofault", "nomfail", f"stat {v} {lg}", f"open 5 {v} {lg} 3", "read 5 9", f"write 5 {H('x')}", "close 5"]
        for ch in range(0, len(steps), 400): out.append(pre + steps[ch:ch + 400])
    ctx.conform(exe, out, "Trace_ConcFault", tag="left")
    c_res.sweeps(ctx, [n for n in sorted(c_res.stacks(r)) if "/" in n or n in ("jail", "rot", "trace", "tar", "romfs")], ctx.pick(12, 300), "res", exe)


def confirm(ctx, exe, w, x, kind):
    evs, rc, asan = ctx.drive(exe, [x], kind, 60)
    evs = [e for g in split(evs) for e in g if e["op"] not in ("par", "end")]
    evs = steps(w.module, evs)
    n, k, out = ctx._trace_tlc(w.module, w.consts, evs)
    if k < n: ctx.violation(kind, [x], evs, k, w.module, w.consts, asan, exe)
    else: ctx.flaky += 1; ctx.notes.append("rejection not repeated")


def e23(ctx):
    exe = ctx.build("conc")
    orders = {}
    for sh in ("zero", "one", "deep", "read", "three"):
        c = {"Calls": "@MCCalls", "Layers": 2, "Shape": f'"{sh}"'}
        orders[sh] = maximal(ctx.mc("MC_Conc", cfg(consts=c, invariants=["OwnOnly", "FreeWhenIdle", "HeldByRunner", "NoDeadlock"], view="View", action_constraint="Gen"), workers=1, label="orders " + sh))
        ctx.mc("MC_Conc", cfg(spec="Live", consts=c, properties=["AllReturn"]), label="returns " + sh)
    for kind, n in (("jail", 12), ("arch", 10), ("read", 4), ("rotate", 8), ("reg", 8), ("fault", 8), ("bare", 4), ("path", 6), ("stdio", 3)):
        explore(ctx, exe, kind, ctx.pick(n, 12 * n), ctx.pick(250, 1500), orders)
    leftovers(ctx, exe)
    other = ctx.build("conc+noshared+romwalk")
    for kind, n in (("jail", 3), ("arch", 4), ("rotate", 2)): explore(ctx, other, kind, ctx.pick(n, 8 * n), ctx.pick(200, 1000), orders)
    return ctx.finish("model_checking", ["threads run one at a time and change over at basic blocks of the library, lock operations and operations of the file system below; races visible only inside one basic block or through reordered memory accesses are not explored",
                                         "file systems below are atomic per operation"],
                      {"schedules_run": ctx.schedules, "distinct_histories": ctx.distinct})


RUN = {"E23": e23}
def run(ctx): return RUN[ctx.pid](ctx)
