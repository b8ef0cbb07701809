"""E19: what calls hold on to, and failing calls; decided with specs/Resources.tla and Trace_Resources.tla."""
from .core import *
from .fsgen import *
from .archives import *
from . import c_fs

OPENERS = 1 | 32
LOG = ("log", 2, 40)


def tree(v, P, put):
    """content below: files, directories, a log"""
    return [f"{put} {P('/a')} 1 x", f"{put} {P('/a/f')} 0 {H(b'hello')}", f"{put} {P('/a/d')} 1 x", f"{put} {P('/a/d/g')} 0 {H(b'deep')}",
            f"{put} {P('/a/e')} 1 x", f"{put} {P('/h')} 0 {H(b'top')}"]


def stacks(r):
    """name -> (prelude, base whose openings are counted, [(view, path function, prefix of the tree in it, rotate?)])"""
    T = tree("m", H, "mput m")
    Ts = tree("stdio", S, "hput")
    J = f"reg_jail j m {H('/a')} 0"
    img, tr = make_tar(r)
    rimg, rtr, sp = make_romfs(r)
    while not any(len(p) > 0 and not rtr[p][0] for p in rtr): rimg, rtr, sp = make_romfs(r)
    d = {
        "mem": (["reg_mem m 1"] + T, "m", [("m", H, "/a", 0)]),
        "jail": (["reg_mem m 1"] + T + [J], "m", [("j", H, "", 0)]),
        "trace": (["reg_mem m 1"] + T + ["reg_trace t m 0"], "m", [("t", H, "/a", 0)]),
        "jail/jail": (["reg_mem m 1"] + T + [f"reg_jail k m {H('/')} 0", f"reg_jail j k {H('/a')} 0"], "m", [("j", H, "", 0)]),
        "trace/jail": (["reg_mem m 1"] + T + [J, "reg_trace t j 0"], "m", [("t", H, "", 0)]),
        "jail/trace": (["reg_mem m 1"] + T + ["reg_trace t m 0", f"reg_jail j t {H('/a')} 0"], "m", [("j", H, "", 0)]),
        "rot": (["reg_mem m 1"] + T + ["reg_rotate r m 3 40 0"], "m", [("r", H, "/a", 1)]),
        "rot/jail": (["reg_mem m 1"] + T + [J, "reg_rotate r j 3 40 0"], "m", [("r", H, "", 1)]),
        "jail/rot": (["reg_mem m 1"] + T + ["reg_rotate r m 3 40 0", f"reg_jail j r {H('/a')} 0"], "m", [("j", H, "", 1)]),
        "trace/rot": (["reg_mem m 1"] + T + ["reg_rotate r m 3 40 0", "reg_trace t r 0"], "m", [("t", H, "/a", 1)]),
        "stdio": (["reg_stdio 1"] + Ts, "stdio", [("stdio", S, "/a", 0)]),
        "jail/stdio": (["reg_stdio 1"] + Ts + [f"reg_jail j stdio {S('/a')} 0"], "stdio", [("j", H, "", 0)]),
        "trace/stdio": (["reg_stdio 1"] + Ts + ["reg_trace t stdio 0"], "stdio", [("t", S, "/a", 0)]),
        "rot/stdio": (["reg_stdio 1"] + Ts + ["reg_rotate r stdio 3 40 0"], "stdio", [("r", S, "/a", 1)]),
        "rot/jail/stdio": (["reg_stdio 1"] + Ts + [f"reg_jail j stdio {S('/a')} 0", "reg_rotate r j 3 40 0"], "stdio", [("r", H, "", 1)]),
    }
    for kind, im, tt in (("tar", img, tr), ("romfs", rimg, rtr)):
        fs = [p for p in tt if p and not tt[p][0]]
        f = "/" + "/".join(r.choice(fs)) if fs else "/none"
        d[kind] = (["reg_mem m 1", f"mput m {H('/im')} 0 {H(im)}", f"reg_img {kind} t m {H('/im')} 0"], "m", [("t", H, f, 2)])
        d[kind + "/rsrc"] = (["reg_mem m 1", f"reg_rsrc {kind} t {H(im)} 0"], "m", [("t", H, f, 2)])
        d["jail/" + kind] = (["reg_mem m 1", f"mput m {H('/im')} 0 {H(im)}", f"reg_img {kind} t m {H('/im')} 0", f"reg_jail j t {H('/')} 0"], "m", [("j", H, f, 2)])
    return d


def calls(v, P, pre, rot):
    """(call, closer if it succeeds)"""
    p = lambda x: P(pre + x if pre != "" or x else x)
    c = []
    if rot == 2:
        for t in (pre, "/nope", "/", pre + "/x"): c += [(f"open 5 {v} {P(t)} 1", "close 5"), (f"opend 5 {v} {P(t)}", "closed 5")]
        c += [(f"open 5 {v} {P(pre)} 3", "close 5"), (f"setcwd {v} {P('/nope')}", None), (f"setcwd {v} {P('/')}", None), (f"stat {v} {P(pre)}", None), (f"del {v} {P(pre)}", None),
              (f"ren {v} {P(pre)} {P('/q')}", None), (f"mkdir {v} {P('/q')}", None), (f"getcwd {v} 256", None)]
        return c
    for t in ("/f", "/d", "/nope", "/f/x", "/no/x"):
        for fl in (1, 3, 8 | 2, 16 | 2, 32 | 2, 4 | 3):
            if t in ("/nope", "/f") or fl in (1, 10): c.append((f"open 5 {v} {p(t)} {fl}", "close 5"))
    c += [(f"opend 5 {v} {p(t)}", "closed 5") for t in ("/d", "/f", "/nope", "/d/../d/.")]
    c += [(f"stat {v} {p('/f')}", None), (f"exf {v} {p('/f')}", None), (f"exd {v} {p('/f')}", None), (f"del {v} {p('/d')}", None), (f"del {v} {p('/nope')}", None), (f"del {v} {p('/f')}", None), (f"del {v} {p('/e')}", None),
          (f"ren {v} {p('/f')} {p('/z')}", None), (f"ren {v} {p('/nope')} {p('/z')}", None), (f"mkdir {v} {p('/n')}", None), (f"mkdir {v} {p('/f')}", None),
          (f"mkpath {v} {p('/p/q/s')}", None), (f"mkpath {v} {p('/f/q')}", None), (f"setcwd {v} {p('/nope')}", None), (f"setcwd {v} {p('/d')}", None), (f"getcwd {v} 256", None),
          (f"copy {v} {p('/cp')} 7 0", None), (f"copy {v} {p('/f')} 7 0", None), (f"copy {v} {p('/cp')} 7 3", None)]
    long = "/" + "/".join(["n" * 60] * 5)
    c += [(f"open 5 {v} {P(long)} 1", "close 5"), (f"opend 5 {v} {P(long)}", "closed 5")]
    if rot:
        for fl in (1, 3, 2, 32 | 2, 16 | 2, 8 | 2, 4 | 3): c.append((f"open 5 {v} {p('/d')} {fl}", "close 5")); 
        for t in ("/log", "/log2"):
            for fl in (1, 3, 34, 18, 10, 7, 35): c.append((f"open 5 {v} {p(t)} {fl}", "close 5"))
        c += [(f"stat {v} {p('/log')}", None), (f"del {v} {p('/log')}", None), (f"opend 5 {v} {p('/log')}", "closed 5"), (f"ren {v} {p('/log')} {p('/lz')}", None)]
    return c


def sweeps(ctx, names, per, tag, exe, maxk=10):
    """one call, one failing operation or allocation below it: before, after and after closing"""
    r = ctx.rng
    for name in names:
        out = []
        for i in range(per):
            pre, base, views = stacks(r)[name]
            v, P, tp, rot = views[0]
            s = list(pre)
            if rot == 1:
                p = lambda x: P(tp + x)
                s += [f"open 1 {v} {p('/log')} 10"] + [f"write 1 {H(bytes(r.randrange(256) for _ in range(r.choice([10, 40, 60]))))}"] * r.choice([1, 2, 3]) + ["close 1"]
            if rot != 2: s += [f"open 7 {v} {P(tp + '/f')} 1"]
            if r.random() < .4 and rot != 2: s += [f"opend 6 {v} {P(tp + '/d')}"]
            s += [f"mstat {base}", f"dump {base}"]
            for call, closer in r.sample(calls(v, P, tp, rot), 6):
                kind = r.choice(["mem", "mem", "mem", "io", "io", "none"]) if base == "m" else r.choice(["mem", "mem", "none"])
                at = r.randint(1, maxk if rot != 1 else maxk * 3) if kind == "io" else r.randint(1, 6 if rot != 1 else 12)
                if kind == "mem": s.append(f"mfail {at}")
                if kind == "io": s.append(f"fault {at} {r.choice([1, 1, 1, 99])} {r.choice([1, 1, 2, 3])} -1")
                if call.startswith("copy"): s.append("seek 7 0 1")
                s.append(call)
                if kind == "mem": s.append("nomfail")
                if kind == "io" and r.random() < .8: s.append("nofault")
                s.append(f"mstat {base}")
                if base != "stdio" or True: s.append(f"dump {base}")
                if closer:
                    if kind != "io" and r.random() < .15 and base == "m": s.append("fault 1 9 1 -1")
                    if closer == "close 5" and r.random() < .3: s += [f"write 5 {H(b'zzzz')}", "read 5 3"]
                    if closer == "closed 5" and r.random() < .5: s += ["rdd 5"] * 3
                    s += [closer]
                s += ["nofault", f"mstat {base}"]
            s += ["close 7", "closed 6", f"mstat {base}", f"dump {base}"]
            out.append(s)
        ctx.conform(exe, out, "Trace_Resources", tag=f"{tag}-{name.replace('/', '_')}")


def mounting(ctx, exe, n):
    """registering over something with a failure on the way, and again without"""
    r = ctx.rng
    out = []
    for i in range(n):
        img, tr = make_tar(r); rimg, rtr, sp = make_romfs(r)
        s = ["reg_mem m 1", f"mput m {H('/im')} 0 {H(img)}", f"mput m {H('/ir')} 0 {H(rimg)}", f"mput m {H('/bad')} 0 {H(img[:400] + b'#' + img[401:] if r.random() < .5 else rimg[:13])}", f"mput m {H('/a')} 1 x", "mstat m"]
        for k in range(3):
            c = r.choice([f"reg_jail j m {H(r.choice(['/a', '/', 'a', '/nope']))} 0", "reg_trace j m 0", "reg_rotate j m 3 40 0", f"reg_img tar j m {H('/im')} 0", f"reg_img romfs j m {H('/ir')} 0",
                          f"reg_img tar j m {H('/ir')} 0", f"reg_img romfs j m {H('/im')} 0", f"reg_img tar j m {H('/bad')} 0", f"reg_img romfs j m {H('/bad')} 0", f"reg_rsrc tar j {H(img)} 0", f"reg_rsrc romfs j {H(rimg)} 0",
                          f"reg_rsrc tar j {H(rimg)} 0", f"reg_rsrc romfs j {H(img)} 0"])
            kind = r.choice(["mem", "mem", "mem", "io", "none"])
            if kind == "mem": s.append(f"mfail {r.randint(1, 8)}")
            if kind == "io": s.append(f"fault {r.randint(1, 9)} {r.choice([1, 1, 99])} {r.choice([1, 2])} -1")
            s += [c, "nomfail", "nofault", "mstat m", "unregif j", "mstat m"]
        out.append(s)
    ctx.conform(exe, out, "Trace_Resources", tag="mount")


def e19(ctx):
    g = ctx.mc("MC_Resources", cfg(consts=dict(Depth="@DepthOf", Handles="{1, 2}", MaxLen=ctx.pick(3, 4)), spec="MCSpec", invariants=["Accounted", "NothingHeld"], view="View", constraint="Bounded", action_constraint="Gen"), label="objects held through layers")
    ctx.mc("MC_Resources", cfg(consts=dict(Depth="@DepthOf", Handles="{1, 2}", MaxLen=0), spec="LiveSpec", invariants=["Accounted", "NothingHeld"], properties=["Returns"]), label="every call returns")
    hs = maximal(g)
    r = ctx.rng
    lim = ctx.pick(2500, 40000)
    if len(hs) > lim: hs = r.sample(hs, lim)
    P = {"m": "/a", "j": "", "tj": ""}
    sc = []
    for hist in hs:
        s = ["reg_mem m 1"] + tree("m", H, "mput m") + [f"reg_jail j m {H('/a')} 0", "reg_trace tj j 0", "mstat m", "dump m"]
        for c in hist:
            if c["w"] == "mem": s.append(f"mfail {c['at']}")
            if c["w"] == "base": s.append("fault 1 1 1 -1")
            if c["op"] == "open": s.append(f"opend {c['h']} {c['v']} {H(P[c['v']] + '/d')}" if c["dir"] else f"open {c['h']} {c['v']} {H(P[c['v']] + '/f')} {r.choice([1, 3])}")
            else: s.append(f"closed {c['h']}" if c["dir"] else f"close {c['h']}")
            if c["w"] == "mem": s.append("nomfail")
            if c["w"] == "base": s.append("nofault")
            if c["w"] and c["op"] == "open": s.append(f"closed {c['h']}" if c["dir"] else f"close {c['h']}")    # in case it was not needed
            s += ["mstat m", "dump m"]
        sc.append(s)
    for var in ("base", "noshared"):
        exe = ctx.build(var)
        ctx.conform(exe, sc if var == "base" else sc[::3], "Trace_Resources", tag="layers")
        names = sorted(stacks(r))
        sweeps(ctx, names, ctx.pick(60 if var == "base" else 25, 900), "sw", exe)
        mounting(ctx, exe, ctx.pick(150, 2500))
    exe = ctx.build("base")
    nulls = []
    for name in sorted(stacks(r)):
        pre, base, views = stacks(r)[name]
        v, P_, tp, rot = views[0]
        s = pre + [f"mstat {base}", f"dump {base}", f"nullarg {v}", f"mstat {base}", f"dump {base}"]
        f = tp if rot == 2 else tp + "/f"
        s += [f"open 1 {v} {P_(f)} 1", f"opend 1 {v} {P_('/' if rot == 2 else tp + '/d')}", "nullfh 1 1", "close 1", "closed 1", f"mstat {base}", f"dump {base}"]
        nulls.append(s)
    for lay in ([], [f"reg_jail j b {H('/')} 0"], ["reg_trace j b 0"], ["reg_rotate j b 3 40 0"], [f"reg_jail k b {H('/')} 0", "reg_trace j k 0"]):
        v = "j" if lay else "b"
        s = ["reg_mem m 1", "reg_bare b"] + lay + ["mstat m"]
        for c in (f"open 1 {v} {H('/x')} 1", f"open 1 {v} {H('/x')} 10", f"opend 1 {v} {H('/')}", f"opend 1 {v} {H('/x')}", f"del {v} {H('/x')}", f"ren {v} {H('/x')} {H('/y')}", f"mkdir {v} {H('/x')}", f"mkpath {v} {H('/x/y')}",
                  f"stat {v} {H('/x')}", f"exf {v} {H('/x')}", f"exd {v} {H('/x')}", f"setcwd {v} {H('/x')}", f"getcwd {v} 200", f"copy {v} {H('/x')} 1 0", f"vctl {v} 46 1", f"vctl {v} 50 1", "close 1", "closed 1", f"nullarg {v}"):
            s += [c, "mstat m"]
        nulls.append(s)
    nulls.append([f"open 1 zz {H('/x')} 1", f"open 1 zz {H('/x')} 6", f"opend 1 zz {H('/')}", f"mkpath zz {H('/a/b')}", f"copy zz {H('/a')} 1 0"])
    ctx.conform(exe, nulls, "Trace_Resources", tag="missing")
    return ctx.finish("model_checking", ["memory is accounted for calls made through the library's allocator hooks", "logs: what one keeps open between calls is not constrained, only that closing releases it"])


RUN = dict(E19=e19)


def run(ctx): return RUN[ctx.pid](ctx)
