"""E02 E03 E04: path functions"""
from .core import *

A = [ord(c) for c in "/\\.a"]
AD = [ord(c) for c in "/.a:"]
CW = ["/", "/d", "/dd/e", "/a/bb/ccc"]
SEGS = ["a", "bb", ".", "..", "...", "..a", ".a", "a.", "a.b", "..a.b", "x" * 30, "aa..bb", "c.tar.gz", ".h.c", " ", "\xe9"]


def seg_path(rng, n, drive=False, absolute=None):
    seps = ["/", "/", "/", "\\", "//", "/\\/"]
    s = "" if not drive else rng.choice(["C:", "0:", "z:"])
    if rng.random() < .5 if absolute is None else absolute: s += rng.choice(["/", "/", "//", "\\", "/" * 17, "\\/" * 9])
    for i in range(n):
        s += rng.choice(SEGS if rng.random() < .5 else ["a", "b", "..", "."]) + (rng.choice(seps) if i < n - 1 or rng.random() < .3 else "")
    return s


def exhaustive(ctx, n, drv=False):
    c = {"N": n, "Alphabet": "{" + ",".join(map(str, AD if drv else A)) + "}", "Drv": "TRUE" if drv else "FALSE"}
    g = ctx.mc("MC_PathOps", cfg(consts=c, invariants=["Canonical", "SplitLossless", "ExtOk", "AbsOk"], action_constraint="Gen"),
               label="MC_PathOps" + ("/drive" if drv else ""))
    return [[]] + g


def pre(v, rng=None, cwd=None):
    return [("reg_memd " if v == "d" else "reg_mem ") + v + " 0"] + ([f"mcwd {v} " + H(cwd)] if cwd else [])


def chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def tojoin(p):
    return bytes(p).decode("latin-1")


def run(ctx):
    exe = ctx.build()
    rng = ctx.rng
    scripts = []
    ps = [tojoin(p) for p in exhaustive(ctx, ctx.pick(6, 8))]
    pd = [tojoin(p) for p in exhaustive(ctx, ctx.pick(5, 7), True)]
    rnd = [seg_path(rng, rng.choice([1, 2, 3, 4, 6, 10, 31, 32, 33, 34, 40, 64, 65])) for _ in range(ctx.pick(1500, 15000))]
    rndd = [seg_path(rng, rng.choice([0, 1, 2, 3, 6, 33, 40]), True) for _ in range(ctx.pick(500, 5000))]
    if ctx.pid == "E02":
        for ch in chunks([(p, "m") for p in ps + rnd] + [("\\".join(["a"] * k) + "/.." * j, "m") for k in (1, 30, 31, 32, 33) for j in (0, 1, 2, 31, 40)], 60):
            s = pre("m")
            for p, v in ch:
                cap = 2 * len(p) + 40
                s += [f"norm m {H(p)} {cap} 0", f"norm m {H(p)} {cap} 1"]
            scripts.append(s)
        for ch in chunks(pd + rndd, 60):
            s = pre("d")
            for p in ch:
                cap = 2 * len(p) + 40
                s += [f"norm d {H(p)} {cap} 0", f"norm d {H(p)} {cap} 1"]
            scripts.append(s)
        cws = CW + ["/" + "/".join(["dir"] * 20), "/" + "q" * 100]
        sh = [p for p in ps if rng.random() < ctx.pick(.35, .6)] + [p for p in rnd if len(p) < 120]
        for ch in chunks(sh, 60):
            cw = rng.choice(cws); s = pre("m", cwd=cw)
            for p in ch:
                s += [f"abs m {H(p)} {rng.choice([256, 255, 250])} {ip}" for ip in (0, 1)]
            scripts.append(s)
        for ch in chunks([p for p in pd if rng.random() < ctx.pick(.5, 1)] + [p for p in rndd if len(p) < 120], 60):
            cw = rng.choice(["C:/", "A:/foo", "0:/x/yy", "/", "/w"]); s = pre("d", cwd=cw)
            for p in ch:
                s += [f"abs d {H(p)} 256 {ip}" for ip in (0, 1)]
            scripts.append(s)
    elif ctx.pid == "E03":
        some = rng.sample(ps, min(len(ps), ctx.pick(350, 3000))) + [p for p in rnd if len(p) < 90][:ctx.pick(150, 1500)]
        for ch in chunks(some, 12):
            cw = rng.choice(CW + ["/" + "q" * 40]); s = pre("m", cwd=cw)
            for p in ch:
                top = len(p) + 3
                for cap in sorted(set(list(range(0, min(top, 12))) + [rng.randint(0, top) for _ in range(4)] + [top - 3, top - 2, top - 1, top])):
                    if cap < 0: continue
                    s.append(f"norm m {H(p)} {cap} 0")
                    if cap > len(p): s.append(f"norm m {H(p)} {cap} 1")
                tot = len(p) + len(cw) + 4
                for cap in sorted(set([0, 1, 2, 3, len(cw), len(cw) + 1, len(cw) + 2, tot - 3, tot - 2, tot - 1, tot, tot + len(cw)] + [rng.randint(0, tot) for _ in range(6)])):
                    s.append(f"abs m {H(p)} {cap} 0")
                    if cap > len(p): s.append(f"abs m {H(p)} {cap} 1")
            scripts.append(s)
        for ch in chunks([(p, q) for p in rng.sample(ps, ctx.pick(60, 400)) for q in rng.sample(ps, 6)], 25):
            s = pre("m")
            for p, q in ch:
                top = len(p) + len(q) + 3
                for cap in range(0, top + 1): s.append(f"join m {H(p)} {H(q)} {cap} {rng.choice([0, 1, 2])}")
            scripts.append(s)
        # around the library's path limit
        for k in (240, 250, 253, 254, 255, 256, 257, 260, 300, 600):
            s = pre("m", cwd="/cur")
            for cut in (1, 5, k // 2, k - 1):
                for cap in (k - 2, k - 1, k, k + 1, k + 2, k + 3, 255, 256, 257, 700):
                    s.append(f"join m {H('a' * cut)} {H('b' * (k - cut))} {cap} {rng.choice([0, 1, 2])}")
                    s.append(f"join m {H('/' + 'a' * (cut - 1))} {H('b' * (k - cut))} {cap} 0")
            for pth in ("a" * k, "/" + "a" * (k - 1), "/a/.." * (k // 5) + "/zz", "x/../" * (k // 5) + "y", "/" * k, "/" * (k - 3) + "ab", "a/" * (k // 2)):
                for cap in (1, 2, 8, 100, k - 1, k, k + 1, k + 2, k + 6, 255, 256, 257):
                    s.append(f"norm m {H(pth)} {cap} 0")
                    if cap > len(pth): s.append(f"norm m {H(pth)} {cap} 1")
                    s.append(f"abs m {H(pth)} {cap} 0")
                    if cap > len(pth): s.append(f"abs m {H(pth)} {cap} 1")
            scripts.append(s)
        for ch in chunks(pd[:ctx.pick(400, 10**9)] + rndd[:100], 20):
            cw = rng.choice(["C:/", "A:/foo", "0:/x/yy", "/"]); s = pre("d", cwd=cw)
            for p in ch:
                tot = len(p) + len(cw) + 4
                for cap in {0, 1, 2, 3, len(p), len(p) + 1, tot - 2, tot - 1, tot, rng.randint(0, tot), rng.randint(0, tot)}:
                    s += [f"norm d {H(p)} {cap} 0", f"abs d {H(p)} {cap} 0", f"join d {H(p)} {H(rng.choice(pd))} {cap} 0"]
                    if cap > len(p): s += [f"norm d {H(p)} {cap} 1", f"abs d {H(p)} {cap} 1"]
            scripts.append(s)
        for cw in CW + ["/" + "q" * 100, "/" + "/".join(["seg"] * 50)]:
            scripts.append(pre("m", cwd=cw) + [f"getcwd m {n}" for n in range(0, len(cw) + 4)])
    else:
        for ch in chunks(ps + rnd, 60):
            scripts.append(pre("m") + [f"split m {H(p)}" for p in ch])
        for ch in chunks(pd + rndd, 60):
            scripts.append(pre("d") + [f"split d {H(p)}" for p in ch])
        for ch in chunks([(rng.choice(ps + rnd), rng.choice(ps)) for _ in range(ctx.pick(1500, 20000))], 60):
            scripts.append(pre("m") + [f"join m {H(p)} {H(q)} 800 {rng.choice([0, 1, 2])}" for p, q in ch if len(p) + len(q) < 250])
        allch = [chr(c) for c in range(1, 256)]
        scripts.append(pre("m") + [f"split m {H(p)}" for ch in allch for p in (ch, "a" + ch + "b", "." + ch, ch + ".x", "/" + ch + "/" + ch)]
                       + [f"norm m {H(p)} 40 0" for ch in allch for p in (ch, "a" + ch + "b/..", "." + ch, ".." + ch + "/x", "/" + ch + "/." + ch)])
    # random bytes
    for _ in range(ctx.pick(20, 300)):
        s = pre("m", cwd=rng.choice(CW))
        for _ in range(40):
            p = "".join(rng.choice("/\\..ab") if rng.random() < .8 else chr(rng.randint(1, 255)) for _ in range(rng.randint(0, 40)))
            if ctx.pid == "E02": s += [f"norm m {H(p)} 100 {rng.choice([0, 1])}", f"abs m {H(p)} 200 {rng.choice([0, 1])}"]
            elif ctx.pid == "E03": s += [f"norm m {H(p)} {rng.randint(0, 45)} 0", f"abs m {H(p)} {rng.randint(0, 60)} 0"]
            else: s += [f"split m {H(p)}"]
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_PathOps", tag="path", batch_events=14000)
    return ctx.finish("model_checking", ["drive-relative paths (C:x) are only checked through absolute conversion",
                      "separators are / and \\ as configured"])
