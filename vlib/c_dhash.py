"""E22: the lookup table of util/dhash.c; specs/DHash.tla, MC_DHash.tla, Trace_DHash.tla."""
import json
from .core import *

PHI, M64 = 0x9e3779b97f4a7c15, (1 << 64) - 1


def h32(k): return ((k * PHI) & M64) >> 32


def ints_with(homes, start=1):
    """integers whose first buckets in tables of 11 and 29 are the ones wanted"""
    out, k = {}, start
    for name, (a, b) in homes.items():
        while not (h32(k) % 11 == a and h32(k) % 29 == b) or k in out.values(): k += 1
        out[name] = k
    return out


HOMES = dict(f1=(3, 28), f2=(4, 28), f3=(4, 0), f4=(5, 0), f5=(6, 1), f6=(7, 1), a=(9, 28), b=(10, 28), c=(10, 0), d=(0, 27), e=(1, 5))
BUCKET = 24


def replays(ctx, hs, fixed, start):
    ks = ints_with(HOMES, start)
    out = []
    r = ctx.rng
    for h in hs:
        vs = r.choice([3, 4, 8, 20])
        st = 11 * (BUCKET + (vs + 7) // 8 * 8) + r.choice([0, 0, 7, 40])
        s = [f"new 2 {r.choice([0, 5, 11])} {vs} {st if fixed else 0} {int(fixed)} {r.choice([0, 0, 1])} -1"]
        i = 1
        for n in ("f1", "f2", "f3", "f4", "f5", "f6"): s.append(f"ins {ks[n]} {i}"); i += 1
        for c in h:
            if c["op"] == "ins": s.append(f"ins {ks[c['k']]} {i}"); i += 1
            else: s.append(f"{r.choice(['rem', 'take'])} {ks[c['k']]}")
        s += ["iter"] + [f"{r.choice(['look', 'peek', 'exists'])} {k}" for k in ks.values()] + ["free"]
        out.append(s)
    return out


def randoms(ctx, n, nops):
    out = []
    r = ctx.rng
    for _ in range(n):
        kind = r.choice([0, 0, 1, 2, 2, 3, 4])
        vs = r.choice([0, 1, 2, 3, 4, 7, 8, 8, 12, 24, 33])
        top = 1 if vs == 0 else 200 if vs == 1 else 60000
        bs = BUCKET + (vs + 7) // 8 * 8
        ext = r.random() < .35
        lim = 0
        if ext: lim = r.choice([11, 11, 12, 29, 30, 47, 47, 10, 3, 1, 0]) * bs + r.choice([0, 0, 1, bs - 1])
        elif r.random() < .3: lim = r.choice([11, 29, 30, 47, 100, 5]) * bs + r.choice([0, 1])
        grow = r.choice([-1, -1, -1, 0, 1, 2, 100])
        rep = r.choice([0, 0, 1, 2])
        s = []
        if r.random() < .04: s.append("mfail 1")
        s.append(f"new {kind} {r.choice([0, 1, 5, 10, 11, 12, 28, 29, 30, 47, 48, 60, r.randint(0, 600)])} {vs} {lim} {int(ext)} {rep} {grow}")
        nk = r.choice([4, 9, 12, 14, 14, 30, 60, 90])
        if kind == 2:
            base = r.choice([0, 1000, r.randrange(1 << 31)])
            ks = [str(base + i * r.choice([1, 11, 29])) for i in range(nk)]
            if r.random() < .5:
                x = [k for k in range(base, base + 40000) if h32(k) % 11 in (9, 10, 0)][:nk]; ks = [str(k) for k in x]
        else:
            al = b"abABxyz019/._-" if kind == 1 else bytes(range(1, 256))
            L = r.choice([1, 2, 2, 3, 12])
            ks = [bytes(r.choice(al) for _ in range(r.randint(0 if r.random() < .3 else 1, L))).hex() for i in range(nk)]
        ks = [k for k in ks if kind == 2 or True]
        bias = r.choice([.3, .5, .7])
        v = lambda: 0 if vs == 0 else r.randrange(top)
        for _ in range(r.randint(nops // 3, nops)):
            x = r.random(); k = r.choice(ks)
            if kind == 1 and r.random() < .5: k = bytes(ord(chr(b).swapcase()) if chr(b).isalpha() and b < 128 else b for b in bytes.fromhex(k)).hex()
            k = k or "-"
            if x < .62:
                if r.random() < bias: 
                    if r.random() < .03: s.append("mfail 1")
                    s.append(f"ins {k} {v()}")
                else: s.append(f"{r.choice(['rem', 'take'])} {k}")
            elif x < .8: s.append(f"{r.choice(['look', 'look', 'peek', 'exists'])} {k}")
            elif x < .84: s.append(f"poke {k} {v()}")
            elif x < .89: s.append("iter")
            elif x < .93: s.append(f"each {r.choice([0, 1, 2, 5])}")
            elif x < .96: s.append(f"reserve {r.choice([0, 1, 2, 5, 17, 18, 28, 50, 63, r.randint(1, 300)])}")
            elif x < .97: s.append(f"growok {r.choice([0, 1, 5])}")
            else:
                for q in r.sample(ks, min(len(ks), 12)): s.append(f"{r.choice(['rem', 'ins', 'ins'])} {q or '-'} {v()}")
        s += ["iter"] + [f"look {k or '-'}" for k in ks[:20]] + ["free"]
        out.append(s)
    return out


def longs(ctx, n):
    """tables that live through many removals, and large ones"""
    out = []
    r = ctx.rng
    for i in range(n):
        vs = r.choice([3, 8])
        bs = BUCKET + 8
        keep = r.choice([1, 3, 9, 10])
        p = r.choice([11, 11, 11, 29]) if i % 3 else 11
        if p == 29: keep = r.choice([5, 20, 27])
        st = r.random() < .6
        lim = p * bs
        s = [f"new 2 {p} {vs} {lim if st else 0} {int(st)} 0 {-1 if st else r.choice([-1, 0])}"]
        first = r.randrange(1, 1 << 28)
        for _ in range(r.choice([1, 3])):
            m = 150000 if i < 4 else r.choice([400, 20000, 60000]) if p == 11 else r.choice([5000, 100000])
            s.append(f"churn {m} {keep} {first}"); s += ["iter", f"look {first + m - 1}", f"look {first + m - keep - 1}", f"look {first + m - keep}"]
            first += m
            for j in range(keep): s.append(f"rem {first - 1 - j}")
            s += ["iter"]
        out.append(s + ["free"])
        m = r.choice([40, 300, 3000, 20000])
        s = [f"new 2 {r.choice([0, 11, m])} {vs} 0 0 0 {r.choice([-1, 100])}"]
        if r.random() < .5: s.append(f"reserve {m}")
        s += [f"bulk {m} {first}", f"checksum {m} {first}"]
        out.append(s)
    for p in ctx.pick([25, 60, 76, 93, 104, 127, 151, 394], list(range(1, 700))):     # what is reserved is there
        for used in (0, 3, 9):
            s = ["new 2 0 8 0 0 0 100"] + [f"ins {9000 + j} 1" for j in range(used)]
            for d in (-1, 0, 1, 2): s.append(f"reserve {max(1, p + d)}")
            s += ["iter"]
            out.append(s)
    return out


def e22(ctx):
    common = dict(Keys='{"f1", "f2", "f3", "f4", "f5", "f6", "a", "b", "c", "d", "e"}', Home="@Homes", MaxLoad="@Loads")
    inv = ["Finds", "OnceEach", "Accounted", "Ordered"]
    exe = ctx.build("base", "dhdrv.c")
    r = ctx.rng
    lim = ctx.pick(3000, 60000)
    for fixed in (True, False):
        g = ctx.mc("MC_DHash", cfg(consts=dict(common, Sizes="@TwoSizes", Fixed=str(fixed).upper(), MaxLen=ctx.pick(5, 6)), spec="MCSpec", invariants=inv, view="View", constraint="Bounded", action_constraint="Gen"), label=f"table of 11 buckets, {'fixed' if fixed else 'growing to 29'}")
        hs = sorted(maximal(g), key=json.dumps)
        if len(hs) > lim: hs = r.sample(hs, lim)
        ctx.conform(exe, replays(ctx, hs, fixed, r.randrange(1, 1 << 20)), "Trace_DHash", tag="fixed" if fixed else "grows")
    ctx.conform(exe, randoms(ctx, ctx.pick(900, 15000), 60), "Trace_DHash", tag="rand")
    ctx.conform(exe, randoms(ctx, ctx.pick(60, 1200), 600), "Trace_DHash", tag="randlong")
    ctx.conform(exe, longs(ctx, ctx.pick(14, 150)), "Trace_DHash", tag="long")
    return ctx.finish("model_checking", ["chains of colliding keys shorter than the probe limit (32767)", "callbacks do not call back into the table", "strings without NUL bytes"])


RUN = dict(E22=e22)


def run(ctx): return RUN[ctx.pid](ctx)
