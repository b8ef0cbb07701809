"""E24: bounded strings, util/range_strings.c and bsd_string.c; specs/StrRange.tla, MC_StrRange.tla, Trace_StrRange.tla."""
import json
from .core import *


def X(b): return "x" + (b.encode() if isinstance(b, str) else bytes(b)).hex()


def randoms(ctx, n, nops):
    out = []
    r = ctx.rng
    al = [b"ab", b"a", bytes(range(1, 256)), b"ab ./\\", b"%dn s"]
    for _ in range(n):
        size = r.choice([0, 1, 2, 3, 4, 5, 8, 12, 12, 30, 30, 100, 255, 256])
        def text(m=None):
            k = r.choice([0, 1, 1, 2, 3, r.randint(0, 12), max(0, r.choice([size, size - 1, size + 1, size // 2])) if r.random() < .3 else 2]) if m is None else m
            a = r.choice(al)
            return bytes(r.choice(a) for _ in range(k))
        s = []
        def new():
            if r.random() < .04: return "null"
            f = r.choice([b"Z" * size, b"Z" * size, bytes(size), bytes(r.choice(b"Z\0 a") for _ in range(size))])
            return f"new {X(f)}"
        s.append(new())
        for _ in range(r.randint(3, nops)):
            x = r.random()
            if x < .3: s.append(f"{r.choice(['cats', 'cats', 'fmt', 'vfmt', 'catr', 'copy 0', 'copy 1'])} {X(text())}")
            elif x < .36: s.append(f"fmt2 {X(b'q' + text())}")
            elif x < .42:
                t = text()
                if r.random() < .4 and t: i = r.randrange(len(t)); t = t[:i] + b"\0" + t[i + 1:]
                s.append(f"{r.choice(['catr', 'catrn'])} {X(t)}")
            elif x < .5: s.append(f"{r.choice(['catsn', 'catrn'])} {X(text())}")
            elif x < .58: s.append(f"{r.choice(['catc', 'catcn'])} {r.choice([97, 47, 46, 127])}")
            elif x < .7:
                v = r.choice([0, 1, 9, 10, 99, 100, r.randrange(100000), r.randrange(1 << 31), (1 << 31) - 1])
                if r.random() < .5: s.append(f"uint {r.choice([v, v, r.randrange(1 << 31, 1 << 32), (1 << 32) - 1])}")
                else: s.append(f"int {r.choice([v, -v])}")
            elif x < .78: s.append(r.choice(["term", f"setlen {r.choice([0, 1, 2, size, size + 1, r.randint(0, size + 1)])}", f"pad {r.choice([32, 46])}", "len"]))
            elif x < .88: s.append(new())
            elif x < .96: s.append(f"{r.choice(['strlcpy', 'strxcpy', 'strlcat', 'strlcat'])} {r.choice([0, 1, size, size, max(0, size - 1), r.randint(0, size)])} {X(text())}")
            else: s.append("len")
        out.append(s)
    return out


def looks(ctx, n):
    out = []
    r = ctx.rng
    sp = b" \t\n\v\f\r"
    for _ in range(n):
        s = []
        for _ in range(30):
            t = bytes(r.choice(r.choice([b"ab", sp, b"a \t", bytes(range(1, 256)), b"0123456789", b" \0a"])) for _ in range(r.randint(0, 9)))
            x = r.random()
            if x < .25: s.append(f"{r.choice(['ltrim', 'rtrim', 'trim'])} {X(t)}")
            elif x < .45:
                t = t.replace(b"\0", b"c")
                u = r.choice([t, t[:-1], t + b"a", t[1:], bytes(reversed(t)), t[:-1] + b"b", b""])
                s.append(f"{r.choice(['eq', 'eqr'])} {X(t)} {X(u)}")
            elif x < .52:
                k = r.randint(1, 6); t = bytes(r.choice(b"0123456789") for _ in range(k))
                if r.random() < .6: i = r.randrange(k); t = t[:i] + bytes([r.choice([47, 58, 45, 43, 32, 97, 0xb2])]) + t[i + 1:]
                s.append(f"isint {X(t)}")
            elif x < .58: s.append(f"puts {X(t)}")
            else:
                D = r.choice([b"/", b"/\\", b",; ", b"b", b""])
                t = bytes(r.choice(b"ab" + D * 2) for _ in range(r.randint(0, 14)))
                if r.random() < .5: s.append(f"tok {X(t)} {X(D)}")
                else:
                    k = r.randint(0, len(t)) if r.random() < .7 else len(t)
                    s.append(f"tokl {k} {1 if k < len(t) or r.random() < .4 else 0} {X(t)} {X(D)}")
        out.append(s)
    return out


def e24(ctx):
    exe = ctx.build("base", "strdrv.c")
    r = ctx.rng
    for size in ctx.pick([0, 1, 2, 4, 5], [0, 1, 2, 3, 4, 5, 6, 8]):
        g = ctx.mc("MC_StrRange", cfg(consts=dict(Size=size, Texts="@Words", MaxLen=ctx.pick(4, 5)), spec="MCSpec", invariants=["InOrder", "Inside", "Ends"], view="View", constraint="Bounded", action_constraint="Gen"), label=f"buffer of {size} bytes")
        hs = maximal(g)
        lim = ctx.pick(2500, 30000)
        if len(hs) > lim: hs = r.sample(hs, lim)
        sc = []
        for h in hs:
            s = [f"new {X(b'Z' * size)}"]
            for c in h:
                t = bytes(c["t"])
                s.append(f"catc 120" if c["op"] == "catc" else f"{c['op']} {X(t)}" if c["op"] != "cats" or r.random() < .6 else f"{r.choice(['fmt', 'vfmt'])} {X(t)}")
            sc.append(s + ["len"])
        ctx.conform(exe, sc, "Trace_StrRange", tag=f"fill{size}")
    # every token and trimming of every short string
    al = ["", "a", "/", " "]
    strs = [""]; 
    for _ in range(ctx.pick(5, 7)): strs = sorted(set(strs) | {s + c for s in strs for c in "a/ "})
    sc = [[l for t in strs[i:i + 60] for l in (f"tok {X(t)} x2f20", f"tok {X(t)} x2f", f"trim {X(t)}", f"ltrim {X(t)}", f"rtrim {X(t)}", *(f"tokl {k} {int(k < len(t))} {X(t)} x2f" for k in range(len(t) + 1)))] for i in range(0, len(strs), 60)]
    ctx.conform(exe, sc, "Trace_StrRange", tag="short")
    ctx.conform(exe, randoms(ctx, ctx.pick(1500, 20000), 30), "Trace_StrRange", tag="rand")
    ctx.conform(exe, looks(ctx, ctx.pick(500, 6000)), "Trace_StrRange", tag="looks")
    return ctx.finish("model_checking", ["fixed point formatting is not covered", "INT_MIN is documented as unsupported"])


RUN = dict(E24=e24)


def run(ctx): return RUN[ctx.pid](ctx)
