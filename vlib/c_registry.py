from .core import *

PROBE_OPS = ["stat {v} " + H("/x"), "mkdir {v} " + H("/d/q"), "del {v} " + H("/nope"), "ren {v} " + H("/a") + " " + H("/b"),
             "exf {v} " + H("/x"), "exd {v} " + H("/x"), "opend 1 {v} " + H("/nodir"), "setcwd {v} " + H("/nodir")]


def line(c):
    op = c["op"]
    if op == "reg":
        d = int(c["d"])
        if c["k"] == "mem": return f"reg_mem {c['n']} {d}"
        if c["n"].startswith("j"): return f"reg_jail {c['n']} {c['b']} {H('/')} {d}"
        return f"reg_trace {c['n']} {c['b']} {d}"
    if op == "unreg": return f"unreg {c['n']}"
    return op


def probes(names, live, rng=None, full=True):
    out = ["dfltname"] + [f"findvfs {n}" for n in names]
    ops = PROBE_OPS if full else [PROBE_OPS[0], rng.choice(PROBE_OPS)]
    out += [o.format(v="-") for o in ops]
    for n in live: out += [o.format(v=n) for o in (ops if full else ops[:1])]
    return out


def live_after(cmds):
    s = []
    for c in cmds:
        if c["op"] == "reg":
            if c["n"] not in s and (c["k"] == "mem" or c["b"] in s): s.append(c["n"])
        elif c["op"] == "unreg" and c["n"] in s: s.remove(c["n"])
        elif c["op"] == "unregall": s = []
    return s


def run(ctx):
    exe = ctx.build()
    names = ["m1", "m2", "m3", "j", "t"]
    c = {"Base": '{"m1", "m2", "m3"}', "Shim": '{"j", "t"}'}
    gen = ctx.mc("MC_Registry", cfg(consts=c, invariants=["UniqueNames", "DefaultCoherent"], view="View", action_constraint="Gen",
                 properties=["LastMadeDefaultWins", "OthersKeepTheirTargets", "NoSpuriousDefaultChange"]))
    rng = ctx.rng
    gen = sorted(gen, key=lambda g: json.dumps(g))
    scripts = []
    limit = ctx.pick(6000, 10**9)
    if len(gen) > limit: gen = rng.sample(gen, limit)
    for g in gen:
        live = live_after(g)
        s = ["blog 1"] + [line(x) for x in g] + probes(names, live, rng, full=False)
        scripts.append(s)
    # long random histories with probes after every step
    for _ in range(ctx.pick(120, 1500)):
        cmds, s = [], ["blog 1"]
        for _ in range(rng.randint(5, ctx.pick(40, 120))):
            live = live_after(cmds)
            r = rng.random()
            if r < 0.55:
                n = rng.choice(names + ["j2", "t2"])
                if n.startswith("m"): cmd = {"op": "reg", "n": n, "d": rng.random() < .5, "k": "mem"}
                else:
                    b = {"j": "m1", "t": "j", "j2": rng.choice(["m2", "t"]), "t2": rng.choice(["m3", "m1", "j"])}[n]
                    cmd = {"op": "reg", "n": n, "d": rng.random() < .5, "k": "shim", "b": b}
                    if b not in live:   # documented error: base not registered
                        s.append(line(cmd)); s += ["dfltname"]; continue
            elif r < 0.95:
                n = rng.choice(names + ["j2", "t2", "ghost"])
                if n not in live and rng.random() < .7: continue
                # never pull a base from under a live layer
                users = {x["n"]: x.get("b") for x in cmds if x["op"] == "reg" and x["k"] == "shim"}
                if any(l in users and deps(l, cmds, n) for l in live if l != n): continue
                cmd = {"op": "unreg", "n": n}
            else: cmd = {"op": "unregall"}
            cmds.append(cmd); s.append(line(cmd))
            s += probes(rng.sample(names, 2), live_after(cmds), rng, full=rng.random() < .1)
        scripts.append(s)
    ctx.conform(exe, scripts, "Trace_Registry", tag="registry")
    ctx.conform_noinit(exe, "Trace_Registry")
    return ctx.finish("model_checking", ["file systems below are the in-memory base of harness/memvfs.c",
                      "a name that is not registered while others are is not constrained (falls to the default, undocumented)"])


def deps(l, cmds, n):
    """does live layer l (possibly through others) sit on n, by any of its registrations"""
    bases = [x.get("b") for x in cmds if x["op"] == "reg" and x["n"] == l and x.get("b")]
    return any(b == n or (b and deps(b, cmds, n)) for b in bases)
