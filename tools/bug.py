#!/usr/bin/env python3
"""bug.py make ID FILE   (stdin: OLD\\n====\\nNEW blocks separated by a line %%%%; FILE may be overridden by a first line '@ file')
   bug.py confirm ID...   build + stable tests + demo on the unchanged tree and with the patch
   bug.py check ID [PROPERTY]   run the check (quick) against the patched tree
All of it applies the patch in /repo's working tree and undoes it straight afterwards."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VF_REPO", "/repo")    # a scratch clone while /repo is in use, with its own copy of the build scripts in VF_VP
VP = os.environ.get("VF_VP", "/opt/vp")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo():
    sh(f"git -C {R} checkout -- .")


def build():
    return sh(f"bash {VP}/build.sh")


def demo(i):
    try:
        r = subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=R, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def make(i, f):
    os.makedirs(f"{V}/seeded/{i}", exist_ok=True)
    assert not sh(f"git -C {R} status --short").stdout
    try:
        for blk in sys.stdin.read().split("\n%%%%\n"):
            if blk.startswith("@ "):
                f, blk = blk[2:].split("\n", 1)
            a, b = blk.split("\n====\n") if "\n====\n" in blk else (blk.split("\n====")[0], "")
            a = a.strip("\n"); b = b.strip("\n")
            s = open(f"{R}/{f}").read()
            assert s.count(a) == 1, (s.count(a), a)
            open(f"{R}/{f}", "w").write(s.replace(a, b))
        d = sh(f"git -C {R} diff").stdout
        open(f"{V}/seeded/{i}/patch.diff", "w").write(d)
        print(d)
    finally:
        undo()


def confirm(i):
    d = f"{V}/seeded/{i}"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    build()
    rc0, o0 = demo(i)
    try:
        r = sh(f"git -C {R} apply {d}/patch.diff")
        if r.returncode: return print(i, "DOES NOT APPLY", r.stderr)
        b = build()
        if b.returncode: return print(i, "BUILD FAILS", b.stdout[-1500:])
        sh(f"bash {VP}/test.sh /tmp/bugtest.json")
        t = json.load(open("/tmp/bugtest.json"))
        rc1, o1 = demo(i)
    finally:
        undo(); build()
    ok = rc0 == 0 and rc1 != 0 and not t["failed"]
    print(i, "OK" if ok else "BAD", "demo", rc0, rc1, "tests", len(t["passed"]), "failed", t["failed"][:5], "" if ok else o0 + o1)


def check(i, pid=None):
    d = f"{V}/seeded/{i}"
    pid = pid or json.load(open(f"{d}/meta.json"))["property"]
    try:
        r = sh(f"git -C {R} apply {d}/patch.diff")
        if r.returncode: return print(i, "DOES NOT APPLY", r.stderr)
        r = sh(f"python3 {V}/check.py {pid} quick", cwd=V, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
    finally:
        undo()
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, pid, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", r.stdout.splitlines()[-1] if r.stdout else r.stderr[-800:])


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "make": make(sys.argv[2], sys.argv[3])
    elif c == "confirm":
        for i in sys.argv[2:]: confirm(i)
    elif c == "check":
        check(sys.argv[2], *sys.argv[3:])
    elif c == "checkall":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): check(i)
