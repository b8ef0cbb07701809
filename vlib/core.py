"""Shared machinery: build the harness from /repo's working tree, run scripts, run TLC, judge, write evidence."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")     # another tree only while developing
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
UID = 65534


class CheckError(Exception):
    pass


def H(b):
    """hex argument for the driver"""
    if isinstance(b, str): b = b.encode("latin-1")
    return "x" + b.hex()


def S(b):
    """hex argument below the scratch directory"""
    if isinstance(b, str): b = b.encode("latin-1")
    return "@" + b.hex()


def known_findings(pid):
    """open entries of the committed known-findings file for a property"""
    d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    return [k for k in d["findings"] if k["property"] == pid]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}-{seed}")
        self.work = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        os.chmod(self.work, 0o755)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.trans = 0
        self.mc_runs, self.act_counts = [], {}
        self.traces = self.events = 0
        self.nscripts = 0
        self.samples = []
        self.kinds = {}
        self.assumptions = []
        self.notes = []
        self.bins = {}
        self.flaky = 0
        for f in glob.glob(os.path.join(VERIF, "evidence", "replay", pid + "-*")): os.remove(f)

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ build
    def build(self, variant="base", driver="evdrv.c", san="address"):
        variant += os.environ.get("VF_OPT", "")      # development: all checks on another build variant
        key = (variant, driver, san)
        if key in self.bins: return self.bins[key]
        bd = os.path.join(self.work, "b-" + variant.replace("+", "_") + "-" + driver.replace(".c", ""))
        inc = os.path.join(bd, "include")
        shutil.copytree(os.path.join(REPO, "include"), inc)
        ver = "1.0.0"
        with open(os.path.join(inc, "evfs", "evfs_build_config.h"), "w") as f:
            f.write(f'#define EVFS_VERSION "{ver}"\n')
        flags = ["-std=gnu11", "-O1", "-g", "-D_GNU_SOURCE", "-DEVFS_DEBUG=1", "-w",
                 "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]
        if san: flags.append(f"-fsanitize={san}")
        opts = variant.split("+")
        cfg = os.path.join(inc, "evfs_config.h")
        txt = open(cfg).read()
        if "romwalk" in opts:
            txt = re.sub(r"^#define EVFS_USE_ROMFS_FAST_INDEX.*$", "", txt, flags=re.M)
        if "noshared" in opts:
            txt = re.sub(r"^#define EVFS_USE_\w+_SHARED_BUFFER.*$", "", txt, flags=re.M)
        open(cfg, "w").write(txt)
        src = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/util/*.c"))
        skip = ("evfs_c11_thread.c", "littlefs_fs.c", "littlefs_image.c")
        src = [s for s in src if os.path.basename(s) not in skip]
        incs = [inc, os.path.join(inc, "evfs"), os.path.join(REPO, "src"), HARN]
        libs = ["-lm"]
        if "off64" in opts: flags.append("-DEVFS_FILE_OFFSET_BITS=64")
        if "dh2x" in opts: flags.append("-DDH_USE_2X_GROWTH")
        if "conc" in opts: flags.append("-DWITH_CONC")
        if "pthread" in opts or "conc" in opts:
            flags.append("-DUSE_PTHREADS"); libs.append("-lpthread")
        else:
            src = [s for s in src if os.path.basename(s) != "evfs_pthread.c"]
        if "fat" in opts:
            ff = REPO + "/libraries/fatfs"
            src += [ff + "/source/ff.c", ff + "/source/ffunicode.c"]
            incs += [ff + "/source", ff]
            flags.append("-DWITH_FAT")
        else:
            src = [s for s in src if "fatfs" not in os.path.basename(s)]
        src += ([os.path.join(HARN, "memvfs.c")] if driver == "evdrv.c" else []) + [os.path.join(HARN, driver)]
        objs = []

        def cc(s):
            cov = ["-fsanitize-coverage=trace-pc"] if "conc" in opts and s.startswith(REPO) else []
            o = os.path.join(bd, hashlib.sha1(s.encode()).hexdigest()[:12] + ".o")
            r = subprocess.run(["gcc", *flags, *cov, *["-I" + i for i in incs], "-c", s, "-o", o],
                               capture_output=True, text=True)
            return o, r, s
        with ThreadPoolExecutor(NCPU) as ex:
            for o, r, s in ex.map(cc, src):
                if r.returncode: raise CheckError(f"compile {s}: {r.stderr[:3000]}")
                objs.append(o)
        exe = os.path.join(bd, "drv")
        wrap = ["-Wl," + ",".join("--wrap=" + n for n in ("malloc", "calloc", "realloc", "free", *(["pthread_mutex_lock", "pthread_mutex_unlock"] if "conc" in opts else [])))] if driver in ("evdrv.c", "dhdrv.c") else []
        r = subprocess.run(["gcc", *flags, *objs, *wrap, "-o", exe, *libs], capture_output=True, text=True)
        if r.returncode: raise CheckError("link: " + r.stderr[:3000])
        self.bins[key] = exe
        return exe

    # ------------------------------------------------------------ driver
    def conform_noinit(self, exe, module):
        """calls made before evfs_init()"""
        s = [["note noinit 1", "reg_mem m1 1", "dfltname", "findvfs m1", "blog 1", "stat - " + H("/x"), "init", "reg_mem m1 0", "dfltname", "stat m1 " + H("/x")]]
        self.conform(exe, s, module, tag="noinit", prefix="")

    def drive(self, exe, scripts, tag, watchdog=20, timeout=600, prefix="init\n"):
        """scripts: list of lists of commands; every script starts from 'reset'. Returns list of events."""
        d = tempfile.mkdtemp(prefix=f"run-{tag}-", dir=self.work)
        scr = os.path.join(d, "s"); os.mkdir(scr); os.chmod(d, 0o777); os.chmod(scr, 0o777)
        log = os.path.join(d, "log.ndjson"); open(log, "w").close(); os.chmod(log, 0o666)
        text = prefix + "".join("reset\n" + "\n".join(s) + "\n" for s in scripts)
        env = {"PATH": os.environ["PATH"], "HOME": d, "UBSAN_OPTIONS": "halt_on_error=1",
               "ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:exitcode=77:log_path={d}/asan:allocator_may_return_null=1"}
        try:
            p = subprocess.run([exe, log, scr, str(UID), str(watchdog)], input=text, text=True, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, cwd=d)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        evs = []
        with open(log, "r", errors="replace") as f:
            for line in f:
                line = line.strip()
                if not line: continue
                try: evs.append(json.loads(line))
                except ValueError: break
        asan = ""
        for a in glob.glob(d + "/asan*"):
            asan += open(a, errors="replace").read()[:1500]
        shutil.rmtree(d, ignore_errors=True)
        if rc in (95, 97, 98, 99): raise CheckError(f"driver rc={rc} ({tag})")
        if not (evs and evs[-1]["op"] in ("end", "HANG")):
            evs.append({"op": "DIED", "rc": rc})
        return evs, rc, asan

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, env=None, workers=1, timeout=600, mem="3g", extra=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in glob.glob(SPECS + "/*.tla"): os.symlink(f, os.path.join(d, os.path.basename(f)))
        cfg = os.path.join(d, "run.cfg"); open(cfg, "w").write(cfg_text)
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + mem, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", d + "/m", "-config", cfg, *extra, os.path.join(d, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            shutil.rmtree(d, ignore_errors=True)
            raise CheckError(f"TLC timeout {module}")
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def mc(self, module, cfg_text, timeout=600, workers=NCPU, mem="8g", env=None, label=None):
        """exhaustive model checking; returns the scripts printed by the generation constraint"""
        t = time.time()
        rc, out = self.tlc(module, cfg_text, workers=workers, timeout=timeout, mem=mem, env=env)
        if rc != 0:
            raise CheckError(f"model {module} failed rc={rc}\n" + out[-4000:])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dis; self.trans += gen
        self.mc_runs.append({"module": label or module, "distinct_states": dis, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        res = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        return res

    # ------------------------------------------------------------ validation
    def _trace_tlc(self, module, consts, events):
        fn = tempfile.mktemp(suffix=".ndjson", dir=self.work)
        with open(fn, "w") as f:
            for e in events: f.write(json.dumps(e) + "\n")
        cfg = f"SPECIFICATION {'ConcSpec' if module in ('Trace_Conc', 'Trace_ConcRot', 'Trace_ConcReg') else 'TraceSpec'}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        if consts: cfg += "CONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n"
        try:
            rc, out = self.tlc(module, cfg, env={"TRACE": fn}, timeout=800)
        finally:
            os.unlink(fn)
        m = re.search(r'TRACE-LEN (\d+) MATCHED (\d+)', out)
        if not m and "The behavior up to this point is" in out and "evaluating the nested" in out:
            # the event does not even make sense to the specification (names something that is not there)
            self.notes.append("evaluation error: " + out[out.find("The exception was"):][:300])
            return len(events), max(int(x) for x in re.findall(r"^State (\d+):", out, re.M)) - 1, out
        if not m:
            raise CheckError(f"trace TLC {module} rc={rc}: " + out[-3500:])
        n, k = int(m.group(1)), int(m.group(2))
        return n, k, out

    def validate(self, module, consts, jobs):
        """jobs: list of event lists. -> list of (index, matched, len)"""
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda ev: self._trace_tlc(module, consts, ev), jobs))

    def conform(self, exe, scripts, module, consts=None, tag="t", batch_events=9000, post=None, keep_op=None,
                watchdog=20, stop_after=3, raw_header=None, prefix="init\n"):
        """Run scripts through the real code and check the recorded behaviour against the trace spec."""
        if not scripts: return
        self.nscripts += len(scripts)
        # batch by script count
        total = sum(len(s) + 1 for s in scripts)
        nb = max(NCPU if total > 2000 else 1, (total + batch_events - 1) // batch_events)
        batches = [[] for _ in range(nb)]
        sizes = [0] * nb
        import heapq
        hq = [(0, i) for i in range(nb)]
        for s in scripts:
            sz, i = heapq.heappop(hq)
            batches[i].append(s); heapq.heappush(hq, (sz + len(s) + 1, i))
        batches = [b for b in batches if b]

        def one(b):
            evs, rc, asan = self.drive(exe, b, tag, watchdog, prefix=prefix)
            if post: evs = post(evs)
            n, k, out = self._trace_tlc(module, consts, (raw_header or []) + evs)
            hl = len(raw_header or [])
            return b, evs, n - hl, k - hl, asan
        viol = 0
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, batches))
        for b, evs, n, k, asan in results:
            self.events += k
            if len(self.samples) < 3 and len(evs) > 3:
                self.samples.append({"script": b[0][:12], "events": [json.dumps(e)[:300] for e in evs[1:8]]})
            for e in evs: self.kinds[e["op"]] = self.kinds.get(e["op"], 0) + 1
            done = sum(1 for e in evs[:k] if e["op"] == "reset")
            self.traces += done if k < n else len(b)
            if k < n and viol < stop_after:
                viol += 1
                idx = max(0, done - 1)
                self._confirm(exe, b, idx, evs, k, module, consts, tag, asan, post, watchdog, raw_header, prefix)

    def _confirm(self, exe, b, idx, evs, k, module, consts, tag, asan, post, watchdog, raw_header, prefix):
        for cand in ([b[idx]] if idx < len(b) else [], b):
            if not cand: continue
            if cand is not b: cand = [cand] if isinstance(cand[0], str) else cand
            e2, rc2, asan2 = self.drive(exe, cand, tag, watchdog, prefix=prefix)
            if post: e2 = post(e2)
            n2, k2, out = self._trace_tlc(module, consts, (raw_header or []) + e2)
            hl = len(raw_header or []); n2 -= hl; k2 -= hl
            if k2 < n2:
                self.violation(tag, cand, e2, k2, module, consts, asan2, exe)
                return
        self.flaky += 1
        self.notes.append(f"rejection not repeated: {json.dumps(evs[k])[:300] if k < len(evs) else ''}")

    def violation(self, tag, scripts, evs, k, module, consts, asan="", exe=""):
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        fn = os.path.join(rd, f"{self.pid}-{tag}-{len(self.violations)}.txt")
        variant = next((kk for kk, v in self.bins.items() if v == exe), None)
        with open(fn, "w") as f:
            f.write(f"# property {self.pid}  build {variant}  spec {module} {consts}\n# scripts (stdin of the driver, after 'init'):\n")
            for s in scripts[:50]: f.write("reset\n" + "\n".join(s) + "\n")
            f.write(f"\n# recorded events; the specification does not allow event {k+1}\n")
            lo = max(0, k - 40)
            for i, e in enumerate(evs[lo:k + 3], lo + 1): f.write(("=> " if i == k + 1 else "   ") + json.dumps(e) + "\n")
            if asan: f.write("\n# sanitizer report\n" + asan)
        bad = json.dumps(evs[k]) if k < len(evs) else "(end)"
        self.violations.append((fn, bad))
        print(f"  rejected event: {bad[:500]}" + (("\n  " + asan.strip().splitlines()[1][:300] if len(asan.strip().splitlines()) > 1 else "")), flush=True)

    # ------------------------------------------------------------ finish
    def finish(self, level, assumptions=(), extra=None):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "events_validated": self.events, "scripts_run": self.nscripts,
               "calls_by_kind": dict(sorted(self.kinds.items())), "model_runs": self.mc_runs,
               "flaky_rejections_ignored": self.flaky, "notes": self.notes[:10]}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions) + self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for fn, bad in self.violations:
            print(f"VIOLATION property={self.pid} replay={fn}")
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.trans} scripts={self.nscripts} "
              f"events={self.events} violations={len(self.violations)} flaky={self.flaky} wall={ev['wall_s']}s")
        return 1 if self.violations else 0


def maximal(scripts):
    """drop scripts that are prefixes of others"""
    ks = sorted(set(tuple(map(_frz, s)) for s in scripts))
    out = []
    for i, s in enumerate(ks):
        if i + 1 < len(ks) and ks[i + 1][:len(s)] == s: continue
        out.append(s)
    return [[json.loads(x) for x in s] for s in out]


def _frz(x):
    return json.dumps(x, sort_keys=True)


def cfg(spec="Spec", consts=None, invariants=(), properties=(), view=None, action_constraint=None, constraint=None, extra=""):
    t = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    if consts: t += "CONSTANTS\n" + "\n".join(f"  {k} {'<-' if str(v).startswith('@') else '='} {str(v).lstrip('@')}" for k, v in consts.items()) + "\n"
    if invariants: t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties: t += "PROPERTIES " + " ".join(properties) + "\n"
    if view: t += f"VIEW {view}\n"
    if action_constraint: t += f"ACTION_CONSTRAINT {action_constraint}\n"
    if constraint: t += f"CONSTRAINT {constraint}\n"
    return t + extra
