"""Shared machinery of the checks: build the harness against /repo, run TLC, run the
harness, validate recorded traces, write the evidence file, report violations."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
CORES = max(2, min(8, os.cpu_count() or 2))


# element types the harness is built for as the crate is in a release build
SHIPPED = {"cb": ("i32", "String", "tracked", "token", "f64"), "ctr": ("i32", "String", "blunt", "brittle", "brittlecopy"),
           "dsu": ("i32", "String", "blunt", "brittle", "brittlecopy"), "iv": ("i8", "i32", "String", "char", "Duration", "brittle")}

# modes in which the harness steps through everything a specification printed
ENUMERATED = ("replay", "rows", "hist", "compare", "scale", "math")


class ToolError(Exception):
    pass


def sh_quote(a):
    return " ".join(a)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO, HARNESS):
        for root, dirs, names in os.walk(base):
            dirs[:] = [d for d in sorted(dirs) if d not in ("target", ".git")]
            for n in sorted(names):
                if n.endswith((".rs", ".toml", ".lock")):
                    files.append(os.path.join(root, n))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(OUT, "work-%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0          # distinct states TLC explored in the design specifications
        self.transitions = 0     # transitions TLC explored in the design specifications
        self.traces = 0          # recorded histories accepted by a trace specification
        self.events = 0          # events in them
        self.replayed = 0        # transitions of the specification stepped through the code
        self.nontrivial = 0
        self.models = []
        self.samples = []
        self.extra = {}
        self.violations = []
        self.exhaustive = True
        self.bin = self.shipped = None
        self.lock = open(os.path.join(OUT, ".lock"), "w")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- build ---------------------------------------------------------------------------
    def build(self, shipped=True):
        """Rebuild the harness against the current tree of /repo: with debug assertions and overflow
        checks, and (fewer element types) as the crate is in a release build."""
        target = os.path.join(HARNESS, "target")
        os.makedirs(target, exist_ok=True)
        with open(os.path.join(target, ".verif-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            want = tree_hash()
            procs = []
            for prof in ["debug"] + (["shipped"] if shipped else []):
                mark = os.path.join(target, prof + ".built")
                binary = os.path.join(target, prof, "harness")
                have = open(mark).read() if os.path.exists(mark) else ""
                if have == want and os.path.exists(binary):
                    continue
                # timestamps are not trusted: forget what was built from an earlier tree
                if os.path.exists(mark):
                    os.remove(mark)
                for d in glob.glob(os.path.join(target, prof, ".fingerprint", "advanced_collections-*")) + \
                        glob.glob(os.path.join(target, prof, ".fingerprint", "harness-*")):
                    shutil.rmtree(d, ignore_errors=True)
                env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
                cmd = ["cargo", "build", "--offline", "--quiet"] + (["--profile", prof] if prof != "debug" else [])
                log = open(os.path.join(self.work, "build-" + prof), "w+")
                procs.append((mark, log, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=log, stderr=log)))
            failed = None
            for mark, log, p in procs:
                try:
                    code = p.wait(timeout=800)
                except subprocess.TimeoutExpired:
                    p.kill()
                    code = p.wait()
                if code != 0:
                    log.seek(0)
                    failed = log.read()[-6000:]
                else:
                    with open(mark, "w") as f:
                        f.write(want)
            if failed is not None:
                raise ToolError("the harness does not build against /repo:\n" + failed)
            # run from a private copy, so that a concurrent check cannot replace it
            for prof in ["debug"] + (["shipped"] if shipped else []):
                shutil.copy2(os.path.join(target, prof, "harness"), os.path.join(self.work, "harness-" + prof))
        self.bin = os.path.join(self.work, "harness-debug")
        self.shipped = os.path.join(self.work, "harness-shipped") if shipped else None
        self.log("harness built")

    # -- TLC -----------------------------------------------------------------------------
    def _java(self, heap, workers):
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        return ["java", gc, "-Xss256m", "-Xmx" + heap, "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 else 4),
                "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"]

    def model(self, module, cfg, consts=None, workers=None, heap="6g", emit=None, timeout=800, exhaustive=True, simulate=None):
        """Exhaustively check a design specification; with emit, save the transitions it prints."""
        workers = 1 if emit else (workers or CORES)
        d = os.path.join(self.work, "model-" + cfg.replace(".cfg", "") + ("-e" if emit else ""))
        n = 0
        while os.path.exists(d + str(n)):
            n += 1
        d += str(n)
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (consts or {}).items():
            text, cnt = re.subn(r"(\b%s\s*=\s*)(\{[^}]*\}|\S+)" % k, lambda m: m.group(1) + str(v), text)
            if cnt != 1:
                raise ToolError("constant %s not in %s" % (k, cfg))
        open(os.path.join(d, "M.cfg"), "w").write(text)
        cmd = self._java(heap, workers) + ["-workers", str(workers), "-metadir", os.path.join(d, "st"), "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [module]
        outf = os.path.join(d, "out.txt")
        with open(outf, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s %s ran out of time" % (module, cfg))
        gen = dist = None
        errors, rows = [], 0
        dst = open(emit, "w") if emit else None
        with open(outf) as f:
            for l in f:
                if l.startswith('"{'):
                    if dst:
                        dst.write(json.loads(l) + "\n")
                        rows += 1
                    continue
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                if m:
                    gen, dist = (int(x.replace(",", "")) for x in m.groups())
                m = re.match(r"The number of states generated: ([\d,]+)", l)
                if m and simulate:
                    gen = dist = int(m.group(1).replace(",", ""))
                if l.startswith("Error:") or "violated" in l:
                    errors.append(l.strip())
        if dst:
            dst.close()
        if p.returncode != 0 or errors or gen is None:
            raise ToolError("TLC on %s %s failed (%s): %s, see %s" % (module, cfg, p.returncode, errors[:3], outf))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "consts": consts or {}, "distinct_states": dist, "generated": gen,
                            "printed": rows})
        if not exhaustive or simulate:
            self.exhaustive = False
        self.log("TLC %s %s %s: %d states generated, %d distinct%s" % (module, cfg, consts or "", gen, dist, ", %d transitions printed" % rows if emit else ""))
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        if emit and rows == 0:
            raise ToolError("TLC printed no transitions")
        return emit

    # -- harness -------------------------------------------------------------------------
    def harness(self, area, mode, timeout=600, binary=None, mem_gb=8, **kw):
        """Run the harness. A mismatch, crash or hang of the code under test is a violation."""
        jn = os.path.join(self.work, "journal-%s-%s-%d" % (area, mode, len(self.models) + len(self.violations)))
        cmd = [binary or self.bin, area, mode, "--journal", jn]
        for k, v in kw.items():
            cmd += ["--" + k.replace("_", "-"), str(v)]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=limits, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s %s ran out of time: %s" % (area, mode, self._journal(jn)[:500]))
        stats = {}
        fails = []
        for l in p.stdout.splitlines():
            if l.startswith("STATS "):
                stats = {k: int(v) for k, v in (x.split("=") for x in l[6:].split())}
            elif l.startswith("FAIL "):
                fails.append(l[5:])
            elif l.startswith("SAMPLE ") and len(self.samples) < 6:
                self.samples.append(l[7:1200])
        cmdline = sh_quote(["harness"] + cmd[1:])
        if p.returncode == 0 and not fails and stats:
            self.log("%s %s %s %s: %s" % ("shipped harness" if binary and binary == self.shipped else "harness", area, mode, {k: v for k, v in kw.items() if k in ("types", "focus", "forms")}, stats))
        elif p.returncode == 1 and fails:
            for f in fails[:5]:
                self.violation("replay", f, {"command": cmdline})
        elif p.returncode == 12:
            self.violation("hang", "the code under test does not return: " + self._journal(jn), {"command": cmdline})
        elif p.returncode == 101 and "PANIC" in p.stderr:
            # raised neither in the harness's own files (that is a tool error) nor where a panic is expected
            self.violation("panic", "the code under test panics: %s; %s" % (self._journal(jn), p.stderr[-400:]), {"command": cmdline})
        elif p.returncode in (-11, -6, -7, -4, -8, -5, 134, 139, 132, 135, 136):
            self.violation("crash", "the code under test crashed (signal %s): %s; %s" % (-p.returncode, self._journal(jn), p.stderr[-400:]), {"command": cmdline})
        else:
            raise ToolError("harness %s %s exited with %s\n%s\n%s" % (area, mode, p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
        self.replayed += stats.get("cases", 0)
        self.nontrivial += stats.get("nontrivial", 0)
        if binary is None and self.shipped and mode in ENUMERATED and p.returncode == 0:
            # the same, as the crate is in a release build
            more = dict(kw)
            if "types" in kw:
                more["types"] = ",".join(t for t in kw["types"].split(",") if t in SHIPPED[area])
            if more.get("types", "-"):
                self.harness(area, mode, timeout=timeout, binary=self.shipped, mem_gb=mem_gb, **more)
        return stats

    def _journal(self, jn):
        try:
            with open(jn, "rb") as f:
                return f.read(1 << 20).split(b"\0")[0].decode(errors="replace").strip()
        except OSError:
            return "?"

    def record(self, area, mode, module, flags, shards=None, timeout=600, cfg=None, **kw):
        """Record histories from the real code and have TLC accept or reject every event.
        Half of them are recorded from the crate as it is in a release build."""
        shards = shards or CORES
        d = os.path.join(self.work, "trace-%s-%s-%d" % (area, mode, len(glob.glob(self.work + "/trace-*"))))
        runs = [(d, self.bin, shards, kw)]
        types = [t for t in kw.get("types", "i32").split(",") if t in SHIPPED[area]]
        if self.shipped and types:
            half = {k: (v + 1) // 2 for k, v in kw.items() if k in ("histories", "big", "huge", "deep") and not (k == "deep" and area == "ctr")}
            if "stride" in kw:
                half["stride"] = kw["stride"] * 2
            more = dict(kw, **half)
            more["seed"] = kw.get("seed", 1) + 1000
            if "types" in kw:
                more["types"] = ",".join(types)
            runs = [(d, self.bin, shards // 2, dict(kw, **half)), (d + "-shipped", self.shipped, shards // 2, more)]
        dirs = []
        for out, binary, n, args in runs:
            before = len(self.violations)
            st = self.harness(area, mode, timeout=timeout, binary=binary, out=out, shards=n, **args)
            if len(self.violations) == before:
                dirs.append(out)
                self.traces += st.get("histories", 0)
                self.events += st.get("events", 0)
        if dirs:
            self.validate(dirs, module, flags, cfg=cfg)
        for out in dirs:
            shutil.rmtree(out, ignore_errors=True)

    def validate(self, dirs, module, aspects, cfg=None, timeout=700):
        files = [f for d in dirs for f in sorted(glob.glob(d + "/*.ndjson")) if os.path.getsize(f) > 0]
        if not files:
            raise ToolError("nothing was recorded in " + dirs[0])
        with ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(lambda f: self._validate(f, module, aspects, cfg, timeout), files))
        for f, r in zip(files, rs):
            if r is not None:
                idx, why = r
                lines = open(f).read().splitlines()
                start = idx - 1
                while start > 0 and '"e":"start"' not in lines[start]:
                    start -= 1
                hist = [json.loads(l) for l in lines[start:idx]]
                last = json.dumps(hist[-1]) if hist else ""
                self.violation("trace", "%s: event %d of its history is not allowed by %s: %s" % (why, len(hist) - 1, module, last[:1500]), {"history": hist})
        if not self.samples or len(self.samples) < 6:
            with open(files[0]) as f:
                ls = []
                for l in f:
                    ls.append(l.strip()[:300])
                    if len(ls) >= 4:
                        break
            self.samples.append("trace: " + " ; ".join(ls))

    def _validate(self, f, module, aspects, cfg, timeout):
        n = sum(1 for _ in open(f))
        d = f + ".tlc"
        os.makedirs(d, exist_ok=True)
        for t in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(t, d)
        shutil.copy(os.path.join(SPEC, cfg or module.replace(".tla", ".cfg")), os.path.join(d, "T.cfg"))
        env = dict(os.environ, TRACE=f)
        for a in aspects:
            env[a] = "1"
        cmd = self._java("3g", 1) + ["-workers", "1", "-metadir", d + "/st", "-config", "T.cfg", module]
        try:
            p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("trace validation ran out of time")
        m = re.search(r'<<"FAIL", (\d+), "(.*?)">>', p.stdout)
        if m:
            return int(m.group(1)), m.group(2)
        ok = re.search(r"^([\d,]+) states generated", p.stdout, re.M)
        if p.returncode == 0 and ok and int(ok.group(1).replace(",", "")) == n + 1 and "Error" not in p.stdout:
            shutil.rmtree(d, ignore_errors=True)
            return None
        # an event so malformed that the specification cannot even be evaluated on it
        k = None
        for m in re.finditer(r"^(?:/\\ )?i = (\d+)$", p.stdout, re.M):
            k = int(m.group(1))
        if k is not None and k <= n and re.search(r"(Attempted to|evaluat|outside the domain|apply)", p.stdout) and "OutOfMemory" not in p.stdout:
            e = re.search(r"(Attempted to[^\n]*|The exception was[^\n]*\n[^\n]*)", p.stdout)
            return k, "malformed event (%s)" % (e.group(1)[:200].replace("\n", " ") if e else "")
        raise ToolError("trace validation failed:\n" + p.stdout[-3000:] + p.stderr[-500:])

    # -- verdict -------------------------------------------------------------------------
    def violation(self, kind, text, detail):
        n = len(self.violations)
        vd = os.path.join(OUT, "violations")
        os.makedirs(vd, exist_ok=True)
        path = os.path.join(vd, "%s-%s-%d.json" % (self.prop, self.tier, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "kind": kind, "what": text, "seed": self.seed, "tier": self.tier, "detail": detail}, f, indent=1)
        self.violations.append((path, text))
        self.log("violation (%s): %s" % (kind, text[:900]))

    def finish(self, level, assumptions):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces + self.replayed,
            "histories_recorded_and_accepted": self.traces, "events_accepted": self.events,
            "specification_transitions_replayed": self.replayed, "replayed_nontrivial": self.nontrivial,
            "models": self.models, "samples": self.samples[:6] or ["none"],
            "exhaustive": False,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % self.prop))
        shutil.rmtree(self.work, ignore_errors=True)
        for path, text in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1 if self.violations else 0
