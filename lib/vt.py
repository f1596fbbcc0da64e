"""Shared machinery: building harnesses, running them isolated, running TLC, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, queue
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")          # registered commands never set it
OUT = os.environ.get("VT_OUT", os.path.join(VERIF, "out"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The check could not be carried out (exit 3): neither held nor violated."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building
_tree_hash = {}


def tree_hash(*dirs):
    key = dirs
    if key not in _tree_hash:
        h = hashlib.sha256()
        for d in dirs:
            for base, ds, fs in sorted(os.walk(d)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".impl.h")):
                        p = os.path.join(base, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _tree_hash[key] = h.hexdigest()
    return _tree_hash[key]


BASE_FLAGS = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-DSIMFIL_WITH_MODEL_JSON", "-DFMT_HEADER_ONLY=0"]


def repo_sources():
    """All library sources of the working tree."""
    r = []
    for d in ("src", "src/model"):
        p = os.path.join(REPO, d)
        r += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".cpp"))
    return r


TOKEN_SOURCES = ["src/token.cpp", "src/exception-handler.cpp"]


def build(name, harness, sources, flags=("-O1",), links=("-lfmt", "-lpthread"), cxx="g++"):
    """Compile harness/*.cpp (list) with the given repo sources; returns the binary's path."""
    flags = list(BASE_FLAGS) + list(flags) + [
        "-I" + os.path.join(VERIF, "shims"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    srcs = [os.path.join(VERIF, "harness", h) for h in harness] + list(sources)
    hh = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "shims"), os.path.join(VERIF, "harness"))
    cache = os.path.join(OUT, "cache")
    os.makedirs(cache, exist_ok=True)

    def one(src):
        h = hashlib.sha256()
        h.update("\0".join([cxx, hh, src] + flags).encode())
        h.update(open(src, "rb").read())
        obj = os.path.join(cache, h.hexdigest()[:32] + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
            p = sh([cxx] + flags + ["-c", src, "-o", tmp])
            if p.returncode != 0:
                raise ToolError("cannot compile %s:\n%s" % (src, p.stdout[-4000:]))
            os.replace(tmp, obj)
        return obj

    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, srcs))
    h = hashlib.sha256("\0".join(objs + list(links) + flags).encode()).hexdigest()[:24]
    binp = os.path.join(cache, name + "-" + h)
    if not os.path.exists(binp):
        tmp = binp + ".%d.tmp" % os.getpid()
        san = [f for f in flags if f.startswith("-fsanitize")]
        p = sh([cxx] + san + objs + list(links) + ["-o", tmp])
        if p.returncode != 0:
            raise ToolError("cannot link %s:\n%s" % (name, p.stdout[-4000:]))
        os.replace(tmp, binp)
    return binp


def build_many(jobs):
    """jobs: list of (name, harness, sources, flags...) argument tuples, built concurrently."""
    with ThreadPoolExecutor(len(jobs)) as ex:
        return list(ex.map(lambda j: build(*j), jobs))


# ---------------------------------------------------------------- running the real code
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0"}


def _run_chunk(argv, lines, idle, env, cwd, limit_mb):
    """Feeds the lines to the process, one answer line per input line. A line that kills the
    process (or makes it silent for `idle` seconds) is answered by {"r": "crash"/"hang"}."""
    res = []
    pos = 0
    e = dict(os.environ, LC_ALL="C", **SAN_ENV)
    e.update(env or {})
    while pos < len(lines):
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=cwd)
        batch = lines[pos:]

        def feed():
            try:
                p.stdin.write(("\n".join(batch) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        q = queue.Queue()

        def read():
            for l in p.stdout:
                q.put(l)
            q.put(None)
        rt = threading.Thread(target=read, daemon=True)
        rt.start()
        failed = None
        got = 0
        while got < len(batch):
            try:
                l = q.get(timeout=idle)
            except queue.Empty:
                p.kill()
                failed = {"r": "hang"}
                break
            if l is None or not l.endswith(b"\n"):
                failed = {"r": "crash", "code": p.wait()}
                break
            res.append(l.decode("utf-8", "surrogateescape").rstrip("\n"))
            got += 1
        pos += got
        if failed is not None:
            p.kill()
            p.wait()
            res.append(failed)
            pos += 1
        else:
            p.wait()
        t.join(timeout=1)
    return res


def run_lines(argv, lines, idle=20, env=None, jobs=NCPU, cwd=None, per=200):
    """Answers (text, or a dict for a crash/hang) in the order of the lines."""
    lines = list(lines)
    if not lines:
        return []
    n = max(1, min(jobs, (len(lines) + per - 1) // per))
    res = [None] * len(lines)

    def one(k):             # interleaved: neighbours are of the same size often
        res[k::n] = _run_chunk(argv, lines[k::n], idle, env, cwd, None)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    return res


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, text, wall):
        self.rc, self.text, self.wall = rc, text, wall
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found" in text or (rc == 0 and "Finished in" in text and "Error:" not in text)
        v = re.search(r"Invariant (\w+) is violated|Temporal properties were violated|Deadlock reached|Action property (\w+)|Postcondition (\w+)|Property (\w+) is violated", text)
        # 10 assumption, 11 deadlock, 12 safety, 13 liveness
        self.violated = rc in (10, 11, 12, 13) and (v is not None or "Assumption" in text or "violated" in text)
        self.prints = [l for l in text.split("\n") if l.startswith(("\"", "<<", "[", "{"))]

    def var(self, name):
        """Last value printed for a variable in the error trace."""
        m = re.findall(r"^(?:/\\ )?%s = (.*)$" % re.escape(name), self.text, re.M)
        return m[-1] if m else None


def tlc(workdir, module, cfg=None, env=None, workers=NCPU, extra=(), timeout=800, xmx="6g", simulate=None, xss="32m", jvm=()):
    """Runs TLC on spec/<module>.tla in a scratch copy of the spec directory."""
    os.makedirs(workdir, exist_ok=True)
    sd = os.path.join(workdir, "spec")
    if not os.path.isdir(sd):
        shutil.copytree(os.path.join(VERIF, "spec"), sd)
    cfgname = cfg or module + ".cfg"
    meta = os.path.join(workdir, "meta-%s-%d" % (os.path.basename(cfgname), time.time_ns()))
    argv = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, *jvm, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
            "-metadir", meta, "-workers", str(workers), "-config", cfgname, *extra]
    if simulate:
        argv += ["-simulate", simulate]
    argv.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(argv, cwd=sd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(p.returncode, p.stdout, time.time() - t0)
    if not r.ok and not r.violated:
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, p.stdout[-3000:]))
    return r


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.dir = os.path.join(OUT, prop + "-" + tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.more = {}
        self.assumptions = []
        self.violations = []
        self.thorough = tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def note(self, key, val):
        self.more[key] = val

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def model(self, module, cfg=None, expect=None, **kw):
        """Exhaustive check of the specification itself. A violated design invariant is a defect of
        the specification, never of the code: an error of the check."""
        r = tlc(self.dir, module, cfg, **kw)
        if not r.ok:
            raise ToolError("the specification violates its own invariant: %s\n%s" % (module, r.text[-3000:]))
        self.count(r)
        self.log("model %s/%s: %d states, %.1fs" % (module, cfg or "", r.distinct, r.wall))
        self.more.setdefault("models", []).append({"module": module, "config": cfg or module + ".cfg", "states": r.distinct, "generated": r.generated})
        return r

    def violate(self, what, replay):
        """Record a violation; replay is a JSON-able description of the failing case."""
        path = os.path.join(self.dir, "violation-%d.json" % len(self.violations))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "case": replay}, f, indent=1)
        self.violations.append((what, path))
        self.log("violation:", what[:2000])

    def cases_file(self, name, recs):
        path = os.path.join(self.dir, name + ".ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(r if isinstance(r, str) else json.dumps(r, separators=(",", ":")))
                f.write("\n")
        return path

    def validate(self, module, recs, name="cases", env=None, cfg=None, rerun=None, chunk=None, describe=None, **kw):
        """Trace validation: each record of a real execution has to be a behaviour that the trace
        specification accepts. rerun(index) executes that case again and returns its record: a
        rejection counts only if it repeats."""
        recs = list(recs)
        if not recs:
            return
        pending = list(range(len(recs)))
        found = 0
        while pending:
            path = self.cases_file(name, [recs[i] for i in pending])
            r = tlc(self.dir, module, cfg, env=dict(env or {}, VT_CASES=path), **kw)
            self.count(r)
            if r.ok:
                self.validated += len(pending)
                self.unspec = len(re.findall(r'"UNSPEC"', r.text))
                self.log("validated %d %s with %s: %d states, %.1fs%s" % (len(pending), name, module, r.distinct, r.wall,
                         ", %d unspecified" % self.unspec if self.unspec else ""))
                if self.unspec:
                    self.more["unspecified"] = self.more.get("unspecified", 0) + self.unspec
                return
            ci = r.var("ci")
            if ci is None:
                raise ToolError("cannot find the rejected case in TLC's output:\n" + r.text[-3000:])
            i = pending[int(ci) - 1]
            rec = recs[i]
            if rerun is not None:
                again = rerun(i)
                p2 = self.cases_file(name + "-again", [again])
                r2 = tlc(self.dir, module, cfg, env=dict(env or {}, VT_CASES=p2), **kw)
                if r2.ok:
                    raise ToolError("a rejection did not repeat: %s" % json.dumps(rec)[:2000])
            tail = r.text[r.text.find("Error:"):][:1500] + "\n...\n" + "".join(re.findall(r"(?m)^.. (?:pos|bad) = .*\n", r.text)[-4:])
            self.violate("%s rejects: %s" % (module, (describe(i) if describe else (rec if isinstance(rec, str) else json.dumps(rec)))[:3000]),
                         {"record": json.loads(rec) if isinstance(rec, str) else rec, "input": describe(i) if describe else None, "tlc": tail})
            return

    def must_reject(self, module, recs, name="mutant", env=None, cfg=None, **kw):
        """Binding: corrupted records have to be rejected; otherwise the trace specification is vacuous."""
        n = 0
        with ThreadPoolExecutor(4) as ex:
            def one(k):
                p = self.cases_file("%s-%d" % (name, k), [recs[k]])
                return tlc(self.dir, module, cfg, env=dict(env or {}, VT_CASES=p), workers=1, **kw)
            for k, r in enumerate(ex.map(one, range(len(recs)))):
                if r.ok and '"UNSPEC"' in r.text:      # left open by the specification
                    continue
                if r.ok:
                    raise ToolError("a corrupted record was accepted (vacuous specification?): %s" % json.dumps(recs[k])[:1500])
                n += 1
        if n < len(recs) / 2:
            raise ToolError("only %d of %d corrupted records were rejected" % (n, len(recs)))
        self.more["corrupted_records_rejected"] = self.more.get("corrupted_records_rejected", 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def finish(self):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["(none)"]}
        cov.update(self.more)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for what, path in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        self.log("held: %d states, %d executions validated, %.1fs" % (self.states, self.validated, wall))
        # nothing to look at later
        for d in os.listdir(self.dir):
            if d.endswith(".ndjson") and os.path.getsize(os.path.join(self.dir, d)) > 5e7:
                os.remove(os.path.join(self.dir, d))
        return 0


def hexs(b):
    return b.hex() if isinstance(b, bytes) else b.encode("utf-8").hex()
