"""Infrastructure: building the library and the driver, running cases on the
driver, running TLC, reporting."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Infra(Exception):
    """The machinery itself failed: not a verdict about the library."""


# ------------------------------------------------------------------ building

def _hash_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


KINDS = {
    # flags for the library (through CMake) and for the driver
    "plain": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo"], ["-O1", "-DNDEBUG"]),
    "asan": (["-DCMAKE_BUILD_TYPE=Debug",
              "-DCMAKE_CXX_FLAGS=-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined "
              "-fno-sanitize=alignment -D_GLIBCXX_ASSERTIONS"],
             ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=alignment", "-D_GLIBCXX_ASSERTIONS"]),
    # (the templates of the C++ library are compiled here as well: its own copies are not instrumented)
    "tsan": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS=-fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0"],
             ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]),
}

SOURCES = ["interp", "fault", "types_a", "types_b", "types_c", "types_d"]


def build(kind="plain", main="driver"):
    """Build the library from /repo's working tree and link a driver to it."""
    key = _hash_tree([os.path.join(REPO, "src"), os.path.join(REPO, "include"),
                      os.path.join(REPO, "cmake"), os.path.join(REPO, "CMakeLists.txt"),
                      os.path.join(REPO, "VERSION"), HARNESS])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (kind, key))
    exe = os.path.join(out, main)
    with open(os.path.join(BUILD, "lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out)
            return exe
        # forget older builds
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(kind + "-")),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-2]:
            if d != os.path.basename(out):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        cm, cxx = KINDS[kind]
        inc = ["-I", os.path.join(REPO, "include")]

        def sh(cmd):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Infra("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))

        def lib():
            if os.path.exists(os.path.join(out, "lib.done")):
                return
            sh(["cmake", "-G", "Ninja", "-S", REPO, "-B", os.path.join(out, "lib")] + cm)
            sh(["cmake", "--build", os.path.join(out, "lib"), "--target", "npy", "-j", str(NCPU)])
            open(os.path.join(out, "lib.done"), "w").close()

        def obj(n):
            o = os.path.join(out, n + ".o")
            if not os.path.exists(o):
                sh(["g++", "-std=c++17"] + cxx + inc + ["-c", os.path.join(HARNESS, n + ".cpp"), "-o", o + ".tmp.o"])
                os.rename(o + ".tmp.o", o)
            return o

        with ThreadPoolExecutor(NCPU) as ex:
            fl = ex.submit(lib)
            objs = list(ex.map(obj, SOURCES + [main]))
            fl.result()
        libs = []
        for d, _, fs in os.walk(os.path.join(out, "lib")):
            libs += [os.path.join(d, f) for f in fs if f == "libnpy.a"]
        if len(libs) != 1:
            raise Infra("no library was built")
        sh(["g++"] + [f for f in cxx if f.startswith("-fsan")] + objs + libs + ["-lpthread", "-ldl", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    return exe


# --------------------------------------------------------------------- cases

class Case:
    """One execution: commands for the driver, each with the trace event that
    it becomes once its result is known (None: no event)."""

    def __init__(self, cid):
        self.id = cid
        self.cmds = []
        self.note = ""

    def add(self, line, ev=None):
        self.cmds.append((line, ev))
        return self

    def script(self):
        return "C %s\n" % self.id + "".join(l + "\n" for l, _ in self.cmds)


def run_driver(exe, cases, as_mb=3000, cpu=20, jobs=NCPU, timeout=800, env=None, skips=False):
    """Results of each case: a list of JSON objects, one per command, then
    {"r":"end"}, or {"r":"crash"/"hang"} where it died."""
    if not cases:
        return []
    seen = set()
    for c in cases:  # (the same shape may have been asked for twice)
        while c.id in seen:
            c.id += "+"
        seen.add(c.id)
    jobs = max(1, min(jobs, (len(cases) + 3) // 4))
    chunks = [cases[i::jobs] for i in range(jobs)]
    res = {}
    tmp = tempfile.mkdtemp(prefix="vnpy")

    def go(i):
        sp, op = os.path.join(tmp, "s%d" % i), os.path.join(tmp, "o%d" % i)
        scratch = os.path.join(tmp, "d%d" % i)
        os.makedirs(scratch)
        with open(sp, "w") as f:
            for c in chunks[i]:
                f.write(c.script())
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([exe, sp, op, scratch, str(as_mb), str(cpu)], timeout=timeout,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e)
        if r.returncode != 0:
            raise Infra("driver failed with %d: %s" % (r.returncode, r.stderr[-500:]))
        cur = None
        out = {}
        with open(op, errors="surrogateescape") as f:
            for line in f:
                if line.startswith("@ "):
                    cur = []
                    out[line[2:].rstrip("\n")] = cur
                elif cur and "garbled" in cur[-1]:
                    pass
                else:
                    try:
                        cur.append(json.loads(line))
                    except ValueError:
                        # (the driver escapes what it writes: its memory is not its own any more)
                        cur.append({"r": "crash", "garbled": 1})
        return out

    try:
        with ThreadPoolExecutor(jobs) as ex:
            for o in ex.map(go, range(jobs)):
                res.update(o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for c in cases:
        r = res.get(c.id)
        if skips and r and r[-1]["r"] == "skipped":
            out.append(None)
            continue
        k = next((i for i, x in enumerate(r or []) if "garbled" in x or x["r"] == "bad"), None)
        if k is not None:
            # well-formed commands, whose operands the driver has lost: so is its memory
            r = r[:k] + [{"r": "crash", "garbled": 1}]
        if r is None or not r or r[-1]["r"] not in ("end", "crash", "hang"):
            raise Infra("driver lost case %s: %s" % (c.id, r[-2:] if r else r))
        for x in r:
            if x["r"] == "badop":
                raise Infra("bad command in case %s: %s" % (c.id, c.cmds[r.index(x)][0]))
        if r[-1]["r"] == "end" and len(r) != len(c.cmds) + 1:
            raise Infra("results missing in case " + c.id)
        out.append(r)
    return out


def el_json(t, s):
    """Element text of the driver -> element of the specification."""
    if t == "U":
        if s == "-":
            return []
        v = [int(x, 16) for x in s.split(".")]
        return [x - (1 << 32) if x >= (1 << 31) else x for x in v]
    return list(bytes.fromhex(s))


def arr_json(obj):
    return {"t": obj["t"], "f": obj.get("f", 0), "sh": obj.get("sh", []),
            "el": [el_json(obj["t"], x) for x in obj.get("v", [])]}


def conv_res(r):
    r = dict(r)
    if "a" in r:
        r["a"] = arr_json(r["a"])
    return r


def to_trace(case, results):
    ev = []
    for (line, e), r in zip(case.cmds, results):
        if r["r"] in ("crash", "hang"):
            break
        if e is None:
            continue
        e = dict(e)
        if callable(e.get("res")):
            x = e.pop("res")(r)
            e["res"] = x
        else:
            e["res"] = conv_res(r)
        ev.append(e)
    last = results[-1]
    if last["r"] == "end":
        ev.append({"op": "end", "res": {"r": "end"}})
    else:
        n = len(results) - 1
        ev.append({"op": "crash", "at": case.cmds[n][0][:200] if n < len(case.cmds) else "destruction", "res": last})
    return {"id": case.id, "ev": ev}


# ----------------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers=NCPU, timeout=600, xss="64m", xmx="4g", args=()):
    """Run TLC; returns a dict with its exit status, output and statistics."""
    meta = tempfile.mkdtemp(prefix="vtlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss" + xss, "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg"] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        out, rc = (o.decode(errors="replace") if isinstance(o, bytes) else o), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = {"rc": rc, "out": out, "generated": 0, "distinct": 0}
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", out)
    if m and not st["generated"]:
        st["generated"] = st["distinct"] = int(m.group(1))
    return st


def errors_of(out):
    i = out.find("Error:")
    return (out[i:i + 2500] if i >= 0 else "") + "\n[...]\n" + out[-600:]


def tlc_traces(module, traces, jvms=1, timeout=700, constants=None, xmx="6g"):
    """Validate traces.  Returns (states, transitions, rejected) where rejected
    is None or (index of the trace, number of the event which is not allowed)."""
    tot = [0, 0]
    rej = []
    if not traces:
        return 0, 0, None
    jvms = max(1, min(jvms, len(traces)))
    parts = [list(range(i, len(traces), jvms)) for i in range(jvms)]

    def go(idx):
        fd, path = tempfile.mkstemp(prefix="vtr", suffix=".ndjson")
        try:
            with os.fdopen(fd, "w") as f:
                for i in idx:
                    f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            s = tlc(module, env={"TRACES": path}, workers=max(2, NCPU // jvms), timeout=timeout, xmx=xmx)
        finally:
            os.unlink(path)
        if s["rc"] == 0 and "No error has been found" in s["out"]:
            want = sum(len(traces[i]["ev"]) + 1 for i in idx)
            if s["distinct"] != want:
                raise Infra("TLC visited %d states of %s, expected %d" % (s["distinct"], module, want))
            return s, None
        # a result without the expected parts makes TLC fail to evaluate the action: not allowed either
        if "Deadlock reached" in s["out"] or re.search(
                r"Attempted to (select nonexistent field|access a field|apply function|check equality|compare|select field)|"
                r"outside the domain|is not in the domain|non-record|nonexistent field|Overflow when computing", s["out"]):
            last = s["out"][s["out"].rfind("State "):]   # of the behaviour which ends where nothing is allowed
            t = [re.search(r"\b%s (?:=|\|->) (\d+)" % v, last) for v in ("ti", "l")]
            if not all(t):
                raise Infra("cannot read TLC's error trace:\n" + s["out"][-2000:])
            t = [m.group(1) for m in t]
            return s, (idx[int(t[0]) - 1], int(t[1]))
        raise Infra("TLC failed on %s (rc %s):\n%s" % (module, s["rc"], errors_of(s["out"])))

    with ThreadPoolExecutor(jvms) as ex:
        for s, r in ex.map(go, parts):
            tot[0] += s["distinct"]
            tot[1] += s["generated"]
            if r:
                rej.append(r)
    return tot[0], tot[1], (min(rej) if rej else None)


def tlc_finished(module, traces):
    """Which traces can be followed to their ends (None: TLC could not say)."""
    fd, path = tempfile.mkstemp(prefix="vtr", suffix=".ndjson")
    dump = path + ".dump"
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        s = tlc(module, env={"TRACES": path}, timeout=120, xmx="6g", args=("-deadlock", "-dump", dump))
        if s["rc"] != 0 or not os.path.exists(dump):
            return None
        done, ti = set(), None
        with open(dump) as f:
            for line in f:
                m = re.match(r"/\\ (ti|l) = (\d+)", line)
                if m and m.group(1) == "ti":
                    ti = int(m.group(2))
                    if l is not None and l == len(traces[ti - 1]["ev"]) + 1:
                        done.add(ti - 1)
                elif m:
                    l = int(m.group(2))
                    if ti is not None and l == len(traces[ti - 1]["ev"]) + 1:
                        done.add(ti - 1)
                elif line.startswith("State "):
                    ti = l = None
        return done
    finally:
        for p in (path, dump):
            if os.path.exists(p):
                os.unlink(p)


SETUP = ("end", "crash", "amake", "snew", "sset", "sseek", "sput", "fwrite", "mset", "bsave", "bload", "bdamage", "bset", "room", "plan", "raw",
         "locale", "nothing", "fdel", "device", "bjunk", "wstr",
         "quiet", "writes", "saves", "writer", "reader", "array", "moves", "stream", "string", "user", "setlocale")     # (of these only the footprint is specified)


def corrupt(rng, trace):
    """A copy of a trace with one recorded result changed, and what was changed."""
    t = json.loads(json.dumps(trace))
    ks = [i for i, e in enumerate(t["ev"]) if isinstance(e.get("res"), dict) and e["op"] not in SETUP]
    if not ks:
        return None
    i = rng.choice(ks)
    e = t["ev"][i]
    r = e["res"]
    if r.get("r") == "ok" and rng.random() < .3:
        e["res"] = {"r": "exc", "k": rng.choice(["rt", "ia"])}
        return t, "%s: fails instead" % e["op"]
    spots = []

    def walk(x, path):
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            if k in ("r", "k", "heap", "what", "t", "en", "m"):
                continue
            if isinstance(v, (dict, list)):
                walk(v, path + [k])
                if isinstance(v, list) and v:
                    spots.append((x, k, "short", path))
            elif isinstance(v, bool):
                pass
            elif isinstance(v, int):
                spots.append((x, k, "int", path))
            elif isinstance(v, str) and len(v) >= 6:
                spots.append((x, k, "str", path))
    walk(r, [])
    if not spots:
        return None
    x, k, how, path = rng.choice(spots)
    if how == "int":
        x[k] = (x[k] + 1) % 256 if 0 <= x[k] < 256 and isinstance(x, list) else 1 - x[k] if x[k] in (0, 1) else x[k] + 1
    elif how == "short":
        x[k] = x[k][:-1]
    else:
        j = rng.randrange(len(x[k]))
        x[k] = x[k][:j] + ("0" if x[k][j] != "0" else "1") + x[k][j + 1:]
    return t, "%s: %s of the result" % (e["op"], ".".join(map(str, path + [k])))


# ------------------------------------------------------------------- context

class Violation(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "samples": [], "models": []}
        self.assumptions = []
        self.exes = {}
        self._bg = []
        self.pool = {}
        self.mrng = random.Random("mutants/%s/%s" % (prop, seed))
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        """seconds left of the time this check allows itself"""
        return (60 if self.quick else 780) - (time.time() - self.t0)

    def exe(self, kind="plain", main="driver"):
        k = (kind, main)
        if k not in self.exes:
            self.exes[k] = build(kind, main)
        return self.exes[k]

    # -- models: checked with TLC, may print behaviours (lines with CASE)
    def model(self, module, cfg=None, expect_violation=False, args=(), timeout=600, workers=NCPU, what="", env=None):
        s = tlc(module, cfg, args=args, timeout=timeout, workers=workers, env=env)
        good = s["rc"] == 0 and ("No error has been found" in s["out"] or "Finished in" in s["out"] or "simulate" in args or "-simulate" in args)
        if expect_violation:
            good = "is violated" in s["out"]
        if not good:
            raise Infra("model %s/%s failed:\n%s" % (module, cfg, s["out"][-3000:]))
        with self.lock:
            self.cov["states"] += s["distinct"]
            self.cov["transitions"] += s["generated"]
            self.cov["models"].append({"model": module, "cfg": cfg or module + ".cfg", "distinct": s["distinct"],
                                       "generated": s["generated"], "what": what,
                                       "violated as expected": expect_violation})
        cases = []
        for line in s["out"].splitlines():
            m = re.match(r'^"?<?<?"?CASE (.*)$', line)
            if m:
                x = m.group(1).rstrip()
                if x.endswith('"'):
                    x = x[:-1]
                cases.append(json.loads(x.replace('\\"', '"')))
        return cases

    # -- conformance
    def validate(self, module, cases, exe=None, jvms=1, confirm=True, as_mb=3000, cpu=20, jobs=NCPU,
                 xform=to_trace, env=None, sample=1):
        exe = exe or self.exe()
        results = run_driver(exe, cases, as_mb=as_mb, cpu=cpu, jobs=jobs, env=env, skips=True)
        if None in results:     # some do not end: those are what matters
            cases = [c for c, r in zip(cases, results) if r and r[-1]["r"] == "hang"]
            results = [r for r in results if r and r[-1]["r"] == "hang"]
        traces = [xform(c, r) for c, r in zip(cases, results)]
        return self.check_traces(module, cases, traces, exe, jvms, confirm, as_mb, cpu, xform, env, sample, jobs)

    def check_traces(self, module, cases, traces, exe=None, jvms=1, confirm=True, as_mb=3000, cpu=20,
                     xform=to_trace, env=None, sample=1, jobs=NCPU):
        st, tr, rej = tlc_traces(module, traces, jvms=jvms)
        with self.lock:
            self.cov["states"] += st
            self.cov["transitions"] += tr
            self.cov["traces_validated_against_impl"] += len(traces)
            self.cov["events_validated"] += sum(len(t["ev"]) for t in traces)
            for t in traces[:sample]:
                s = json.dumps(t)
                if len(self.cov["samples"]) < 6:
                    self.cov["samples"].append(t if len(s) < 3000 else s[:3000] + "...")
        if rej is None:
            self.keep(module, traces)
            return
        i, l = rej
        if confirm and exe:
            first_died = traces[i]["ev"][l - 1] if 0 < l <= len(traces[i]["ev"]) else {}
            # repeat the case alone; if it does not repeat, all of them once more: only what repeats counts
            r2 = run_driver(exe, [cases[i]] * 1, as_mb=as_mb, cpu=cpu * 2, jobs=1, env=env)
            t2 = xform(cases[i], r2[0])
            _, _, rej2 = tlc_traces(module, [t2])
            if rej2 is None:
                res = run_driver(exe, cases, as_mb=as_mb, cpu=cpu * 2, jobs=jobs, env=env)
                traces = [xform(c, r) for c, r in zip(cases, res)]
                _, _, rej = tlc_traces(module, traces, jvms=jvms)
                if rej is None:
                    # killed from outside (out of memory) or too slow on a busy machine: the second run decides
                    first = first_died.get("res", {})
                    if first.get("r") == "hang" or first.get("sig") == 9:
                        return
                    raise Infra("rejection of case %s did not repeat" % cases[i].id)
                i, l = rej
            else:
                traces[i], l = t2, rej2[1]
        self.violation(module, cases[i] if cases else None, traces[i], l)

    # -- is the specification able to refuse?  Accepted executions with one thing changed
    def keep(self, module, traces):
        with self.lock:
            pool = self.pool.setdefault(module, [])
            small = [t for t in traces if len(t["ev"]) <= 60 and len(json.dumps(t)) < 20000] \
                or (sorted(traces, key=lambda t: len(t["ev"]))[:3] if module in ("WorldTrace", "FrameTrace") else [])
            pool += self.mrng.sample(small, min(len(small), 12))

    def selftest(self, per=30):
        """Changes one recorded result (or drops one event) of accepted executions; counts those refused."""
        for module, pool in sorted(self.pool.items()):
            muts = []
            for k in range(4 * per):
                if len(muts) >= per or not pool:
                    break
                m = corrupt(self.mrng, self.mrng.choice(pool))
                if m:
                    muts.append(m)
            if not muts:
                continue
            n = tlc_finished(module, [m for m, _ in muts])
            if n is None:
                continue
            left = [what for i, (_, what) in enumerate(muts) if i in n]
            with self.lock:
                self.cov.setdefault("corrupted executions", []).append(
                    {"spec": module, "made": len(muts), "refused": len(muts) - len(left), "accepted": left[:8]})
            if len(muts) >= 20 and len(left) * 2 > len(muts):
                raise Infra("%s accepts %d of %d corrupted executions" % (module, len(left), len(muts)))

    def violation(self, module, case, trace, l, note=""):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.prop, "spec": module, "seed": self.seed, "tier": self.tier,
                "case": trace.get("id"), "rejected_event": l,
                "event": trace["ev"][l - 1] if 0 < l <= len(trace["ev"]) else None,
                "script": case.script() if case else None, "note": (case.note if case else "") + note, "trace": trace}
        text = json.dumps(body, indent=1)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write(text)
        ev = json.dumps(body["event"])
        print("rejected by %s: case %s, event %d: %s" % (module, trace.get("id"), l, ev[:600]))
        raise Violation(path)

    # -- background model runs
    def background(self, f, *a, **k):
        box = {}

        def go():
            try:
                box["v"] = f(*a, **k)
            except BaseException as x:  # re-raised in join
                box["x"] = x
        t = threading.Thread(target=go)
        t.start()

        def join():
            t.join()
            if "x" in box:
                raise box["x"]
            return box["v"]
        self._bg.append(join)
        return join

    def finish(self, level, violations):
        for j in self._bg:
            if not violations:
                j()
        if not violations:
            self.selftest()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
