"""Reporting, known findings, parallel driving and the stateless (choice-tree) explorer."""
import hashlib, json, multiprocessing, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test contradicts the oracle."""
    def __init__(self, what, sig=None, detail=None):
        super().__init__(what)
        self.what, self.sig, self.detail = what, sig or what, detail


class Enough(BaseException):
    """A violation was found: the rest of the exploration is of no use any more."""


HANG = 150  # Seconds of real time for one execution: far more than any takes, on however busy a machine.


class Hang(BaseException):
    """A single execution did not end within its real-time allowance."""


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"), digest_size=8).digest(), "big")


class alarm:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def on(*_):
            raise Hang(f"no progress for {self.seconds}s")
        self.old = signal.signal(signal.SIGALRM, on)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


# ------------------------------------------------------------------------------------------------
class Report:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states, self.transitions, self.traces = set(), 0, 0
        self.nstates_extra = 0
        self.samples, self.notes, self.parts = [], {}, []
        self.violations = []
        self.exhaustive = True
        self.assumptions = []

    def add(self, part):
        """part: dict(name, states:set|int, transitions, traces, samples, violations, exhaustive, **info)"""
        st = part.get("states", ())
        if isinstance(st, int):
            self.nstates_extra += st
            n = st
        else:
            self.states |= {digest((part.get("name"), s)) for s in st}
            n = len(st)
        self.transitions += part.get("transitions", 0)
        self.traces += part.get("traces", 0)
        for s in part.get("samples", ())[:2]:
            if len(self.samples) < 12:
                self.samples.append(s)
        self.violations += part.get("violations", [])
        if not part.get("exhaustive", True):
            self.exhaustive = False
        self.parts.append({k: (n if k == "states" else v) for k, v in part.items() if k not in ("samples", "violations")})
        known = load_known(self.prop)
        if any(not match_known(known, v) for v in part.get("violations", [])):
            self.exhaustive = False
            raise Enough()

    def finish(self):
        known = load_known(self.prop)
        reported, new = {}, []
        for v in self.violations:
            k = match_known(known, v)
            if k:
                reported[k["id"]] = k
            else:
                new.append(v)
        for k in reported.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rc = 0
        rdir = os.path.join(VERIF, "evidence", "replays")
        if new:
            rc = 1
            os.makedirs(rdir, exist_ok=True)
            v = min(new, key=lambda v: len(json.dumps(v.get("replay", ""), default=repr)))
            path = os.path.join(rdir, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print(f"violated: {v['what']}")
            for line in (v.get("trace") or [])[-40:]:
                print("   ", line)
            print(f"VIOLATION property={self.prop} replay={path}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": {
                "states": len(self.states) + self.nstates_extra, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["(none)"], "exhaustive": self.exhaustive,
                "parts": self.parts, **self.notes},
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new), "assumptions": self.assumptions,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print(f"{self.prop} {self.tier}: states={ev['coverage']['states']} transitions={self.transitions} "
              f"executions={self.traces} exhaustive={self.exhaustive} violations={len(new)} "
              f"known={len(reported)} wall={ev['wall_s']}s")
        sys.stdout.flush()
        return rc


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["open"] if k["property"] == prop]


def match_known(known, v):
    for k in known:
        if v.get("sig") == k["signature"]:
            return k
    return None


# ------------------------------------------------------------------------------------------------
_PM = {}


def _call(i):
    fn, item = _PM["fn"], _PM["items"][i]
    try:
        return fn(item)
    except BaseException:
        return {"harness_error": traceback.format_exc(), "item": repr(item)[:500]}


def pmap(fn, items, procs=None):
    """Parallel map over forked workers; results in completion order. A harness error aborts the check (exit 3)."""
    items = list(items)
    procs = min(procs or os.cpu_count() or 1, max(1, len(items)))
    ctx = multiprocessing.get_context("fork")
    _PM["fn"], _PM["items"] = fn, items      # inherited by the forked workers
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_call, range(len(items)), chunksize=1):
            yield check_harness(r)


def check_harness(r):
    if isinstance(r, dict) and "harness_error" in r:
        print("HARNESS ERROR", r.get("item"), file=sys.stderr)
        print(r["harness_error"], file=sys.stderr)
        sys.exit(3)
    return r


# ------------------------------------------------------------------------------------------------
class Chooser:
    __slots__ = ("prefix", "log", "max_len", "broken")

    def __init__(self, prefix=()):
        self.prefix, self.log, self.broken = list(prefix), [], None

    def choose(self, n):
        i = len(self.log)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            self.broken = f"nondeterministic replay: choice {v} of {n} at {i}"
            raise RuntimeError(self.broken)
        self.log.append((v, n))
        return v

    def pick(self, seq):
        return seq[self.choose(len(seq))]


def forked(fn):
    """Run every execution in a forked child, so that module-level state of the code under test starts fresh."""
    import pickle

    def run(ch):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                try:
                    out = ("ok", fn(ch))
                except Violation as e:
                    out = ("violation", (e.what, e.sig, e.detail))
                except BaseException:
                    out = ("error", traceback.format_exc())
                data = pickle.dumps((out, ch.log))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        try:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
        except Hang:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        if not data:
            raise RuntimeError(f"execution died; choices {ch.prefix}")
        (kind, val), ch.log = pickle.loads(data)
        if kind == "violation":
            raise Violation(*val)
        if kind == "error":
            raise RuntimeError(f"{val}\nchoices {[v for v, _ in ch.log]}")
        return val
    return run


def explore_subtree(run, prefix, max_runs, deadline, hang=HANG):
    """DFS below `prefix`. Returns (part, leftover prefixes)."""
    part = {"states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    base = len(prefix)
    cur = list(prefix)
    while True:
        ch = Chooser(cur)
        try:
            with alarm(hang):
                res = run(ch)
        except Violation as e:
            res = {"violations": [{"what": e.what, "sig": e.sig, "trace": e.detail}]}
        except Hang as e:
            res = {"violations": [{"what": f"execution hangs: {e}", "sig": "hang"}]}
            part["cut"] = True
        part["traces"] += 1
        part["states"] |= res.get("states", set())
        part["transitions"] += res.get("transitions", len(ch.log))
        choices = [v for v, _ in ch.log]
        for v in res.get("violations", ()):
            v["replay"] = {"choices": choices}
            part["violations"].append(v)
        if len(part["samples"]) < 1 or (len(part["samples"]) < 2 and part["traces"] > 5):
            part["samples"].append({"choices": choices, "trace": res.get("trace", [])[:60]})
        if len(part["violations"]) >= 5 or part.get("cut"):
            part["cut"] = True
            return part, []
        i = len(ch.log) - 1
        while i >= base and ch.log[i][0] + 1 >= ch.log[i][1]:
            i -= 1
        if i < base:
            return part, []
        if part["traces"] >= max_runs or time.time() > deadline:
            left = []
            for j in range(i, base - 1, -1):
                for k in range(ch.log[j][0] + 1, ch.log[j][1]):
                    left.append(choices[:j] + [k])
            return part, left
        cur = choices[:i] + [ch.log[i][0] + 1]


def explore(scenarios, budget_s, procs=None, chunk=60, stop_after=3, max_runs=None):
    """scenarios: list of (name, run(chooser)->result). Exhaustive DFS of every choice tree, in parallel.

    run must be deterministic given the choices. Yields one merged part per scenario.
    """
    procs = procs or os.cpu_count() or 1
    deadline = time.time() + budget_s
    ctx = multiprocessing.get_context("fork")
    merged = {n: {"name": n, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [],
                  "exhaustive": True} for n, _ in scenarios}
    runs = dict(scenarios)
    import collections
    queue = collections.deque((n, []) for n, _ in scenarios)
    inq, outq = ctx.SimpleQueue(), ctx.SimpleQueue()

    def worker():
        import gc
        gc.freeze()
        while True:
            job = inq.get()
            if job is None:
                return
            name, prefix, size = job
            try:
                part, left = explore_subtree(runs[name], prefix, size, min(deadline, time.time() + 3))
                outq.put((name, part, left, None))
            except BaseException:
                outq.put((name, None, [], traceback.format_exc() + f"\nprefix={prefix}"))

    ws = [ctx.Process(target=worker, daemon=True) for _ in range(procs)]
    for w in ws:
        w.start()
    busy, nviol, stop = 0, 0, False
    while queue or busy:
        while queue and busy < procs + 2:
            inq.put((*queue.popleft(), chunk if len(queue) > 4 * procs else 3))
            busy += 1
        name, part, left, err = outq.get()
        busy -= 1
        if err and nviol:       # whatever is wrong, it is not only the harness
            queue.clear()
            continue
        if err:
            for w in ws:
                w.kill()
            print("HARNESS ERROR", name, file=sys.stderr)
            print(err, file=sys.stderr)
            sys.exit(3)
        m = merged[name]
        m["states"] |= part["states"]
        m["transitions"] += part["transitions"]
        m["traces"] += part["traces"]
        if part.get("cut"):
            m["exhaustive"] = False
        if len(m["samples"]) < 2:
            m["samples"] += [{"scenario": name, **s} for s in part["samples"][:2]]
        for v in part["violations"]:
            v["replay"]["scenario"] = name
            m["violations"].append(v)
            nviol += 1
            deadline = min(deadline, time.time() + 2)
        unknown_cap = nviol >= 200
        if time.time() > deadline or unknown_cap or (max_runs and m["traces"] >= max_runs):
            if left:
                m["exhaustive"] = False
            if time.time() > deadline or unknown_cap:
                for n, _ in queue:
                    merged[n]["exhaustive"] = False
                queue.clear()
        else:
            # subtrees near the root first (they are the big ones): keeps all workers busy
            queue.extend((name, p) for p in left)
    for _ in ws:
        inq.put(None)
    for w in ws:
        w.join(2)
        if w.is_alive():
            w.kill()
    return sorted(merged.values(), key=lambda m: not m["violations"])
