"""C18: every log record is written exactly once, in order, through any buffering."""
TECHNIQUE = 'exhaustive enumeration of operation sequences on the real logger, file handler and log management endpoints, against a reference list of records'
NOTE = 'All sequences of log calls, level requests, buffer-size requests and flushes up to the stated length, for every combination of initial level, buffer size, rotation size and number of kept files; after every operation the log files are read back. Plus real process exits.'
import ast, itertools, json, logging, os, subprocess, sys, threading
from mc import appkit, boot
from mc.core import Violation, digest, pmap

LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "critical": 50}
OTEL = {10: "DEBUG", 20: "INFO", 30: "WARN", 40: "ERROR", 50: "FATAL"}
TEXTS = {
    "plain": "plain text",
    "unicode": "t\u00e4xt \u65e5\u672c \U0001f600 \u2028\u0085",
    "newlines": "one\ntwo\r\nthree\n",
    "quotes": "\"q\" \\ {\"a\": 1} %s %d \t\x00\x1f",
    "empty": "",
    "long": "x" * 700,
}


class Model:
    def __init__(self, level):
        self.level, self.want, self.n = level, [], 0


def perform(op, logs, model, bench, conn):
    kind, arg = op
    if kind == "log":
        level, text = arg
        body = f"@{model.n}@" + TEXTS[text]
        model.n += 1
        if text == "quotes":
            logs.log.log(LEVELS[level], body)
        else:
            logs.log.log(LEVELS[level], "%s", body)
        if LEVELS[level] >= LEVELS[model.level]:
            model.want.append((LEVELS[level], body))
    elif kind == "many":                           # as many records at once, each with a text of that many characters
        for _ in range(arg[0]):
            body = f"@{model.n}@" + str(model.n % 10) * arg[1]
            model.n += 1
            logs.log.error("%s", body)
            if model.level != "critical":
                model.want.append((40, body))
    elif kind == "argument":                       # an argument that changes after the call
        d = {"k": [f"@{model.n}@"]}
        model.n += 1
        body = "value " + str(d)
        logs.log.log(50, "value %s", d)
        d["k"].append("changed")
        model.want.append((50, body))
    elif kind == "child":                          # a logger of the application's own
        body = f"@{model.n}@child"
        model.n += 1
        logging.getLogger("some.module").error("%s", body)
        if model.level != "critical":
            model.want.append((40, body))
    elif kind == "exception":
        body = f"@{model.n}@failed"
        model.n += 1
        try:
            raise KeyError("x")
        except KeyError:
            logging.getLogger().exception(body)
        if model.level != "critical":
            model.want.append((40, body))
    elif kind == "level":
        r = bench.request(conn, "eco.log.level", {"level": arg})
        if r["status"] or r["data"].get("level") != arg:
            raise Violation(f"level request answered {r}", "level request")
        model.level = arg
    elif kind == "bad level":
        r = bench.request(conn, "eco.log.level", {"level": "loud"})
        if not r["status"]:
            raise Violation(f"invalid level request answered {r}", "level request")
    elif kind == "size":
        r = bench.request(conn, "eco.log.buffer", {"size": arg})
        if r["status"] or r["data"].get("size") != arg:
            raise Violation(f"buffer size request answered {r}", "size request")
        model.size = arg
    elif kind == "flush":
        logs.eco.flush()
    elif kind == "shutdown":
        logging.shutdown()
    elif kind == "backdated":                      # the clock was set back
        body = f"@{model.n}@backdated"
        r = logs.log.makeRecord("root", 50, "x.py", 1, body, (), None)
        r.created = 1e9 - model.n
        model.n += 1
        logs.log.handle(r)
        model.want.append((50, body))


def mine(lines):
    return [(l, l["body"]) for l in lines if "@" in l["body"]]


def contents(logs):
    out = []
    for n in logs.files():
        with open(n, "rb") as f:
            out.append(f.read())
    return out


def execute(config, ops, bench, conn, states):
    level, size, max_bytes, max_files, *console = config
    d = boot.fresh_dir("log")
    try:
        logs = appkit.Logs(d, size, max_bytes, max_files, level, console=bool(console))
        model = Model(level)
        model.size = size
        prev = contents(logs)
        for k, op in enumerate(ops):
            if op[0] == "restart":                 # an orderly end and a new start with the same files
                end_logging(True)
                logs = appkit.Logs(d, size, max_bytes, max_files, level, console=bool(console))
                model.level, model.size = level, size
            else:
                perform(op, logs, model, bench, conn)
            now = contents(logs)
            lines = logs.lines()
            have = mine(lines)
            want = model.want
            what = f"level {level}, buffer {size}, rotation at {max_bytes} bytes, {max_files} old files: after {ops[:k + 1]}"
            # whole oldest files only, and only when there are more than the kept number
            ok = False
            for j in range(len(prev) + 1):
                if b"".join(now).startswith(b"".join(prev[j:])) and (j == 0 or len(now) == max_files + 1):
                    ok = True
                    break
            if not ok:
                raise Violation(f"{what}: earlier log content was lost or changed", "content lost")
            if len(now) > max_files + 1:
                raise Violation(f"{what}: {len(now)} log files are kept", "too many files")
            bodies = [b for _, b in have]
            waiting = 0
            if max_files >= 50:
                if bodies != [b for _, b in want[:len(bodies)]]:
                    raise Violation(f"{what}: written {short(bodies)}, logged {short([b for _, b in want])}", "records differ")
                waiting = len(want) - len(bodies)
            else:
                allb = [b for _, b in want]
                starts = [i for i in range(len(allb) - len(bodies) + 1) if allb[i:i + len(bodies)] == bodies]
                if not starts:
                    raise Violation(f"{what}: written {short(bodies)}, logged {short(allb)}", "records differ")
                waiting = 0 if not bodies else len(allb) - starts[-1] - len(bodies)
            if waiting > model.size:
                raise Violation(f"{what}: {waiting} records are waiting, buffer size {model.size}", "too many waiting")
            if op[0] in ("flush", "shutdown", "restart") and waiting:
                raise Violation(f"{what}: {waiting} records are unwritten", "unwritten after flush")
            sev = {b: s for s, b in want}
            for l, b in have:
                if l.get("severity_text") != OTEL[sev[b]]:
                    raise Violation(f"{what}: record {b[:40]!r} written with severity {l.get('severity_text')}", "severity")
            if 0 < max_bytes < 10 ** 6:
                for c in now:
                    if len(c) > max_bytes and c.count(b"\n") > 1:
                        raise Violation(f"{what}: a log file has {len(c)} bytes, more than {max_bytes}", "file too big")
            elif len(now) > 1:
                raise Violation(f"{what}: {len(now)} log files although nothing had to be rotated", "needless rotation")
            states.add(digest((config, model.level, model.size, waiting, len(bodies), len(now))))
            prev = now
        end_logging()
    finally:
        boot.drop_dir(d)


def end_logging(orderly=False):
    if orderly:
        logging.shutdown()
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
        h.close()


def short(bodies):
    return [b[:30] for b in bodies]


def work(job):
    name, config, seqs = job
    part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    import sys as _s
    boot.quiet_logging()
    bench = appkit.Bench()
    bench.do(bench.kit.serve())
    conn = appkit.Conn(bench.kit)
    try:
        for ops in seqs:
            try:
                execute(config, ops, bench, conn, part["states"])
            except Violation as e:
                part["violations"].append({"what": e.what, "sig": e.sig, "trace": [str(o) for o in ops], "replay": {"config": config, "ops": ops}})
                if len(part["violations"]) >= 3:
                    break
            part["traces"] += 1
            part["transitions"] += len(ops)
        part["samples"].append({"config": config, "ops": seqs[0] if seqs else []})
    finally:
        bench.close()
    return part


# ------------------------------------------------------------------------------------------------ threads
def threads_part(n_threads, per, size):
    """Log calls from worker threads while the application flushes: every order in which the threads' calls and flushes can follow one another at call level."""
    part = {"name": f"{n_threads} threads logging in turn, buffer {size}", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    orders = set(itertools.permutations([i for i in range(n_threads) for _ in range(per)] + ["flush"] * 2))
    for order in sorted(orders, key=repr):
        d = boot.fresh_dir("log")
        try:
            logs = appkit.Logs(d, size, 10 ** 9, 99, "debug")
            want = []
            gates = [threading.Semaphore(0) for _ in range(n_threads)]
            done = threading.Semaphore(0)

            def body(i):
                for k in range(per):
                    gates[i].acquire()
                    logging.getLogger().info("@%s.%s@", i, k)
                    done.release()
            ts = [threading.Thread(target=body, args=(i,)) for i in range(n_threads)]
            for t in ts:
                t.start()
            cnt = [0] * n_threads
            for o in order:
                if o == "flush":
                    logs.eco.flush()
                else:
                    want.append(f"@{o}.{cnt[o]}@")
                    cnt[o] += 1
                    gates[o].release()
                    done.acquire()
            for t in ts:
                t.join()
            logs.eco.flush()
            got = [b for _, b in mine(logs.lines())]
            if got != want:
                part["violations"].append({"what": f"threads logging in order {order} left {got}", "sig": "threads", "replay": {"order": order}})
                break
            part["traces"] += 1
            part["transitions"] += len(order)
            part["states"].add(digest(order))
        finally:
            for h in list(logging.getLogger().handlers):
                logging.getLogger().removeHandler(h)
                h.close()
            boot.drop_dir(d)
    part["samples"].append({"order": sorted(orders, key=repr)[0]})
    return part


# ------------------------------------------------------------------------------------------------ real processes
PROG = '''
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
sys.argv = ["verif_app.py", "-i", "0", "-lfo"]
import logging
from ekosis.application_base import ApplicationBase
class App(ApplicationBase):
    async def setup_tasks(self, tasks):
        logging.getLogger().info("@1@started")
        self.stop()
        {inside}
log = logging.getLogger()
class Witness(logging.Handler):
    def emit(self, r):
        with open({witness!r}, "a", encoding="utf-8", newline="") as f:
            f.write(repr((r.levelno, r.getMessage())) + chr(10))
log.addHandler(Witness())
log.debug("@0@debug"); log.info("@0@info"); log.warning("@0@warn"); log.error("@0@error"); log.critical("@0@critical")
{end}
'''
INSIDE = {"exit": "os.kill(os.getpid(), 15)", "raise": "raise KeyError('boom')"}
ENDS = {"falls off": "", "sys.exit": "sys.exit(3)", "exception": "raise KeyError('x')",
        "application terminated": "with App() as a: a.start()", "application fails": "with App() as a: a.start()",
        "application terminated, then the process": "with App() as a: a.start()\nos._exit(0)", "application fails, then the process ends": "with App() as a: a.start()\nos._exit(0)",
        "application without a context, then the process ends": "App().start()\nos._exit(0)"}


def process(job):
    end, size, level = job
    d = boot.fresh_dir("proc")
    name = "real process ends"
    part = {"name": name, "states": {digest(job)}, "transitions": 1, "traces": 1, "samples": [{"end": end, "buffer": size, "level": level}], "violations": []}
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith("ECOENV")}
        for v in ("LOG", "LOCK", "BUFFER", "DEFAULT"):
            env[f"ECOENV_{v}_DIR"] = d
        env["ECOENV_LOG_BUF_SIZE"] = str(size)
        if level:
            env["ECOENV_LOG_LEVEL"] = level
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        witness = os.path.join(d, "witness")
        src = PROG.format(repo=boot.REPO, witness=witness, end=ENDS[end], inside=INSIDE["raise" if "fails" in end else "exit"])
        p = subprocess.run([sys.executable, "-c", src], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        want = [f"@0@{l}" for l in LEVELS if LEVELS[l] >= LEVELS[level or "info"]]
        if end.startswith("application") and "without" not in end and LEVELS[level or "info"] <= 20:
            want.append("@1@started")
        files = [f for f in os.listdir(d) if f.endswith(".log")]
        got = []
        for f in files:
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                got += [json.loads(l)["body"] for l in fh.read().splitlines()]
        seen = []
        if os.path.exists(witness):
            with open(witness, encoding="utf-8") as fh:
                seen = [ast.literal_eval(l) for l in fh]
        first = next((i for i, b in enumerate(got) if b.startswith("@0@")), len(got))
        every, got = got[first:], [b for b in got if b.startswith("@")]
        seen = [m for n, m in seen if n >= LEVELS[level or "info"]]
        if got == want and every != seen:
            part["violations"].append({"what": f"process with buffer {size}, level {level or 'not set'} that ended by '{end}': the log has {every}, logged {seen}", "sig": f"process end {end}", "replay": {"job": job}})
        if got != want:
            part["violations"].append({"what": f"process with buffer {size}, level {level or 'not set'} that ended by '{end}' left {got}, logged {want}; stderr {p.stderr[-300:]!r}",
                                       "sig": f"process end {end}" if got else "process end, nothing", "replay": {"job": job}})
    finally:
        boot.drop_dir(d)
    return part


def dispatch(job):
    if job[0] == "process":
        return process(job[1])
    if job[0] == "threads":
        return threads_part(*job[1])
    return work(job[1])


def jobs_for(tier):
    jobs = []
    L = lambda lv, t="plain": ("log", (lv, t))
    core = [L("info"), L("error"), ("level", "error"), ("level", "debug"), ("size", 0), ("size", 2), ("flush", None)]
    texts = [L("info", t) for t in TEXTS] + [("argument", None), ("child", None), ("exception", None), L("debug"), L("warn"), L("critical"), ("bad level", None)]
    every = [L(l) for l in LEVELS] + [("level", l) for l in LEVELS]

    def add(name, config, seqs, step=600):
        seqs = list(seqs)
        for k in range(0, len(seqs), step):
            jobs.append(("work", (name, config, seqs[k:k + step])))
    depth = 4 if tier == "quick" else 5
    for size in (0, 1, 2, 3):
        add(f"sequences of {depth}, no rotation", ("info", size, 10 ** 9, 99), itertools.product(core, repeat=depth))
    for size in (0, 1, 3):
        for mb in (1, 700):
            add("sequences with rotation, everything kept", ("debug", size, mb, 99), itertools.product(core, repeat=depth - 1))
            for mf in (1, 2):
                add(f"sequences with rotation, {mf} old files kept", ("debug", size, mb, mf),
                    (s for s in itertools.product([L("info"), L("error", "long"), ("flush", None), ("size", 0)], repeat=depth)))
    for lv in LEVELS:
        for size in (0, 2):
            add("all levels", (lv, size, 10 ** 9, 99), itertools.product(every, repeat=2 if tier == "quick" else 3))
    for size in (0, 1, 2, 3, 100):
        add("all kinds of records", ("debug", size, 10 ** 9, 99), (s + (("flush", None),) for s in itertools.product(texts, repeat=2)))
        add("all kinds of records, then shutdown", ("debug", size, 900, 99), (s + (("shutdown", None),) for s in itertools.product(texts, repeat=2)))
    add("shrinking and growing the buffer", ("error", 3, 10 ** 9, 99), (s for s in itertools.product([L("error"), ("size", 0), ("size", 1), ("size", 3), ("size", 5)], repeat=depth + 1)))
    again = [L("info"), L("error", "long"), ("flush", None), ("restart", None), ("backdated", None), ("size", 2)]
    for config in (("info", 3, 10 ** 9, 99), ("info", 0, 10 ** 9, 99), ("debug", 2, 700, 99), ("info", 2, 0, 99), ("debug", 3, 10 ** 9, 99, "console"), ("debug", 0, 700, 1)):
        add("restarts, clock set back, console too", config, itertools.product(again, repeat=depth))
    M = lambda n, length=5: ("many", (n, length))
    many = [M(7), M(260), M(1100), ("flush", None), ("size", 3), ("size", 700)]
    for config in (("info", 50, 10 ** 9, 99), ("info", 1000, 10 ** 9, 99), ("info", 3000, 10 ** 9, 99)):
        add("hundreds of records", config, itertools.product(many, repeat=3 if tier == "quick" else 4), 60)
    for size in (0, 40):
        add("dozens of old files", ("info", size, 3000, 99), itertools.product([M(40), M(250), ("flush", None), ("restart", None)], repeat=3), 16)
        for kept in (3, 12, 25):
            add("hundreds of records, rotation", ("info", size, 3000, kept), itertools.product([M(40), M(130), ("flush", None), ("restart", None)], repeat=3), 16)
        for length in (20_000, 70_000, 2_000_000):
            add("very long records", ("info", size, 10 ** 9, 99), itertools.product([M(1, length), M(2), ("flush", None)], repeat=3), 9)
            add("very long records, rotation", ("info", size, 50_000, 99), itertools.product([M(1, length), M(2), ("flush", None)], repeat=3), 9)
    jobs.append(("threads", (2, 2, 0)))
    jobs.append(("threads", (2, 2, 3)))
    if tier != "quick":
        jobs.append(("threads", (3, 2, 2)))
    for end in ENDS:
        for size in (0, 50):
            for level in (None, "debug", "error") if tier == "quick" else (None, *LEVELS):
                jobs.append(("process", (end, size, level)))
    return jobs


def run(report, tier):
    appkit.load(warm=False)
    merged = {}
    for p in pmap(dispatch, jobs_for(tier)):
        m = merged.setdefault(p["name"], p)
        if m is not p:
            for k in ("transitions", "traces"):
                m[k] += p[k]
            m["states"] |= p["states"]
            m["violations"] += p["violations"]
    for p in merged.values():
        report.add(p)
    report.notes["bounds"] = "buffer sizes 0..3 and 100, rotation at 1, 700, 900 bytes and never, 1, 2 or 99 old files kept, sequence lengths per part"
