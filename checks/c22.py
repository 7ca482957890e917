"""C22: shipped log records carry exactly what was logged."""
TECHNIQUE = 'exhaustive enumeration of log records and post results, through the real logger, log file and shipper program (C++) to the posted payload'
NOTE = 'The real logger writes the lines, the real shipper (compiled from the working tree) reads and posts them, and every posted record is compared with the record logged; delivery is judged by whether the shipper posts the same lines again.'
import calendar, itertools, json, logging, os, shutil
from datetime import datetime, timedelta, timezone
from mc import appkit, boot
from mc.core import Violation, digest, pmap
from checks import shipper

OTEL = {10: (5, "DEBUG"), 20: (9, "INFO"), 30: (13, "WARN"), 40: (17, "ERROR"), 50: (21, "FATAL")}
ALPHABET = ['a', ' ', '"', '\\', '/', "'", '\n', '\r', '\t', '\0', '\x01', '\x1f', '\x7f', '%', '{', '}', 'u', '\x80', '\x85', '\u00e9', '\u0394', '\u2028', '\ufeff', '\ufffd', '\uffff', '\U0001f600', '\U0010ffff']
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def nanos(text):
    return (datetime.fromisoformat(text) - EPOCH) // timedelta(microseconds=1) * 1000


def times(tier):
    out = []
    years = [1970, 1999, 2000, 2023, 2024, 2026, 2037, 2038, 2040, 2100] if tier == "quick" else list(range(1970, 2201))
    micros = [0, 1, 9, 10, 100, 1000, 10000, 33174, 100000, 331740, 500000, 999999]
    for y in years:
        for mo, d in [(1, 1), (2, 28), (2, 29), (3, 1), (3, 29), (6, 30), (10, 31), (11, 2), (12, 31)] if tier == "quick" else [(m, d) for m in range(1, 13) for d in (1, 28, calendar.monthrange(y, m)[1])]:
            if (mo, d) == (2, 29) and not calendar.isleap(y):
                continue
            for h, mi, s in [(0, 0, 0), (1, 30, 0), (2, 30, 59), (23, 59, 59)]:
                out.append((datetime(y, mo, d, h, mi, s, tzinfo=timezone.utc) - EPOCH) // timedelta(seconds=1))
    return [(t, m) for k, t in enumerate(out) for m in (micros if tier != "quick" or k % 40 == 0 else (0, micros[k % len(micros)]))]


def value(v):
    """An OTLP value as (kind, value)."""
    if not isinstance(v, dict) or len(v) != 1:
        return ("?", v)
    (k, x), = v.items()
    return (k, int(x) if k == "intValue" else x)


def typed(x):
    if isinstance(x, bool):
        return ("boolValue", x)
    if isinstance(x, int):
        return ("intValue", x)
    return ("stringValue", x)


def compare(want, res, rec, what):
    def bad(text, sig):
        raise Violation(f"{what}: {text}; the line was {json.dumps(want)[:300]}, the record posted {json.dumps(rec)[:300]}", sig)
    if rec.get("body") != {"stringValue": want["body"]}:
        bad("the text differs", "text")
    if int(rec.get("timeUnixNano", -1)) != nanos(want["timestamp"]):
        bad(f"time {rec.get('timeUnixNano')} is not {want['timestamp']}", "timestamp")
    if rec.get("severityNumber") != want["severity_number"] or rec.get("severityText") != want["severity_text"]:
        bad("the severity differs", "severity")
    attrs = [(a["key"], value(a["value"])) for a in rec.get("attributes", [])]
    if sorted(attrs) != sorted((k, typed(v)) for k, v in want["attributes"].items()):
        bad("the attributes differ", "attributes")
    for ours, theirs in (("trace_id", "traceId"), ("span_id", "spanId")):
        if (rec.get(theirs) or None) != want[ours]:
            bad(f"{theirs} differs", "identifiers")
    have = (value(res.get("service.name")), value(res.get("service.instance.id")))
    if have != (("stringValue", want["attributes"]["application_name"]), ("stringValue", want["attributes"]["application_instance"])):
        bad(f"posted for {have}", "service")


def ship(files, what):
    """files: name -> list of lines. Ships them and yields the records posted, per file in order."""
    base = boot.fresh_dir("s22")
    logs, state = os.path.join(base, "logs"), os.path.join(base, "state")
    os.mkdir(logs)
    os.mkdir(state)
    for n, lines in files.items():
        with open(os.path.join(logs, n), "wb") as f:
            f.write(b"".join(lines))
    life = shipper.Life(logs, state)
    posts, steps, quiet = [], 0, 0
    try:
        while quiet < 3:
            kind, data = life.next()
            steps += 1
            if kind == "exit":
                raise Violation(f"{what}: the shipper ended by itself (status {data})", "shipper ends")
            if kind == "H":
                url, body = data.split(b"\n", 1)
                url, *headers = url.split(b"\t")
                if not any(h.lower().replace(b" ", b"").split(b";")[0] == b"content-type:application/json" for h in headers):
                    raise Violation(f"{what}: posted as {headers}, which is not json", "content type")
                if url != b"http://collector/v1/logs":
                    raise Violation(f"{what}: posted to {url!r}", "wrong address")
                try:
                    posts += shipper.records(body)
                except (ValueError, KeyError, TypeError) as e:
                    raise Violation(f"{what}: the payload is no OTLP log payload ({e!r}): {body[:300]!r}", "payload")
                life.go(0, 200)
                quiet = 0
                continue
            if kind == "S":
                quiet += 1
            life.go()
    finally:
        life.kill(wait=False)
        shutil.rmtree(base, ignore_errors=True)
    return posts, steps


def logged(cases, name, instance):
    """Log the cases with the real logger; returns the lines written."""
    d = boot.fresh_dir("l22")
    try:
        from ekosis.configuration.config_models import AppConfiguration
        cfg = AppConfiguration()
        cfg.name, cfg.instance = name, instance
        logs = appkit.Logs(d, 0, 10 ** 9, 3, "debug")
        logs.log.setLevel(1)
        for h in logs.log.handlers:
            h.setLevel(1)
        for level, body, t, micro in cases:
            r = logging.LogRecord("some.logger", level, "/some/where/module.py", 7, body, None, None, "func")
            if t is not None:
                r.created = t + micro / 1e6
            logs.log.handle(r)
        logs.eco.flush()
        for h in list(logs.log.handlers):
            logs.log.removeHandler(h)
            h.close()
        return [l + b"\n" for l in logs.text().split(b"\n")[:-1]]
    finally:
        boot.drop_dir(d)


def records_part(job):
    label, cases, name, instance = job
    what = f"{label} of {name}/{instance}"
    part = {"states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    try:
        lines = logged(cases, name, instance)
        if len(lines) != len(cases):
            raise Violation(f"{what}: {len(cases)} records were logged, {len(lines)} lines written", "lines")
        docs = [json.loads(l) for l in lines]
        for (level, body, t, micro), doc in zip(cases, docs):
            want = {"body": body, "application_name": name, "application_instance": instance}
            have = {"body": doc["body"], "application_name": doc["attributes"].get("application_name"), "application_instance": doc["attributes"].get("application_instance")}
            if want != have:
                raise Violation(f"{what}: logged {want}, the line has {have}", "line differs")
            if level in OTEL and (doc["severity_number"], doc["severity_text"]) != OTEL[level]:
                raise Violation(f"{what}: level {level} is written as {doc['severity_number']} {doc['severity_text']}", "severity of line")
            if t is not None and abs(nanos(doc["timestamp"]) - (t * 10 ** 9 + micro * 1000)) > 1000:
                raise Violation(f"{what}: logged at {t}+{micro}us, the line has {doc['timestamp']}", "time of line")
        posts, steps = ship({"app.log": lines}, what)
        if len(posts) != len(docs):
            raise Violation(f"{what}: {len(docs)} lines written, {len(posts)} records posted", "number of records")
        for doc, (res, rec) in zip(docs, posts):
            compare(doc, res, rec, what)
            part["states"].add(digest((rec["timeUnixNano"], rec["body"], rec["severityNumber"])))
        part["transitions"], part["traces"] = steps + len(docs), len(docs)
        part["samples"].append({"case": what, "line": lines[0].decode(errors="replace")[:300], "posted": posts[0][1]})
    except Violation as e:
        part["violations"].append({"what": e.what, "sig": e.sig, "trace": e.detail, "replay": {"case": what}})
    return part


def lines_part(job):
    """Lines with every combination of identifiers and attributes, two applications side by side."""
    label, combos = job
    part = {"states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    try:
        files, want = {}, {}
        for app, inst in (("shop", "0"), ("b\u00e4ckerei \"1\"", "left-\\2")):
            docs = []
            for n, (tid, sid, attrs) in enumerate(combos):
                d = json.loads(shipper.line(f"{app} {n}", app, inst))
                d["trace_id"], d["span_id"] = tid, sid
                d["attributes"].update(attrs)
                docs.append(d)
            fn = f"{app.split()[0]}-{inst[0]}.log"
            files[fn] = [json.dumps(d, separators=(",", ":"), ensure_ascii=False).encode() + b"\n" for d in docs]
            want[inst] = docs
        posts, steps = ship(files, label)
        got = {inst: [] for inst in want}
        for res, rec in posts:
            inst = value(res.get("service.instance.id"))[1]
            if inst not in got:
                raise Violation(f"{label}: a record is posted for instance {inst!r}", "service")
            got[inst].append((res, rec))
        for inst, docs in want.items():
            if len(docs) != len(got[inst]):
                raise Violation(f"{label}: {len(docs)} lines of instance {inst!r}, {len(got[inst])} records posted", "number of records")
            for doc, (res, rec) in zip(docs, got[inst]):
                compare(doc, res, rec, label)
                part["states"].add(digest((rec.get("traceId"), rec.get("spanId"), rec["attributes"])))
        part["transitions"], part["traces"] = steps, 2 * len(combos)
        part["samples"].append({"case": label, "posted": posts[0][1]})
    except Violation as e:
        part["violations"].append({"what": e.what, "sig": e.sig, "trace": e.detail, "replay": {"case": label}})
    return part


def delivery_part(job):
    label, results = job
    part = {"states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    base = boot.fresh_dir("d22")
    logs, state = os.path.join(base, "logs"), os.path.join(base, "state")
    os.mkdir(logs)
    os.mkdir(state)
    path = os.path.join(logs, "a.log")
    life = None
    try:
        n, steps, waits = 0, 0, 0
        todo = list(results)
        last = None                                # (lines, code, status) of the post before
        open(path, "wb").close()
        life = shipper.Life(logs, state)
        fresh = False
        while True:
            kind, data = life.next()
            steps += 1
            if kind == "exit":
                raise Violation(f"the shipper ended by itself (status {data}) after {last}", "shipper ends")
            if kind == "S":
                waits += 1
                if last is not None and waits >= 3:                 # nothing posted any more: it took the last post as delivered
                    ids, code, status = last
                    if code or not 200 <= status <= 299:
                        raise Violation(f"a post with transfer result {code} and status {status} is not posted again", "failure taken as delivery")
                    last = None
                if last is None:
                    if not todo and not fresh:
                        break
                    if not fresh:
                        n += 1
                        with open(path, "ab") as f:
                            f.write(shipper.line(f"a:{n}"))
                        fresh, waits = True, 0
                    elif waits > 4:
                        raise Violation("a new line is not posted", "not posted")
                life.go()
                continue
            if kind != "H":
                life.go()
                continue
            waits = 0
            ids = [r[1]["body"]["stringValue"] for r in shipper.records(data.split(b"\n", 1)[1])]
            if ids != [f"a:{n}"]:
                raise Violation(f"posted {ids}, expected ['a:{n}'] (post before: {last})", "wrong lines")
            if last is not None and not last[1] and 200 <= last[2] <= 299:
                raise Violation(f"a post with transfer result 0 and status {last[2]} is posted again", "delivery taken as failure")
            code, status = todo.pop(0) if todo else (0, 200)
            fresh = False
            part["states"].add((code, status))
            part["traces"] += 1
            last = (ids, code, status)
            life.go(code, status)
        part["transitions"] = steps
        part["samples"].append({"case": label, "results": len(results)})
    except Violation as e:
        part["violations"].append({"what": f"{label}: {e.what}", "sig": e.sig, "trace": e.detail, "replay": {"case": label}})
    finally:
        if life is not None:
            life.kill(wait=False)
        shutil.rmtree(base, ignore_errors=True)
    return part


def job(j):
    return j[0](j[1])


def run(report, tier):
    shipper.build()
    appkit.load()
    jobs = []
    bodies = [""] + ALPHABET + [a + b for a, b in itertools.product(ALPHABET, repeat=2)]
    if tier != "quick":
        bodies += ["".join(t) for t in itertools.product(ALPHABET, repeat=3)]
    bodies += ["x" * n for n in (100, 8191, 8192, 8193, 70000)] + [json.dumps({"timestamp": "x", "body": "y"}), "null", "true", "17"]
    cases = [(20, b, 1781803644, 331740) for b in bodies]
    apps = [("shop", "0"), ("b\u00e4ckerei", "left"), ("a b", "12-3")]
    for k in range(0, len(cases), 250):
        jobs.append((records_part, ("texts", cases[k:k + 250], *apps[k // 250 % 3])))
    jobs.append((records_part, ("large batch", [(20, f"{n}" + "x" * 2000, 1781803644 + n, 0) for n in range(1200)], *apps[0])))
    levels = [(lv, f"level {lv}", 1781803644 + lv, 0) for lv in range(1, 61)] + [(lv, "now", None, 0) for lv in (10, 20, 30, 40, 50)]
    for a in apps:
        jobs.append((records_part, ("levels", levels, *a)))
    tcases = [(30, "time", t, m) for t, m in times(tier)]
    for k in range(0, len(tcases), 400):
        jobs.append((records_part, ("times", tcases[k:k + 400], *apps[0])))
    ids = [None, "0" * 31 + "1", "0123456789abcdef0123456789abcdef", "f" * 32]
    sids = [None, "0123456789abcdef", "0123456789abcdef0123456789abcdef"]
    attrs = [{}, {"funcName": "<module>"}, {"lineno": 0}, {"lineno": -1}, {"lineno": 2 ** 31}, {"lineno": 2 ** 63 - 1}, {"lineno": -2 ** 63}, {"flag": True}, {"flag": False}, {"text": "true"}, {"text": "5"}, {"text": ""},
             {"text": "\u00e9\n\"\\"}, {"": "empty key"}, {"k.with.dots": "v", "another": 3}]
    jobs.append((lines_part, ("identifiers and attributes", list(itertools.product(ids, sids, attrs)))))
    jobs.append((lines_part, ("many attributes, long names and values", [(ids[2], sids[1], a) for a in (*({f"k{i}": (i, f"v{i}", bool(i % 2))[i % 3] for i in range(n)} for n in (12, 25, 60, 300, 1500)),
                                                                                                           *({"n" * n: 1, "text": "v" * n} for n in (64, 300, 5000, 200_000)))])))
    jobs.append((records_part, ("huge texts", [(20, "x\u00e9\n" * (n // 4), 1781803644, 0) for n in (300_000, 1_100_000, 4_200_000, 12)], *apps[0])))
    for a in range(0, len(ALPHABET), 9):
        jobs.append((lines_part, ("attribute texts", [(None, None, {"t": x, x: "t"}) for x in ALPHABET[a:a + 9]])))
    codes = list(range(1, 100))
    statuses = [0] + list(range(100, 600))
    for k in range(0, len(statuses), 60):
        jobs.append((delivery_part, (f"statuses from {statuses[k]}", [(0, s) for s in statuses[k:k + 60]])))
    some = (0, 100, 200, 204, 299, 302, 404, 503) if tier == "quick" else statuses
    for k in range(0, len(codes), 10):
        jobs.append((delivery_part, (f"transfer results from {codes[k]}", [(c, s) for c in codes[k:k + 10] for s in some])))
    merged = {}
    for (fn, args), part in zip(jobs, pmap_ordered(jobs)):
        m = merged.setdefault(args[0].split(" from")[0], {"name": args[0].split(" from")[0], "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True})
        m["states"] |= part["states"]
        m["transitions"] += part["transitions"]
        m["traces"] += part["traces"]
        m["violations"] += part["violations"]
        if len(m["samples"]) < 2:
            m["samples"] += part["samples"]
    for m in merged.values():
        report.add(m)
    report.notes["bounds"] = "texts up to 2 (thorough: 3) characters over the alphabet and some long ones, levels 1..60, calendar boundaries, transfer results 0..99 and statuses 0, 100..599"


def pmap_ordered(jobs):
    out = [None] * len(jobs)
    for k, r in pmap(lambda kj: (kj[0], job(kj[1])), list(enumerate(jobs))):
        out[k] = r
    return out
