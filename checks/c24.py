"""C24: metric export reports every service and every statistic faithfully."""
TECHNIQUE = 'exhaustive enumeration of statistics documents (made by the real statistics keeper), service address settings and answer/failure patterns over consecutive scrapes, run through the real exporter on a virtual network'
NOTE = 'The pushed registry is compared, sample by sample, with what each service would have to be reported as; the documents come from the real keeper, the services answer on the addresses they are configured with.'
import asyncio, importlib, itertools, json, os, re, socket, sys
from mc import appkit, boot, vloop
from mc.core import Violation, digest, forked, pmap, Chooser
from checks.clients import virtual_clock

PERIOD = 5
FAILURES = ("refuse", "close", "garbage", "error", "silent", "wrong")


# ------------------------------------------------------------------------------ documents
def keeper_document(spec):
    """What a real service's statistics look like after one gather period. Runs in a forked child."""
    routes, queues, senders, custom, calls, name, inst = spec
    from ekosis.state_keepers.statistics_keeper import StatisticsKeeper

    class Q:
        def __init__(self, n):
            self.n = n

        def size(self):
            return self.n
    k = StatisticsKeeper()
    k.set_gather_period(PERIOD)
    for i, r in enumerate(routes):
        k.track_endpoint_data(r)
        for c in range((calls + i) % 3):
            k.add_endpoint_stats(r, 0.0 if (calls + i) % 2 else 0.25 * (c + i + 1))
    for i, r in enumerate(queues):
        k.add_persisted_queue(f"buffered_endpoint_sizes.{r}.pending", Q(i + calls))
        k.add_persisted_queue(f"buffered_endpoint_sizes.{r}.error", Q(10 * i))
    for i, r in enumerate(senders):
        k.add_persisted_queue(f"buffered_sender_sizes.{r}.pending", Q(100 + i))
        k.add_persisted_queue(f"buffered_sender_sizes.{r}.error", Q(i))
    for key, v in custom:
        k.set_statistic_value(key, v)
    b = appkit.Bench()
    try:
        async def gather():
            async with k:
                await k.gather_statistics()
        t = b.loop.create_task(gather())
        b.drain()
        for _ in range(PERIOD + 1):
            b.advance(1)
        doc = b.do(k.get_last_gathered_statistics())
        t.cancel()
        doc = json.loads(json.dumps(doc))
    finally:
        b.close()
    if "endpoint_data" not in doc and routes:
        raise RuntimeError(f"no document: {doc}")
    doc["application"] = {"name": name, "instance": inst}
    return doc


def expected(doc, spec, name, inst):
    """(metric, sorted labels) -> value. Labels group and endpoint are joined: how the route key is split is not judged."""
    routes, queues, senders, custom = spec[:4]
    out = {}

    def at(*path):
        d = doc
        for p in path:
            d = d[p]
        return d

    def put(metric, value, route=None):
        out[(metric, name, inst, route)] = float(value)
    for f, m in (("uptime", "ekosis_uptime_seconds"), ("gather_period", "ekosis_gather_period_seconds")):
        if f in doc:
            put(m, doc[f])
    for r in routes:
        if r.split(".")[0] == "eco":
            continue
        d = at("endpoint_data", *r.split("."))
        put("ekosis_endpoint_call_count", d["call_count"], r)
        for p in ("p95", "p99"):
            if d[p] >= 0:
                put(f"ekosis_endpoint_{p}_seconds", d[p], r)
    for kind, rs in (("endpoint", queues), ("sender", senders)):
        for r in rs:
            if r.split(".")[0] == "eco":
                continue
            d = at(f"buffered_{kind}_sizes", *r.split("."))
            for f in ("pending", "error"):
                put(f"ekosis_buffered_{kind}_queue_{f}", d[f], r)
    for key, v in custom:
        put("ekosis_custom_" + key.replace(".", "_").replace("-", "_"), v)
    return out


def samples(registry):
    out = {}
    for m in registry.collect():
        for s in m.samples:
            lab = dict(s.labels)
            route = None
            if "endpoint" in lab:
                route = ".".join(x for x in (lab.pop("group", ""), lab.pop("endpoint")) if x)
            key = (re.sub("[^A-Za-z0-9_]", "_", s.name), lab.pop("service", None), lab.pop("instance", None), route)
            if lab:
                raise Violation(f"unexpected labels {s.labels} of {s.name}", "labels")
            if key in out:
                raise Violation(f"{key} is exported twice", "exported twice")
            out[key] = s.value
    return out


# ------------------------------------------------------------------------------ the exporter
class Exporter:
    """The real exporter application with services at the other end of a virtual network. In a forked child."""
    def __init__(self, env):
        for k in [k for k in os.environ if k[:10] in ("ECOENV_TCP", "ECOENV_UDP", "ECOENV_UDS")]:
            del os.environ[k]
        os.environ.update(env)
        self.b = appkit.Bench()
        virtual_clock(self.b.env, 10 ** 6)
        self.pushed = []
        self.mode = {}                      # address -> how it answers: a document, or one of FAILURES
        sink = self.pushed
        import prometheus_client

        def push(gateway, job, registry, *a, **k):
            if job is None or gateway != "http://gateway:9091":
                raise Violation(f"pushed to {gateway} as {job}", "push address")
            sink.append(registry)
        prometheus_client.push_to_gateway = push
        net = self.b.loop.net
        net.on_connect = self.connect
        net.on_datagram = self.datagram
        sys.path.insert(1, os.path.join(boot.REPO, "ekosis_prometheus"))
        app = importlib.import_module("ekosis_prometheus.application")
        os.chdir(self.b.kit.dir)
        self.app = app.EkosisPrometheusApp()
        self.tasks = []

        async def start():
            await self.app.setup_tasks(self.tasks)
        self.b.do(start())
        self.running = [self.b.loop.create_task(t) if asyncio.iscoroutine(t) else t for t in self.tasks]
        self.b.drain()

    def how(self, addr):
        return self.mode.get(addr, "refuse")

    def respond(self, how, send, close):
        if how == "silent":
            return
        if how == "close":
            return close()
        if how == "garbage":
            return send(b"no json at all\n")
        key = appkit.span(77)
        k = {"trace_id": str(key.trace_id), "span_id": str(key.span_id)}
        if how == "error":
            return send((json.dumps({"span_key": k, "status": 5, "data": {"error": "x"}}) + "\n").encode())
        if how == "wrong":
            return send((json.dumps({"span_key": k, "status": 0, "data": {"nothing": 1}}) + "\n").encode())
        return send((json.dumps({"span_key": k, "status": 0, "data": {"statistics": how}}) + "\n").encode())

    def reply(self, raw, how, send, close):
        req = json.loads(raw)
        if req["route_key"] != "eco.statistics.get" or req["data"].get("type") != "gathered":
            raise Violation(f"a service was asked for {req}", "request to service")

        def mine(data):
            try:
                d = json.loads(data)
                if "span_key" in d:
                    d["span_key"] = req["span_key"]
                    if "uid" in d:
                        d["uid"] = req.get("uid")
                data = (json.dumps(d) + "\n").encode()
            except ValueError:
                pass
            send(data)
        self.respond(how, mine, close)

    async def connect(self, addr, factory):
        await asyncio.sleep(0)
        how = self.how(tuple(addr) if isinstance(addr, (list, tuple)) else addr)
        if how == "refuse":
            raise ConnectionRefusedError("refused")
        buf = [b""]
        box = []

        def wrote(data):
            buf[0] += data
            if b"\n" in buf[0]:
                raw, buf[0] = buf[0].split(b"\n", 1)
                t = box[0]
                soon = self.b.loop.call_soon
                self.reply(raw, how, lambda d: soon(t.feed, d), lambda: soon(t.feed_eof))
        t, p = self.b.loop.net.attach(factory, wrote, lambda: None)
        box.append(t)
        return t, p

    def datagram(self, local, remote, transport):
        def sent(data, addr):
            how = self.how(("udp", *remote[:2]))
            if how == "refuse":
                return
            self.reply(data, how, lambda d: self.b.loop.call_soon(transport.feed, d.rstrip(b"\n"), remote), lambda: None)
        transport.on_send = sent

    def scrape(self):
        """Until the next push; the samples pushed."""
        n = len(self.pushed)
        for _ in range(400):
            self.b.advance(1)
            if len(self.pushed) > n:
                break
            if all(t.done() for t in self.running):
                raise Violation(f"the exporter ended: {[t.exception() for t in self.running if not t.cancelled()]}", "exporter ends")
        else:
            raise Violation("nothing was pushed for a long time", "no push")
        if len(self.pushed) > n + 1:
            raise Violation("pushed twice", "pushed twice")
        return samples(self.pushed[-1])

    def close(self):
        for t in self.running:
            t.cancel()
        self.b.close()


def compare(got, want, what):
    for k, v in want.items():
        if k not in got:
            raise Violation(f"{what}: {k} = {v} is not exported", f"missing {k[0] if k[0] != 'ekosis_service_health' else 'health'}")
        if got[k] != v and not (v != v and got[k] != got[k]):
            raise Violation(f"{what}: {k} is exported as {got[k]}, should be {v}", f"value of {k[0]}")
    for k in got:
        if k not in want:
            raise Violation(f"{what}: {k} = {got[k]} is exported, but nothing like it was reported", f"invented {k[0]}")


def service_env(kind, name, inst, n, d):
    """(variables, address on the virtual network)"""
    var = f"ECOENV_{kind.split('-')[0].upper()}_{name.upper()}_{inst}"
    if kind == "uds":
        return {var: f"{d}/sock{n}"}, ("uds", f"{d}/sock{n}")
    if kind == "uds-default":
        return {var: f"{d}/DEFAULT"}, ("uds", f"{d}/{name}_{inst}.uds.sock")
    host = ("127.0.0.1", "localhost", "0.0.0.0", socket.gethostname())[n % 4]
    return {var: f"{host}:{4000 + n}"}, (kind.split("-")[0], host, 4000 + n)


def health(name, inst, v):
    return {("ekosis_service_health", name, inst, None): float(v)}


# ------------------------------------------------------------------------------ cases (each in a forked child)
def case_doc(job):
    spec, kind = job
    doc = forked(lambda ch: keeper_document(spec))(Chooser())
    name, inst = spec[5], spec[6]
    env, addr = service_env(kind, name, inst, 0, "/nowhere")
    x = Exporter(env)
    try:
        want = {**expected(doc, spec, name, inst), **health(name, inst, 1)}
        for turn in range(2):
            x.mode = {addr: doc if turn == 0 else "silent"}
            got = x.scrape()
            compare(got, want if turn == 0 else health(name, inst, 0), f"service {name}-{inst} with {spec}" + ("" if turn == 0 else ", which then stopped answering"))
    finally:
        x.close()
    return digest(("doc", doc, kind)), 2


DOCS = None


def plain_doc(n, name, inst):
    if n % 3 == 0:
        return {}, ((), (), (), ())                      # nothing gathered yet: the service is known by its configured name
    r = f"g{n}.do"
    doc = {"timestamp": 1.0, "uptime": 10.0 * n, "gather_period": PERIOD, "application": {"name": name, "instance": inst},
           "endpoint_data": {f"g{n}": {"do": {"call_count": n, "p95": 0.5 * n, "p99": -1.0}}, "same": {"route": {"call_count": 10 * n, "p95": -1.0, "p99": 0.25}},
                             "eco": {"statistics": {"get": {"call_count": 3, "p95": 0.1, "p99": 0.1}}}},
           "mine": {"count": n}, "both": 5.0 * n}
    return doc, ((r, "same.route", "eco.statistics.get"), (), (), (("mine.count", n), ("both", 5.0 * n)))


def case_pattern(job):
    """services: (transport, name, instance) each; pattern: per scrape, per service: ok or a failure."""
    services, patterns = job
    env, addrs = {}, []
    for n, (kind, name, inst) in enumerate(services):
        e, a = service_env(kind, name, inst, n, "/nowhere")
        env.update(e)
        addrs.append(a)
    x = Exporter(env)
    try:
        for turn, pattern in enumerate(patterns):
            want, mode = {}, {}
            for n, ((kind, name, inst), how) in enumerate(zip(services, pattern)):
                if how == "ok":
                    first = [s[1:] for s in services].index((name, inst))
                    doc, spec = plain_doc(first + turn, name, inst)
                    mode[addrs[n]] = doc
                    want.update(expected(doc, spec, name, inst))
                    want.update(health(name, inst, 1))
                else:
                    mode[addrs[n]] = how
                    if ("ekosis_service_health", name, inst, None) not in want:
                        want.update(health(name, inst, 0))
            x.mode = mode
            compare(x.scrape(), want, f"services {services}, scrape {turn}, answers {patterns[:turn + 1]}")
    finally:
        x.close()
    return digest(("pattern", job)), len(patterns)


SETTINGS = [   # variable, value, (name, instance, address) or None if it is not a local service
    ("ECOENV_TCP_ROUTER_0", "127.0.0.1:8100", ("router", "0", ("tcp", "127.0.0.1", 8100))),
    ("ECOENV_UDP_TIME_REPORTER_0", "localhost:8101", ("time_reporter", "0", ("udp", "localhost", 8101))),
    ("ECOENV_UDS_TRACKER_1", "/nowhere/t.sock", ("tracker", "1", ("uds", "/nowhere/t.sock"))),
    ("ECOENV_UDS_TRACKER_2", "/nowhere/DEFAULT", ("tracker", "2", ("uds", "/nowhere/tracker_2.uds.sock"))),
    ("ECOENV_TCP_ROUTER_11", "0.0.0.0:8102", ("router", "11", ("tcp", "0.0.0.0", 8102))),
    ("ECOENV_TCP_FAR_AWAY_0", "192.0.2.7:8103", None),
    ("ECOENV_UDP_FAR_AWAY_1", "far.example.org:8104", None),
    ("ECOENV_TCP_BROKEN_0", "127.0.0.1:port", None),
    ("ECOENV_TCP_TCP_UDP_0", "127.0.0.1:8105", ("tcp_udp", "0", ("tcp", "127.0.0.1", 8105))),
    ("ECOENV_LOG_DIR_TCP_X_0", "/nowhere", None),
]


def case_settings(job):
    mask, order = job
    chosen = [s for i, s in enumerate(SETTINGS) if mask >> i & 1]
    if order:
        chosen.reverse()
    env, want, mode = {}, {}, {}
    for n, (var, val, svc) in enumerate(chosen):
        env[var] = val
        if svc:
            mode[svc[2]] = {} if (n + mask) % 3 else "refuse"
            want.update(health(svc[0], svc[1], 1 if (n + mask) % 3 else 0))
    x = Exporter(env)
    try:
        x.mode = mode
        compare(x.scrape(), want, f"with {env}")
    finally:
        x.close()
    return digest(("settings", mask)), 1


CASES = {"doc": case_doc, "pattern": case_pattern, "settings": case_settings}


def work(job):
    kind, name, items = job
    part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    for it in items:
        try:
            s, n = forked(lambda ch: CASES[kind](it))(Chooser())
            part["states"].add(s)
            part["transitions"] += n
        except Violation as e:
            part["violations"].append({"what": e.what, "sig": e.sig, "trace": [], "replay": {"case": kind, "item": it}})
            if len(part["violations"]) >= 3:
                break
        part["traces"] += 1
    part["samples"].append({"case": kind, "item": items[0]})
    return part


ROUTES = ("ping", "app.x", "app.y.z", "app.x.deep", "eco.statistics.get", "economy.a", "a.b.c.d", "shop.eco.x")
CUSTOM = (("hits", 3), ("group.count", 2.5), ("group.deep.value", -1), ("with-dash.x", 7), ("zero", 0), ("big", 2 ** 60), ("errors", 4), ("error.pending", 5))


def subsets(seq):
    seq = tuple(seq)
    for m in range(1 << len(seq)):
        yield tuple(s for i, s in enumerate(seq) if m >> i & 1)


def run(report, tier):
    appkit.load(env={"ECOENV_EXTRA_PUSHGATEWAY": "http://gateway:9091", "ECOENV_STAT_GP": str(PERIOD), "ECOENV_LOCK_DIR": "."})
    import prometheus_client  # noqa
    quick, deep = False, tier != "quick"
    jobs = []

    def add(kind, name, items, step=12):
        items = list(items)
        for k in range(0, len(items), step):
            jobs.append((kind, name, items[k:k + step]))
    docs = []
    for calls in (0, 1, 2) if not quick else (1, 2):
        for rs in subsets(ROUTES):
            docs.append((((rs), (), (), (), calls, "shop", "0"), "tcp"))
    for qs in subsets(("app.q", "q", "app.deep.q", "eco.q", "app.eco")):
        for ss in subsets(("out.s", "s", "out.deep.s")):
            docs.append(((("app.x",), qs, ss, (), 1, "shop_two", "3"), "udp"))
    for cs in subsets(CUSTOM):
        docs.append(((("app.x",), ("app.x",), (), cs, 2, "shop", "12"), "uds"))
    add("doc", "statistics documents", docs)
    kinds = ("tcp", "udp", "uds")
    how = ("ok",) + FAILURES
    pats = []
    for k in kinds:                                  # one service: every pair of consecutive answers
        for a in how:
            for b in how:
                pats.append((((k, "one", "0"),), ((a,), (b,))))
    for ks in itertools.product(kinds, repeat=2) if not quick else (("tcp", "udp"), ("uds", "tcp"), ("udp", "uds")):
        for a in how:
            for b in how:
                pats.append((((ks[0], "one", "0"), (ks[1], "two", "0")), ((a, b), ("ok", "ok"), (b, a))))
    few = how if deep else ("ok", "refuse", "garbage", "silent")
    for p in itertools.product(few, repeat=3):       # three services: every pattern, then the reverse
        pats.append(((("tcp", "one", "0"), ("uds", "one", "1"), ("udp", "two", "0")), (p, p[::-1])))
    for p in itertools.product(few, repeat=3):       # one service, three protocols
        pats.append(((("tcp", "one", "0"), ("udp", "one", "0"), ("uds", "one", "0")), (same(p),)))
    for n in (24, 90):                               # many services at once
        svc = tuple((kinds[i % 3], f"service_{i % (n // 2)}", str(i // (n // 2))) for i in range(n))
        for cycle in (("ok",), ("ok", "refuse"), ("garbage", "ok", "ok", "error")):
            p = tuple(itertools.islice(itertools.cycle(cycle), n))
            pats.append((svc, (p, p[::-1], ("ok",) * n)))
    add("pattern", "answers and failures over consecutive scrapes", pats)
    for n in (40, 300):                              # large documents with deep names
        deeply = lambda i: ".".join([*(f"g{i % (j + 2)}" for j in range(i % 11)), f"r{i}"])
        routes, custom = tuple(deeply(i) for i in range(n)), tuple((deeply(i) + ("." + "x" * (i % 120) if i % 5 == 0 else ""), i * 1.5) for i in range(n))
        for k in kinds:
            add("doc", "large statistics documents", [(((routes, (), (), (), 1, "shop", "0")), k), ((("app.x",), routes, routes, (), 2, "shop", "0"), k), ((("app.x",), (), (), custom, 2, "shop", "0"), k)], 1)
    add("settings", "service address settings", ((m, o) for m in range(1 << len(SETTINGS)) for o in ((0,) if quick else (0, 1)) if not quick or m % 3 == 0 or bin(m).count("1") <= 2), 24)
    merged = {}
    for p in pmap(work, jobs):
        m = merged.setdefault(p["name"], p)
        if m is not p:
            for k in ("transitions", "traces"):
                m[k] += p[k]
            m["states"] |= p["states"]
            m["violations"] += p["violations"]
    for p in merged.values():
        report.add(p)
    report.notes["bounds"] = f"all subsets of {len(ROUTES)} route keys, 4+3 buffers, {len(CUSTOM)} custom statistics; {len(how)} kinds of answers; up to 3 services, up to 3 scrapes; {len(SETTINGS)} address settings"


def same(p):
    return p
