"""C23: one correctly parented, ended span per unit of work."""
TECHNIQUE = 'stateless exploration of all event-loop schedules of concurrent requests, attempts, restarts and reprocessing on the real tracing middleware, with the exported spans as observation'
NOTE = 'Real servers, endpoints, buffers and OpenTelemetry SDK with the network exporter replaced by a recorder; requests with distinct keys, the same trace, and the very same key; span ids at the extremes of their range.'
import asyncio, json, os, sys
from collections import Counter
from mc import appkit, boot
from mc.core import Violation, explore, forked

RECORDED = []
IDS = {"n": 0, "life": 0}
EXTREME = (2 ** 64 - 1, 1, 2 ** 63, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 32)


def install():
    """Tracing as documented, with spans going to RECORDED when they end."""
    for k in [k for k in os.environ if k.startswith("OTEL_")]:
        del os.environ[k]
    import opentelemetry.sdk.trace.export as ex
    import opentelemetry.exporter.otlp.proto.http.trace_exporter as otlp
    import opentelemetry.sdk.trace.id_generator as ids

    class Recorder(ex.SpanExporter):
        def __init__(self, *a, **k):
            pass

        def export(self, spans):
            for s in spans:
                RECORDED.append({"trace": s.context.trace_id, "id": s.context.span_id, "parent": s.parent.span_id if s.parent else None,
                                 "ptrace": s.parent.trace_id if s.parent else None, "name": s.name, "attr": dict(s.attributes or {}), "ok": s.end_time is not None})
            return ex.SpanExportResult.SUCCESS

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=0):
            return True

    def span_id(self):
        IDS["n"] += 1
        n = IDS["n"] - 1
        return EXTREME[n] if n < len(EXTREME) and not IDS["life"] else 7 * 2 ** 60 + 1000 * IDS["life"] + n
    otlp.OTLPSpanExporter = Recorder
    ex.BatchSpanProcessor = lambda exporter, *a, **k: ex.SimpleSpanProcessor(exporter)
    ids.RandomIdGenerator.generate_span_id = span_id
    sys.path.insert(1, os.path.join(boot.REPO, "ekosis_otlp_traces"))
    import ekosis_otlp_traces.setup


def start_tracing():
    from ekosis_otlp_traces.setup import initiate_otlp_tracing
    initiate_otlp_tracing()


KEYS = {"a": (1, 1), "b": (2, 2), "a2": (1, 5), "c": (3, 3), **{f"k{i}": (10 + i // 2, 10 + i) for i in range(700)}}      # a and a2: the same trace
ROUTE = {"p": "app.plain", "q": "app.other", "b": "app.item", "d": "app.item2"}


def scenario(requests, transport="tcp", stop=False, reprocess=False, life=0, carry=None, horizon=0, directory=None, late=False, crowd=False):
    """requests: (kind, key). kinds: p-ok p-raise q-ok b-ok b-retry b-raise d-ok ...

    late: tracing is only there from the second life on."""
    def build(env, kit):
        if late and life:
            start_tracing()
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        keys = {k: appkit.span(*v) for k, v in KEYS.items()}
        N = appkit.dto_type("ItemDto", n=int)
        carry_ = carry or {"spans": [], "ok": [], "failed": [], "attempts": {}, "success": {}}
        st = {"ok": [tuple(x) for x in carry_["ok"]], "failed": [tuple(x) for x in carry_["failed"]], "attempts": {int(k): v for k, v in carry_["attempts"].items()}, "done": Counter(),
              "finished": Counter(), "success": {int(k): v for k, v in carry_["success"].items()}}
        before = {int(k): len(v) for k, v in carry_["success"].items()}          # attempts made in the life before
        RECORDED[:] = [dict(s) for s in carry_["spans"]]
        IDS.update(n=0, life=life)

        def received(key, route):
            """ended spans that stand for the receipt of a request"""
            k = keys[key]
            return [s for s in RECORDED if s["trace"] == k.trace_id.int and s["parent"] == k.span_id.value and s["name"] == route]

        async def pause(label, n):
            if crowd:
                for _ in range(n % 5):
                    await asyncio.sleep(0)
            else:
                await env.suspend(label)

        async def plain_work(n, route):
            await pause(f"handler of {n} continues", n)
            st["finished"][(requests[n][1], route)] += 1
            if len(received(requests[n][1], route)) >= st["finished"][(requests[n][1], route)]:
                env.fail(f"the span of request {n} ended before the request", "span ended early")
            if requests[n][0].endswith("raise"):
                raise KeyError("boom")
            return N(n=n + 100)

        @endpoint("app.plain", N)
        async def plain(span_key, dto):
            return await plain_work(dto.n, "app.plain")

        @endpoint("app.other", N)
        async def other(span_key, dto):
            return await plain_work(dto.n, "app.other")

        async def buffered_work(span_key, dto, route):
            n = dto.n
            a = st["attempts"][n] = st["attempts"].get(n, 0) + 1
            if a > 8:
                env.fail("endless attempts", "endless attempts")
                return True
            await pause(f"attempt {a} of {n} continues", n)
            kind = requests[n][0]
            ok = kind.endswith("ok") or (kind.endswith("retry") and a > 1) or (kind.endswith("raise") and a > 2)
            st["success"].setdefault(n, []).append(ok)
            if not ok and kind.endswith("raise"):
                raise KeyError("boom")
            return ok

        @buffered_endpoint("app.item", request_dto_type=N, page_size=5, max_retries=2)
        async def item(span_key, dto):
            return await buffered_work(span_key, dto, "app.item")

        @buffered_endpoint("app.item2", request_dto_type=N, page_size=5, max_retries=2)
        async def item2(span_key, dto):
            return await buffered_work(span_key, dto, "app.item2")

        def answered(i, raw):
            r = json.loads(raw)
            kind, key = requests[i]
            route = ROUTE[kind[0]]
            env.log(f"response to {i}: {r['status']}")
            should = 0 if not (kind[0] in "pq" and kind.endswith("raise")) else None
            if should is not None and r["status"] != 0:
                env.fail(f"request {i} ({kind}) was answered with {r}", "tracing changes the response")
            if should is None and r["status"] == 0:
                env.fail(f"request {i} ({kind}) was answered with {r}", "tracing changes the response")
            if r["status"] != 0:
                st["failed"].append((key, route))
                return
            if kind[0] in "pq" and r["data"] != {"n": i + 100}:
                env.fail(f"request {i} ({kind}) was answered with {r}", "tracing changes the response")
            st["ok"].append((key, route))
            if not late and len(received(key, route)) < st["ok"].count((key, route)):
                env.fail(f"request {i} ({kind}, key {key}) was answered, but its span has not ended", "no span for an answered request")

        def arrive(i):
            conn[i].on_response = lambda raw: answered(i, raw)
            conn[i].send(appkit.line(ROUTE[requests[i][0][0]], keys[requests[i][1]], {"n": i}))
            if i + 1 < len(requests):
                if crowd:
                    arrive(i + 1)
                else:
                    env.add(f"request {i + 1} arrives", lambda: arrive(i + 1))
        conn = []

        async def again():
            for h in kit.handlers().values():
                await h.reprocess_error_queue()

        async def main(loop):
            await kit.serve(udp=transport == "udp", tcp=transport == "tcp", uds=transport == "uds")
            await kit.setup_handlers()
            if transport == "udp":
                conn[:] = [Dgram(env, i) for i in range(len(requests))]
            elif transport == "shared":
                pass
            else:
                conn[:] = [appkit.Conn(kit, transport) for _ in requests]
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            if life == 0:
                env.add("request 0 arrives", lambda: arrive(0))
            if stop and life == 0:
                n_buf = [i for i, r in enumerate(requests) if r[0][0] in "bd"]
                env.add("shutdown", lambda: [h.shut_down() for h in kit.handlers().values()], guard=lambda: len(st["ok"]) + len(st["failed"]) == len(requests))
            if reprocess:
                env.add("reprocessing", lambda: kit.__dict__.setdefault("keep", []).append(loop.create_task(again())),
                        guard=lambda: any(len(v) >= 2 and not any(v) for v in st["success"].values()))

        def judge(loop):
            if transport == "udp":
                net = loop.net.datagrams[0]
                for data, addr in net.sent:
                    answered(int(addr[0].split(".")[-1]), data)
                if env.failures:
                    raise env.failures[0]
            if late:
                check_late(keys, requests, st, before if life else {n: len(v) for n, v in st["success"].items()})
            else:
                check(keys, requests, st)
            return ({"spans": list(RECORDED), "ok": st["ok"], "failed": st["failed"], "attempts": st["attempts"], "success": st["success"]}, life == 0 and stop)
        env.snap = lambda: repr((sorted(map(repr, RECORDED)), st["attempts"], sorted(st["ok"])))
        return main, judge

    return (lambda ch: appkit.execute(ch, build, directory, horizon=horizon))


def check(keys, requests, st):
    """All spans of the history against the requests answered and the attempts made."""
    ids = Counter((s["trace"], s["id"]) for s in RECORDED)
    if ids and max(ids.values()) > 1:
        raise Violation("a span was exported twice", "span exported twice")
    rest = list(RECORDED)
    receipts = {}
    for (key, route), ok in Counter(st["ok"]).items():
        k = keys[key]
        got = [s for s in rest if s["trace"] == k.trace_id.int and s["parent"] == k.span_id.value and s["name"] == route]
        bad = st["failed"].count((key, route))
        if not ok <= len(got) <= ok + bad:
            raise Violation(f"{ok} requests with key {key} were answered by {route}, but {len(got)} spans ended as children of the caller's span: {short(RECORDED)}", "number of spans per request")
        for s in got:
            a = s["attr"]
            if a.get("request.route_key") != route or a.get("request.span_id") != str(k.span_id) or a.get("request.trace_id") != str(k.trace_id):
                raise Violation(f"span of {route} with key {key} carries {a}", "attributes of span")
            rest.remove(s)
        receipts[(key, route)] = got
    for (key, route) in set(st["failed"]):            # a failed request may have a span of its own
        k = keys[key]
        for s in [s for s in rest if s["trace"] == k.trace_id.int and s["parent"] == k.span_id.value and s["name"] == route][:st["failed"].count((key, route))]:
            rest.remove(s)
    attempts = {}
    for n, a in st["attempts"].items():
        key = (requests[n][1], ROUTE[requests[n][0][0]])
        attempts.setdefault(key, []).append((a, Counter(st["success"].get(n, []))))
    for key, per in attempts.items():
        mine = receipts.get(key, [])
        kids = []
        for r in mine:
            c = [s for s in rest if s["trace"] == r["trace"] and s["parent"] == r["id"]]
            kids.append((len(c), Counter(s["attr"].get("process.success") for s in c)))
            for s in c:
                rest.remove(s)
        want = sorted(((a, sorted(map(repr, c.items()))) for a, c in per), key=repr)
        got = sorted(((a, sorted(map(repr, c.items()))) for a, c in kids if a), key=repr)
        if want != got:
            raise Violation(f"attempts (number, outcomes) of the requests with key {key[0]} to {key[1]}: {want}; spans below the spans of their receipt: {got}; all spans {short(RECORDED)}",
                            "spans of attempts")
    if rest:
        raise Violation(f"spans that belong to no request or attempt: {short(rest)}", "span without work")


def check_late(keys, requests, st, before):
    """What was received without tracing is processed with tracing: every attempt has a span, below the caller's."""
    rest = list(RECORDED)
    for n, outcomes in st["success"].items():
        k = keys[requests[n][1]]
        for ok in outcomes[before.get(n, 0):]:
            got = [s for s in rest if s["trace"] == k.trace_id.int and s["parent"] == k.span_id.value and s["attr"].get("process.success") == ok]
            if not got:
                raise Violation(f"an attempt (success {ok}) at request {n} with key {requests[n][1]} has no span below the caller's: {short(RECORDED)}", "spans of attempts")
            rest.remove(got[0])
    if rest:
        raise Violation(f"spans that belong to no request or attempt: {short(rest)}", "span without work")


def short(spans):
    return [(s["name"], hex(s["trace"])[:8], "parent", hex(s["parent"] or 0), "id", hex(s["id"])) for s in spans]


class Dgram:
    def __init__(self, env, i):
        self.env, self.i, self.on_response = env, i, None

    def send(self, data):
        self.env.loop.net.datagrams[0].feed(data, ("10.0.0.%d" % self.i, 5))


def two_lives(requests, **k):
    return appkit.lives(lambda ch, d, carry, n: scenario(requests, stop=True, life=n, carry=carry, directory=d, **k)(ch), None, 2, lambda carry, trace: None)


def run(report, tier):
    appkit.load(warm=True, env={"ECOENV_EXTRA_OTLP_TRACES_ENDPOINT": "http://localhost:9/v1/traces"})
    install()
    S = [(f"tracing added after the requests were received ({x} and {y})", two_lives(((x, "a"), (y, "b")), late=True)) for x, y in (("b-retry", "b-raise"), ("b-ok", "d-retry"))]
    for part in explore(S, 60 if tier == "quick" else 600):
        report.add(part)
    start_tracing()
    S = []

    def add(name, *a, **k):
        S.append((name, forked(scenario(*a, **k))))
    P = [("p-ok", "p-ok"), ("p-ok", "q-ok"), ("p-raise", "p-ok"), ("p-ok", "p-raise"), ("b-ok", "p-ok"), ("b-ok", "d-ok"), ("b-retry", "b-ok"), ("b-ok", "b-ok")]
    for x, y in P:
        for ka, kb in (("a", "b"), ("a", "a2"), ("a", "a")):
            add(f"{x} and {y}, keys {ka} {kb}", ((x, ka), (y, kb)))
    add("unix sockets", (("p-ok", "a"), ("b-ok", "a")), "uds")
    add("datagrams", (("p-ok", "a"), ("p-ok", "a")), "udp")
    add("datagrams, buffered", (("b-ok", "a"), ("d-ok", "b")), "udp")
    add("three plain requests, one key", (("p-ok", "a"), ("q-ok", "a"), ("p-ok", "a2")))
    add("failing and reprocessed", (("b-raise", "a"),), reprocess=True)
    add("failing and reprocessed, with others", (("b-raise", "a"), ("d-ok", "a")), reprocess=True)
    n = 90 if tier == "quick" else 240
    for kinds in (("p-ok",), ("b-ok",), ("b-retry",), ("p-ok", "q-ok", "p-raise", "b-ok", "d-retry", "b-raise")):
        for shared in (1, 3):
            crowd = tuple((kinds[i % len(kinds)], f"k{i // shared}") for i in range(n))
            add(f"{n} requests at once ({', '.join(kinds)}), {shared} under each key", crowd, crowd=True)
    S.append((f"{n} requests at once, restart, then processed", two_lives(tuple((("b-ok", "d-retry", "p-ok")[i % 3], f"k{i}") for i in range(n)), crowd=True)))
    S.append(("restart, then processed", two_lives((("b-ok", "a"), ("d-ok", "a")))))
    S.append(("restart between attempts", two_lives((("b-retry", "a"), ("b-ok", "b")))))
    S.append(("restart between attempts that raise", two_lives((("b-raise", "a"), ("p-ok", "a")))))
    S.append(("restart and reprocessing", two_lives((("b-raise", "a"),), reprocess=True)))
    if tier != "quick":
        for x, y, z in (("p-ok", "q-ok", "b-ok"), ("b-ok", "d-ok", "p-ok"), ("p-ok", "p-raise", "q-ok"), ("b-retry", "d-retry", "p-ok"), ("b-ok", "b-retry", "d-ok")):
            for ks in (("a", "a", "a"), ("a", "a2", "b"), ("a", "b", "a")):
                add(f"{x}, {y} and {z}, keys {ks}", ((x, ks[0]), (y, ks[1]), (z, ks[2])))
        S.append(("restart, three requests", two_lives((("b-raise", "a"), ("d-retry", "a"), ("b-ok", "a2")))))
    for part in explore(S, 250 if tier == "quick" else 2400):
        report.add(part)
    report.notes["bounds"] = "two to three requests, arrivals, resumptions, shutdown and reprocessing at every event-loop boundary, two process lives"
