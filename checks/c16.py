"""C16: concurrent requests never mix up their identity."""
TECHNIQUE = 'stateless exploration of all event-loop schedules of concurrent requests on the real servers, endpoints and log files'
NOTE = 'Every log line written by handlers, nested tasks, middleware hooks, buffered hooks and code outside any request is read back from the real log file and compared with the request it belongs to, for unbuffered and buffered log output.'
import asyncio, json
from mc import appkit
from mc.core import Violation, explore, forked
from checks.buffers import Subject
from checks.clients import make_client

# request kinds: plain ok / raise / refuse / nested task, buffered ok / failing once then ok / raising for good


def scenario(requests, buffer_size, transport="tcp", nested_outlives=False, stop=False, hooks_suspend=False, chatter=True, horizon=0, resets=False, crowd=False):
    """requests: kinds, one connection each; every arrival, resumption, outside log line and shutdown at any loop boundary."""
    def build(env, kit):
        import logging
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.middleware.middleware_base import MiddlewareBase
        from ekosis.middleware.manager import MiddlewareManager
        from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
        from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
        from ekosis.exceptions.application_level import ApplicationProcessingException
        keys = [appkit.span(i) for i in range(len(requests))]
        N = appkit.dto_type(n=int)
        logs = appkit.Logs(kit.dir, buffer_size)
        log = logging.getLogger()
        owners = []                 # per record: the requests that were alive when it was written
        live = set()
        attempts = {}
        st = {"n": 0}

        class Tap(logging.Handler):
            def emit(self, record):
                owners.append(frozenset(live))
        log.addHandler(Tap())

        def say(who, text, level=logging.INFO):
            st["n"] += 1
            log.log(level, "@%s@ %s", who, text)

        def same(got, who, where):
            if got != keys[who]:
                env.fail(f"{where} of request {who} was given the key {got}", "wrong key given")

        async def pause(label, n):
            if crowd:
                for _ in range(1 + n % 5):
                    await asyncio.sleep(0)
            else:
                await env.suspend(label)

        async def work(who, where):
            say(who, f"{where} begins")
            await pause(f"{where} of {who} continues", who)
            say(who, f"{where} goes on", logging.WARNING)

        async def nested(who):
            await work(who, "nested task")

        async def serve(span_key, dto):
            same(span_key, dto.n, "handler")
            kind = requests[dto.n]
            t = None
            if kind == "nested":
                t = asyncio.get_running_loop().create_task(nested(dto.n))
                kit.keep = getattr(kit, "keep", []) + [t]
                say(dto.n, "handler")
                if not nested_outlives:
                    await t
            elif kind == "send":
                await sub.push({"n": 1000 + dto.n}, span_key=mkeys[dto.n])
            elif kind == "call":
                try:
                    await client.send_message("app.x", N(n=1))
                except Exception as e:
                    env.log(f"call ended with {type(e).__name__}")
            else:
                await work(dto.n, "handler")
            if kind == "raise":
                raise KeyError("boom")
            if kind == "refuse":
                raise ApplicationProcessingException("no")
            say(dto.n, "handler ends")
            return dto

        sub = client = None
        if "send" in requests:
            async def attempt(who, span_key, dto):
                say("-", "sending begins")
                await pause(f"sending of {who} continues", who)
                say("-", "sending goes on")
                return "other"
            mkeys = [appkit.span(1000 + i) for i in range(len(requests))]
            sub = Subject("sender", N, attempt, mkeys, "app.out")
        if "call" in requests:
            client = make_client("persistent tcp", budget=1, heartbeat=1)

            async def refuse(*a):
                raise ConnectionRefusedError("refused")
            env.loop.net.on_connect = refuse

        @endpoint("app.plain", N)
        async def plain(span_key, dto):
            return await serve(span_key, dto)

        @buffered_endpoint("app.item", request_dto_type=N, page_size=5, max_retries=2)
        async def item(span_key, dto):
            same(span_key, dto.n, "buffered handler")
            a = attempts[dto.n] = attempts.get(dto.n, 0) + 1
            if a > 5:
                env.fail("endless attempts", "endless attempts")
                return True
            await work(dto.n, "buffered handler")
            if requests[dto.n] == "b-raise":
                raise KeyError("boom")
            say(dto.n, "buffered handler ends")
            return not (requests[dto.n] == "b-retry" and a == 1)

        class M(MiddlewareBase):
            async def before_routing(self, protocol_dto, **kw):
                who = protocol_dto.data["n"]
                same(protocol_dto.span_key, who, "request hook")
                if hooks_suspend:
                    await work(who, "request hook")
                else:
                    say(who, "request hook")
                return protocol_dto

            async def after_routing(self, response_dto, protocol_dto, **kw):
                say(protocol_dto.data["n"], "response hook")
                return response_dto

        class B(BufferedMiddlewareBase):
            async def before_push(self, span_key, dto):
                same(span_key, dto.n, "acceptance hook")
                say(dto.n, "acceptance hook")
                return {}

            async def before_process(self, span_key, dto, metadata, retries):
                same(span_key, dto.n, "processing hook")
                if hooks_suspend:
                    await work(dto.n, "processing hook")
                else:
                    say(dto.n, "processing hook")

            async def after_process(self, span_key, dto, metadata, success):
                same(span_key, dto.n, "processed hook")
                say(dto.n, "processed hook")
                if success:
                    live.discard(dto.n)
        MiddlewareManager().add(M())
        BufferedMiddlewareManager().add(B())

        def arrive(i):
            kind = requests[i]

            def on_response(raw):
                r = json.loads(raw)
                env.log(f"response to {i}: {r['status']}")
                if not kind.startswith("b-") and not (kind == "nested" and nested_outlives):
                    live.discard(i)
                if resets:
                    env.add(f"connection {i} is reset", lambda: conn[i].t.lost(ConnectionResetError("reset")))
            conn[i].on_response = on_response
            live.add(i)
            conn[i].send(appkit.line("app.item" if kind.startswith("b-") else "app.plain", keys[i], {"n": i}))
            if i + 1 < len(requests) and crowd:
                arrive(i + 1)
            elif i + 1 < len(requests):
                env.add(f"request {i + 1} arrives", lambda: arrive(i + 1))
        conn = []

        async def main(loop):
            await kit.serve(udp=transport == "udp", tcp=transport == "tcp", uds=transport == "uds")
            await kit.setup_handlers()
            if sub:
                await sub.setup(kit.dir)
            conn[:] = [appkit.Conn(kit, transport) for _ in requests] if transport != "udp" else [Dgram(env, i) for i in range(len(requests))]
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            env.add("request 0 arrives", lambda: arrive(0))
            if chatter:
                env.add("something outside is logged", lambda: say("-", "outside"))
            if stop:
                env.add("shutdown", lambda: [h.shut_down() for h in kit.handlers().values()], guard=lambda: any(attempts.values()))
            say("-", "main")

        def judge(loop):
            logs.eco.flush()
            lines = logs.lines()
            if len(lines) != len(owners):
                raise Violation(f"{len(owners)} records were logged, {len(lines)} lines written", "number of log lines")
            mine = 0
            for rec, alive in zip(lines, owners):
                ids = (rec.get("trace_id"), rec.get("span_id"))
                body = rec["body"]
                if body.startswith("@"):
                    mine += 1
                    who = body.split("@")[1]
                    want = (None, None) if who == "-" else (keys[int(who)].trace_id.hex, keys[int(who)].span_id.hex)
                    if ids != want:
                        owner = next((i for i, k in enumerate(keys) if k.trace_id.hex == ids[0]), ids)
                        raise Violation(f"log line {body!r} carries the identity of {owner if ids[0] else 'no request'}",
                                        "log line carries another identity")
                elif ids != (None, None):
                    who = next((i for i, k in enumerate(keys) if (k.trace_id.hex, k.span_id.hex) == ids), None)
                    if who is None or who not in alive:
                        raise Violation(f"log line {body!r} carries the identity of request {who}, which had ended", "log line outside a request carries one")
            if mine != st["n"]:
                raise Violation(f"{st['n']} records of our own were logged, {mine} found", "number of log lines")
        env.snap = lambda: repr((st, sorted(live), attempts))
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=horizon))


class Dgram:
    def __init__(self, env, i):
        self.env, self.i, self.on_response = env, i, None

    def send(self, data):
        self.env.loop.net.datagrams[0].feed(data, ("10.0.0.%d" % self.i, 5))


def run(report, tier):
    appkit.load(warm=True)
    S = []

    def add(name, *a, **k):
        S.append((name, scenario(*a, **k)))
    add("two plain requests, unbuffered log", ("ok", "raise"), 0)
    add("two plain requests, buffered log", ("ok", "refuse"), 1000)
    add("two plain requests, log buffer of 2", ("raise", "ok"), 2, chatter=False)
    add("nested tasks outliving their request, buffered log", ("nested", "ok"), 1000, nested_outlives=True, chatter=False)
    add("nested tasks, unix sockets", ("nested", "nested"), 0, "uds", chatter=False)
    add("three requests, buffered log", ("ok", "raise", "nested"), 3, chatter=False)
    add("hooks that suspend", ("ok", "raise"), 0, hooks_suspend=True, chatter=False)
    add("buffered requests", ("b-ok", "b-ok"), 0, chatter=False)
    add("buffered and plain, buffered log", ("b-ok", "ok"), 1000, chatter=False)
    add("buffered requests with retries", ("b-retry", "b-raise"), 0, chatter=False)
    add("buffered requests, shutdown under way", ("b-ok", "b-ok"), 0, chatter=False, stop=True)
    add("one buffered request, anything", ("b-retry",), 1000, stop=True, hooks_suspend=True)
    add("messages sent in the background", ("send", "ok"), 0, chatter=False)
    add("messages sent in the background, buffered log", ("send", "send"), 1000, chatter=False)
    add("heartbeats of a client", ("call", "ok"), 0, horizon=2.5, chatter=False)
    add("three mixed", ("b-ok", "ok", "send"), 2, chatter=False)
    add("buffered and plain, hooks suspend", ("b-ok", "raise"), 2, hooks_suspend=True, chatter=False)
    add("connections reset after their answer", ("ok", "raise"), 0, chatter=False, resets=True)
    add("connections reset after a refusal, unix sockets", ("refuse", "b-ok"), 0, "uds", chatter=False, resets=True)
    n = 120 if tier == "quick" else 360
    for size in (0, 50, 100_000):
        for transport in ("tcp", "uds", "udp"):
            kinds = ("ok", "raise", "nested", "b-ok", "refuse", "b-retry", "send", "b-raise") if transport != "udp" or size else ("ok", "b-ok")
            add(f"{n} requests at once, {transport}, log buffer of {size}", tuple(kinds[i % len(kinds)] for i in range(n)), size, transport, crowd=True, chatter=False, hooks_suspend=size == 50)
    if tier != "quick":
        add("three plain requests", ("ok", "raise", "ok"), 0)
        add("buffered and plain, hooks suspend", ("b-retry", "ok"), 2, hooks_suspend=True)
        add("three buffered", ("b-ok", "b-raise", "b-ok"), 1000, chatter=False)
        add("three mixed, shutdown", ("b-ok", "ok", "b-retry"), 2, chatter=False, stop=True)
        add("four plain", ("ok", "nested", "raise", "refuse"), 5, chatter=False)
    add("datagrams", ("ok", "raise"), 1000, "udp", chatter=False)
    for part in explore(S, 200 if tier == "quick" else 2400):
        report.add(part)
    report.notes["bounds"] = "arrivals, resumptions, outside log lines and shutdown at every event-loop boundary; requests per part"
