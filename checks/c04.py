"""C04: every acknowledged buffered request gets exactly one outcome, under every interleaving."""
TECHNIQUE = 'stateless exploration of all event-loop schedules of the real endpoint'
NOTE = 'All placements of arrivals, handler resumptions and outcomes at event-loop boundaries within the stated number of requests.'
import asyncio, json
from mc import appkit
from mc.core import Violation, explore, forked


def scenario(nreq, max_retries, page_size, outcomes, modes, conns, hook=False, atonce=False):
    """nreq requests arriving at any loop boundary, on one connection or one each; every attempt's mode and outcome chosen."""
    def build(env, kit):
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        Dto = appkit.rich_type(n=int, text=str)
        keys = [appkit.span(i) for i in range(nreq)]
        data = [{"n": i, "text": f"t\u00e4xt {i}", "opt": None} for i in range(nreq)]
        memory = [{} for i in range(nreq)]
        st = {"active": None, "attempts": [0] * nreq, "ok": [0] * nreq, "first": [], "acked": []}
        conn = []

        @buffered_endpoint("app.item", request_dto_type=Dto, page_size=page_size, max_retries=max_retries)
        async def item(span_key, dto):
            who = next((i for i, k in enumerate(keys) if k == span_key), None)
            env.log(f"handler called for request {who}")
            if who is None:
                env.fail(f"handler called with unknown key {span_key}", "unknown key")
                return True
            if not appkit.same(dto, data[who], memory[who]):
                env.fail(f"handler called with wrong content {dto!r} for request {who}", "wrong content")
            if st["active"] is not None:
                env.fail(f"handler called for request {who} while {st['active']} is in progress", "concurrent handler")
            if st["ok"][who]:
                env.fail(f"request {who} processed again after success", "processed after success")
            st["active"] = who
            if st["attempts"][who] == 0:
                st["first"].append(who)
            st["attempts"][who] += 1
            n = st["attempts"][who]
            if n > max(6, 2 * max_retries):
                env.fail(f"request {who} attempted {n} times", "endless attempts")
            try:
                mode = env.pick(f"mode of attempt {n} of {who}", modes)
                if mode == "suspend":
                    await env.suspend(f"handler of request {who} continues")
                elif mode == "tick":
                    await asyncio.sleep(0)
                out = env.pick(f"outcome of attempt {n} of {who}", outcomes)
            finally:
                st["active"] = None
            if out == "raise":
                raise RuntimeError("boom")
            if out:
                st["ok"][who] += 1
            return out

        if hook:
            from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
            from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager

            class Hook(BufferedMiddlewareBase):
                async def before_push(self, span_key, dto):
                    if env.pick("acceptance hook", ("now", "suspend")) == "suspend":
                        await env.suspend(f"acceptance of {dto.n} continues")
                    return {}
            BufferedMiddlewareManager().add(Hook())

        def arrive(i):
            def on_response(raw):
                env.log(f"response {raw.decode()[:200]}")
                r = json.loads(raw)
                if r["status"] == 0:
                    got = r["data"]["span_key"]
                    who = next((j for j, k in enumerate(keys) if got == {"trace_id": str(k.trace_id), "span_id": str(k.span_id)}), None)
                    if who is None or who in st["acked"]:
                        env.fail(f"unexpected acknowledgement {raw!r}", "acknowledgement wrong")
                    st["acked"].append(who)
                else:
                    env.fail(f"request was refused: {raw!r}", "refused")
            c = conn[i if conns == "many" else 0]
            c.on_response = on_response
            c.send(appkit.line("app.item", keys[i], data[i]))
            if i + 1 < nreq:
                if atonce:
                    arrive(i + 1)
                else:
                    env.add(f"request {i + 1} arrives", lambda: arrive(i + 1))

        async def main(loop):
            await kit.serve()
            await kit.setup_handlers()
            conn[:] = [appkit.Conn(kit) for _ in range(nreq if conns == "many" else 1)]
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            env.add("request 0 arrives", lambda: arrive(0))

        def judge(loop):
            h = kit.handlers()["app.item"]

            async def final():
                return (await h.pending_queue_size(), await h.error_queue_size(), await h.get_first_x_error_span_keys(nreq + 50),
                        [await h.inspect_request_in_error_queue(k) for k in keys])
            pend, nerr, errkeys, errs = appkit.query(loop, final())
            t = env.trace[-80:]
            if sorted(st["acked"]) != list(range(nreq)):
                raise Violation(f"acknowledged {st['acked']} of {nreq} requests", "not acknowledged", t)
            if pend:
                raise Violation(f"endpoint is idle but {pend} request(s) stay in its pending queue", "idle with pending", t)
            if nerr != len(errkeys) or len(set(errkeys)) != len(errkeys):
                raise Violation(f"error queue lists {errkeys}, size {nerr}", "error queue inconsistent", t)
            for i, k in enumerate(keys):
                inerr = str(k) in errkeys
                if (errs[i] is not None) != inerr:
                    raise Violation(f"request {i}: error queue listing and inspection disagree", "error queue inconsistent", t)
                if st["ok"][i] + inerr != 1:
                    raise Violation(f"request {i}: acknowledged, {st['attempts'][i]} attempt(s), {st['ok'][i]} success(es), in error queue: {inerr}",
                                    "lost request" if not st["ok"][i] + inerr else "two outcomes", t)
                if inerr and not appkit.same(errs[i], data[i], memory[i]):
                    raise Violation(f"request {i}: wrong content in error queue {errs[i]!r}", "wrong content", t)
            if st["first"] != [i for i in st["acked"]]:
                raise Violation(f"first handed to the handler in order {st['first']}, accepted in order {st['acked']}", "order", t)
        env.snap = lambda: repr(st)
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build))


def again(keyof, page_size, modes):
    """Requests of which some carry the key of an earlier one (a client's repetition). While that one waits it is the same request,
    once that one has been processed it is a new one."""
    n = len(keyof)

    def build(env, kit):
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        Dto = appkit.rich_type(n=int, text=str)
        keys = [appkit.span(i) for i in range(max(keyof) + 1)]
        data = [{"n": i, "text": f"t\u00e4xt {i}", "opt": None} for i in range(len(keys))]
        st = {"active": None, "begun": [0] * len(keys), "ended": [0] * len(keys), "acked": 0, "most": [0] * len(keys), "least": [0] * len(keys)}

        @buffered_endpoint("app.item", request_dto_type=Dto, page_size=page_size, max_retries=0)
        async def item(span_key, dto):
            who = next((i for i, k in enumerate(keys) if k == span_key), None)
            env.log(f"handler called for key {who}")
            if who is None or st["active"] is not None or not appkit.same(dto, data[who], {}):
                env.fail(f"handler called with {span_key} {dto!r} while {st['active']} is in progress", "wrong call")
                return True
            st["active"] = who
            st["begun"][who] += 1
            if st["begun"][who] > n:
                env.fail(f"request {who} processed {n} times", "processed after success")
            if env.pick(f"mode {who}", modes) == "suspend":
                await env.suspend(f"handler of {who} continues")
            st["active"] = None
            st["ended"][who] += 1
            return True

        def arrive(i):
            k = keyof[i]
            settled = st["begun"][k] == st["most"][k]  # nothing under this key waits: this is a new request
            before = st["begun"][k]

            def on_response(raw):
                if json.loads(raw)["status"] != 0:
                    env.fail(f"request was refused: {raw!r}", "refused")
                st["acked"] += 1
                waits = st["begun"][k] == before  # nothing under this key has begun meanwhile
                if settled:
                    st["least"][k] += 1
                    st["most"][k] += 1
                elif not waits:
                    st["most"][k] += 1
                if i + 1 < n:
                    env.add(f"request {i + 1} arrives", lambda: arrive(i + 1))
            c = appkit.Conn(kit)
            c.on_response = on_response
            c.send(appkit.line("app.item", keys[k], data[k]))

        async def main(loop):
            await kit.serve()
            await kit.setup_handlers()
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            env.add("request 0 arrives", lambda: arrive(0))

        def judge(loop):
            h = kit.handlers()["app.item"]

            async def final():
                return await h.pending_queue_size(), await h.error_queue_size()
            pend, nerr = appkit.query(loop, final())
            t = env.trace[-80:]
            if pend or nerr or st["acked"] != n:
                raise Violation(f"{st['acked']} of {n} acknowledged, {pend} pending, {nerr} in the error queue", "not processed", t)
            for k in range(len(keys)):
                if not st["least"][k] <= st["begun"][k] <= st["most"][k] or st["begun"][k] != st["ended"][k]:
                    raise Violation(f"key {k}: processed {st['begun'][k]} times, must be {st['least'][k]} to {st['most'][k]} times",
                                    "lost request" if st["begun"][k] < st["least"][k] else "processed twice", t)
        env.snap = lambda: repr(st)
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build))


def run(report, tier):
    appkit.load()
    A = (True, False, "raise")
    n = 320 if tier == "quick" else 900
    many = [
        (f"{n} requests at once, page 7, suspended", scenario(n, 0, 7, (True,), ("suspend",), "one", atonce=True)),
        (f"{n} requests at once, page 100, immediate", scenario(n, 0, 100, (True,), ("now",), "one", atonce=True)),
        (f"{n} requests at once that fail, retry limit 2", scenario(n, 2, 20, (False,), ("now",), "one", atonce=True)),
        (f"{n} requests at once, suspended and raising", scenario(n, 0, 1, ("raise",), ("suspend",), "one", atonce=True)),
        (f"{n // 4} requests from as many connections", scenario(n // 4, 3, 3, ("raise",), ("tick",), "many", atonce=True)),
    ]
    if tier == "quick":
        sc = many + [
            ("1 request, retry limit 3, page 1", scenario(1, 3, 1, A + (None,), ("now", "suspend"), "one")),
            ("2 requests, 2 connections, retry limit 2", scenario(2, 2, 2, A, ("now",), "many")),
            ("2 requests, 1 connection, retry limit 2", scenario(2, 2, 1, A, ("now",), "one")),
            ("2 requests, retry limit 0, any handler", scenario(2, 0, 1, A, ("now", "suspend"), "many")),
            ("2 requests, retry limit 2, suspended", scenario(2, 2, 1, (True, False), ("suspend",), "many")),
            ("2 requests, acceptance hook may suspend", scenario(2, 0, 1, (True,), ("tick",), "many", True)),
            ("2 requests, handler yields", scenario(2, 2, 1, A, ("tick",), "many")),
            ("3 requests, page 1, immediate", scenario(3, 0, 1, (True, "raise"), ("now",), "many")),
            ("3 requests, page 1, suspended", scenario(3, 0, 1, (True, False), ("suspend",), "many")),
            ("3 requests, the third repeats the second", again((0, 1, 1), 1, ("now", "suspend"))),
            ("3 requests, the second repeats the first", again((0, 0, 1), 2, ("now", "suspend"))),
            ("4 requests, page 1, suspended", scenario(4, 0, 1, (True,), ("suspend",), "one")),
        ]
        budget = 240
    else:
        sc = many + [
            ("1 request, retry limit 4", scenario(1, 4, 1, A, ("now", "suspend", "tick"), "one")),
            ("2 requests, 2 connections, retry limit 2", scenario(2, 2, 2, A, ("now", "suspend"), "many")),
            ("2 requests, 1 connection, retry limit 3", scenario(2, 3, 1, A, ("now",), "one")),
            ("3 requests, retry limit 0", scenario(3, 0, 1, A, ("now", "suspend"), "many")),
            ("3 requests, page 1, retry limit 2", scenario(3, 2, 1, (True, False), ("now",), "many")),
            ("3 requests, page 2, retry limit 2, suspended", scenario(3, 2, 2, (True, False), ("suspend",), "many")),
            ("3 requests, acceptance hook may suspend", scenario(3, 0, 1, (True,), ("tick",), "many", True)),
            ("3 requests, handler yields", scenario(3, 2, 1, (True, False), ("tick",), "many")),
            ("4 requests, the last two repeat the second", again((0, 1, 1, 1), 1, ("now", "suspend"))),
            ("5 requests, two repetitions", again((0, 1, 2, 1, 2), 1, ("suspend",))),
            ("5 requests, page 1", scenario(5, 0, 1, (True, False), ("suspend",), "many")),
        ]
        budget = 2400
    for part in explore(sc, budget):
        report.add(part)
    report.notes["bounds"] = "arrivals at every event-loop boundary; requests, outcomes and modes per part"
