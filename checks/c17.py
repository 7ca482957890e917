"""C17: middleware runs in registration order and its changes take effect."""
TECHNIQUE = 'exhaustive enumeration of middleware stacks and outcomes on the real router and buffered endpoint, plus stateless exploration of concurrent requests'
NOTE = 'All stacks of up to three (quick) or four (thorough) middlewares drawn from the listed behaviours, for plain and buffered endpoints, over every handler outcome; all schedules of two concurrent requests through suspending hooks.'
import asyncio, itertools, json
from mc import appkit
from mc.core import Violation, digest, explore, forked, pmap, Chooser

PLAIN = ("pass", "request", "mutate", "response", "both", "tick", "default", "reroute", "raise before", "refuse before", "raise after")
BUFFERED = ("alias", "who", "own", "clash", "none", "empty", "tick", "default", "spoil", "raise before", "raise after")


def install_plain(stack, seen, where=None, start=0):
    """Middlewares that note every call in `seen` as (hook, index, who, value)."""
    from ekosis.middleware.middleware_base import MiddlewareBase
    from ekosis.middleware.manager import MiddlewareManager
    from ekosis.data_transfer_objects import RequestDTO
    from ekosis.exceptions.application_level import ApplicationProcessingException
    N = appkit.dto_type(n=int, via=str, who=int)

    def make(i, kind):
        async def pause(label):
            if where:
                await where(label)
            else:
                await asyncio.sleep(0)

        class M(MiddlewareBase):
            async def before_routing(self, **kw):
                d = kw["protocol_dto"]
                seen.append(("before", i, d.data.get("who"), d.data.get("via"), d.route_key, str(kw.get("span_key")), str(d.span_key)))
                if kind in ("tick",):
                    await pause(f"request hook {i} of {d.data.get('who')}")
                if kind == "raise before":
                    raise KeyError("hook")
                if kind == "refuse before":
                    raise ApplicationProcessingException("hook")
                if kind in ("request", "both"):
                    return RequestDTO(span_key=d.span_key, route_key=d.route_key, data={**d.data, "via": d.data["via"] + str(i)})
                if kind == "mutate":
                    d.data["via"] += str(i)
                if kind == "reroute":
                    return RequestDTO(span_key=d.span_key, route_key="app.other", data=d.data)
                return d

            async def after_routing(self, **kw):
                r, d = kw["response_dto"], kw["protocol_dto"]
                seen.append(("after", i, d.data.get("who"), d.data.get("via"), getattr(r, "via", None), d.route_key))
                if kind == "tick":
                    await pause(f"response hook {i} of {d.data.get('who')}")
                if kind == "raise after":
                    raise KeyError("hook")
                if kind in ("response", "both") and hasattr(r, "via"):
                    return N(n=r.n + 1, via=r.via + str(i), who=r.who)
                return r

        class Default(MiddlewareBase):
            pass
        return Default() if kind == "default" else M()
    for i, kind in list(enumerate(stack))[start:]:
        MiddlewareManager().add(make(i, kind))
    return N


def expect_plain(stack, who, via, route, key, outcome):
    """(calls in order, handler input or None, status, response via) as the statement says."""
    calls, handled = [], None
    for i, k in enumerate(stack):
        if k == "default":
            continue
        calls.append(("before", i, who, via, route, key, key))
        if k == "raise before":
            return calls, None, 999, None
        if k == "refuse before":
            return calls, None, 600, None
        if k in ("request", "both", "mutate"):
            via += str(i)
        if k == "reroute":
            route = "app.other"
    handled = (route, who, via)
    calls.append(("handler", route, who, via))
    if outcome == "raise":
        return calls, handled, 999, None
    if outcome == "refuse":
        return calls, handled, 600, None
    resp = via + ("!" if route == "app.other" else ".")
    for i, k in enumerate(stack):
        if k == "default":
            continue
        calls.append(("after", i, who, via, resp, route))
        if k == "raise after":
            return calls, handled, 999, None
        if k in ("response", "both"):
            resp += str(i)
    return calls, handled, 0, resp


def define_plain(N, seen, wait=None):
    from ekosis.requests.endpoint import endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException
    outcome = {}

    def make(route, mark):
        @endpoint(route, N)
        async def fn(dto):
            seen.append(("handler", route, dto.who, dto.via))
            if wait:
                await wait(f"handler of {dto.who}")
            if outcome.get(dto.who) == "raise":
                raise KeyError("boom")
            if outcome.get(dto.who) == "refuse":
                raise ApplicationProcessingException("no")
            return N(n=dto.n, via=dto.via + mark, who=dto.who)
    make("app.plain", ".")
    make("app.other", "!")
    return outcome


def plain_stack(stack, transport):
    """One stack, every outcome, two requests each; in a forked child."""
    def go(ch):
        seen = []
        bench = appkit.Bench()
        try:
            N = install_plain(stack, seen)
            outcome = define_plain(N, seen)
            bench.do(bench.kit.serve(tcp=transport == "tcp", uds=transport == "uds"))
            conn = appkit.Conn(bench.kit, transport)
            n, states = 0, set()
            for route in ("app.plain", "app.other"):
                for out in ("ok", "raise", "refuse", "ok"):
                    n += 1
                    key = appkit.span(n)
                    outcome[n] = out
                    del seen[:]
                    r = bench.request(conn, route, {"n": 1, "via": "v", "who": n}, key)
                    calls, handled, status, resp = expect_plain(stack, n, "v", route, str(key), out)
                    got = (r["status"], r["data"]["via"] if r["status"] == 0 else None)
                    trace = [f"middlewares {stack}", f"request to {route}, handler outcome {out}", f"calls {seen}"]
                    if seen != calls:
                        raise Violation(f"with middlewares {stack}, a request to {route} (outcome {out}) made the calls {seen}; expected {calls}", "calls", trace)
                    if got[0] == 0 and got != (status, resp) or (got[0] != 0) != (status != 0) or status == 600 and got[0] != 600:
                        raise Violation(f"with middlewares {stack}, a request to {route} (outcome {out}) was answered {got}; expected {(status, resp)}", "answer", trace)
                    states.add(digest((stack, route, out, seen)))
            del seen[:]
            r = bench.request(conn, "app.nowhere", {"n": 1, "via": "v", "who": 0})
            if r["status"] != 400:
                raise Violation(f"unknown route answered {r}", "unknown route")
            return {"states": states, "transitions": 9, "trace": [str(stack)]}
        finally:
            bench.close()
    return forked(go)


# ------------------------------------------------------------------------------------------------ buffered
def install_buffered(stack, seen, wait=None, start=0):
    from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
    from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager

    def make(i, kind):
        async def pause(label):
            if wait:
                await wait(label)
            else:
                await asyncio.sleep(0)

        fixed = {"last": i, f"fixed{i}": True}

        class B(BufferedMiddlewareBase):
            async def before_push(self, span_key, dto):
                seen.append(("push", i, dto.who, str(span_key)))
                if kind == "tick":
                    await pause(f"acceptance hook {i} of {dto.who}")
                    return {"last": i, f"own{i}": [i]}
                return {"own": {f"own{i}": {"deep": [i, None, "\u00fc"]}}, "clash": {"last": i}, "none": None, "empty": {},
                        "alias": fixed, "who": {f"who{dto.who}": i}, "spoil": {"spoil": [1]}}.get(kind, {"last": i})

            async def before_process(self, span_key, dto, metadata, retries):
                seen.append(("process", i, dto.who, str(span_key), json.dumps(metadata, sort_keys=True) if "spoil" not in stack else None, retries))
                if kind == "tick":
                    await pause(f"processing hook {i} of {dto.who}")
                if kind == "raise before":
                    raise KeyError("hook")
                if kind == "spoil":
                    metadata["spoil"].append(2)

            async def after_process(self, span_key, dto, metadata, success):
                seen.append(("done", i, dto.who, str(span_key), json.dumps(metadata, sort_keys=True) if "spoil" not in stack else None, bool(success)))
                if kind == "tick":
                    await pause(f"processed hook {i} of {dto.who}")
                if kind == "raise after":
                    raise KeyError("hook")

        class Default(BufferedMiddlewareBase):
            pass
        return Default() if kind == "default" else B()
    for i, kind in list(enumerate(stack))[start:]:
        BufferedMiddlewareManager().add(make(i, kind))


def metadata_of(stack, who=None):
    m = {}
    for i, kind in enumerate(stack):
        if kind == "tick":
            m.update({"last": i, f"own{i}": [i]})
        elif kind != "default":
            m.update({"own": {f"own{i}": {"deep": [i, None, "\u00fc"]}}, "clash": {"last": i}, "none": None, "empty": {},
                      "alias": {"last": i, f"fixed{i}": True}, "who": {f"who{who}": i}, "spoil": {"spoil": [1]}}.get(kind, {"last": i}) or {})
    return json.dumps(m, sort_keys=True)


def buffered_calls(stack, who, key, outcomes):
    """Expected calls of accepting and processing one request whose attempts have these outcomes."""
    own = [i for i, k in enumerate(stack) if k != "default"]
    meta = None if "spoil" in stack else metadata_of(stack, who)
    calls = [("push", i, who, key) for i in own]
    for n, out in enumerate(outcomes):
        failed = False
        for i in own:
            calls.append(("process", i, who, key, meta, n))
            if stack[i] == "raise before":
                failed = True
                break
        if not failed:
            calls.append(("handler", who, key))
        ok = out == "ok" and not failed
        for i in own:
            calls.append(("done", i, who, key, meta, ok))
            if stack[i] == "raise after":
                break
        if ok:
            break
    return calls


def define_buffered(seen, outs, wait=None):
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    N = appkit.dto_type(n=int, who=int)
    count = {}

    @buffered_endpoint("app.item", request_dto_type=N, page_size=5, max_retries=2)
    async def item(span_key, dto):
        seen.append(("handler", dto.who, str(span_key)))
        k = count[dto.who] = count.get(dto.who, 0) + 1
        if wait:
            await wait(f"buffered handler of {dto.who}")
        out = outs[dto.who][min(k, len(outs[dto.who])) - 1]
        if out == "raise":
            raise KeyError("boom")
        return out == "ok"


def buffered_stack(stack):
    def go(ch):
        seen, outs, states = [], {}, set()
        bench = appkit.Bench()
        try:
            install_buffered(stack, seen)
            define_buffered(seen, outs)
            bench.do(bench.kit.serve())
            bench.do(bench.kit.setup_handlers())
            conn = appkit.Conn(bench.kit)
            for n, out in enumerate((("ok",), ("fail", "ok"), ("raise", "ok"), ("fail", "raise"), ("raise", "fail"))):
                key = appkit.span(n)
                outs[n] = out
                del seen[:]
                r = bench.request(conn, "app.item", {"n": 1, "who": n}, key)
                bench.drain()
                if "raise before" in stack:
                    out = ("x", "x")
                want = buffered_calls(stack, n, str(key), out)
                trace = [f"middlewares {stack}", f"outcomes {out}", f"calls {seen}"]
                if r["status"] != 0:
                    raise Violation(f"buffered request was answered {r}", "answer", trace)
                if "raise after" in stack or "raise before" in stack:
                    # what happens to the remaining hooks after one raises is left open
                    if not tolerant(seen, stack, n, str(key)):
                        raise Violation(f"with buffered middlewares {stack} and outcomes {out} the calls were {seen}", "buffered calls", trace)
                elif seen != want:
                    raise Violation(f"with buffered middlewares {stack} and outcomes {out} the calls were {seen}; expected {want}", "buffered calls", trace)
                states.add(digest((stack, out, seen)))
            return {"states": states, "transitions": 5, "trace": [str(stack)]}
        finally:
            bench.close()
    return forked(go)


def grown(kind, stack):
    """Middlewares registered one after the other, with requests in between: each is in force from then on."""
    def go(ch):
        seen, states, outs = [], set(), {}
        bench = appkit.Bench()
        try:
            N = None
            if kind == "plain":
                N = install_plain((), seen)
                define_plain(N, seen)
            else:
                define_buffered(seen, outs)
            bench.do(bench.kit.serve())
            bench.do(bench.kit.setup_handlers())
            conn = appkit.Conn(bench.kit)
            for n in range(2 * len(stack) + 2):
                have = stack[:n // 2]
                if n and n % 2 == 0:
                    (install_plain if kind == "plain" else install_buffered)(have, seen, start=len(have) - 1)
                outs[n] = ("fail", "ok")
                del seen[:]
                key = appkit.span(n)
                r = bench.request(conn, "app.plain" if kind == "plain" else "app.item", {"n": 1, "via": "v", "who": n}, key)
                bench.drain()
                if kind == "plain":
                    want, _, status, resp = expect_plain(have, n, "v", "app.plain", str(key), "ok")
                    ok = r["status"] == status and (status or r["data"]["via"] == resp)
                else:
                    want, ok = buffered_calls(have, n, str(key), outs[n]), r["status"] == 0
                if seen != want or not ok:
                    raise Violation(f"request {n}, with middlewares {have} registered so far, made the calls {seen} and was answered {r}; expected {want}", "calls after a registration", [str(stack)])
                states.add(digest((kind, have, n, seen)))
            return {"states": states, "transitions": 2 * len(stack) + 2, "trace": [str(stack)]}
        finally:
            bench.close()
    return forked(go)


def tolerant(seen, stack, who, key):
    own = [i for i, k in enumerate(stack) if k != "default"]
    if [c for c in seen if c[0] == "push"] != [("push", i, who, key) for i in own]:
        return False
    meta = None if "spoil" in stack else metadata_of(stack, who)
    attempt, phase, last = 0, "push", -1
    order = ("process", "handler", "done")
    pos, idx = 0, -1
    for c in seen:
        if c[0] == "push":
            continue
        if c[0] == "handler":
            p, i = 1, 0
        else:
            p, i = order.index(c[0]), c[1]
            if c[2:5] != (who, key, meta):
                return False
        if p < pos:
            pos, idx = 0, -1            # next attempt
        if p > pos:
            pos, idx = p, -1
        if c[0] != "handler":
            if i <= idx:
                return False            # same hook twice around one attempt, or out of order
            idx = i
    return True


# ------------------------------------------------------------------------------------------------ schedules
def concurrent(stack, bstack, kinds):
    """Concurrent requests through suspending hooks, at every interleaving; each request's own calls must be as if alone."""
    def build(env, kit):
        seen, outs = [], {i: ("ok",) for i in range(len(kinds))}
        outs[0] = ("fail", "ok")
        N = install_plain(stack, seen, env.suspend)
        outcome = define_plain(N, seen, env.suspend)
        install_buffered(bstack, seen, env.suspend)
        define_buffered(seen, outs, env.suspend)
        keys = [appkit.span(i) for i in range(len(kinds))]
        conn, answers = [], {}

        def arrive(i):
            route = {"p": "app.plain", "b": "app.item"}[kinds[i]]
            data = {"n": 1, "via": "v", "who": i}
            conn[i].on_response = lambda raw: answers.setdefault(i, []).append(json.loads(raw))
            conn[i].send(appkit.line(route, keys[i], data))

        async def main(loop):
            await kit.serve()
            await kit.setup_handlers()
            conn[:] = [appkit.Conn(kit) for _ in kinds]
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            for i in range(len(kinds)):
                env.add(f"request {i} arrives", lambda i=i: arrive(i))

        def judge(loop):
            for i, k in enumerate(kinds):
                mine = [c for c in seen if (c[2] if c[0] != "handler" else c[1] if k == "b" else c[2]) == i]
                pmine = [c for c in mine if c[0] in ("before", "after") or c[0] == "handler" and len(c) == 4]
                bmine = [c for c in mine if c not in pmine]
                calls, _, status, resp = expect_plain(stack, i, "v", "app.plain" if k == "p" else "app.item", str(keys[i]), "ok")
                if k == "b":
                    via = next((c[3] for c in calls if c[0] == "handler"), None)
                    calls = [c if c[0] != "after" else c[:4] + (None,) + c[5:] for c in calls if c[0] != "handler"]
                    want = buffered_calls(bstack, i, str(keys[i]), outs[i])
                    if bmine != want:
                        raise Violation(f"buffered hooks of request {i}: {bmine}; expected {want}", "buffered calls")
                if pmine != calls:
                    raise Violation(f"hooks of request {i}: {pmine}; expected {calls}", "calls")
                a = answers.get(i, [])
                if len(a) != 1 or a[0]["status"] != 0 or k == "p" and a[0]["data"]["via"] != resp:
                    raise Violation(f"request {i} was answered {a}", "answer")
        env.snap = lambda: repr((seen[-3:], len(seen), sorted(answers)))
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=0))


def work(job):
    part = {"name": job[0], "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    for stack in job[2]:
        try:
            r = (grown(job[3], stack) if job[1] == "grown" else plain_stack(stack, job[3]) if job[1] == "plain" else buffered_stack(stack))(Chooser())
            part["states"] |= r["states"]
            part["transitions"] += r["transitions"]
        except Violation as e:
            part["violations"].append({"what": e.what, "sig": e.sig, "trace": e.detail, "replay": {"stack": stack, "kind": job[1]}})
            if len(part["violations"]) > 3:
                break
        part["traces"] += 1
        if not part["samples"]:
            part["samples"].append({"stack": stack})
    return part


def run(report, tier):
    appkit.load(warm=True)
    depth = 3 if tier == "quick" else 4
    jobs = []

    def split(name, kind, stacks, arg):
        for k in range(0, len(stacks), 40):
            jobs.append((name, kind, stacks[k:k + 40], arg))
    plain = [s for n in range(depth + 1) for s in itertools.product(PLAIN, repeat=n)]
    buffered = [s for n in range(3 if tier == "quick" else 4) for s in itertools.product(BUFFERED, repeat=n)]
    if tier == "quick":
        buffered += [s for s in itertools.product(("own", "clash", "none", "default", "spoil"), repeat=3)]
    split(f"plain endpoint, stacks of up to {depth}", "plain", plain, "tcp")
    split("plain endpoint over unix sockets, stacks of up to 1", "plain", [s for s in plain if len(s) < 2], "uds")
    split("buffered endpoint", "buffered", buffered, None)
    split("plain middlewares registered between requests", "grown", [s for n in (1, 2, 3) for s in itertools.product(("pass", "both", "mutate", "default"), repeat=n)], "plain")
    split("buffered middlewares registered between requests", "grown", [s for n in (1, 2, 3) for s in itertools.product(("own", "clash", "who", "default"), repeat=n)], "buffered")
    tall = [tuple(itertools.islice(itertools.cycle(c), n)) for n in (6, 9, 12, 33, 70) for c in (("both",), ("pass",), ("mutate", "tick", "response", "default"), ("request", "pass", "both", "tick", "tick"))]
    tall += [("both",) * 11 + (last,) + ("pass",) * 3 for last in PLAIN]
    split("plain endpoint, many middlewares", "plain", tall, "tcp")
    tall = [tuple(itertools.islice(itertools.cycle(c), n)) for n in (6, 9, 12, 33, 70) for c in (("own",), ("clash", "own", "tick", "default"), ("alias", "none", "who", "empty", "own"))]
    tall += [("own",) * 11 + (last,) + ("clash",) * 3 for last in BUFFERED]
    split("buffered endpoint, many middlewares", "buffered", tall, None)
    merged = {}
    for p in pmap(work, jobs):
        m = merged.setdefault(p["name"], p)
        if m is not p:
            for k in ("transitions", "traces"):
                m[k] += p[k]
            m["states"] |= p["states"]
            m["violations"] += p["violations"]
    for p in merged.values():
        report.add(p)
    S = [("two plain requests through suspending hooks", concurrent(("tick", "both"), (), "pp")),
         ("plain and buffered requests through suspending hooks", concurrent(("mutate",), ("tick",), "pb")),
         ("two buffered requests through suspending hooks", concurrent((), ("tick", "clash"), "bb"))]
    if tier != "quick":
        S += [("two plain requests through two suspending hooks", concurrent(("tick", "request", "tick"), (), "pp")),
              ("three plain requests", concurrent(("tick", "both"), (), "ppp")),
              ("two buffered requests, two suspending hooks", concurrent(("tick",), ("tick", "tick"), "bb")),
              ("three requests", concurrent(("tick",), ("tick",), "pbb"))]
    for p in explore(S, 200 if tier == "quick" else 2000):
        report.add(p)
    report.notes["bounds"] = f"stacks of up to {depth} (plain) and {2 if tier == 'quick' else 3}-3 (buffered) middlewares over {len(PLAIN)} and {len(BUFFERED)} behaviours"
