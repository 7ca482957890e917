"""C15: the statistics against a reference ledger, over all sequences of calls, counter updates and gathers."""
TECHNIQUE = 'exhaustive enumeration of operation sequences on the real statistics keeper behind the real server, plus stateless exploration of all event-loop schedules around a gather'
NOTE = 'All sequences of the stated operations up to the stated length from a period start, with virtual time; every reading compared with a ledger; all schedules of concurrent requests and gather ticks; queue sizes for all sequences of buffer operations.'
import asyncio, itertools, json, math
from mc import appkit, boot, vloop
from mc.core import Violation, alarm, Hang, HANG, digest, explore, forked, pmap
from .buffers import Subject, connect

FAILURES = (("app.fails", {"d": 1}), ("app.fails", {"d": 2}), ("app.fails", {"d": 3}), ("app.fails", {}), ("app.a", {"d": "x"}), ("app.b.c", None), ("app.nowhere", {"d": 1}), ("app.closed", {"d": 1}))
OPS = ("a short", "a long", "b", "fails", "inc", "inc 2.5", "dec", "set", "tick", "read")


def get(doc, path, default=None):
    for p in path.split("."):
        if not isinstance(doc, dict) or p not in doc:
            return default
        doc = doc[p]
    return doc


class Stats(appkit.Bench):
    extra = ()

    def __init__(self, period, length):
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.exceptions.application_level import ApplicationProcessingException
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        super().__init__()
        self.offset = 0.0
        boot.CLOCK = lambda: 1e6 + self.env.now + self.offset
        N = appkit.dto_type(d=float)

        @endpoint("app.a", N)
        async def a(dto):
            self.offset += dto.d
            return dto

        @endpoint("app.b.c", N)
        async def b(dto):
            self.offset += dto.d
            return dto

        @endpoint("app.fails", N)
        async def fails(dto):
            if dto.d == 2:
                raise ApplicationProcessingException("no")
            if dto.d == 3:
                N(d="not a number")
            raise KeyError("x")

        @buffered_endpoint("app.closed", request_dto_type=N)
        async def closed(dto):
            return True
        self.k = StatisticsKeeper()
        self.period, self.length = period, length
        self.k.set_gather_period(period)
        self.k.set_history_length(length)

        async def gather():
            async with self.k:
                await self.k.gather_statistics()
        self.do(self.kit.serve())
        self.do(self.kit.setup_handlers())
        self.do(self.kit.close_receiving("app.closed"))
        self.loop.create_task(gather())
        self.drain()
        self.conn = appkit.Conn(self.kit, "tcp")
        self.history = []           # ledgers of gathered periods, newest first
        self.frozen = []            # what was reported for them
        self.ticks = 0
        self.fresh()
        self.log = []

    def fresh(self):
        self.cur = {"app.a": [], "app.b.c": [], "app.fails": [], "app.closed": [], "app.nowhere": [], "eco.statistics.get": 0, "mine.x": 0, "mine.y.z": 0, **dict.fromkeys(self.extra, 0)}

    def read(self, what):
        r = self.request(self.conn, "eco.statistics.get", {"type": what})
        if r["status"] != 0:
            raise Violation(f"reading {what} statistics: {r}", "reading fails")
        return r["data"]["statistics"]

    def same(self, doc, led, what):
        for ep in ("app.a", "app.b.c", "app.fails", "app.closed", "app.nowhere"):
            n = get(doc, f"endpoint_data.{ep}.call_count", 0)
            if n != len(led[ep]):
                raise Violation(f"{what}: {n} calls of {ep} reported, {len(led[ep])} were answered successfully", "call count")
            p95, p99 = get(doc, f"endpoint_data.{ep}.p95"), get(doc, f"endpoint_data.{ep}.p99")
            if led[ep]:
                lo, hi = min(led[ep]) - 1e-9, max(led[ep]) + 1e-9
                if p95 is None or p99 is None or not lo <= p95 <= hi or not lo <= p99 <= hi or p95 > p99 + 1e-9:
                    raise Violation(f"{what}: percentiles {p95}, {p99} of {ep} for response times {led[ep][:60]}", "percentiles")
                t, n = sorted(led[ep]), len(led[ep]) - 1
                for p, v, least, most in (("95th", p95, 0.9, 0.98), ("99th", p99, 0.97, 1)):
                    if not t[math.floor(least * n)] - 1e-9 <= v <= t[math.ceil(most * n)] + 1e-9:
                        raise Violation(f"{what}: {v} is not near the {p} percentile of the {n + 1} response times of {ep}: at least {least:.0%} of them are up to {t[math.floor(least * n)]}", "percentiles")
            elif (p95 is not None and p95 >= 0) or (p99 is not None and p99 >= 0):
                raise Violation(f"{what}: percentiles {p95}, {p99} of {ep}, which answered nothing", "percentiles")
        n = get(doc, "endpoint_data.eco.statistics.get.call_count", 0)
        own = what == "current period"          # whether a reading counts itself is left open
        if n != led["eco.statistics.get"] and not (own and n == led["eco.statistics.get"] + 1):
            raise Violation(f"{what}: {n} calls of eco.statistics.get reported, {led['eco.statistics.get']} were answered before", "call count")
        for c in ("mine.x", "mine.y.z", *self.extra):
            v = get(doc, c, 0)
            if v != led[c]:
                raise Violation(f"{what}: counter {c} is {v}, its updates add up to {led[c]}", "counter")

    def check(self):
        cur = self.read("current")
        self.same(cur, self.cur, "current period")
        self.cur["eco.statistics.get"] += 1
        last = self.read("gathered")
        self.cur["eco.statistics.get"] += 1
        full = self.read("full")
        self.cur["eco.statistics.get"] += 1
        if len(full) != len(self.history):
            raise Violation(f"{len(full)} gathered periods are kept; should be {len(self.history)} (at most {self.length})", "history length")
        for i, (doc, led) in enumerate(zip(full, self.history)):
            if self.frozen[i] is None:
                self.same(doc, led, f"gathered period {i}")
                self.frozen[i] = json.dumps(doc, sort_keys=True)
            elif json.dumps(doc, sort_keys=True) != self.frozen[i]:
                raise Violation(f"gathered period {i} changed from {self.frozen[i]:.300} to {json.dumps(doc, sort_keys=True):.300}", "gathered period changed")
        if last != (full[0] if full else {}):
            raise Violation("the last gathered statistics are not the newest of the history", "last gathered")
        stamps = [d["timestamp"] for d in full]
        if stamps != sorted(stamps, reverse=True):
            raise Violation(f"gathered periods are not newest first: {stamps}", "history order")

    def apply(self, op):
        self.log.append(op)
        c = self.cur
        if op in ("a short", "a long", "b"):
            ep, d = {"a short": ("app.a", 0.25), "a long": ("app.a", 2.0), "b": ("app.b.c", 0.5)}[op]
            r = self.request(self.conn, ep, {"d": d})
            if r["status"] != 0:
                raise Violation(f"request failed: {r}", "request fails")
            c[ep].append(d)
        elif op == "fails":
            for route, data in FAILURES:
                r = self.request(self.conn, route, data)
                if r["status"] == 0:
                    raise Violation(f"a request to {route} with {data} succeeded", "request succeeds")
        elif op == "inc":
            self.k.increment("mine.x")
            c["mine.x"] += 1
        elif op == "inc 2.5":
            self.k.increment("mine.y.z", 2.5)
            c["mine.y.z"] += 2.5
        elif op == "dec":
            self.k.decrement("mine.x")
            c["mine.x"] -= 1
        elif op == "set":
            self.k.set_statistic_value("mine.x", 7)
            c["mine.x"] = 7
        elif op == "read":
            self.check()
        elif op == "tick":
            self.advance(1)
            self.ticks += 1
            if self.ticks == self.period:
                self.ticks = 0
                self.history.insert(0, c)
                self.frozen.insert(0, None)
                del self.history[self.length:], self.frozen[self.length:]
                self.fresh()

    def to_period_start(self):
        self.apply("tick")
        while self.ticks:
            self.apply("tick")


def work(job):
    period, length, first, depth, ops = job
    s = Stats(period, length)
    part = {"name": f"all sequences of {depth} operations over {len(ops)}, gather period {period} s, history of {length}", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    try:
        for seq in itertools.product(ops, repeat=depth - 1):
            seq = (first, *seq)
            part["traces"] += 1
            part["transitions"] += depth
            try:
                with alarm(HANG):
                    for op in seq:
                        s.apply(op)
                        part["states"].add(digest((s.ticks, sorted(s.cur.items()), len(s.history))))
                    s.check()
                    s.to_period_start()
            except (Violation, Hang) as e:
                what = getattr(e, "what", str(e))
                part["violations"].append({"what": f"after {list(seq)}: {what}", "sig": getattr(e, "sig", "hang"), "replay": {"period": period, "length": length, "ops": s.log[-60:]}, "trace": s.log[-40:]})
                if len(part["violations"]) >= 2 or isinstance(e, Hang):
                    part["exhaustive"] = False
                    break
                part["exhaustive"] = False
                return part
        part["samples"] = [{"first": first, "sequences": part["traces"]}]
    finally:
        boot.CLOCK = None
        s.close()
    return part


# ------------------------------------------------------------------------------------------------ far beyond the enumerated sizes
DEEP = "mine.d.e.e.p.e.r.t.h.a.n.m.o.s.t"


def many(job):
    """One long straight history: every kind of number the statistics keep, well above what sequences of a few operations reach."""
    kind, n = job
    period, length = {"requests": (2, 3), "history": (1, n), "period": (n, 2), "counters": (2, 3)}[kind]
    s = Stats(period, length)
    part = {"name": f"{kind}: one history with {n}", "states": set(), "transitions": 0, "traces": 1, "samples": [], "violations": [], "exhaustive": True}

    def go(op, times=1):
        for _ in range(times):
            s.apply(op)
            part["transitions"] += 1
            part["states"].add(digest((s.ticks, len(s.history), part["transitions"])))
    try:
        with alarm(200):
            if kind == "requests":
                go("a long", n // 10)
                go("a short", n)
                s.check()
                go("b", n // 2)
                go("tick", 2)
                s.check()
                go("a short", n)
                go("a long", n // 10)
                go("inc", n)
                s.check()
                go("tick", 2)
                s.check()
            elif kind == "history":
                for i in range(n + 20):
                    go("inc", i % 3)
                    go("a short", i % 2)
                    go("tick")
                    if i % 16 == 0 or i > n - 3:
                        s.check()
            elif kind == "period":
                for _ in range(2):
                    for i in range(16):
                        go("a short")
                        go("inc 2.5")
                        go("tick", n // 16)
                    s.check()
                    go("tick", n % 16)
                    s.check()
            else:
                s.extra = (DEEP, *(f"mine.many.k{i}" for i in range(n)), *(f"mine.{'x' * 200}.{i}.{j}" for i in range(4) for j in range(4)))
                s.cur.update(dict.fromkeys(s.extra, 0))
                for r in range(2):
                    for i, c in enumerate(s.extra):
                        s.k.increment(c, i + r + 0.5)
                        s.k.increment(c, 2.0 ** 40)
                        s.k.decrement(c, i % 7)
                        s.cur[c] += i + r + 0.5 + 2.0 ** 40 - i % 7
                        part["transitions"] += 3
                    s.check()
                    go("tick", 2)
                    s.check()
    except (Violation, Hang) as e:
        what = getattr(e, "what", str(e))
        part["violations"].append({"what": f"one history with {n} {kind}: {what[:600]}", "sig": getattr(e, "sig", "hang"), "replay": {"kind": kind, "n": n}, "trace": s.log[-40:]})
        part["exhaustive"] = False
    finally:
        boot.CLOCK = None
        s.close()
    return part


# ------------------------------------------------------------------------------------------------ schedules
def schedule(nreq, fails=(), reader=False):
    """Requests whose handlers suspend, and the gather tick, in every order."""
    def build(env, kit):
        from ekosis.requests.endpoint import endpoint
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        boot.CLOCK = lambda: 1e6 + env.now
        N = appkit.dto_type(n=int)
        k = StatisticsKeeper()
        k.set_gather_period(1)
        k.set_history_length(10)
        L = {"done": {}, "resumed": {}, "inc": 0}

        def gathers():
            return len(kit.quietly(k.get_full_gathered_statistics()))

        @endpoint("app.slow", N)
        async def slow(dto):
            await env.suspend(f"handler {dto.n} continues")
            L["resumed"][dto.n] = gathers()
            k.increment("mine.x")
            L["inc"] += 1
            if dto.n in fails:
                raise KeyError("x")
            return dto

        async def main(loop):
            await kit.serve()

            async def gather():
                async with k:
                    await k.gather_statistics()
            loop.create_task(gather())
            for i in range(nreq):
                c = appkit.Conn(kit, "tcp", f"c{i}")

                def answered(raw, i=i):
                    if json.loads(raw)["status"] == 0:
                        L["done"][i] = gathers()
                c.on_response = answered
                env.add(f"request {i} arrives", lambda c=c, i=i: c.send(appkit.line("app.slow", appkit.span(i), {"n": i})))
            env.snap = lambda: (L["done"], L["resumed"])

        def judge(loop):
            full = appkit.query(loop, k.get_full_gathered_statistics())
            cur = appkit.query(loop, k.get_current_statistics())
            periods = list(full)[::-1] + [cur]
            counts = [get(d, "endpoint_data.app.slow.call_count", 0) for d in periods]
            incs = [get(d, "mine.x", 0) for d in periods]
            ok = nreq - len(fails)
            if len(L["done"]) != ok:
                raise Violation(f"{len(L['done'])} of {ok} requests answered", "request lost")
            if sum(counts) != ok:
                raise Violation(f"{ok} requests were answered successfully, the periods count {counts}", "call count")
            if sum(incs) != L["inc"]:
                raise Violation(f"the counter was incremented {L['inc']} times, the periods report {incs}", "counter")
            for d, n in zip(periods, counts):
                for p in ("p95", "p99"):
                    v = get(d, f"endpoint_data.app.slow.{p}", -1)
                    if (v >= 0) != (n > 0) or v > 2.5:
                        raise Violation(f"{p} is {v} in a period with {n} answered requests", "percentiles")
            sure = {i: g for i, g in L["done"].items() if L["resumed"][i] == g}
            for g in set(sure.values()):
                n = sum(1 for x in sure.values() if x == g)
                if g < len(counts) and not counts[g] >= n:
                    raise Violation(f"{n} requests finished in period {g}; counts per period {counts}", "counted in the wrong period")
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=2.5))


# ------------------------------------------------------------------------------------------------ queue sizes
def sizes(kind, depth, ops):
    def build(env, kit):
        from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
        Dto = appkit.dto_type(n=int)
        keys = [appkit.span(i) for i in range(depth + 1)]
        fate = {"ok": True}
        n = {"i": 0}

        async def attempt(who, span_key, dto):
            return True if fate["ok"] else "raise"
        sub = Subject(kind, Dto, attempt, keys, page=2)
        prefix = "buffered_sender_sizes" if kind == "sender" else "buffered_endpoint_sizes"

        async def settle():
            for _ in range(30):
                await asyncio.sleep(0)

        async def main(loop):
            await kit.serve()
            await sub.setup(kit.dir)
            req, ctl = connect(env, kit, "req"), connect(env, kit, "ctl")
            k = StatisticsKeeper()
            for step in range(depth):
                op = env.pick(f"step {step}", ops)
                if op in ("push", "push failing"):
                    fate["ok"] = op == "push"
                    sub.submit(req, loop, n["i"], {"n": n["i"]}, lambda s: None)
                    n["i"] += 1
                elif op != "nothing":
                    fate["ok"] = False if op == "reall" else fate["ok"]
                    sub.manage(ctl, op, lambda d: None)
                await settle()
                got = await k.get_current_statistics()
                p, e = get(got, f"{prefix}.app.item.pending"), get(got, f"{prefix}.app.item.error")
                rp, re = await sub.buffer.pending_queue_size(), await sub.buffer.error_queue_size()
                if (p, e) != (rp, re):
                    env.fail(f"reported sizes are pending {p}, errors {e}; the queues hold {rp} and {re}", "queue sizes")
        return main, None
    return forked(lambda ch: appkit.execute(ch, build, horizon=0))


def run(rep, tier):
    appkit.load(warm=True, clock=True)
    jobs = []
    deep = tier != "quick"
    for period, length in ((2, 2), (1, 1), (3, 3)) if not deep else ((2, 2), (1, 1), (3, 3), (1, 3), (2, 1)):
        for f in OPS:
            jobs.append((period, length, f, 5 if deep else 4, OPS))
    small = ("a short", "inc", "tick", "read")
    for f in small:
        jobs.append((1, 2, f, 8 if deep else 6, small))
        jobs.append((2, 3, f, 8 if deep else 6, small))
    merged = {}
    for part in pmap(work, jobs):
        m = merged.setdefault(part["name"], part)
        if m is not part:
            for k in ("transitions", "traces"):
                m[k] += part[k]
            m["states"] |= part["states"]
            m["violations"] += part["violations"]
            m["exhaustive"] &= part["exhaustive"]
    for p in merged.values():
        rep.add(p)
    f = 3 if deep else 1
    for p in pmap(many, [("requests", 1500 * f), ("history", 150 * f), ("period", 5003 * f), ("counters", 300 * f)]):
        rep.add(p)
    S = [("two requests around gathers", schedule(2)), ("two requests, one failing, around gathers", schedule(2, (1,)))]
    ops = ("push", "push failing", "pause", "unpause", "reall", "clear")
    for kind in ("handler", "sender"):
        S.append((f"queue sizes of a buffered {kind}", sizes(kind, 4 if deep else 3, ops)))
    if deep:
        S.append(("three requests around gathers", schedule(3)))
    for p in explore(S, 150 if not deep else 1500):
        rep.add(p)
