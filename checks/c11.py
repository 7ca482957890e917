"""C11: calls, answers and failures cross the wire unchanged, for every client kind."""
TECHNIQUE = 'exhaustive enumeration of payloads, outcomes, statuses and client kinds, client and server code run end to end on a virtual network'
NOTE = 'Every combination of the stated payload alphabet, endpoint, key, client kind and way of sending, through the real client and the real server; every defined and a set of undefined status values with every kind of detail.'
import asyncio, datetime, decimal, functools, itertools, json, uuid
from mc import appkit, vloop
from mc.core import Chooser, Violation, alarm, Hang, HANG, digest, pmap
from .clients import KINDS, Peer, make_client

TEXTS = ["", " ", "a", "a b", '"', "\\", "\\n", "\n", "\r\n", "\r", "\t", "\x00", "\x05", "\x06", "\x05\n", "\x7f", "\x85", "\u2028", "\u2029", "é", "日本", "😀", "\ufeff", "\uffff", "</script>", "{}", "null",
         "{\"route_key\": \"x\"}", "a" * 1000, "ab\nc" * 50, "\U0010ffff", "e\u0301"]
NUMBERS = [0, -1, 1, 2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 64, 10 ** 30]
FLOATS = [0.0, -0.0, 0.1, 1e308, 5e-324, -1.5, 1e16, 123456789.123456789]
ROUTES = ["app.a", "app.b", "app.a.b", "App.a", "app", "a", "app.a ", "äpp.a", "app.a\n", "x" * 300]


@functools.lru_cache(None)
def types():
    from pydantic import BaseModel, Field
    from typing import Any, Optional
    made = itertools.count()

    class Inner(BaseModel):
        t: str
        v: list[int]
        w: Optional[int] = 3
        z: str = Field(default_factory=lambda: f"made {next(made)}")

    class Payload(BaseModel):
        s: str = "s"
        n: int = 1
        f: float = 0.5
        b: bool = True
        o: Optional[str] = None
        l: list[Any] = []
        d: dict[str, Any] = {}
        i: Optional[Inner] = None
        u: Optional[uuid.UUID] = None
        t: Optional[datetime.datetime] = None
        y: Optional[bytes] = None
        c: Optional[decimal.Decimal] = None
        e: Optional[tuple[int, str]] = None
        m: Optional[int] = 7
        z: str = Field(default_factory=lambda: f"made {next(made)}")
    return Payload, Inner


def payloads():
    Payload, Inner = types()
    P = [Payload()]
    P += [Payload(s=s) for s in TEXTS] + [Payload(n=n) for n in NUMBERS] + [Payload(f=f) for f in FLOATS] + [Payload(b=False)]
    P += [Payload(o=s) for s in ("", "null", "None")] + [Payload(m=None), Payload(m=7, i=Inner(t="", v=[], w=None)), Payload(i=Inner(t="", v=[], z=""), z="")]
    P += [Payload(l=l) for l in ([None], [1, "1", 1.5, True, None], [[], [[]]], [{}], [0] * 200)]
    P += [Payload(d=d) for d in ({"": ""}, {"a": {"b": {"c": [1, {"d": None}]}}}, {"\n": "\n"}, {"status": 999, "data": None}, {"span_key": "x"}, {"é": "é"})]
    P += [Payload(i=Inner(t=t, v=[1, 2])) for t in ("", "\n")] + [Payload(u=uuid.UUID(int=5)), Payload(t=datetime.datetime(2024, 2, 29, 23, 59, 59, 999999)),
          Payload(y=b""), Payload(y=b"abc\n"), Payload(c=decimal.Decimal("1.10")), Payload(e=(1, "x"))]
    P += [Payload(s="y" * n) for n in (60000, 65536, 70000, 200000)] + [Payload(l=["é\n"] * 40000)]         # the last five: streams only
    return P


class World:
    """Real servers and real clients joined by a virtual network."""
    def __init__(self):
        from ekosis.requests.endpoint import endpoint
        from ekosis.requests.buffered_endpoint import buffered_endpoint
        from ekosis.exceptions.application_level import ApplicationProcessingException
        from ekosis.data_transfer_objects import EmptyDto
        self.env = vloop.Env(Chooser(), max_boundaries=10 ** 12)
        self.kit = appkit.Kit(self.env)
        self.loop = vloop.VLoop(self.env)
        self.kit.loop = self.env.loop = self.loop
        vloop.VNet(self.loop)
        asyncio.set_event_loop(self.loop)
        self.env.frozen = True
        self.Payload, self.Inner = types()
        Payload = self.Payload
        self.seen, self.answer = [], None
        self.made = set()       # keys of earlier calls

        def define(route):
            @endpoint(route, Payload)
            async def fn(span_key, dto):
                self.seen.append((route, span_key, dto))
                a = self.answer
                if isinstance(a, Exception):
                    raise a
                return a
        for r in ROUTES:
            define(r)

        @endpoint("app.empty")
        async def empty(dto, span_key):
            self.seen.append(("app.empty", span_key, dto))
            return EmptyDto()

        @buffered_endpoint("app.closed", request_dto_type=Payload)
        async def closed(dto):
            self.seen.append(("app.closed", None, dto))
            return True
        self.run(self.start()).result()
        self.clients = {k: make_client(k, budget=1) for k in KINDS}

    async def start(self):
        await self.kit.serve(tcp=True, uds=True, udp=True)
        await self.kit.setup_handlers()
        await self.kit.close_receiving("app.closed")
        net, loop = self.loop.net, self.loop
        server_d = net.datagrams[0]
        addrs = {}

        async def connect(addr, factory):
            box = {}
            s = net.dial(addr[0], lambda data: loop.call_soon(lambda: box["c"].feed(data)), lambda: loop.call_soon(lambda: box["c"].feed_eof()))
            box["c"], p = net.attach(factory, lambda data: loop.call_soon(s.feed, data), lambda: loop.call_soon(s.feed_eof))
            return box["c"], p

        def datagram(local, remote, t):
            a = ("10.0.0.1", 1000 + len(addrs))
            addrs[a] = t
            t.on_send = lambda data, addr: loop.call_soon(server_d.feed, data, a)
        server_d.on_send = lambda data, addr: loop.call_soon(addrs[addr].feed, data, ("127.0.0.1", 8889))
        net.on_connect, net.on_datagram = connect, datagram

    def run(self, coro):
        t = self.loop.create_task(coro)
        try:
            self.loop.run_forever()
        except vloop.Quiescent:
            pass
        if not t.done():
            t.cancel()
            raise Violation("the call never ends", "call never ends")
        return t

    def call(self, how, kind, route, data, rtype, key):
        client = self.clients[kind]
        if how == "client":
            kw = {} if key is None else {"span_key": key}
            return client.send_message(route, data, rtype, **kw)
        if how == "sender":
            from ekosis.sending.sender import sender

            @sender(client, route, rtype)
            async def fn(d, **kw):
                return d
            return fn(data) if key is None else fn(data, span_key=key)
        from ekosis.sending.sender_base import SenderBase

        class S(SenderBase):
            async def send(self, d, k=None):
                return await self.send_data(d, k)
        return S(client, route, type(data), rtype).send(data, key)


def same(a, b):
    return type(a).__name__ == type(b).__name__ and a == b and repr(a) == repr(b)


def work(job):
    name, cases = job
    w = World()
    part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    from ekosis import exceptions as x
    from ekosis.exceptions.application_level import ApplicationProcessingException
    P = payloads()
    try:
        for case in cases:
            part["traces"] += 1
            part["transitions"] += 2
            part["states"].add(digest(case))
            try:
                with alarm(HANG):
                    if case[0] == "roundtrip":
                        roundtrip(w, P, *case[1:])
                    elif case[0] == "twins":
                        twins(w, *case[1:])
                    elif case[0] == "failure":
                        fail(w, P, *case[1:])
                    else:
                        empty(w, *case[1:])
            except (Violation, Hang) as e:
                part["violations"].append({"what": f"{case}: {getattr(e, 'what', e)}", "sig": getattr(e, "sig", "hang"), "replay": {"case": list(case)}, "trace": []})
                if len(part["violations"]) >= 3 or isinstance(e, Hang):
                    part["exhaustive"] = False
                    break
        part["samples"].append({"case": list(cases[0])})
    finally:
        vloop.dispose(w.loop, w.env)
        w.kit.cleanup()
    return part


def key_of(n):
    return None if n is None else appkit.span(n)


def roundtrip(w, P, kind, how, route, i, j, k):
    key = key_of(k)
    w.seen.clear()
    w.answer = P[j]
    t = w.run(w.call(how, kind, route, P[i], w.Payload, key))
    if t.exception():
        raise Violation(f"sending {P[i]!r:.200} ended with {t.exception()!r:.300}", "call fails")
    if len(w.seen) != 1:
        raise Violation(f"the endpoint ran {len(w.seen)} times", "endpoint runs")
    r, got_key, got = w.seen[0]
    if r != route:
        raise Violation(f"the call to {route!r} reached {r!r}", "wrong endpoint")
    if key is not None and got_key != key:
        raise Violation(f"the endpoint received key {got_key} instead of {key}", "wrong key")
    if key is None and got_key is None:
        raise Violation("the endpoint received no key", "wrong key")
    if key is None and got_key in w.made:
        raise Violation(f"two calls without a key reached the endpoint under one key, {got_key}", "wrong key")
    w.made.add(got_key)
    if not same(got, P[i]):
        raise Violation(f"the endpoint received {got!r:.300} instead of {P[i]!r:.300}", "request changed")
    if not same(t.result(), P[j]):
        raise Violation(f"the caller received {t.result()!r:.300} instead of {P[j]!r:.300}", "response changed")


def twins(w, kind, how, i):
    """Caller and endpoint have types of their own, with the same fields and different defaults."""
    from pydantic import BaseModel
    from typing import Optional

    class Twin(BaseModel):
        s: str = "twin"
        n: int = 99
        f: float = 9.5
        b: bool = False
        o: Optional[str] = "twin"
        m: Optional[int] = None
        l: list = ["twin"]
        z: str = "twin"
    sent = [Twin(), Twin(s="s", n=1, f=0.5, b=True, o=None, m=7, l=[]), Twin(n=1), Twin(o=None)][i % 4]
    back = [w.Payload(z="x"), w.Payload(s="twin", n=99, f=9.5, b=False, o="twin", m=None, l=["twin"], z="twin"), w.Payload(z="y", n=99)][i // 4]
    w.seen.clear()
    w.answer = back
    t = w.run(w.call(how, kind, "app.a", sent, Twin, appkit.span(3)))
    if t.exception():
        raise Violation(f"sending {sent!r:.200} ended with {t.exception()!r:.300}", "call fails")
    got = w.seen[0][2] if len(w.seen) == 1 else None
    if got is None or any(getattr(got, k) != v for k, v in sent):
        raise Violation(f"the endpoint received {got!r:.300} instead of {sent!r:.300}", "request changed")
    if any(v != getattr(back, k) for k, v in t.result()):
        raise Violation(f"the caller received {t.result()!r:.300} instead of {back!r:.300}", "response changed")


def fail(w, P, kind, how, what):
    from ekosis import exceptions as x
    from ekosis.exceptions.application_level import ApplicationProcessingException
    w.seen.clear()
    route, data, mark = "app.a", P[0], None
    if what == "processing":
        w.answer, want, mark = ApplicationProcessingException("reason é\n17"), x.ProcessingException, "reason é"
    elif what.startswith("processing"):
        class Refused(ApplicationProcessingException):
            pass
        long = "reason 19 " + "z" * 3000
        w.answer = {"processing subclass": lambda: Refused("reason 19"), "processing empty": lambda: ApplicationProcessingException(""), "processing long": lambda: ApplicationProcessingException(long)}[what]()
        want, mark = x.ProcessingException, {"processing empty": "", "processing long": long}.get(what, "reason 19")
    elif what.startswith("raise"):
        e = {"raise KeyError": KeyError("reason 18"), "raise OSError": OSError(5, "reason 18"), "raise Timeout": TimeoutError("reason 18"), "raise Refused": ConnectionRefusedError("reason 18"),
             "raise Busy": x.ServerBusyException("reason 18"), "raise Route": x.RouteKeyUnknownException("reason 18"), "raise Comms": x.CommunicationsNonRetryable("reason 18"),
             "raise Value": ValueError("reason 18"), "raise Assertion": AssertionError("reason 18"), "raise Type": TypeError("reason 18"), "raise empty": RuntimeError()}[what]
        w.answer, want, mark = e, x.UnhandledException, "" if what == "raise empty" else "reason 18"
    elif what == "unknown route":
        route, want, mark = "app.nowhere", x.RouteKeyUnknownException, "app.nowhere"
    elif what == "invalid data":
        Other = appkit.dto_type("OtherDto", n=str)
        data, want = Other(n="not a number"), x.PydanticValidationException
    elif what == "busy":
        route, want = "app.closed", x.ServerBusyException
    t = w.run(w.call(how, kind, route, data, w.Payload, appkit.span(3)))
    e = t.exception()
    if e is None:
        raise Violation(f"'{what}' reached the caller as the success {t.result()!r:.200}", "failure reported as success")
    if type(e) is not want:
        raise Violation(f"'{what}' reached the caller as {e!r:.300} instead of {want.__name__}", "wrong exception")
    if mark and mark not in str(e):
        raise Violation(f"'{what}': the reason is missing in {e!r:.300}", "reason lost")


def empty(w, kind, how):
    from ekosis.data_transfer_objects import EmptyDto
    w.seen.clear()
    t = w.run(w.call(how, kind, "app.empty", EmptyDto(), EmptyDto, appkit.span(4)))
    if t.exception() or not isinstance(t.result(), EmptyDto) or len(w.seen) != 1 or not isinstance(w.seen[0][2], EmptyDto):
        raise Violation(f"empty request: {t}", "empty request")


FAILURES = ["processing", "processing subclass", "processing empty", "processing long", "unknown route", "invalid data", "busy"] + ["raise " + n for n in ("KeyError", "OSError", "Timeout", "Refused", "Busy", "Route", "Comms", "Value", "Assertion", "Type", "empty")]


def statuses(job):
    """A scripted peer answers with every status and every kind of detail."""
    kind, values = job
    from ekosis import exceptions as x
    from ekosis.data_transfer_objects import EmptyDto
    part = {"name": "every status value", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    want = {100: x.ProtocolParsingException, 200: x.ClientDeniedException, 300: x.PydanticValidationException, 400: x.RouteKeyUnknownException,
            500: x.ServerBusyException, 600: x.ProcessingException, 999: x.UnhandledException}
    env = vloop.Env(Chooser(), max_boundaries=10 ** 12)
    loop = vloop.VLoop(env)
    env.loop = loop
    vloop.VNet(loop)
    asyncio.set_event_loop(loop)
    env.frozen = True
    reply = {}

    def on_line(link, line):
        if line[:1] == b"\x05":
            loop.call_soon(link.answer, b"\x06\n")
        else:
            loop.call_soon(link.answer, (json.dumps({"span_key": json.loads(line)["span_key"], **reply}) + "\n").encode())
    Peer(env, loop, lambda n: None, on_line)
    client = make_client(kind, budget=2)
    try:
        for status, data in values:
            part["traces"] += 1
            part["states"].add(digest((kind, status, repr(data))))
            reply.clear()
            reply.update(status=status, data=data)
            t = loop.create_task(client.send_message("app.a", EmptyDto(), EmptyDto))
            try:
                loop.run_forever()
            except vloop.Quiescent:
                pass
            e = t.exception() if t.done() else "nothing"
            w = want.get(status, x.UnknownStatusCodeException)
            if type(e) is not w:
                part["violations"].append({"what": f"{kind}: status {status} with detail {data!r} reached the caller as {e!r:.300} instead of {w.__name__}",
                                           "sig": f"status {status}", "replay": {"kind": kind, "status": status, "data": repr(data)}, "trace": []})
            elif isinstance(data, str) and data not in str(e):
                part["violations"].append({"what": f"{kind}: status {status}: the detail {data!r} is missing in {e!r:.300}", "sig": "detail lost",
                                           "replay": {"kind": kind, "status": status, "data": repr(data)}, "trace": []})
    finally:
        vloop.dispose(loop, env)
    part["transitions"] = 2 * part["traces"]
    return part


def dispatch(job):
    return statuses(job[1]) if job[0] == "status" else work(job[1])


def run(rep, tier):
    appkit.load(warm=True)
    n = len(payloads())
    cases = []
    for kind in KINDS:
        n = len(payloads()) - (5 if kind == "udp" else 0)
        for how in ("client", "sender", "class"):
            for i in range(n):
                cases.append(("every payload as request and as response", ("roundtrip", kind, how, "app.a", i, (i * 7 + 3) % n, i)))
                cases.append(("every payload as request and as response", ("roundtrip", kind, how, "app.a", i, i, None)))
            for r in ROUTES:
                for k in (1, None):
                    cases.append(("every endpoint", ("roundtrip", kind, how, r, 3, 5, k)))
            for f in FAILURES:
                cases.append(("every failure", ("failure", kind, how, f)))
            cases.append(("every failure", ("empty", kind, how)))
            for i in range(12):
                cases.append(("caller and endpoint with types of their own", ("twins", kind, how, i)))
            if tier != "quick" or how == "client":
                for i in range(n):
                    for j in range(n):
                        cases.append(("every pair of request and response payload", ("roundtrip", kind, how, ROUTES[(i + j) % len(ROUTES)], i, j, i)))
        # histories: a failure of every kind between calls must leave no trace on the next call of the same client
        for f in FAILURES:
            cases.append(("a call after every failure", ("failure", kind, "client", f)))
            cases.append(("a call after every failure", ("roundtrip", kind, "client", "app.b", 1, 2, 9)))
    byname = {}
    for nme, c in cases:
        byname.setdefault(nme, []).append(c)
    jobs = []
    for nme, cs in byname.items():
        size = max(len(cs) // 8 + 1, 60)
        jobs += [("work", (nme, cs[i:i + size])) for i in range(0, len(cs), size)]
    details = ["", "text", "é\n\"", None, {}, {"a": 1}, [], [1], 0, 17, 1.5, True, False]
    values = [(s, d) for s in (100, 200, 300, 400, 500, 600, 999, -1, 1, 99, 101, 199, 201, 250, 401, 501, 601, 700, 998, 1000, 10 ** 12, -100, -999) for d in details]
    jobs += [("status", (k, values)) for k in KINDS]
    merged = {}
    for part in pmap(dispatch, jobs):
        m = merged.setdefault(part["name"], part)
        if m is not part:
            for k in ("transitions", "traces"):
                m[k] += part[k]
            m["states"] |= part["states"]
            m["violations"] += part["violations"]
            m["exhaustive"] &= part["exhaustive"]
    for p in merged.values():
        rep.add(p)
    rep.assumptions = ["payloads that JSON can carry (no NaN or infinity, no lone surrogates)", "failures of a handler other than by json.JSONDecodeError or pydantic.ValidationError"]
