"""C10: exactly one well-formed response per request line, in order, on any input."""
TECHNIQUE = 'exhaustive enumeration of line sequences and packetisations on the real servers, plus stateless exploration of all event-loop schedules of concurrent connections'
NOTE = 'Real TCP, UDS and UDP server classes on a virtual network. All sequences of line kinds up to the stated length, in every stated packetisation; all schedules of arrivals, handler completions, half-closes and resets of two connections.'
import asyncio, itertools, json
from mc import appkit, vloop
from mc.core import Violation, digest, explore, forked, pmap

ENQ, ACK = b"\x05\n", b"\x06"


def raw(route='"app.echo"', key=None, data='{"n": 1}', fields=None):
    key = key or appkit.span(1)
    f = {"route_key": route, "span_key": '{"trace_id": "%s", "span_id": "%s"}' % (key.trace_id, key.span_id), "data": data}
    f.update(fields or {})
    return ("{" + ", ".join(f'"{k}": {v}' for k, v in f.items() if v is not None) + "}\n").encode()


def kinds():
    """kind -> (make(key) -> line, expected status or predicate on it, is the key readable?)"""
    any_ = lambda s: True
    bad = lambda s: s != 0
    deep = b"[" * 30000 + b"\n"
    K = {
        "echo": (lambda k: raw(key=k), 0, True),
        "enquiry": (lambda k: ENQ, "ack", False),
        "garbage": (lambda k: b"this is not json\n", 100, False),
        "cut json": (lambda k: raw(key=k)[:40] + b"\n", 100, False),
        "not utf-8": (lambda k: b"\xff\xfe{\x80}\n", bad, False),
        "utf-8 cut": (lambda k: raw(key=k, data='{"n": 1, "s": "').replace(b"}\n", b"\xc3\n"), bad, False),
        "not utf-8 in a text": (lambda k: raw(route='"app.text"', key=k, data='{"s": "a\u00ffb"}').replace("\u00ff".encode(), b"\xff"), bad, False),
        "zero bytes around": (lambda k: b"\0" + raw(key=k)[:-1] + b"\0\n", bad, False),
        "zero byte": (lambda k: b"\0\n", bad, False),
        "enquiry inside": (lambda k: raw(key=k, data='{"n": 1, "s": "\x05"}'), bad, False),
        "enquiry late": (lambda k: b" \x05\n", bad, False),
        "acknowledge": (lambda k: b"\x06\n", bad, False),
        "blank": (lambda k: b"\n", bad, False),
        "blank crlf": (lambda k: b"\r\n", bad, False),
        "spaces": (lambda k: b"  \t \n", bad, False),
        "number": (lambda k: b"17\n", bad, False),
        "list": (lambda k: b"[1, 2]\n", bad, False),
        "null": (lambda k: b"null\n", bad, False),
        "empty object": (lambda k: b"{}\n", 300, False),
        "no route": (lambda k: raw(route=None, key=k), 300, None),
        "route not text": (lambda k: raw(route="[1]", key=k), 300, None),
        "bad key": (lambda k: raw(key=k, fields={"span_key": '{"trace_id": "xyz", "span_id": "0"}'}), 300, False),
        "no key": (lambda k: raw(key=k, fields={"span_key": None}), 300, False),
        "unknown route": (lambda k: raw(route='"app.nowhere"', key=k), 400, True),
        "empty route": (lambda k: raw(route='""', key=k), 400, True),
        "invalid data": (lambda k: raw(key=k, data='{"n": "x"}'), 300, True),
        "data missing field": (lambda k: raw(key=k, data='{}'), 300, True),
        "data not an object": (lambda k: raw(key=k, data='[1]'), bad, True),
        "data null": (lambda k: raw(key=k, data='null'), bad, True),
        "processing failure": (lambda k: raw(route='"app.refuse"', key=k), 600, True),
        "handler raises": (lambda k: raw(route='"app.raise"', key=k), 999, True),
        "handler raises reset": (lambda k: raw(route='"app.reset"', key=k), 999, True),
        "handler raises eof": (lambda k: raw(route='"app.eof"', key=k), 999, True),
        "handler raises timeout": (lambda k: raw(route='"app.timeout"', key=k), 999, True),
        "handler raises routing": (lambda k: raw(route='"app.unicode"', key=k), bad, True),
        "result unserialisable": (lambda k: raw(route='"app.weird"', key=k), bad, True),
        "result surrogate": (lambda k: raw(route='"app.surrogate"', key=k), any_, True),
        "result long": (lambda k: raw(route='"app.long"', key=k), 0, True),
        "no result": (lambda k: raw(route='"app.none"', key=k), any_, True),
        "surrogate": (lambda k: raw(route='"app.text"', key=k, data='{"s": "\\ud800"}'), any_, True),
        "newline in text": (lambda k: raw(route='"app.text"', key=k, data='{"s": "a\\nb\\u0005\\u2028\\u0085\\u0000"}'), 0, True),
        "crlf": (lambda k: raw(key=k)[:-1] + b"\r\n", 0, True),
        "indented": (lambda k: b"  " + raw(key=k), 0, True),
        "extra fields": (lambda k: raw(key=k, fields={"more": "[1]"}), any_, True),
        "two objects": (lambda k: raw(key=k)[:-1] + raw(key=k), 100, None),
        "nan": (lambda k: raw(key=k, data='{"n": NaN}'), any_, True),
        "huge number": (lambda k: raw(key=k, data='{"n": 1' + "0" * 5000 + "}"), any_, None),
        "deep": (lambda k: deep, bad, False),
        "long line": (lambda k: raw(route='"app.text"', key=k, data='{"s": "' + "y" * 150000 + '"}'), 0, True),
        "huge line": (lambda k: raw(route='"app.text"', key=k, data='{"s": "' + "y" * HUGE_SIZE + '"}'), 0, True),
        "result huge": (lambda k: raw(route='"app.huge"', key=k), 0, True),
        "long garbage": (lambda k: b"z" * 150000 + b"\n", 100, False),
        "buffered": (lambda k: raw(route='"app.item"', key=k), 0, True),
        "buffered invalid": (lambda k: raw(route='"app.item"', key=k, data='{"m": 1}'), 300, True),
        "buffered paused": (lambda k: raw(route='"app.closed"', key=k), 500, True),
    }
    return K


HUGE, HUGE_SIZE = ("huge line", "result huge"), 9 << 20
LONG = ("long line", "long garbage", "deep", "huge number", "result long")
SLOW = ("buffered", "buffered invalid", "buffered paused")
CORE = ("echo", "enquiry", "garbage", "not utf-8", "blank", "list", "no route", "unknown route", "invalid data", "processing failure",
        "handler raises", "handler raises reset", "result unserialisable", "newline in text", "crlf")


def define(env=None):
    from ekosis.requests.endpoint import endpoint
    from ekosis.exceptions.application_level import ApplicationProcessingException
    N, T, A = appkit.dto_type(n=int), appkit.dto_type("TextDto", s=str), appkit.dto_type("AnyDto", x=object)

    @endpoint("app.echo", N)
    async def echo(dto):
        return dto

    @endpoint("app.text", T)
    async def text(dto):
        return dto

    @endpoint("app.long", N)
    async def long(dto):
        return T(s="q" * 200000)

    @endpoint("app.huge", N)
    async def huge(dto):
        return T(s="q" * HUGE_SIZE)

    def raises(route, make):
        @endpoint(route, N)
        async def fn(dto):
            raise make()
    raises("app.refuse", lambda: ApplicationProcessingException("no"))
    raises("app.raise", lambda: KeyError("boom"))
    raises("app.reset", lambda: ConnectionResetError("elsewhere"))
    raises("app.eof", lambda: asyncio.IncompleteReadError(b"", 3))
    raises("app.timeout", lambda: asyncio.TimeoutError())
    raises("app.unicode", lambda: RuntimeError("\ud800"))

    @endpoint("app.weird", N)
    async def weird(dto):
        return A.model_construct(x=object())

    @endpoint("app.surrogate", N)
    async def surrogate(dto):
        return T.model_construct(s="\ud800")

    @endpoint("app.none", N)
    async def none(dto):
        return None
    return N


def define_buffered():
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    N = appkit.dto_type(n=int)

    @buffered_endpoint("app.item", request_dto_type=N)
    async def item(dto):
        return True

    @buffered_endpoint("app.closed", request_dto_type=N)
    async def closed(dto):
        return True


def judge(kind, spec, key, reply, stream=True):
    """reply: bytes without the newline."""
    _, want, readable = spec
    if want == "ack":
        if reply.rstrip(b"\n") != ACK:
            raise Violation(f"an enquiry was answered with {reply[:100]!r}", "enquiry answer")
        return
    try:
        doc = json.loads(reply)
        status, got = doc["status"], doc["span_key"]
        doc["data"]
    except Exception:
        raise Violation(f"request '{kind}' was answered with {reply[:200]!r}, which is not a response document", "answer not a document")
    if not isinstance(status, int) or isinstance(status, bool):
        raise Violation(f"request '{kind}' was answered with status {status!r}", "answer not a document")
    if (status != want) if isinstance(want, int) else not want(status):
        raise Violation(f"request '{kind}' was answered with status {status}: {reply[:200]!r}", f"status of {kind}")
    right = {"trace_id": str(key.trace_id), "span_id": str(key.span_id)}
    if readable and got != right or got not in (None, right):
        raise Violation(f"the answer to request '{kind}' carries key {got} instead of {right}", "answer key")
    if kind in ("echo", "crlf", "indented") and doc["data"] != {"n": 1}:
        raise Violation(f"request '{kind}' was answered with data {doc['data']}", "answer data")
    if kind == "newline in text" and doc["data"] != {"s": "a\nb\x05\u2028\x85\x00"} or kind == "long line" and doc["data"] != {"s": "y" * 150000} \
            or kind == "huge line" and doc["data"] != {"s": "y" * HUGE_SIZE} or kind == "result huge" and doc["data"] != {"s": "q" * HUGE_SIZE}:
        raise Violation(f"request '{kind}' was answered with data {str(doc['data'])[:100]}", "answer data")


class Bench:
    """Running servers; each case is a new connection."""
    def __init__(self, buffered=False):
        from mc.core import Chooser
        self.env = vloop.Env(Chooser(), max_boundaries=10**12)
        self.kit = appkit.Kit(self.env)
        self.loop = vloop.VLoop(self.env)
        self.kit.loop = self.env.loop = self.loop
        vloop.VNet(self.loop)
        asyncio.set_event_loop(self.loop)
        self.env.frozen = True
        define()
        if buffered:
            define_buffered()

        async def start():
            await self.kit.serve(tcp=True, uds=True, udp=True)
            if buffered:
                await self.kit.setup_handlers()
                await self.kit.close_receiving("app.closed")
        self.loop.create_task(start())
        self.drain()
        self.by = {k: appkit.Conn(self.kit, k, "bystander") for k in ("tcp", "uds")}
        self.K = kinds()
        self.n = 10

    def drain(self):
        try:
            self.loop.run_forever()
        except vloop.Quiescent:
            pass

    def key(self):
        self.n += 1
        return appkit.span(self.n % 4000)

    def stream(self, transport, seq, cut):
        """cut(lines) -> packets. Returns the number of packets."""
        c = appkit.Conn(self.kit, transport, "c")
        keys = [self.key() for _ in seq]
        lines = [self.K[k][0](key) for k, key in zip(seq, keys)]
        packets = cut(lines)
        n = 0
        total, ends, e = 0, [], 0
        for l in lines:
            e += len(l)
            ends.append(e)
        for p in packets:
            c.send(p)
            self.drain()
            total += len(p)
            complete = sum(1 for x in ends if x <= total)
            if len(c.responses) != complete or c.buf or c.closed:
                raise Violation(f"after {complete} complete line(s) {short(seq[:complete])} there are {len(c.responses)} response line(s), "
                                f"{len(c.buf)} stray bytes, connection {'closed' if c.closed else 'open'}", "number of answers",
                                [f"{transport}: {short(seq)}", f"packet sizes {[len(p) for p in packets][:40]}"])
            while n < complete:
                judge(seq[n], self.K[seq[n]], keys[n], c.responses[n])
                n += 1
        for who, conn in (("the same connection", c), ("another connection", self.by["tcp"]), ("another connection", self.by["uds"])):
            before, k = len(conn.responses), self.key()
            conn.send(raw(key=k))
            self.drain()
            if len(conn.responses) != before + 1 or conn.closed:
                raise Violation(f"after {short(seq)} {who} gives {len(conn.responses) - before} answers to a valid request", "other requests affected")
            judge("echo", self.K["echo"], k, conn.responses[-1])
            conn.responses.clear()
        c.t.feed_eof()
        self.drain()

    def datagrams(self, seq, senders, cut=False):
        t = self.loop.net.datagrams[0]
        t.sent.clear()
        keys = [self.key() for _ in seq]
        for i, (kind, s) in enumerate(zip(seq, senders)):
            t.feed(self.K[kind][0](keys[i]), ("10.0.0.%d" % s, 1000 + s))
            if not cut:
                self.drain()
                if len(t.sent) != i + 1:
                    raise Violation(f"after {i + 1} datagram(s) {list(seq[:i + 1])} there are {len(t.sent)} replies", "number of datagram answers")
        self.drain()
        if len(t.sent) != len(seq):
            raise Violation(f"{len(seq)} datagrams {list(seq)} got {len(t.sent)} replies", "number of datagram answers")
        left = list(t.sent)
        for i, (kind, s) in enumerate(zip(seq, senders)):      # replies to different senders may overtake each other
            j = next((j for j, (_, a) in enumerate(left) if a == ("10.0.0.%d" % s, 1000 + s)), None) if cut else 0
            if j is None or left[j][1] != ("10.0.0.%d" % s, 1000 + s):
                raise Violation(f"a reply to datagram {i} of {list(seq)} went to {[a for _, a in left]}", "datagram answer to the wrong sender")
            if not cut:
                judge(kind, self.K[kind], keys[i], left[j][0].rstrip(b"\n"))
                left.pop(j)
        if cut:
            self.match_any_order(seq, keys, senders, t.sent)

    def crowd(self, transport, seq):
        """As many senders or connections as lines, all at once; each must get its own answer."""
        keys = [self.key() for _ in seq]
        lines = [self.K[k][0](key) for k, key in zip(seq, keys)]
        if transport == "udp":
            t = self.loop.net.datagrams[0]
            t.sent.clear()
            for i, l in enumerate(lines):
                t.feed(l, (f"10.0.{i // 200}.{i % 200}", 2000 + i))
            self.drain()
            got = [[d for d, a in t.sent if a == (f"10.0.{i // 200}.{i % 200}", 2000 + i)] for i in range(len(seq))]
        else:
            cs = [appkit.Conn(self.kit, transport, f"c{i}") for i in range(len(seq))]
            for c, l in zip(cs, lines):
                c.send(l)
            self.drain()
            got = [list(c.responses) for c in cs]
        for i, kind in enumerate(seq):
            if len(got[i]) != 1:
                raise Violation(f"of {len(seq)} requests under way at once on {transport}, request {i} ('{kind}') got {len(got[i])} answers", "number of answers")
            judge(kind, self.K[kind], keys[i], got[i][0].rstrip(b"\n"))
        if transport != "udp":
            for c in cs:
                c.t.feed_eof()
            self.drain()

    def match_any_order(self, seq, keys, senders, sent):
        """Datagrams that were under way together: an assignment of replies to requests must exist."""
        err = None
        for perm in itertools.permutations(range(len(sent))):
            try:
                for i, j in enumerate(perm):
                    if sent[j][1] != ("10.0.0.%d" % senders[i], 1000 + senders[i]):
                        raise Violation("datagram answer went to the wrong sender", "datagram answer to the wrong sender")
                    judge(seq[i], self.K[seq[i]], keys[i], sent[j][0].rstrip(b"\n"))
                return
            except Violation as e:
                err = err or e
        raise err


def one_packet(lines):
    return [b"".join(lines)]


def per_line(lines):
    return list(lines)


def bytewise(lines):
    b = b"".join(lines)
    return [b[i:i + 1] for i in range(len(b))]


def at(i):
    def cut(lines):
        b = b"".join(lines)
        return [b[:i], b[i:]]
    return cut


def chunks(n):
    def cut(lines):
        b = b"".join(lines)
        return [b[i:i + n] for i in range(0, len(b), n)]
    return cut


def short(seq):
    return list(seq) if len(seq) < 20 else [*seq[:10], f"... {len(seq)} lines"]


def jobs_for(tier):
    K = kinds()
    everything = [k for k in K if k not in SLOW + HUGE]
    short = [k for k in everything if k not in LONG]
    core = list(CORE)
    J = []

    def stream(transport, seqs, cuts, buffered=False, name=""):
        seqs = list(seqs)
        size = max(1, len(seqs) // 8 + 1)
        for i in range(0, len(seqs), size):
            J.append(("stream", name, transport, seqs[i:i + size], cuts, buffered))
    for tr in ("tcp", "uds"):
        stream(tr, [(k,) for k in everything], "all single", name=f"{tr}: every line kind, every split point, byte by byte")
        stream(tr, itertools.product(everything, repeat=2), "lines", name=f"{tr}: all pairs of line kinds, one packet / per line / cuts at the boundary")
        stream(tr, itertools.product(core, repeat=3), "few" if tier == "quick" else "lines", name=f"{tr}: all triples of the core kinds")
        b = [(k,) for k in SLOW] + [p for k in SLOW for o in (*core, *SLOW) for p in ((k, o), (o, k))]
        stream(tr, b, "few", True, name=f"{tr}: buffered endpoints before and after every core kind")
    stream("tcp", itertools.product(("echo", "enquiry", "garbage", "blank", "crlf"), repeat=2), "all splits", name="tcp: pairs of line kinds, every split point")
    if tier != "quick":
        stream("tcp", itertools.product(short, repeat=3), "one", name="tcp: all triples of short kinds")
        stream("tcp", itertools.product(core, repeat=2), "all splits", name="tcp: pairs of core kinds, every split point")
        stream("tcp", itertools.product(core, repeat=4), "one", name="tcp: all quadruples of core kinds")
    for tr in ("tcp", "uds"):
        for n in (130, 1100) if tier == "quick" else (130, 1100, 6000):
            cycles = [tuple(itertools.islice(itertools.cycle(c), n)) for c in (("echo",), tuple(core), ("enquiry",), ("garbage",), ("handler raises", "invalid data", "echo"))]
            for c in cycles:
                stream(tr, [c], "few", name=f"{tr}: up to thousands of lines on one connection")
        stream(tr, [(k,) for k in HUGE] + [("echo", k, "echo") for k in HUGE], "lines", name=f"{tr}: lines and answers of several MiB")
    for tr in ("tcp", "uds", "udp"):
        for n in (20, 90, 300) if tier == "quick" else (20, 90, 300, 1500):
            J.append(("crowd", f"{tr}: up to hundreds of requests at once", tr, [tuple(itertools.islice(itertools.cycle(c), n)) for c in (("echo",), ("echo", "garbage", "unknown route", "enquiry"), ("handler raises", "echo"))], None, False))
    seqs = [((k,), (1,)) for k in everything] + [((a, b), s) for a, b in itertools.product(everything, repeat=2) for s in ((1, 1), (1, 2))]
    if tier != "quick":
        seqs += [(t, (1, 2, 1)) for t in itertools.product(core, repeat=3)]
    for i in range(0, len(seqs), len(seqs) // 8 + 1):
        J.append(("udp", "udp: all datagrams and pairs from one or two senders, one after the other and at once", None, seqs[i:i + len(seqs) // 8 + 1], None, False))
    return J


def work(job):
    what, name, transport, seqs, cuts, buffered = job
    part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    b = Bench(buffered)
    try:
        for seq in seqs:
            if what == "udp":
                todo = [(lambda c=c, q=seq: b.datagrams(*q, cut=c), f"at once: {c}") for c in (False, True)]
                seq = seq[0]
            elif what == "crowd":
                todo = [(lambda: b.crowd(transport, seq), "at once")]
            else:
                lens = [len(b.K[k][0](appkit.span(1))) for k in seq]
                total = sum(lens)
                if cuts == "one":
                    cs = [one_packet]
                elif cuts == "few":
                    cs = [one_packet, per_line]
                elif cuts == "lines":
                    cs = [one_packet, per_line] + [at(x + d) for x in itertools.accumulate(lens[:-1]) for d in (-1, 1)] + [at(total - 1)]
                elif total > 3000:
                    cs = [one_packet, at(1), at(total - 1), at(65536), chunks(65536), chunks(4096)]
                else:
                    cs = [at(i) for i in range(1, total)] + ([one_packet, bytewise] if cuts == "all single" else [])
                todo = [(lambda c=c: b.stream(transport, seq, c), str(i)) for i, c in enumerate(cs)]
            for f, how in todo:
                part["traces"] += 1
                part["transitions"] += len(seq)
                try:
                    from mc.core import alarm, Hang, HANG
                    with alarm(HANG):
                        f()
                except (Violation, Hang) as e:
                    what_ = getattr(e, "what", f"hangs: {e}")
                    part["violations"].append({"what": f"{name}: {short(seq)} ({how}): {what_}", "sig": getattr(e, "sig", "hang"), "replay": {"part": name, "sequence": short(seq), "cut": how},
                                               "trace": [str(x) for x in (getattr(e, "detail", None) or [])]})
                    if len(part["violations"]) >= 3 or isinstance(e, Hang):
                        part["exhaustive"] = False
                        return part
            for i in range(len(seq)):
                part["states"].add(digest((transport, short(seq[:i + 1]))))
            if len(part["samples"]) < 1:
                part["samples"].append({"part": name, "sequence": short(seq), "packetisations": len(todo)})
    finally:
        vloop.dispose(b.loop, b.env)
        b.kit.cleanup()
    return part


# ------------------------------------------------------------------------------------------------ schedules
def schedule(first, second, faults, transport="tcp", split=False):
    """Two connections, pipelined requests whose handlers suspend, one connection may be cut at any time."""
    def build(env, kit):
        from ekosis.requests.endpoint import endpoint
        from ekosis.exceptions.application_level import ApplicationProcessingException
        N = appkit.dto_type(n=int)
        running = {}

        @endpoint("app.slow", N)
        async def slow(dto):
            running[dto.n] = "running"
            await env.suspend(f"handler {dto.n} continues")
            running[dto.n] = "done"
            if dto.n % 10 == 7:
                raise KeyError("boom")
            if dto.n % 10 == 6:
                raise ApplicationProcessingException("no")
            return dto

        @endpoint("app.echo", N)
        async def echo(dto):
            return dto

        plans = {"A": first, "B": second}
        conns, cut, sent = {}, {}, {"A": [], "B": []}

        def make(name, i):
            kind = plans[name][i]
            n = (10 if name == "A" else 20) + i
            key = appkit.span(n)
            if kind == "enq":
                return ENQ, None
            if kind == "bad":
                return b"nonsense\n", (None, 100, None)
            if kind == "fail":
                return appkit.line("app.slow", key, {"n": n * 10 + 7}), (key, 999, None)
            if kind == "refuse":
                return appkit.line("app.slow", key, {"n": n * 10 + 6}), (key, 600, None)
            return appkit.line("app.slow" if kind == "slow" else "app.echo", key, {"n": n}), (key, 0, {"n": n})

        def next_line(name, i):
            def go():
                data, want = make(name, i)
                if split:
                    conns[name].send(data[:5])
                    env.add(f"rest of {name}{i} arrives", lambda: rest(data, want))
                    return
                rest(data, want, 0)

            def rest(data, want, start=5):
                sent[name].append(want)
                conns[name].send(data[start:])
                if i + 1 < len(plans[name]):
                    next_line(name, i + 1)
            env.add(f"{name}{i} ({plans[name][i]}) arrives", go, lambda: name not in cut)

        def fault(kind):
            def go():
                cut["A"] = kind
                if kind == "eof":
                    conns["A"].t.feed_eof()
                elif kind == "reset":
                    conns["A"].t.lost(ConnectionResetError("reset"))
                else:
                    conns["A"].t.lost(BrokenPipeError("pipe"))
            env.add(f"connection A: {kind}", go, lambda: not cut)

        async def main(loop):
            await kit.serve(tcp=transport == "tcp", uds=transport == "uds")
            for name in plans:
                conns[name] = appkit.Conn(kit, transport, name)
                if plans[name]:
                    next_line(name, 0)
            for f in faults:
                fault(f)
            env.snap = lambda: (sorted(running.items()), [len(c.responses) for c in conns.values()], cut)

        def judge_(loop):
            for name, c in conns.items():
                wants = sent[name]
                if name in cut:
                    if len(c.responses) > len(wants):
                        raise Violation(f"connection {name}: {len(c.responses)} answers to {len(wants)} requests", "number of answers")
                else:
                    if len(wants) != len(plans[name]):
                        raise Violation("harness: not all requests were sent", "harness")
                    if len(c.responses) != len(wants) or c.buf or c.closed:
                        raise Violation(f"connection {name}: {len(c.responses)} answers to {len(wants)} requests; {'closed' if c.closed else 'open'}", "number of answers")
                for want, reply in zip(wants, c.responses):
                    if want is None:
                        if reply != ACK:
                            raise Violation(f"enquiry answered with {reply!r}", "enquiry answer")
                        continue
                    key, status, data = want
                    doc = json.loads(reply)
                    k = None if key is None else {"trace_id": str(key.trace_id), "span_id": str(key.span_id)}
                    if doc["status"] != status or doc["span_key"] != k or data is not None and doc["data"] != data:
                        raise Violation(f"connection {name}: expected key {k}, status {status}, data {data}; got {doc}", "answer out of order or wrong")
        return main, judge_
    return forked(lambda ch: appkit.execute(ch, build, horizon=0))


def udp_schedule(senders, kinds_):
    def build(env, kit):
        from ekosis.requests.endpoint import endpoint
        N = appkit.dto_type(n=int)

        @endpoint("app.slow", N)
        async def slow(dto):
            await env.suspend(f"handler {dto.n} continues")
            if dto.n % 2:
                raise KeyError("boom")
            return dto
        seen = []

        def arrive(i):
            def go():
                data = {"enq": ENQ, "bad": b"nonsense\n"}.get(kinds_[i]) or appkit.line("app.slow", appkit.span(i), {"n": i if kinds_[i] == "slow" else i * 2 + 1})
                if kinds_[i] == "slow" and i % 2:
                    data = appkit.line("app.slow", appkit.span(i), {"n": i * 2})
                seen.append(i)
                loop_t().feed(data, ("10.0.0.%d" % senders[i], 5))
            env.add(f"datagram {i} ({kinds_[i]}) from {senders[i]} arrives", go)

        def loop_t():
            return env.loop.net.datagrams[0]

        async def main(loop):
            await kit.serve(tcp=False, udp=True)
            for i in range(len(kinds_)):
                arrive(i)

        def judge_(loop):
            sent = loop_t().sent
            if len(sent) != len(kinds_):
                raise Violation(f"{len(kinds_)} datagrams got {len(sent)} replies", "number of datagram answers")
            want = []
            for i, k in enumerate(kinds_):
                a = ("10.0.0.%d" % senders[i], 5)
                want.append((a, "ack", None) if k == "enq" else (a, 100, None) if k == "bad" else (a, 0 if k == "slow" else 999, str(appkit.span(i).trace_id)))
            got = []
            for data, a in sent:
                d = data.rstrip(b"\n")
                if d == ACK:
                    got.append((a, "ack", None))
                else:
                    doc = json.loads(d)
                    got.append((a, doc["status"], (doc["span_key"] or {}).get("trace_id")))
            if sorted(map(repr, want)) != sorted(map(repr, got)):
                raise Violation(f"expected replies {want}, got {got}", "datagram answer to the wrong sender")
        return main, judge_
    return forked(lambda ch: appkit.execute(ch, build, horizon=0))


def run(rep, tier):
    appkit.load(warm=True)
    merged = {}
    for part in pmap(work, jobs_for(tier)):
        m = merged.setdefault(part["name"], part)
        if m is not part:
            for k in ("transitions", "traces"):
                m[k] += part[k]
            m["states"] |= part["states"]
            m["violations"] += part["violations"]
            m["exhaustive"] &= part["exhaustive"]
    for p in merged.values():
        rep.add(p)
    S = []
    for first, second, faults in ((("slow", "slow"), (), ("eof",)), (("fail", "enq", "refuse"), (), ()), (("slow", "enq"), ("fast",), ()), (("slow",), ("fail",), ("reset",)),
                                  (("bad", "fast"), ("slow",), ()), (("slow",), ("slow",), ("pipe",))):
        S.append((f"schedules {first} | {second}, connection A may end by {faults}", schedule(first, second, faults)))
    S.append(("schedules with split lines", schedule(("slow",), ("fast",), (), split=True)))
    S.append(("schedules, unix sockets", schedule(("slow", "fail"), (), ("reset",), "uds")))
    if tier != "quick":
        for first in (("slow", "slow"), ("fail", "slow"), ("slow", "enq", "slow"), ("refuse", "bad", "fast")):
            S.append((f"schedules {first} | ('slow', 'fail'), connection A may end", schedule(first, ("slow", "fail"), ("eof", "reset"))))
        S.append(("schedules with split lines, pipelined", schedule(("slow", "bad"), ("fast", "slow"), ("reset",), split=True)))
    S.append(("datagram schedules, two senders", udp_schedule((1, 2), ("slow", "slow"))))
    S.append(("datagram schedules, mixed", udp_schedule((1, 2, 1), ("slow", "fail", "enq"))))
    S.append(("datagram schedules, one sender", udp_schedule((1, 1, 2), ("slow", "bad", "slow"))))
    if tier != "quick":
        S.append(("datagram schedules of four", udp_schedule((1, 2, 1, 3), ("slow", "fail", "slow", "slow"))))
    for p in explore(S, 120 if tier == "quick" else 1500):
        rep.add(p)
    rep.assumptions = ["lines of at most 64 MiB", "handlers that raise BaseException (cancellation, SystemExit) are outside the statement"]
