"""What C11-C13 share: the real clients on the virtual network, with a scripted peer."""
import asyncio, json, time
from mc import appkit, vloop
from mc.core import Violation, forked

STREAM = ("transient tcp", "transient uds", "persistent tcp", "persistent uds")
KINDS = STREAM + ("udp",)
ENQ, ACK = b"\x05\n", b"\x06\n"


def make_client(kind, timeout=5, budget=3, delay=0.1, heartbeat=10 ** 6):
    from ekosis import clients as c
    kw = dict(timeout=timeout, max_retries=budget, retry_delay=delay)
    if kind == "udp":
        return c.UDPClient("127.0.0.1", 9, **kw)
    if kind.startswith("persistent"):
        kw["heartbeat_period"] = heartbeat
    return {"transient tcp": lambda: c.TransientTCPClient("127.0.0.1", 9, **kw), "transient uds": lambda: c.TransientUDSClient("/nowhere/s", **kw),
            "persistent tcp": lambda: c.PersistedTCPClient("127.0.0.1", 9, **kw), "persistent uds": lambda: c.PersistedUDSClient("/nowhere/s", **kw)}[kind]()


def virtual_clock(env, base=0.0):
    """The wall clock follows virtual time (in this forked execution only)."""
    for name in ("time", "monotonic", "perf_counter"):
        setattr(time, name, lambda: base + env.now)


class Link:
    """One connection of the client, seen from the peer."""
    def __init__(self, peer, number):
        self.peer, self.number, self.buf, self.open, self.t = peer, number, b"", True, None

    def wrote(self, data):
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.peer.line(self, line + b"\n")

    def closed(self):
        self.open = False

    def answer(self, data):
        if self.open:
            self.t.feed(data)

    def eof(self):
        if self.open:
            self.t.feed_eof()

    def lost(self, exc):
        if self.open:
            self.t.lost(exc)


class DLink:
    """One socket of a datagram client."""
    def __init__(self, peer, number, transport):
        self.peer, self.number, self.t = peer, number, transport
        transport.on_send = lambda data, addr: peer.line(self, data)

    def answer(self, data):
        self.t.feed(data.rstrip(b"\n"), ("127.0.0.1", 9))


class Peer:
    """on_connect(number) -> None or an exception to raise; on_line(link, line)."""
    def __init__(self, env, loop, on_connect, on_line):
        self.env, self.links, self.line = env, [], on_line
        self.n = 0

        async def connect(addr, factory):
            self.n += 1
            e = on_connect(self.n)
            if asyncio.iscoroutine(e):
                e = await e
            else:
                await asyncio.sleep(0)
            if e is not None:
                raise e
            l = Link(self, self.n)
            self.links.append(l)
            l.t, p = loop.net.attach(factory, l.wrote, l.closed)
            return l.t, p

        def datagram(local, remote, t):
            self.n += 1
            self.links.append(DLink(self, self.n, t))
        loop.net.on_connect = connect
        loop.net.on_datagram = datagram


def reply_line(line, data, status=0):
    doc = json.loads(line)
    return (json.dumps({"span_key": doc["span_key"], "status": status, "data": data}) + "\n").encode()


def concurrent(kind, ncalls, budget, faults=0, heartbeat=None, anytime=False, timeout=5, base=0.0, horizon=100, fault_kinds=("reset", "eof"), judge=None, delay=0.1,
               same_key=False, cancels=0, sequential=False, dup=False, crowd=None):
    """Calls sharing one client; every answer may come at any time, or never; up to `faults` of them are a broken connection instead.

    crowd: the calls are all made at once and these are the delays of the answers in turn (None: never)."""
    def build(env, kit):
        loop = env.loop
        virtual_clock(env, base)
        R = appkit.dto_type("ReplyDto", n=int, serial=int)
        N = appkit.dto_type(n=int)
        R_ = {"left": faults, "cancels": cancels, "dup": 1 if dup else 0}
        log = {"calls": {}, "attempts": {i: [] for i in range(ncalls)}, "answered": {i: [] for i in range(ncalls)}, "faults": [], "serial": 0, "cancelled": set()}
        guard = None if anytime else (lambda: env.idle)

        def on_line(link, line):
            if line[:1] == b"\x05":
                what, name = ACK, "heartbeat"
                i = None
            else:
                i = json.loads(line)["data"]["n"]
                log["serial"] += 1
                s = log["serial"]
                log["attempts"][i].append((env.now, s))
                what, name = reply_line(line, {"n": i, "serial": s}), f"call {i} (request {s})"
            env.log(f"server receives {name} on connection {link.number}")
            fate = "answer"
            if R_["left"] and kind != "udp":
                fate = env.pick(f"fate of {name}", ["answer", *fault_kinds])
            if fate == "answer":
                def go():
                    if i is not None:
                        log["answered"][i].append((env.now, s))
                    link.answer(what)
                    if R_["dup"] and i is not None:
                        R_["dup"] = 0
                        env.add(f"duplicate of the answer to {name} arrives", lambda: link.answer(what), guard)
                if crowd:
                    delay = crowd[log["serial"] % len(crowd)]
                    if delay is not None:
                        loop.call_later(delay, go)
                else:
                    env.add(f"answer to {name} arrives", go, guard)
            else:
                R_["left"] -= 1
                log["faults"].append((env.now, i))

                def go():
                    if fate == "reset":
                        link.lost(ConnectionResetError("reset"))
                    elif fate == "pipe":
                        link.lost(BrokenPipeError("pipe"))
                    elif fate == "cut":
                        link.answer(what[:10])
                        link.eof()
                    elif fate == "eof":
                        link.eof()
                env.add(f"{fate} instead of the answer to {name}", go, guard)

        def start(client, i):
            async def call():
                key = appkit.span(0 if same_key else i)
                try:
                    r = await client.send_message("app.item", N(n=i), R, span_key=key)
                    log["calls"][i] = ("value", r)
                except asyncio.CancelledError:
                    log["calls"][i] = ("cancelled", None)
                    log["cancelled"].add(i)
                except Exception as e:
                    log["calls"][i] = ("error", e)
                env.log(f"call {i} ends: {log['calls'][i][0]} {log['calls'][i][1]!r:.120}")
                if sequential and crowd and i + 1 < ncalls:
                    start(client, i + 1)
                elif sequential and i + 1 < ncalls:
                    env.add(f"call {i + 1} starts", lambda: start(client, i + 1), guard)
            env.log(f"call {i} is made")
            t = env.loop.create_task(call())
            log.setdefault("tasks", {})[i] = t
            if R_["cancels"]:
                R_["cancels"] -= 1
                env.add(f"call {i} is cancelled", lambda: t.cancel(), lambda: (guard is None or env.idle) and not t.done())

        async def main(loop):
            Peer(env, loop, lambda n: None, on_line)
            client = make_client(kind, timeout=timeout, budget=budget, delay=delay, heartbeat=10 ** 6 if heartbeat is None else heartbeat)
            for i in range(1 if sequential else ncalls):
                if crowd:
                    start(client, i)
                    continue
                env.add(f"call {i} starts", lambda i=i: start(client, i), guard)

            def stop():
                if len(log["calls"]) == ncalls:
                    env.frozen = True
            env.monitors.append(stop)
            env.snap = lambda: (log["calls"].keys(), log["attempts"], log["answered"], log["faults"])

        def done(loop):
            judge(env, log, R)
        return main, done
    return forked(lambda ch: appkit.execute(ch, build, horizon=horizon))
