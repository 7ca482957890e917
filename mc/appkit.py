"""Pieces of an ekosis application on the virtual loop: servers, request lines, buffered endpoints."""
import asyncio, io, json, os, sys, uuid
from . import boot, vloop
from .core import Violation, Chooser

def load(env=None, argv_extra=("-lfo",), extra_modules=(), warm=False, clock=False):
    boot.prepare(env=env, argv_extra=argv_extra)
    boot.quiet_logging()
    if clock:
        boot.install_clock()
    import importlib
    for m in ("ekosis.application_base", "ekosis.clients", "ekosis.requests", "ekosis.requests.buffered_endpoint", "ekosis.requests.endpoint",
              "ekosis.sending", "ekosis.queues", "ekosis.middleware", *extra_modules):
        importlib.import_module(m)
    boot.track_sqlite()
    if warm:
        warm_up()
    import gc
    gc.collect()
    gc.freeze()


def warm_up():
    """Exercise a queue once, so that every forked execution inherits SQLAlchemy's caches (speed only)."""
    from ekosis.queues.pending_queue import PendingQueue
    d = boot.fresh_dir("warm")
    try:
        T = dto_type(n=int)

        async def go():
            for _ in range(2):
                q = PendingQueue(d, "warm", 1)
                for i in range(5):
                    await q.push_pending(span(i), T(n=i), 0)
                    await q.push_error(span(i + 9), T(n=i), "x")
                while await q.has_pending():
                    await q.pop()
                await q.clear_error_queue()
                q.shut_down()
        asyncio.run(go())
    except Exception:
        pass
    finally:
        boot.close_sqlite()
        boot.drop_dir(d)


def span(n, m=None):
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    m = n if m is None else m
    # neighbours belong to the same trace, and the same span id occurs in different traces
    return SpanKey(trace_id=uuid.UUID(int=(0x1111 * (n // 2 + 1)) << 96 | n // 2), span_id=SpanId(int_=(m + 1) << 33 | (n % 2) << 32 | 0xab))


def line(route, key, data):
    """A request line as the protocol documents it."""
    return (json.dumps({"route_key": route, "span_key": {"trace_id": str(key.trace_id), "span_id": str(key.span_id)}, "data": data}) + "\n").encode()


def dto_type(name="ItemDto", **fields):
    from pydantic import create_model
    return create_model(name, **{k: (v, ...) for k, v in fields.items()})


def opt_type(name="ItemDto", **fields):
    """A type with a field that is not the same when left out as when it is None."""
    from pydantic import create_model
    from typing import Optional
    return create_model(name, **{k: (v, ...) for k, v in fields.items()}, opt=(Optional[int], 5))


def rich_type(name="ItemDto", **fields):
    """A type of which not every value is what it would be if left out: opt, and stamp, made up when nobody sets it."""
    from pydantic import create_model, Field
    from typing import Optional
    import itertools
    made = itertools.count()
    return create_model(name, **{k: (v, ...) for k, v in fields.items()}, opt=(Optional[int], 5), stamp=(str, Field(default_factory=lambda: f"stamp {next(made)}")))


def same(dto, want, memory):
    """A rich DTO carries what was sent, and the stamp it first had."""
    d = dto.model_dump()
    return memory.setdefault("stamp", d.pop("stamp", None)) == dto.stamp and d == want


class Conn:
    """The environment's end of a connection to a server of the code under test."""
    def __init__(self, kit, kind="tcp", name="c"):
        self.kit, self.name = kit, name
        self.buf = b""
        self.responses = []
        self.on_response = None
        self.closed = False
        self.t = kit.loop.net.dial(kind, self._data, self._close)

    def _data(self, data):
        self.buf += data
        while b"\n" in self.buf:
            raw, self.buf = self.buf.split(b"\n", 1)
            self.responses.append(raw)
            if self.on_response:
                self.on_response(raw)

    def _close(self):
        self.closed = True

    def send(self, data):
        self.t.feed(data)


class Bench:
    """A loop that is driven by hand: nothing happens unless told; time passes only through advance()."""
    def __init__(self):
        self.env = vloop.Env(Chooser(), max_boundaries=10 ** 12)
        self.env.frozen = True
        self.kit = Kit(self.env)
        self.loop = vloop.VLoop(self.env)
        self.kit.loop = self.env.loop = self.loop
        vloop.VNet(self.loop)
        asyncio.set_event_loop(self.loop)

    def drain(self):
        try:
            self.loop.run_forever()
        except vloop.Quiescent:
            pass

    def do(self, coro):
        t = self.loop.create_task(coro)
        self.drain()
        if not t.done():
            raise Violation("a call never ends", "call never ends")
        return t.result()

    def advance(self, dt):
        self.env.now += dt
        self.drain()

    def request(self, conn, route, data, key=None):
        """Send one request, return the response document."""
        n = len(conn.responses)
        conn.send(line(route, key or span(1), data))
        self.drain()
        if len(conn.responses) != n + 1:
            raise Violation(f"{route} got {len(conn.responses) - n} answers", "number of answers")
        return json.loads(conn.responses.pop())

    def close(self):
        vloop.dispose(self.loop, self.env)
        self.kit.cleanup()


class Kit:
    def __init__(self, env, directory=None):
        self.env = env
        self.own = directory is None
        self.dir = directory or boot.fresh_dir("app")
        self.loop = None

    def cleanup(self):
        boot.close_sqlite()
        if self.own:
            boot.drop_dir(self.dir)

    async def serve(self, tcp=True, uds=False, udp=False):
        """Start the real servers on the virtual network; returns when they listen."""
        self.loop = asyncio.get_running_loop()
        from ekosis.servers import TCPServer, UDPServer, UDSServer
        from ekosis.configuration.config_models import ConfigTCP, ConfigUDP, ConfigUDS
        self.servers, self.tasks = [], []
        if tcp:
            self.servers.append(TCPServer(ConfigTCP(host="127.0.0.1", port=8888)))
        if uds:
            self.servers.append(UDSServer(ConfigUDS(directory=self.dir, socket_file_name="s.sock")))
        if udp:
            self.servers.append(UDPServer(ConfigUDP(host="127.0.0.1", port=8889)))
        for s in self.servers:
            async def go(s=s):
                async with s:
                    await s.serve()
            self.tasks.append(self.loop.create_task(go()))
        want = int(tcp) + int(uds)
        for _ in range(50):
            if len(self.loop.net.servers) >= want and (not udp or self.loop.net.datagrams):
                break
            await asyncio.sleep(0)
        await asyncio.sleep(0)

    def handlers(self):
        from ekosis.requests.request_router import RequestRouter
        return {h.get_route_key(): h for h in RequestRouter().get_buffered_handlers()}

    async def close_receiving(self, route):
        r = self.handlers()[route].pause_receiving()
        if asyncio.iscoroutine(r):
            await r

    async def setup_handlers(self):
        for h in self.handlers().values():
            await h.setup(self.dir, "verif_app", "0")

    def quietly(self, coro):
        """Run a coroutine of the code under test that must not need the loop to make progress (pure queries)."""
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        coro.close()
        raise RuntimeError("query suspended")


def query(loop, coro):
    """Run a query on the (stopped) virtual loop without letting the environment act."""
    env = loop.env
    frozen, env.frozen = env.frozen, True
    try:
        return loop.run_until_complete(coro)
    except vloop.Quiescent:
        raise Violation("query does not complete", "query hangs")
    finally:
        env.frozen = frozen


def execute(ch, build, directory=None, **env_args):
    """One execution: build(env, kit) -> (main coroutine function, judge function(loop)). Returns the explorer's result."""
    env = vloop.Env(ch, **env_args)
    kit = Kit(env, directory)
    loop = vloop.VLoop(env)
    env.loop = kit.loop = loop
    vloop.VNet(loop)
    asyncio.set_event_loop(loop)
    try:
        main, judge = build(env, kit)
        task = loop.create_task(main(loop))
        try:
            loop.run_forever()
        except vloop.Quiescent:
            pass
        if env.failures:
            raise env.failures[0]
        if task.done() and not task.cancelled() and task.exception():
            raise task.exception()
        result = None
        if judge:
            result = judge(loop)
            if env.failures:
                raise env.failures[0]
        return {"trace": env.trace, "transitions": env.boundaries, "states": env.states, "result": result}
    except Violation as e:
        if not e.detail:
            e.detail = env.trace[-80:]
        raise
    finally:
        vloop.dispose(loop, env)
        kit.cleanup()


def lives(life, first, n, judge):
    """Consecutive process lives of one application on one directory, each in its own forked child.

    life(chooser, directory, carry, number) -> result of execute() whose "result" is (carry, go on?).
    """
    from .core import forked

    def run(ch):
        d = boot.fresh_dir("life")
        carry, out, rest = first, {"trace": [], "transitions": 0, "states": set()}, list(ch.prefix)
        try:
            for k in range(n):
                sub = Chooser(rest)
                try:
                    r = forked(lambda c: life(c, d, carry, k))(sub)
                except Violation as e:
                    e.detail = out["trace"][-60:] + list(e.detail or [])
                    raise
                finally:
                    ch.log += sub.log
                    rest = rest[len(sub.log):]
                out["trace"] += ([f"--- process life {k}"] if k else []) + r["trace"]
                out["transitions"] += r["transitions"]
                out["states"] |= r["states"]
                carry, more = r["result"]
                if not more:
                    break
            judge(carry, out["trace"])
            return out
        finally:
            boot.drop_dir(d)
    return run


class Logs:
    """The application's real file logging, redirected into a scratch directory of this execution."""
    def __init__(self, directory, buffer_size=0, max_bytes=10 ** 9, max_files=10, level="debug", console=False):
        import logging
        from ekosis.configuration.config_models import AppConfiguration
        from ekosis.logs import EcoLogger
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        cfg = AppConfiguration().logging
        cfg.level = level
        cfg.file_only, cfg.console_only = not console, False
        f = cfg.file_logging
        f.directory, f.buffer_size, f.max_size_in_bytes, f.max_files = directory, buffer_size, max_bytes, max_files
        self.directory = directory
        self.eco = EcoLogger()
        out = sys.stdout
        if console:
            sys.stdout = io.StringIO()
        try:
            self.eco.setup()
        finally:
            sys.stdout = out
        self.log = root

    def files(self):
        """Log files, oldest first."""
        names = [n for n in os.listdir(self.directory) if ".log" in n]
        return [os.path.join(self.directory, n) for n in sorted(names, key=lambda n: -int(n.rsplit(".", 1)[1]) if n.rsplit(".", 1)[1].isdigit() else 1)]

    def text(self):
        out = b""
        for n in self.files():
            with open(n, "rb") as f:
                out += f.read()
        return out

    def lines(self):
        """All lines of all log files, oldest first, decoded."""
        raw = self.text()
        if raw and not raw.endswith(b"\n"):
            raise Violation("the log ends with an incomplete line", "incomplete log line")
        out = []
        for l in raw.split(b"\n")[:-1]:
            try:
                out.append(json.loads(l.decode("utf-8")))
            except ValueError:
                raise Violation(f"log line is not valid JSON: {l[:200]!r}", "log line not JSON")
        return out
