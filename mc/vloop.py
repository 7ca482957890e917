"""Controlled asyncio event loop: virtual time, virtual network, and a decision at every loop boundary.

The real asyncio machinery (BaseEventLoop, Task, Future, streams) runs; only the selector is replaced. Each time the
loop would poll, the explorer decides which of the currently possible environment events happen first, if any, or that
time passes. All nondeterminism of an execution goes through Env.choose.
"""
import asyncio, collections
from asyncio import base_events, events, transports
from .core import Violation, digest


class Quiescent(BaseException):
    pass


class Env:
    def __init__(self, chooser, horizon=1e9, max_boundaries=4000, max_idle_fires=None):
        self.ch = chooser
        self.now = 0.0
        self.horizon = horizon
        self.max_boundaries = max_boundaries
        self.events = collections.OrderedDict()     # id -> [label, fn, guard]
        self._n = 0
        self.trace = []
        self.boundaries = 0
        self.loop_errors = []
        self.monitors = []          # called at every boundary
        self.states = set()
        self.frozen = False         # no more events, no more time: let the loop run dry
        self.idle = False
        self.stuck = False          # ended because nothing could happen any more
        self.lazy_time = False      # True: time passes only when no event can happen
        self.snap = None            # summary of the harness state, for counting distinct states
        self.failures = []          # violations noticed inside code whose exceptions the code under test may swallow

    # ------------------------------------------------------------ choices
    def choose(self, n, label=None):
        v = self.ch.choose(n) if n > 1 else 0
        return v

    def pick(self, label, options):
        options = list(options)
        v = options[self.choose(len(options))]
        self.trace.append(f"{label} = {v}")
        return v

    def log(self, text):
        self.trace.append(f"[{self.now:g}] {text}" if self.now else text)

    def fail(self, what, sig=None):
        self.failures.append(Violation(what, sig, self.trace[-80:]))

    # ------------------------------------------------------------ environment events
    def add(self, label, fn, guard=None):
        self._n += 1
        self.events[self._n] = [label, fn, guard]
        return self._n

    def remove(self, ident):
        self.events.pop(ident, None)

    def enabled(self):
        return [(i, e) for i, e in self.events.items() if e[2] is None or e[2]()]

    async def suspend(self, label):
        """Suspend the caller until the environment decides to resume it."""
        fut = asyncio.get_running_loop().create_future()
        ident = self.add(label, lambda: fut.done() or fut.set_result(None))
        try:
            await fut
        finally:
            self.remove(ident)

    def fire(self, ident):
        label, fn, _ = self.events.pop(ident)
        self.log(f"event: {label}")
        fn()

    # ------------------------------------------------------------ the boundary
    def boundary(self, loop, timeout):
        self.boundaries += 1
        if self.boundaries > self.max_boundaries:
            raise Violation("the event loop never becomes idle", "livelock", self.trace[-60:])
        for m in self.monitors:
            m()
        if self.snap:
            self.states.add(digest((self.snap(), [e[0] for e in self.events.values()], len(loop._ready), self.now)))
        if self.failures:
            raise self.failures[0]
        if self.frozen:
            if timeout is None or timeout > 0:
                raise Quiescent()
            return
        busy = timeout is not None and timeout <= 0
        fired = False
        while True:
            self.idle = not busy and not fired
            evs = self.enabled()
            if busy or fired:
                k = self.choose(1 + len(evs))
                if k == 0:
                    return
                self.fire(evs[k - 1][0])
                continue
            # idle: nothing is ready
            can_wait = timeout is not None and self.now + timeout <= self.horizon
            if not evs and not can_wait:
                self.stuck = self.frozen = True
                raise Quiescent()
            if can_wait and evs and self.lazy_time:
                can_wait = False
            k = self.choose(len(evs) + (1 if can_wait else 0))
            self.idle = False
            if k < len(evs):
                self.fire(evs[k][0])
                fired = True
                continue
            self.now += timeout
            return


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        self.loop.env.boundary(self.loop, timeout)
        return []

    def close(self):
        pass


class VLoop(base_events.BaseEventLoop):
    def __init__(self, env):
        super().__init__()
        self.env = env
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.net = None
        self.signals = {}
        self.set_exception_handler(lambda loop, ctx: env.loop_errors.append(ctx))

    def time(self):
        return self.env.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def add_signal_handler(self, sig, callback, *args):
        self.signals[sig] = (callback, args)

    def remove_signal_handler(self, sig):
        return self.signals.pop(sig, None) is not None

    # ------------------------------------------------------------ virtual network
    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        return self.net.listen(("tcp", host, port), protocol_factory, kw)

    async def create_unix_server(self, protocol_factory, path=None, **kw):
        return self.net.listen(("uds", path), protocol_factory, kw)

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        return await self.net.connect(("tcp", host, port), protocol_factory)

    async def create_unix_connection(self, protocol_factory, path=None, **kw):
        return await self.net.connect(("uds", path), protocol_factory)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        return await self.net.datagram(protocol_factory, local_addr, remote_addr)


class Sock:
    def __init__(self, addr):
        self.addr = addr

    def getsockname(self):
        return self.addr

    def close(self):
        pass


class VServer:
    """What asyncio.start_server gives back."""
    def __init__(self, loop, addr, factory):
        self.loop, self.addr, self.factory = loop, addr, factory
        self.sockets = (Sock(addr[1:]),)
        self.open = True
        self._serving = None

    def close(self):
        self.open = False
        if self._serving is not None and not self._serving.done():
            self._serving.cancel()

    def is_serving(self):
        return self.open

    async def start_serving(self):
        pass

    async def serve_forever(self):
        if not self.open:
            raise RuntimeError("server is closed")
        self._serving = self.loop.create_future()
        try:
            await self._serving
        except asyncio.CancelledError:
            self.close()
            raise
        finally:
            self._serving = None

    async def wait_closed(self):
        await asyncio.sleep(0)

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        self.close()
        await self.wait_closed()

    def get_loop(self):
        return self.loop


class VTransport(transports.Transport):
    """One end of a stream. on_write(data) and on_close() tell the environment what the code did."""
    def __init__(self, loop, on_write=None, on_close=None, info=None):
        super().__init__()
        self._loop = loop
        self.on_write, self.on_close = on_write, on_close
        self.closing = False
        self.protocol = None
        self.info = info or {}
        self.paused = False
        self.hold = None

    def get_extra_info(self, name, default=None):
        return self.info.get(name, default)

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def is_closing(self):
        return self.closing

    def pause_reading(self):
        self.paused = True
        self.hold = self.hold or []

    def resume_reading(self):
        self.paused = False
        held, self.hold = self.hold, None
        for f in held or []:
            f()

    def is_reading(self):
        return not self.paused

    def write(self, data):
        if self.closing:
            return
        data = bytes(data)
        if self.on_write:
            self.on_write(data)

    def write_eof(self):
        pass

    def can_write_eof(self):
        return True

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def abort(self):
        self.close()

    def close(self):
        if self.closing:
            return
        self.closing = True
        if self.on_close:
            self.on_close()
        self._loop.call_soon(self.protocol.connection_lost, None)

    # environment side
    def feed(self, data):
        if self.closing:
            return
        if self.paused:
            self.hold.append(lambda: self.feed(data))
            return
        try:
            self.protocol.data_received(data)
        except Exception as e:          # as in asyncio: fatal for this transport
            self._loop.call_exception_handler({"message": "data_received failed", "exception": e})
            self.lost(e)

    def feed_eof(self):
        if self.closing:
            return
        keep = self.protocol.eof_received()
        if not keep:
            self.close()

    def lost(self, exc):
        if self.closing:
            return
        self.closing = True
        if self.on_close:
            self.on_close()
        self._loop.call_soon(self.protocol.connection_lost, exc)


class DTransport(transports.DatagramTransport):
    def __init__(self, loop, on_send=None):
        super().__init__()
        self._loop, self.on_send, self.closing, self.protocol = loop, on_send, False, None
        self.sent = []

    def get_extra_info(self, name, default=None):
        return default

    def is_closing(self):
        return self.closing

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol

    def sendto(self, data, addr=None):
        if self.closing:
            return
        self.sent.append((bytes(data), addr))
        if self.on_send:
            self.on_send(bytes(data), addr)

    def abort(self):
        self.close()

    def close(self):
        if not self.closing:
            self.closing = True
            self._loop.call_soon(self.protocol.connection_lost, None)

    def feed(self, data, addr):
        if not self.closing:
            try:
                self.protocol.datagram_received(data, addr)
            except Exception as e:      # as in asyncio: reported, the transport lives on
                self._loop.call_exception_handler({"message": "datagram_received failed", "exception": e})


class VNet:
    """Listeners opened by the code under test, and how its connection attempts are answered."""
    def __init__(self, loop):
        self.loop = loop
        loop.net = self
        self.servers = {}
        self.datagrams = []
        self.on_connect = None      # async f(addr, protocol_factory) -> (transport, protocol)
        self.on_datagram = None     # async f(local, remote, transport)

    def listen(self, addr, factory, kw):
        s = VServer(self.loop, addr, factory)
        self.servers[addr[0]] = s
        return s

    def dial(self, kind, on_write=None, on_close=None):
        """The environment connects to a server of the code under test."""
        t = VTransport(self.loop, on_write, on_close, {"peername": ("env", 1)})
        p = self.servers[kind].factory()
        t.protocol = p
        p.connection_made(t)
        return t

    async def connect(self, addr, factory):
        return await self.on_connect(addr, factory)

    def attach(self, factory, on_write=None, on_close=None):
        """Complete a connection attempt of the code under test."""
        t = VTransport(self.loop, on_write, on_close, {"peername": ("env", 2)})
        p = factory()
        t.protocol = p
        p.connection_made(t)
        return t, p

    async def datagram(self, factory, local, remote):
        t = DTransport(self.loop)
        p = factory()
        t.protocol = p
        p.connection_made(t)
        self.datagrams.append(t)
        if self.on_datagram:
            r = self.on_datagram(local, remote, t)
            if asyncio.iscoroutine(r):
                await r
        await asyncio.sleep(0)
        return t, p


def run(env, main, net=True):
    """Run `await main(loop)` and then whatever it left behind until nothing can happen any more."""
    loop = VLoop(env)
    if net:
        VNet(loop)
    env.loop = loop
    asyncio.set_event_loop(loop)
    try:
        task = loop.create_task(main(loop))
        try:
            loop.run_forever()
        except Quiescent:
            pass
        if env.failures:
            raise env.failures[0]
        if task.done() and not task.cancelled() and task.exception():
            raise task.exception()
        return task
    finally:
        dispose(loop, env)


def dispose(loop, env):
    """Throw the execution away without letting it act on the world any more."""
    env.frozen = True
    env.monitors = []
    loop._ready.clear()
    loop._scheduled.clear()
    loop._stopping = False
    loop._thread_id = None
    events._set_running_loop(None)
    loop.set_exception_handler(lambda *_: None)
    for t in list(asyncio.all_tasks(loop)):
        t._log_destroy_pending = False
        try:
            t.get_coro().close()
        except BaseException:
            pass
    loop._ready.clear()
    try:
        loop.close()
    except Exception:
        pass
    asyncio.set_event_loop(None)
