"""C05: termination at every moment, then a restart on the same buffers."""
TECHNIQUE = 'stateless exploration of termination at every event-loop boundary plus restart'
NOTE = 'Real application object, servers and buffers; the signal arrives at every boundary (and inside handlers) of every schedule within bounds; a second process life on the same files is then judged.'
import asyncio, json, os, pickle, signal, sys, traceback
from mc import appkit, boot, vloop
from mc.core import Violation, explore, Chooser

SIGNALS = {"SIGTERM": signal.SIGTERM, "SIGINT": signal.SIGINT, "SIGHUP": signal.SIGHUP}


class Policy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, env):
        super().__init__()
        self.env = env

    def new_event_loop(self):
        loop = vloop.VLoop(self.env)
        vloop.VNet(loop)
        self.env.loop = loop
        return loop


class FakeClient:
    """Stands for the remote side of a buffered sender."""
    def __init__(self, fn):
        self.fn = fn

    async def send_message(self, route_key, data, response_dto_type=None, span_key=None):
        return await self.fn(data, span_key)


def child(fn, *args):
    """fn in a forked child (one process life of the application); returns its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)       # tracebacks the application prints at shutdown
        try:
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", (e.what, e.sig, e.detail))
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if not data:
        raise RuntimeError("application process died without a result")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(*val)
    if kind == "error":
        raise RuntimeError(val)
    return val


def deliver(env, sig):
    """What the operating system and asyncio do when the signal arrives at this very point."""
    loop = env.loop
    env.log(f"signal {sig.name}")
    env.signalled = True
    env.lazy_time, env.horizon = True, env.now + 30
    if loop is not None and not loop.is_closed() and sig in loop.signals:
        cb, args = loop.signals[sig]
        loop.call_soon(cb, *args)
        return
    h = signal.getsignal(sig)
    if callable(h):
        h(int(sig), None)
    elif h == signal.SIG_DFL:
        env.fail(f"{sig.name} arrives unhandled and ends the process", "unhandled signal")


SUFFIXES = ("",) + tuple(f".{k}" for k in range(2, 60))    # Of the routes of an application with many endpoints and senders.
ENDING = 24  # Calls into the application's parts, while its context ends, at which another signal may come.


def live(env, App, first=None, ending=None):
    """The life of an application, as its script would have it. True if start() returned. What ending() gives is called wherever the ending context enters a part of the application other than its core."""
    over = False

    def profile(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(boot.REPO) and frame.f_code.co_filename != App.__exit__.__code__.co_filename:
            called()
    try:
        with App() as app:
            try:
                if first:
                    first()
                app.start()
                over = True
            finally:
                if ending:
                    called = ending()
                    sys.setprofile(profile)
    except Violation:
        raise
    except Exception as e:
        sys.setprofile(None)
        raise Violation(f"the application's context ends with {e!r}", "does not end cleanly", env.trace[-80:])
    finally:
        sys.setprofile(None)
    return over


def make_app(env, cfg, st, first_life):
    """Define the application of this scenario exactly as a user would; st collects what happens."""
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.requests.endpoint import endpoint
    from ekosis.sending.buffered_sender import buffered_sender
    Dto = appkit.opt_type(n=int, text=str)
    st.update(handled=[], ok=set(), failed={}, sent=[], delivered=set(), routes={}, inner=0)

    def maybe_signal(where):
        if first_life and cfg.get("inner") and not env.signalled and env.pick(f"signal {where}", ("no", "yes")) == "yes":
            st["inner"] += 1
            env.remove(st["sig_event"])
            deliver(env, SIGNALS[cfg["signal"]])

    def one_endpoint(suffix):
        @buffered_endpoint("app.item" + suffix, request_dto_type=Dto, page_size=cfg["page"], max_retries=cfg.get("max_retries", 0))
        async def item(span_key, dto):
            if first_life and "before_request" in cfg:
                cfg["before_request"](env, st)
            st["handled"].append((str(span_key), dto.model_dump()))
            st["routes"].setdefault("app.item" + suffix, []).append(st["handled"][-1])
            if not first_life:
                st["ok"].add(dto.n)
                return True
            maybe_signal(f"in handler {dto.n}")
            mode = env.pick(f"handler {dto.n}", cfg["modes"])
            if mode == "suspend":
                await env.suspend(f"handler {dto.n} continues")
            elif mode == "tick":
                await asyncio.sleep(0)
            out = env.pick(f"outcome {dto.n}", cfg.get("outcomes", (True,)))
            maybe_signal(f"at the end of handler {dto.n}")
            if out == "raise":
                raise RuntimeError("boom")
            if out:
                st["ok"].add(dto.n)
            return out

    async def send(data, span_key, route="peer.item"):
        st["sent"].append((str(span_key), data.model_dump()))
        st["routes"].setdefault(route, []).append(st["sent"][-1])
        if not first_life:
            st["delivered"].add(data.n)
            return None
        mode = env.pick(f"send {data.n}", cfg["modes"])
        if mode == "suspend":
            await env.suspend(f"send {data.n} is answered")
        elif mode == "tick":
            await asyncio.sleep(0)
        out = env.pick(f"send result {data.n}", cfg.get("send_outcomes", (True,)))
        if out == "busy":
            from ekosis.exceptions import ServerBusyException
            raise ServerBusyException("busy")
        if out == "raise":
            raise RuntimeError("boom")
        st["delivered"].add(data.n)

    def one_sender(suffix):
        @buffered_sender(FakeClient(lambda data, key: send(data, key, "peer.item" + suffix)), "peer.item" + suffix, Dto, wait_period=cfg.get("wait", 0), page_size=cfg["page"], max_retries=cfg.get("max_retries", 0))
        async def relay(n, span_key=None):
            return Dto(n=n, text=f"tx {n}", opt=None)

        @endpoint("app.relay" + suffix, request_dto_type=Dto)
        async def relay_endpoint(span_key, dto):
            await relay(dto.n, span_key=span_key)
            from ekosis.data_transfer_objects import EmptyDto
            return EmptyDto()

    for suffix in SUFFIXES[:cfg.get("endpoints", 1)]:
        one_endpoint(suffix)
    for suffix in SUFFIXES[:cfg.get("sender", 0)]:
        one_sender(suffix)

    class App(ApplicationBase):
        pass
    return App


def first_life(prefix, cfg, directory):
    os.chdir(directory)
    ch = Chooser(prefix)
    env = vloop.Env(ch, horizon=cfg.get("horizon", 30.0))
    env.lazy_time = "horizon" not in cfg
    env.loop = None
    env.signalled = False
    st = {}
    acked = []
    env.snap = lambda: (acked, st.get("handled"), sorted(st.get("ok", ())), st.get("sent"), sorted(st.get("delivered", ())), env.signalled)
    n = cfg["n"]
    keys = [appkit.span(i) for i in range(n)]
    kinds = cfg.get("kinds") or (["app.item"] * n)

    def arrive(i):
        def on_response(raw):
            env.log(f"response {raw[:160]!r}")
            r = json.loads(raw)
            if r["status"] == 0:
                acked.append(i)
        c = appkit.Conn(kit, "tcp")
        c.on_response = on_response

        def feed():
            st["fed"] += 1
            c.send(appkit.line(kinds[i], keys[i], {"n": i, "text": f"tx {i}", "opt": None}))
        feed()
        if i + 1 < n and cfg.get("burst"):
            arrive(i + 1)
        elif i + 1 < n:
            env.add(f"request {i + 1} arrives", lambda: arrive(i + 1))

    class K:
        loop = property(lambda self: env.loop)
    kit = K()
    asyncio.set_event_loop_policy(Policy(env))
    try:
        App = make_app(env, cfg, st, True)

        class Main(App):
            async def setup_tasks(self, tasks):
                if "tasks" in cfg:
                    await cfg["tasks"](env, st, tasks)
        env.add("request 0 arrives", lambda: arrive(0), guard=lambda: "tcp" in env.loop.net.servers)
        st["fed"] = st["idle"] = 0

        def up():
            st["idle"] = env.boundaries if env.idle else -1
            return env.loop is not None and "tcp" in env.loop.net.servers

        def terminate():
            if st["idle"] == env.boundaries and st["fed"] != len(acked):
                env.fail(f"{st['fed']} requests have arrived, {len(acked)} were accepted, and nothing more happens", "not answered")
            deliver(env, SIGNALS[cfg["signal"]])
        st["sig_event"] = env.add("termination", terminate, guard=up)
        def ending():
            # Decided before the context ends: how many calls into the application's parts are made until the signal comes.
            calls = iter(range(ENDING))
            at = env.pick("another signal while the context ends", ("no",) + tuple(range(ENDING)))

            def called():
                if next(calls, None) == at:
                    deliver(env, SIGNALS[cfg["again"]])
            return called
        live(env, Main, ending=ending if "again" in cfg else None)
        if ch.broken: # The application may have dealt with the exception as with any other.
            raise RuntimeError(ch.broken)
        if env.failures:
            raise env.failures[0]
        if env.stuck:
            raise Violation(f"the application does not stop after {'a background task failed' if st.get('task failed') and not env.signalled else 'the termination signal'}", "does not stop", env.trace[-80:])
        if "after" in cfg:
            cfg["after"](env, st, acked)
        if not env.signalled and not st.get("task failed"):
            raise Violation("the application ended before it was asked to", "ended early", env.trace[-80:])
    except Violation as e:
        e.detail = e.detail or env.trace[-80:]
        raise
    return {"log": ch.log, "trace": env.trace, "boundaries": env.boundaries, "acked": acked,
            "ok": sorted(st["ok"]), "delivered": sorted(st["delivered"]), "states": env.states}


def early_life(cfg, directory, when):
    """A life that is terminated while it starts: before start() (when < 0), or from that event-loop boundary on."""
    os.chdir(directory)
    env = vloop.Env(Chooser(), horizon=20.0)
    env.loop = None
    env.signalled = False
    env.lazy_time = True
    st = {}
    asyncio.set_event_loop_policy(Policy(env))
    sig = SIGNALS[cfg["signal"]]
    App = make_app(env, cfg, st, False)

    def monitor():
        if env.boundaries > when and not env.signalled and env.loop._ready:
            deliver(env, sig)
    env.monitors.append(monitor)
    env.add("termination", lambda: deliver(env, sig), guard=lambda: env.boundaries > when and not env.signalled)
    over = live(env, App, (lambda: deliver(env, sig)) if when < 0 else None)
    if env.failures:
        raise env.failures[0]
    if env.stuck or not env.signalled or when < 0 and over:
        raise Violation(f"{sig.name} arrives {'before start()' if when < 0 else f'at boundary {when} of the start'}, and the application {'does not end' if env.signalled else 'ended before'}", "termination during start", env.trace[-80:])
    return {"ok": sorted(st["ok"]), "delivered": sorted(st["delivered"])}


def second_life(cfg, directory):
    os.chdir(directory)
    env = vloop.Env(Chooser(), horizon=20.0)
    env.loop = None
    env.signalled = True
    st = {}
    asyncio.set_event_loop_policy(Policy(env))
    App = make_app(env, cfg, st, False)
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.requests.request_router import RequestRouter
    from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper
    errors, done = {}, []

    async def collect():
        for b in list(RequestRouter().get_buffered_handlers()) + list(BufferedSenderKeeper().get_buffered_senders()):
            out = errors.setdefault(b.get_route_key(), [])
            for k in await b.get_first_x_error_span_keys(100):
                d = await b.inspect_request_in_error_queue(SpanKey.from_hex(k))
                out.append((k, d.model_dump() if d is not None else None))
        done.append(True)
    env.lazy_time = True
    env.add("collect", lambda: env.loop.create_task(collect()), guard=lambda: env.now >= 5)
    env.add("termination", lambda: deliver(env, SIGNALS["SIGTERM"]), guard=lambda: bool(done))
    live(env, App)
    if not done:
        raise Violation("the restarted application ends by itself", "restart ended early", env.trace[-80:])
    return {"routes": st["routes"], "err": errors}


def scenario(**cfg):
    def run(ch):
        d = boot.fresh_dir("life")
        try:
            r = child(first_life, ch.prefix, cfg, d)
            ch.log = r["log"]
            if "early" in cfg:
                e = child(early_life, cfg, d, cfg["early"])
                r["trace"] += [f"--- second start, terminated at boundary {cfg['early']}; completes {e['ok']}, delivers {e['delivered']}"]
                for f in ("ok", "delivered"):
                    if set(r[f]) & set(e[f]):
                        raise Violation(f"completed messages {sorted(set(r[f]) & set(e[f]))} came back", "completed message came back", r["trace"][-80:])
                    r[f] = r[f] + e[f]
            s = child(second_life, cfg, d)
        except Violation as e:
            raise
        finally:
            boot.drop_dir(d)
        t = r["trace"][-80:]
        kinds = cfg.get("kinds") or (["app.item"] * cfg["n"])
        keys = [str(appkit.span(i)) for i in range(cfg["n"])]
        for i in range(cfg["n"]):
            route = kinds[i].replace("app.relay", "peer.item")
            done = i in (r["ok"] if kinds[i].startswith("app.item") else r["delivered"])
            again = [d for k, d in s["routes"].get(route, []) if k == keys[i]] + [d for k, d in s["err"].get(route, []) if k == keys[i]]
            if i in r["acked"] and not done and not again:
                raise Violation(f"message {i} ({route}) was accepted, not completed, and is gone after the restart", "lost at termination", t)
            if len(again) > 1:
                raise Violation(f"message {i} ({route}) is there {len(again)} times after the restart", "duplicated at termination", t)
            if done and again:
                raise Violation(f"message {i} ({route}) was completed and is there again after the restart", "completed message came back", t)
            for d_ in again:
                if d_ != {"n": i, "text": f"tx {i}", "opt": None}:
                    raise Violation(f"message {i} ({route}) came back as {d_}", "content changed", t)
        unknown = [(rt, k) for rt, ms in list(s["routes"].items()) + list(s["err"].items()) for k, _ in ms if (rt, k) not in [(kinds[i].replace("app.relay", "peer.item"), keys[i]) for i in range(cfg["n"])]]
        if unknown:
            raise Violation(f"unknown messages {unknown} after the restart", "unknown message", t)
        return {"trace": r["trace"], "transitions": r["boundaries"], "states": r["states"]}
    return run


def run(report, tier):
    appkit.load(env={"ECOENV_LOCK_DIR": ".", "ECOENV_BUFFER_DIR": ".", "ECOENV_TCP_VERIF_APP_0": "127.0.0.1:8888"}, warm=True)
    A = (True, False, "raise")
    S = ("suspend",)
    if tier == "quick":
        sc = [("SIGTERM, 1 request", scenario(signal="SIGTERM", n=1, page=1, modes=("now", "suspend"), outcomes=A, inner=True)),
              ("SIGINT, 1 request", scenario(signal="SIGINT", n=1, page=2, modes=S, outcomes=(False,), max_retries=2, inner=True)),
              ("SIGHUP, 1 request", scenario(signal="SIGHUP", n=1, page=1, modes=S, outcomes=(True,), inner=True)),
              ("SIGTERM, 2 requests", scenario(signal="SIGTERM", n=2, page=1, modes=S, outcomes=(True,))),
              ("SIGTERM, burst of 4 requests", scenario(signal="SIGTERM", n=4, page=1, modes=S, outcomes=(True,), burst=True)),
              ("SIGTERM, burst of 2 requests", scenario(signal="SIGTERM", n=2, page=1, modes=S, outcomes=(True, False), burst=True)),
              ("SIGTERM, 1 relayed message", scenario(signal="SIGTERM", n=1, page=1, modes=("now", "suspend"), sender=1, kinds=["app.relay"], send_outcomes=(True, "busy", "raise"), max_retries=2)),
              ("SIGTERM, burst of 3 relayed messages", scenario(signal="SIGTERM", n=3, page=1, modes=S, sender=1, kinds=["app.relay"] * 3, burst=True)),
              ("SIGTERM, burst of request and relayed message", scenario(signal="SIGTERM", n=2, page=1, modes=S, sender=1, kinds=["app.item", "app.relay"], burst=True)),
              ("SIGTERM, relayed messages, wait period", scenario(signal="SIGTERM", n=2, page=1, modes=("now",), wait=1, horizon=3, sender=1, kinds=["app.relay"] * 2, burst=True))]
        budget = 300
    else:
        sc = [(f"{s}, 2 requests", scenario(signal=s, n=2, page=p, modes=("now", "suspend", "tick"), outcomes=A, inner=True, max_retries=m)) for s, p, m in (("SIGTERM", 1, 0), ("SIGINT", 2, 2), ("SIGHUP", 1, 2))]
        sc += [(f"{s}, 3 requests", scenario(signal=s, n=3, page=1, modes=("now", "suspend"), outcomes=(True, False))) for s in ("SIGTERM",)]
        sc += [("SIGTERM, 3 messages, sender and endpoint", scenario(signal="SIGTERM", n=3, page=1, modes=("suspend",), sender=1, kinds=["app.item", "app.relay", "app.relay"], send_outcomes=(True, "busy", "raise"))),
               ("SIGTERM, 4 requests", scenario(signal="SIGTERM", n=4, page=1, modes=("suspend",), outcomes=(True,))),
               ("SIGTERM, 2 relayed, wait period, retries", scenario(signal="SIGTERM", n=2, page=1, modes=("now", "suspend"), wait=1, horizon=5, sender=1, kinds=["app.relay"] * 2, send_outcomes=(True, "busy"), max_retries=2))]
        budget = 2400
    for k, (sig, other) in enumerate((("SIGTERM", "SIGTERM"), ("SIGINT", "SIGHUP"))):
        if tier != "quick" or k == 0:
            sc.append((f"{sig}, and {other} while it stops, burst of 2 requests", scenario(signal=sig, again=other, n=2, page=1, modes=S, outcomes=(True,), burst=True)))
        if tier != "quick" or k == 1:
            sc.append((f"{sig}, and {other} while it stops, burst of 2 relayed messages", scenario(signal=sig, again=other, n=2, page=1, modes=S, sender=1, kinds=["app.relay"] * 2, burst=True)))
    many = 24 if tier == "quick" else 130
    sc += [(f"SIGTERM, burst of {many} requests", scenario(signal="SIGTERM", n=many, page=7, modes=("tick",), outcomes=(True,), burst=True)),
           (f"SIGINT, burst of {many} failing requests", scenario(signal="SIGINT", n=many, page=5, modes=("tick",), outcomes=(False,), max_retries=3, burst=True)),
           (f"SIGHUP, burst of {many} relayed messages", scenario(signal="SIGHUP", n=many, page=100, modes=("tick",), sender=1, kinds=["app.relay"] * many, burst=True)),
           (f"SIGTERM, burst of {many} relayed messages to a busy peer", scenario(signal="SIGTERM", n=many, page=4, modes=("tick",), sender=1, kinds=["app.relay"] * many, send_outcomes=("busy",), max_retries=2, burst=True))]
    e = 12 if tier == "quick" else 40
    spread = lambda n: [f"app.{'item' if i % (2 * e) < e else 'relay'}{SUFFIXES[i % e]}" for i in range(n)]
    n = 2 * e + 3
    sc += [(f"SIGTERM, {e} endpoints and {e} senders, burst of {n}", scenario(signal="SIGTERM", n=n, page=2, endpoints=e, sender=e, kinds=spread(n), modes=("tick",), burst=True)),
           (f"SIGINT, {e} endpoints and {e} senders, burst of {n}, all suspended", scenario(signal="SIGINT", n=n, page=1, endpoints=e, sender=e, kinds=spread(n), modes=S, burst=True)) if tier != "quick" else
           (f"SIGINT, 5 endpoints and 5 senders, failing", scenario(signal="SIGINT", n=12, page=2, endpoints=5, sender=5, kinds=[f"app.{'item' if i % 2 else 'relay'}{SUFFIXES[i % 5]}" for i in range(12)], modes=("tick",), outcomes=(False,), send_outcomes=("busy",), max_retries=2, burst=True))]
    for k in range(-1, 14 if tier == "quick" else 30):
        sig = ("SIGTERM", "SIGINT", "SIGHUP")[k % 3]
        sc.append((f"{sig} during the second start, at boundary {k}", scenario(signal=sig, early=k, n=1 if tier == "quick" else 2, page=1, modes=S, outcomes=(True,))))
        if k > 0:
            sc.append((f"{sig} during the second start, at boundary {k}, relayed message", scenario(signal=sig, early=k, n=1, page=1, modes=S, sender=1, kinds=["app.relay"])))
    for sig in SIGNALS:
        sc.append((f"{sig} before start()", scenario(signal=sig, early=-1, n=1, page=1, modes=S, outcomes=(True,), sender=1)))
    for part in explore(sc, budget):
        report.add(part)
    report.notes["bounds"] = "termination at every event-loop boundary (and inside handlers where stated) of every schedule; one restart"
    report.assumptions += ["a signal handled by the event loop runs at its next boundary; a signal handled by a Python handler raises where it arrives (idle loop or user handler)"]
