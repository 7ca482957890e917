"""A buffered endpoint or sender under its management endpoints, as a sequential system for the transition tour (C06, C09)."""
import asyncio, os, sqlite3
from mc import appkit, boot, vloop
from mc.core import Violation, Chooser, digest
from mc.tour import canon
from .buffers import Subject, connect

SWITCH = {"pause": (None, True), "unpause": (None, False), "rpause": (True, None), "runpause": (False, None), "apause": (True, True), "aunpause": (False, False)}


class ManagedBuffer:
    """Reference: two ordered lists, two switches, and the fate of attempts. Every operation runs until the loop is idle."""
    n_made = 0

    def __init__(self, kind, page, nmsg, max_retries=0, groups=("switch", "errors", "unknown"), empty_dto=False):
        self.kind, self.page, self.n, self.maxr, self.groups = kind, page, nmsg, max_retries, groups
        self.keys = [appkit.span(i, 0) for i in range(nmsg + 1)]
        self.empty = empty_dto
        self.Dto = appkit.dto_type("Nothing") if empty_dto else appkit.opt_type(n=int, text=str)
        self.loop = None

    def data(self, i):
        return {} if self.empty else {"n": i, "text": f"m\u00e9ss\nage {i}", "opt": None if i % 2 == 0 else 5}

    # ------------------------------------------------------------ life cycle
    def reset(self):
        if self.loop:
            vloop.dispose(self.loop, self.env)
            self.kit.cleanup()
        self.env = vloop.Env(Chooser(), max_boundaries=10**9)
        self.kit = appkit.Kit(self.env)
        self.loop = self.env.loop = self.kit.loop = vloop.VLoop(self.env)
        vloop.VNet(self.loop)
        asyncio.set_event_loop(self.loop)
        ManagedBuffer.n_made += 1
        self.route = f"app.item{ManagedBuffer.n_made}"
        self.pend, self.err = [], []
        self.rp = self.pp = False
        self.fate = True
        self.attempts, self.want = [], []

        async def attempt(who, key, dto):
            self.attempts.append((who, dto.model_dump()))
            return self.fate
        self.sub = Subject(self.kind, self.Dto, attempt, self.keys, self.route, self.page, self.maxr)

        async def other(who, key, dto):
            self.other_attempts += 1
            return "raise"
        self.other_attempts = 0
        self.bystander = Subject(self.kind, self.Dto, other, self.keys, self.route + "x", self.page, 0)

        async def main():
            await self.kit.serve()
            await self.sub.setup(self.kit.dir)
            await self.bystander.setup(self.kit.dir)
            self.conn = connect(self.env, self.kit, "ctl")
            self.bystander.submit(self.conn, self.loop, 0, self.data(0), lambda s: None)
        self.loop.create_task(main())
        self.settle()

    def settle(self):
        self.env.frozen = True
        try:
            self.loop.run_forever()
        except vloop.Quiescent:
            pass
        if self.env.failures:
            f = self.env.failures[0]
            self.env.failures = []
            raise f
        self.env.trace.clear()
        if self.conn.waiting:
            raise Violation("a request was not answered", "no answer")

    # ------------------------------------------------------------ operations
    def ops(self):
        out = [("fate",)]
        if len(self.pend) + len(self.err) < self.n:
            out.append(("submit",))
        sender = self.kind == "sender"
        if "switch" in self.groups:
            out += [(o,) for o in (("pause", "unpause") if sender else SWITCH)]
        else:
            out += [("pause",), ("unpause",)]
        out.append(("data",))
        ne = len(self.err)
        spots = range(ne) if ne <= 4 else sorted({0, 1, ne // 2, ne - 2, ne - 1})
        if "errors" in self.groups:
            out += [("first",), ("reall",), ("clear",)]
            out += [(o, i) for o in ("reone", "popone", "inspect") for i in spots]
        if "unknown" in self.groups:
            out += [(o, "absent") for o in ("reone", "popone", "inspect")]
            if self.pend:
                out += [(o, "pending") for o in ("reone", "popone", "inspect")]
            out += [(o, "queue") for o in ("data", "pause", "unpause", "first", "reall", "clear", "reone", "popone", "inspect", *(() if sender else ("rpause", "runpause", "apause", "aunpause")))]
        return out

    def fresh(self):
        return next(i for i in range(self.n + 1) if i not in self.pend and i not in self.err)

    def work(self):
        """The reference works everything off if it may."""
        while self.pend and not self.pp:
            i = self.pend.pop(0)
            tries = getattr(self, "tries", {}).get(i, 0)
            self.want.append((i, self.data(i)))
            if self.fate is True:
                continue
            if self.fate == "raise" and self.kind == "sender":
                self.err.append(i)
                continue
            tries += 1
            if tries >= self.maxr:
                self.err.append(i)
                self.tries.pop(i, None)
            else:
                self.tries[i] = tries
                self.pend.append(i)

    def request(self, op, key=None, queue=None):
        got = []
        self.sub.manage(self.conn, op, got.append, key=key, queue=queue)
        self.settle()
        if len(got) != 1:
            raise Violation(f"{op}: {len(got)} answers", "no answer")
        return got[0]

    def check_info(self, op, qd):
        if not isinstance(qd, dict):
            raise Violation(f"{op}: no queue information in the answer: {qd!r}", f"{op} wrong")
        r, p = self.sub.flags(qd)
        want = (None if self.kind == "sender" else self.rp, self.pp)
        if (r, p) != want:
            raise Violation(f"{op}: switches reported {(r, p)}, should be {want}", "switch wrong")
        s = qd["database_sizes"]
        if qd["route_key"] != self.route:
            raise Violation(f"{op}: answer names queue {qd['route_key']}", f"{op} wrong")
        return s["pending"], s["error"]

    def apply(self, op):
        if not hasattr(self, "tries"):
            self.tries = {}
        name, arg = op[0], op[1] if len(op) > 1 else None
        self.attempts.clear()
        self.want.clear()
        if name == "fate":
            self.fate = {True: False, False: True}[self.fate]
            return
        if name == "submit":
            i = self.fresh()
            got = []
            self.sub.submit(self.conn, self.loop, i, self.data(i), got.append)
            self.settle()
            if self.kind != "sender" and self.rp:
                self.expect("status of a request while receiving is paused", got, [500])
            else:
                self.expect("status of a request", got, [0])
                self.pend.append(i)
        elif arg == "queue":
            r = self.request(name, key=self.keys[0] if name in ("reone", "popone", "inspect") else None, queue="no.such.queue")
            if r["queue_data"] is not None or r["request_data"] is not None:
                raise Violation(f"{name} on an unknown queue answers {r}", f"{name} on unknown queue")
            if "no.such.queue" not in r["message"]:
                raise Violation(f"{name} on an unknown queue does not say so: {r}", f"{name} on unknown queue")
        elif name in SWITCH:
            r = self.request(name)
            rp, pp = SWITCH[name]
            self.rp = self.rp if rp is None else rp
            self.pp = self.pp if pp is None else pp
            self.check_info(name, r["queue_data"])
        elif name == "data":
            r = self.request(name)
            self.expect("sizes", self.check_info(name, r["queue_data"]), (len(self.pend), len(self.err)))
        elif name == "first":
            r = self.request(name)
            self.expect("first ten error keys", r["queue_data"], [str(self.keys[i]) for i in self.err[:10]])
        elif name == "clear":
            r = self.request(name)
            self.err.clear()
            self.expect("sizes after clear", self.check_info(name, r["queue_data"]), (len(self.pend), 0))
        elif name == "reall":
            r = self.request(name)
            moved, self.err = self.err, []
            self.pend += moved
            self.check_info(name, r["queue_data"])
        elif name in ("reone", "popone", "inspect"):
            i = self.fresh() if arg == "absent" else self.pend[0] if arg == "pending" else self.err[arg]
            r = self.request(name, key=self.keys[i])
            if arg in ("absent", "pending"):
                if r["queue_data"] is not None or r["request_data"] is not None:
                    raise Violation(f"{name} of a message that is not in the error queue answers {r}", f"{name} of absent message")
            else:
                if r["request_data"] != self.data(i):
                    raise Violation(f"{name} of message {i} returns {r['request_data']!r} ({r['message']})", f"{name} wrong message")
                if name != "inspect":
                    self.err.remove(i)
                if name == "reone":
                    self.pend.append(i)
                self.check_info(name, r["queue_data"])
        self.work()
        self.expect(f"attempts after {name}", self.attempts, self.want)
        self.observe(name)

    def expect(self, what, got, want):
        if got != want:
            raise Violation(f"{what}: {got!r}, expected {want!r}", what.split("(")[0])

    def observe(self, name):
        if getattr(self, "travelling", False):
            return
        b, o = self.sub.buffer, self.bystander.buffer

        async def look():
            by = (await o.pending_queue_size(), list(await o.get_first_x_error_span_keys(5)), self.other_attempts)
            if by != (0, [str(self.keys[0])], 1):
                raise Violation(f"{name} on {self.route} changed another queue: pending, errors, attempts there are now {by}", "other queue changed")
            errs = await b.get_first_x_error_span_keys(10**6)
            return (await b.pending_queue_size(), await b.error_queue_size(), list(errs))
        p, e, errs = appkit.query(self.loop, look())
        self.expect(f"pending queue size after {name}", p, len(self.pend))
        self.expect(f"error queue size after {name}", e, len(self.err))
        self.expect(f"error queue order after {name}", errs, [str(self.keys[i]) for i in self.err])

    # ------------------------------------------------------------ canonical state
    def digest(self):
        pos = {i: ("p", n) for n, i in enumerate(self.pend)}
        pos.update({i: ("e", n) for n, i in enumerate(self.err)})
        names = {k.bytes: pos.get(i, "absent") for i, k in enumerate(self.keys)}
        kt = type(self.keys[0])
        hexes = [(k.span_id.hex, str(k.trace_id), pos.get(i, "absent")) for i, k in enumerate(self.keys)]

        def f(x):
            if isinstance(x, bytes):
                return names.get(x, x)
            if isinstance(x, str):
                if x.startswith(self.kit.dir):
                    return "path"
                if x == self.route:
                    return "route"
                for s, t, nm in hexes:
                    if s in x and t in x:
                        return ("entry", nm)
                return x
            if isinstance(x, kt):
                return names.get(x.bytes, "?")
            return x
        rows = []
        for fn in sorted(os.listdir(self.kit.dir)):
            if not fn.endswith(".sqlite"):
                continue
            c = sqlite3.connect(os.path.join(self.kit.dir, fn))
            for (t,) in sorted(c.execute("select name from sqlite_master where type='table'").fetchall()):
                data = c.execute(f'select * from "{t}"').fetchall()
                ids = sorted({v for r in data for v in r if isinstance(v, int)})
                rank = {v: i for i, v in enumerate(ids)}
                rows.append((fn[-14:], t, sorted(repr([rank[v] if isinstance(v, int) else f(v) for v in r]) for r in data)))
            c.close()
        obj = canon(self.sub.buffer, f, skip=("file_path", "connection_string", "database_engine", "session", "statistics_keeper", "log", "running"))
        return digest((rows, obj, self.fate, self.rp, self.pp, len(self.pend), len(self.err), [self.tries.get(i, 0) for i in self.pend] if hasattr(self, "tries") else []))
