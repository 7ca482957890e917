"""Shared queue systems (C01, C02, C03): the real paginated queue against an ordered-map reference."""
import asyncio, itertools, os, re, shutil, sqlite3, uuid
from mc import boot
from mc.core import Violation, digest
from mc.tour import canon


def keys(n):
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    out = []
    for i in range(n):
        # awkward identifiers: leading zero bytes, high bits; neighbours share their trace, every other one its span id
        trace = [0, (1 << 128) - 1, 0x0000_ffff << 64, 1][i // 2 % 4] ^ (i // 8 << 32)
        span = [(0, (1 << 64) - 1), (1 << 63, 0x00ff)][i // 4 % 2][i % 2]
        out.append(SpanKey(trace_id=uuid.UUID(int=trace), span_id=SpanId(int_=span)))
    assert len(set(k.bytes for k in out)) == n
    return out


PAYLOADS = [
    {"v": 1}, {}, {"s": "h\u00e9llo \u2603 \U0001F600 \"quoted\" \\ back"}, {"nl": "a\nb\tc\r\u0000"}, {"f": 1.5, "n": None, "l": [1, [2, {"x": "y"}]]},
    {"big": "x" * 300}, {"z": 0, "neg": -3, "t": True}, {"e": ""}, {"i": 12345678901234567890}, {"d": {}},
]


_dto = None


def content(i):
    """What item i carries: a plain dictionary, or (as the framework does) an object of a type with fields left at or set away from their defaults."""
    global _dto
    if i % 2 == 0:
        return dict(PAYLOADS[i // 2 % len(PAYLOADS)], i=i)
    if _dto is None:
        from pydantic import create_model
        from typing import Optional
        _dto = create_model("ItemDto", n=(int, ...), opt=(Optional[int], 5), text=(str, "unset"), tags=(list, []))
    return _dto(n=i, opt=None) if i % 4 == 1 else _dto(n=i, opt=5, tags=["\u00e9\n", None], text="")


def plain(x):
    return x.model_dump() if hasattr(x, "model_dump") else x


class QueueSystem:
    """ops are named by position in the reference queue, so states are explored up to renaming of keys."""
    def __init__(self, page_size, max_items, restart_sizes=(), light=False, uniform=False):
        from ekosis.queues import PaginatedQueue
        from ekosis.queues.pending_queue import PendingEntry
        self.Q, self.E = PaginatedQueue, PendingEntry
        self.uniform = uniform
        if uniform:        # the queue of a type that does not carry its key: items equal in content, told apart by their keys alone
            from pydantic import create_model
            self.E = create_model("UniformDto", group=(int, ...))
        self.p0, self.max, self.restarts = page_size, max_items, tuple(restart_sizes)
        self.keys = keys(max_items + 2)
        self.loop = asyncio.new_event_loop()
        self.dir = None
        self.light = light
        boot.track_sqlite()
        self.hex = {str(k): i for i, k in enumerate(self.keys)}

    # -------------------------------------------------------------- plumbing
    def await_(self, coro):
        return self.loop.run_until_complete(coro)

    def call(self, what, fn):
        try:
            r = fn()
            if asyncio.iscoroutine(r):
                r = self.await_(r)
            return r
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:200]}", f"{what.split('(')[0]} raises")

    def expect(self, what, got, want):
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}", f"{what.split('(')[0].split('[')[0]} wrong")

    def entry(self, i, dup=False):
        if self.uniform:
            return self.E(group=99 if dup else 7)
        data = {"dup": True, "i": i} if dup else content(i)
        return self.E(span_key=self.keys[i], data=data, retries=99 if dup else i % 4, metadata={"dup": 1} if dup else ({"m": i, "u": "\u00fc"} if i % 2 else {}))

    def check_entry(self, what, got, i):
        if got is None:
            raise Violation(f"{what}: item {i} missing (got nothing)", f"{what.split('(')[0]} lost item")
        want = self.entry(i)
        if self.uniform:
            return self.expect(f"{what}({i}) content", got.group, want.group)
        for f in ("span_key", "data", "retries", "metadata"):
            self.expect(f"{what}({i}) field {f}", plain(getattr(got, f)) if f == "data" else getattr(got, f), plain(getattr(want, f)) if f == "data" else getattr(want, f))

    # -------------------------------------------------------------- life cycle
    def open(self):
        self.q = self.call("open()", lambda: self.Q(self.path, self.E, self.page))

    def reset(self):
        boot.close_sqlite()
        boot.drop_dir(self.dir)
        self.dir = boot.fresh_dir("q")
        self.gen = 0
        self.path = os.path.join(self.dir, "q0.sqlite")
        self.page = self.p0
        self.ref = []            # indices into keys
        self.peek = None
        self.open()
        self.observe()

    def copy_files(self, dst):
        for suffix in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(self.path + suffix):
                shutil.copyfile(self.path + suffix, dst + suffix)

    # -------------------------------------------------------------- operations
    def ops(self):
        n = len(self.ref)
        out = [("pop",)]
        if n < self.max:
            out.append(("push",))
        if self.light:      # restart-centred runs: duplicates and removals at the ends and in the middle only
            out += [("dup", n - 1)] * (n > 0) + [("popkey", i) for i in sorted({0, n // 2, n - 1}) if n]
        else:
            out += [("dup", i) for i in range(n)]
            out += [("popkey", i) for i in range(n)] + [("popkey", -1)]
        if n:
            out.append(("clear",))
        out += [("restart", p) for p in self.restarts]
        return out

    def fresh(self):
        used = set(self.ref)
        return next(i for i in range(len(self.keys)) if i not in used)

    def apply(self, op):
        name = op[0]
        q, ref = self.q, self.ref
        if name == "push":
            i = self.fresh()
            got = self.call("push()", lambda: q.push(self.entry(i), self.keys[i]))
            ref.append(i)
            self.expect("push() result", got, self.keys[i])
        elif name == "dup":
            i = ref[op[1]]
            self.call("push(duplicate)", lambda: q.push(self.entry(i, True), self.keys[i]))
        elif name == "pop":
            got = self.call("pop()", lambda: q.pop())
            if ref:
                self.check_entry("pop", got, ref.pop(0))
            else:
                self.expect("pop() on empty", got, None)
        elif name == "popkey":
            if op[1] < 0:
                i = self.fresh()
                self.expect("pop_span_key(absent)", self.call("pop_span_key(absent)", lambda: q.pop_span_key(self.keys[i])), None)
            else:
                i = ref.pop(op[1])
                self.check_entry("pop_span_key", self.call("pop_span_key()", lambda: q.pop_span_key(self.keys[i])), i)
        elif name == "clear":
            self.call("clear()", lambda: q.clear())
            ref.clear()
        elif name == "restart":
            self.restart(op[1])
        self.observe()

    def restart(self, page):
        self.call("shut_down()", lambda: self.q.shut_down())
        self.gen += 1
        new = os.path.join(self.dir, f"q{self.gen}.sqlite")
        self.copy_files(new)      # only what reached the files can come back
        boot.close_sqlite()
        self.drop_peek()
        for suffix in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(self.path + suffix):
                os.remove(self.path + suffix)
        self.path, self.page = new, page
        self.open()

    # -------------------------------------------------------------- observation
    def observe(self):
        if getattr(self, "travelling", False):
            return
        q, ref = self.q, self.ref
        n = len(ref)
        self.expect("size()", self.call("size()", lambda: q.size()), n)
        self.expect("is_empty()", bool(self.call("is_empty()", lambda: q.is_empty())), n == 0)
        for x in {0, 1, 2, n // 2, n - 1, n, n + 3, 10}:
            if x >= 0:
                got = self.call(f"get_first_x_span_keys({x})", lambda: q.get_first_x_span_keys(x))
                self.expect(f"get_first_x_span_keys({x})", list(map(str, got)), [str(self.keys[i]) for i in ref[:x]])
        for i in ref if n < 60 else ref[:3] + ref[3:-3:n // 40] + ref[-3:]:
            self.check_entry("inspect_span_key", self.call("inspect_span_key()", lambda: q.inspect_span_key(self.keys[i])), i)
        i = self.fresh()
        self.expect("inspect_span_key(absent)", self.call("inspect_span_key(absent)", lambda: q.inspect_span_key(self.keys[i])), None)
        self.expect("size() after inspection", self.call("size()", lambda: q.size()), n)

    # -------------------------------------------------------------- canonical state
    def drop_peek(self):
        if self.peek:
            self.peek.close()
            self.peek = None

    def rename(self, x):
        pos = {i: p for p, i in enumerate(self.ref)}
        names = {}
        for i, k in enumerate(self.keys):
            names[k.bytes] = ("k", pos.get(i, "absent"))
        hexes = [(k.span_id.hex, str(k.trace_id), ("k", pos.get(i, "absent"))) for i, k in enumerate(self.keys)]
        kt = type(self.keys[0])

        def f(x):
            if isinstance(x, bytes):
                return names.get(x, x)
            if isinstance(x, str):
                for s, t, nm in hexes:
                    if s in x and t in x:
                        return ("entry", nm)
                return x
            if isinstance(x, kt):
                return names.get(x.bytes, "?")
            return x
        return f

    def digest(self):
        f = self.rename(None)
        if self.peek is None:
            self.peek = sqlite3.connect(self.path)
        rows = []
        cur = self.peek.cursor()
        for (t,) in sorted(cur.execute("select name from sqlite_master where type='table'").fetchall()):
            data = cur.execute(f'select * from "{t}"').fetchall()
            ids = sorted({v for r in data for v in r if isinstance(v, int)})
            rank = {v: (i, (v > 0) - (v < 0)) for i, v in enumerate(ids)}
            rows.append((t, sorted(repr([rank[v] if isinstance(v, int) else f(v) for v in r]) for r in data)))
        self.peek.rollback()
        obj = canon(self.q, f, skip=("file_path", "connection_string", "database_engine", "session"))
        return digest((rows, obj, self.page))


def blocks(page, depth, restarts=(), sparse=False):
    """All histories of a few large steps: many items, several pages, many operations of one kind in a row."""
    out = {"name": f"histories of {depth} large steps, page size {page}" + (f", reopened with {restarts}" if restarts else ""), "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    steps = [("push", 2 * page + 1), ("pop", page // 2 + 1)] + [("restart", r) for r in restarts]
    if sparse:
        steps += [("clear", 0)]
    else:
        steps += [("push", page // 2), ("pop", page + 1), ("remove", 3), ("clear", 0)]
    most = depth * (2 * page + 1)
    s = QueueSystem(page, most)
    try:
        for seq in itertools.product(steps, repeat=depth):
            if not any(k == "push" for k, _ in seq[:1]):
                continue
            out["traces"] += 1
            s.travelling = True
            try:
                s.reset()
                for kind, n in seq:
                    s.travelling = True
                    if kind == "restart":
                        s.apply(("restart", n))
                    elif kind == "clear":
                        s.apply(("clear",))
                    elif kind == "remove":          # every third item, the last ones first
                        for pos in range(len(s.ref) - 1, -1, -n):
                            s.apply(("popkey", pos))
                    else:
                        for _ in range(n):
                            s.apply((kind,))
                        if kind == "push":
                            for pos in (0, len(s.ref) // 2, len(s.ref) - 1):
                                s.apply(("dup", pos))
                    s.travelling = False
                    s.observe()
                    out["transitions"] += n or 1
                    out["states"].add(digest((seq[:1], kind, n, len(s.ref), s.ref[:3])))
                s.travelling = True
                for _ in range(len(s.ref) + 1):
                    s.apply(("pop",))
                s.travelling = False
                s.observe()
            except Violation as e:
                out["violations"].append({"what": f"page size {page}, after {list(seq)}: {e.what}", "sig": e.sig, "trace": [str(x) for x in seq], "replay": {"page": page, "steps": seq}})
                out["exhaustive"] = False
                break
        out["samples"].append({"steps": steps})
    finally:
        s.drop_peek()
        boot.close_sqlite()
        boot.drop_dir(s.dir)
    return out


class PendingQueueSystem:
    """PendingQueue (pending + error queue, retries, metadata) with restarts, against two ordered maps."""
    def __init__(self, page, max_retries, nkeys):
        from ekosis.queues.pending_queue import PendingQueue
        self.P, self.page, self.maxr, self.n = PendingQueue, page, max_retries, nkeys
        self.keys = keys(nkeys)
        self.loop = asyncio.new_event_loop()
        self.dir = None
        boot.track_sqlite()

    def call(self, what, fn):
        try:
            r = fn()
            return self.loop.run_until_complete(r) if asyncio.iscoroutine(r) else r
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:200]}", f"{what} raises")

    expect = QueueSystem.expect

    def data(self, i):
        return plain(content(i))

    def meta(self, i):
        return {"m": i, "deep": {"a": [1, None]}} if i % 2 else {}

    def reset(self):
        boot.close_sqlite()
        boot.drop_dir(self.dir)
        self.dir = boot.fresh_dir("p")
        self.pend, self.err = {}, {}        # key index -> retries ; key index -> reason
        self.q = self.call("open", lambda: self.P(self.dir, "b", self.page))
        self.observe()

    def free(self):
        return [i for i in range(self.n) if i not in self.pend and i not in self.err]

    def ops(self):
        out = [("pop",), ("restart",)]
        if self.free():
            out += [("push", 0)] + [("push", r) for r in range(1, self.maxr)] + [("error",)]
        for p in sorted({0, len(self.err) - 1}):
            if 0 <= p < len(self.err):
                out += [("move", p), ("pop_error", p)]
        if self.err:
            out += [("move_all",), ("clear",)]
        for p in sorted({0, len(self.pend) - 1}):
            if 0 <= p < len(self.pend):
                out.append(("pop_pending", p))
        return out

    def apply(self, op):
        q, n = self.q, op[0]
        if n == "push":
            i = self.free()[0]
            self.call("push_pending", lambda: q.push_pending(self.keys[i], content(i), op[1], self.meta(i)))
            self.pend[i] = op[1]
        elif n == "error":
            i = self.free()[0]
            self.call("push_error", lambda: q.push_error(self.keys[i], content(i), f"reason {i}", self.meta(i)))
            self.err[i] = f"reason {i}"
        elif n == "pop":
            got = self.call("pop", lambda: q.pop())
            if not self.pend:
                self.expect("pop() on empty", got, None)
            else:
                i = next(iter(self.pend))
                r = self.pend.pop(i)
                if got is None:
                    raise Violation(f"pop() returned nothing, item {i} expected", "pop lost item")
                self.expect("pop()", (got.span_key, plain(got.data), got.retries, got.metadata), (self.keys[i], self.data(i), r, self.meta(i)))
        elif n == "move":
            i = list(self.err)[op[1]]
            del self.err[i]
            self.expect("move_one_error_to_pending()", plain(self.call("move_one_error_to_pending", lambda: q.move_one_error_to_pending(self.keys[i]))), self.data(i))
            self.pend[i] = 0
        elif n == "move_all":
            self.call("move_all_error_to_pending", lambda: q.move_all_error_to_pending())
            for i in self.err:
                self.pend[i] = 0
            self.err = {}
        elif n == "clear":
            self.call("clear_error_queue", lambda: q.clear_error_queue())
            self.err = {}
        elif n == "pop_error":
            i = list(self.err)[op[1]]
            del self.err[i]
            self.expect("pop_error_q_span_key()", plain(self.call("pop_error_q_span_key", lambda: q.pop_error_q_span_key(self.keys[i]))), self.data(i))
        elif n == "pop_pending":
            i = list(self.pend)[op[1]]
            del self.pend[i]
            self.expect("pop_pending_q_span_key()", plain(self.call("pop_pending_q_span_key", lambda: q.pop_pending_q_span_key(self.keys[i]))), self.data(i))
        elif n == "restart":
            self.call("shut_down", lambda: q.shut_down())
            boot.close_sqlite()
            self.q = self.call("open", lambda: self.P(self.dir, "b", self.page))
        self.observe()

    def observe(self):
        if getattr(self, "travelling", False):
            return
        q = self.q
        self.expect("get_sizes()", self.call("get_sizes", lambda: q.get_sizes()), {"pending": len(self.pend), "error": len(self.err)})
        self.expect("has_pending()", bool(self.call("has_pending", lambda: q.has_pending())), bool(self.pend))
        self.expect("get_first_x_error_span_keys()", list(self.call("get_first_x_error_span_keys", lambda: q.get_first_x_error_span_keys(10))), [str(self.keys[i]) for i in self.err])
        for i in range(self.n):
            want = self.data(i)
            self.expect("inspect_pending_q_span_key()", plain(self.call("inspect_pending_q_span_key", lambda: q.inspect_pending_q_span_key(self.keys[i]))), want if i in self.pend else None)
            self.expect("inspect_error_q_span_key()", plain(self.call("inspect_error_q_span_key", lambda: q.inspect_error_q_span_key(self.keys[i]))), want if i in self.err else None)

    def digest(self):
        names = {}
        for i, k in enumerate(self.keys):
            where = ("p", list(self.pend).index(i)) if i in self.pend else ("e", list(self.err).index(i)) if i in self.err else "free"
            names[k.bytes] = where
        hexes = [(k.span_id.hex, str(k.trace_id), names[k.bytes]) for k in self.keys]
        kt = type(self.keys[0])

        def f(x):
            if isinstance(x, kt):
                return names.get(x.bytes, "?")
            if isinstance(x, bytes):
                return names.get(x, x)
            if isinstance(x, str):
                for sp, t, nm in hexes:
                    if sp in x and t in x:
                        m = re.search(r'"retries":\s*(-?\d+)', x)
                        return ("entry", nm, m and m.group(1))
            return x
        parts = []
        for fn in sorted(os.listdir(self.dir)):
            if fn.endswith("-journal"):
                continue
            c = sqlite3.connect(os.path.join(self.dir, fn))
            for (t,) in sorted(c.execute("select name from sqlite_master where type='table'").fetchall()):
                rows = c.execute(f'select * from "{t}"').fetchall()
                ids = sorted({v for r in rows for v in r if isinstance(v, int)})
                rank = {v: (k, (v > 0) - (v < 0)) for k, v in enumerate(ids)}
                parts.append((fn, t, sorted(repr([rank[v] if isinstance(v, int) else f(v) for v in r]) for r in rows)))
            c.close()
        return digest((parts, canon(self.q, f, skip=("file_path", "connection_string", "database_engine", "session"))))
