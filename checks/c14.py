"""C14: LRU cache refines an ordered reference for every operation sequence."""
TECHNIQUE = 'explicit-state exploration of the real cache to a fixpoint'
NOTE = 'All reachable cache states over the stated keys and capacities; every operation from each compared with a reference.'
from mc import boot
from mc.core import Violation, pmap, digest
from mc.tour import Tour, canon

MISSING = object()


class LruSystem:
    def __init__(self, cap, nkeys, values, falsy_keys=False):
        from ekosis.cacheing import LRUCache
        self.cls, self.cap, self.values = LRUCache, cap, values
        self.keys = ([0, "", None, (), False][:0] or list("abcdefgh"))[:nkeys]
        if falsy_keys:
            self.keys = ["", None, ("t", 1), 7, "x"][:nkeys]

    def reset(self):
        self.c = self.cls(self.cap)
        self.ref = []          # most recent first: [key, value]
        self.observe()

    def slots(self):
        """Keys up to symmetry: every present key (by recency) and one absent key."""
        out = list(range(len(self.ref)))
        if len(self.ref) < len(self.keys):
            out.append(len(self.ref))
        return out

    def key_of(self, slot):
        if slot < len(self.ref):
            return self.ref[slot][0]
        return next(k for k in self.keys if self.find(k) is None)

    def ops(self):
        out = []
        for k in self.slots():
            for v in range(len(self.values)):
                out.append(("set", k, v))
            out += [("get", k), ("item", k), ("pop_item", k), ("pop_item_default", k), ("del", k), ("get_default", k)]
        out += [("pop",), ("clear",)]
        return out

    def find(self, key):
        for i, (k, v) in enumerate(self.ref):
            if k == key and type(k) is type(key):
                return i
        return None

    def call(self, what, fn, *exc):
        try:
            return fn()
        except exc as e:
            return ("raised", type(e).__name__)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__}: {e}", f"{what.split('(')[0]} raises {type(e).__name__}")

    def expect(self, what, got, want):
        if got != want or type(got) is not type(want):
            raise Violation(f"{what} gave {got!r}, expected {want!r}", f"{what.split('(')[0]} wrong result")

    def apply(self, op):
        name = op[0]
        c, ref = self.c, self.ref
        key = self.key_of(op[1]) if len(op) > 1 else None
        at = self.find(key) if len(op) > 1 else None
        if name == "set":
            val = self.values[op[2]]
            self.call(f"set({key!r})", lambda: c.__setitem__(key, val))
            if at is not None:
                ref.pop(at)
            elif len(ref) >= self.cap:
                ref.pop()
            ref.insert(0, [key, val])
        elif name in ("get", "get_default", "item"):
            if name == "item":
                got = self.call(f"[{key!r}]", lambda: c[key], KeyError)
                want = ref[at][1] if at is not None else ("raised", "KeyError")
            elif name == "get":
                got = self.call(f"get({key!r})", lambda: c.get(key))
                want = ref[at][1] if at is not None else None
            else:
                got = self.call(f"get({key!r},default)", lambda: c.get(key, "dflt"))
                want = ref[at][1] if at is not None else "dflt"
            if at is not None:
                ref.insert(0, ref.pop(at))
            self.expect(f"{name}({key!r})", got, want)
        elif name in ("pop_item", "pop_item_default"):
            if name == "pop_item":
                got = self.call(f"pop_item({key!r})", lambda: c.pop_item(key))
            else:
                got = self.call(f"pop_item({key!r},default)", lambda: c.pop_item(key, "dflt"))
            want = ref.pop(at)[1] if at is not None else (None if name == "pop_item" else "dflt")
            self.expect(f"{name}({key!r})", got, want)
        elif name == "del":
            self.call(f"del[{key!r}]", lambda: c.__delitem__(key))
            if at is not None:
                ref.pop(at)
        elif name == "pop":
            got = self.call("pop()", lambda: c.pop())
            want = tuple(ref.pop(0)) if ref else None
            self.expect("pop()", got, want)
        elif name == "clear":
            self.call("clear()", lambda: c.clear())
            ref.clear()
        self.observe()

    def observe(self):
        c, ref = self.c, self.ref
        for rnd in range(2):   # twice: observing must not change anything
            self.expect("len()", self.call("len()", lambda: len(c)), len(ref))
            self.expect("iteration of items()", self.call("items()", lambda: [tuple(x) for x in c.items()]), [tuple(x) for x in ref])
            self.expect("iteration of keys()", self.call("keys()", lambda: list(c.keys())), [k for k, _ in ref])
            self.expect("iteration of values()", self.call("values()", lambda: list(c.values())), [v for _, v in ref])
            self.expect("iteration", self.call("iter()", lambda: list(c)), [k for k, _ in ref])
            for k in self.keys:
                at = self.find(k)
                self.expect(f"peek({k!r})", self.call("peek()", lambda: c.peek(k, "dflt")), "dflt" if at is None else ref[at][1])
                self.expect(f"contains({k!r})", self.call("contains()", lambda: k in c), at is not None)

    def digest(self):
        names = {(type(k), k): ("key", i) for i, (k, _) in enumerate(self.ref)}

        def rename(x):
            try:
                return names.get((type(x), x), x)
            except TypeError:
                return x
        return digest(canon(self.c, rename))


def configs(tier):
    if tier == "quick":
        return [(1, 2, ("v", None)), (1, 3, ("v", "w")), (2, 3, ("v", "w")), (2, 4, ("v",)), (3, 4, ("v",)), (3, 4, ("v", 0)),
                (4, 5, ("v",)), (5, 6, ("v",)), (2, 3, ("v", None)), (2, 3, (0, False), True), (3, 4, (0, False), True)]
    return [(1, 3, ("v", None, 0)), (2, 4, ("v", None)), (3, 5, ("v", None)), (3, 4, ("v", None, "w")), (4, 5, ("v", "w")),
            (5, 6, ("v",)), (6, 7, ("v",)), (4, 6, ("v",)), (3, 4, (0, False), True), (4, 5, (0, False, 0.0), True)]


class Large(LruSystem):
    """Long straight histories on large caches; the whole contents are compared every so often."""
    def __init__(self, cap, nkeys):
        super().__init__(cap, 0, ("v",))
        self.keys, self.quiet, self.n = list(range(nkeys)), False, 0

    def key_of(self, slot):
        return slot

    def find(self, key):
        return next((i for i, (k, _) in enumerate(self.ref) if k == key), None)

    def observe(self):
        if not self.quiet:
            super().observe()


BETWEEN = {
    "nothing": lambda s, i: [],
    "the oldest is read": lambda s, i: [("get", s.ref[-1][0])],
    "the middle one is read": lambda s, i: [("item", s.ref[len(s.ref) // 2][0])],
    "every third is removed": lambda s, i: [("del", s.ref[-1][0])] if i % 3 == 0 else [],
    "the newest is taken out now and then": lambda s, i: [("pop",)] if i % 5 == 0 else [],
    "the middle one is taken out now and then": lambda s, i: [("pop_item", s.ref[len(s.ref) // 2][0])] if i % 4 == 0 else [],
    "the oldest is set again": lambda s, i: [("set", s.ref[-1][0], 0)],
}


def large(job):
    cap, name = job
    part = {"name": f"caches of many entries: {name}", "states": set(), "transitions": 0, "traces": 1, "samples": [{"capacity": cap, "between": name}], "violations": [], "exhaustive": True}
    nkeys = cap * 2 + 3
    s, done = Large(cap, nkeys), []

    def do(op, look):
        s.quiet = not look
        done.append(op)
        part["transitions"] += 1
        s.apply(op)
        part["states"].add(digest([k for k, _ in s.ref]))
    try:
        s.reset()
        for rnd in range(2):
            for i in range(nkeys):
                do(("set", i, 0), i % max(1, nkeys // 8) == 0)
                for op in BETWEEN[name](s, i) if s.ref else []:
                    do(op, False)
            s.quiet = False
            s.observe()
            if rnd == 0:
                do(("clear",), True)
        for i in range(cap // 2):
            do(("pop",), False)
        for i in range(cap):
            do(("set", nkeys - 1 - i, 0), i == cap - 1)
    except Violation as e:
        part["violations"].append({"what": f"capacity {cap}, {name}: after {len(done)} operations, {done[-5:]}: {e.what:.300}", "sig": e.sig, "replay": {"capacity": cap, "between": name, "operations": len(done)}, "trace": [str(o) for o in done[-40:]]})
    return part


def run(report, tier):
    boot.prepare()
    boot.quiet_logging()
    import ekosis.cacheing  # noqa
    budget = 240 if tier == "quick" else 2400
    cap = 4000 if tier == "quick" else 60000

    def one(cfg):
        s = LruSystem(*cfg)
        return Tour(f"lru cap={cfg[0]} keys={cfg[1]} values={cfg[2]!r}", s, budget, max_states=cap).run()

    for part in pmap(one, configs(tier)):
        report.add(part)
    sizes = (7, 16, 33, 70, 140, 300) if tier == "quick" else (7, 16, 33, 70, 140, 300, 600, 1100)
    for part in pmap(large, [(c, b) for c in reversed(sizes) for b in BETWEEN]):
        report.add(part)
    report.notes["bounds"] = "capacities 1..4 (thorough 1..5), one or two keys more than fit, 1-3 values incl. falsy; every (state, operation) pair; straight histories on caches of up to 300 (thorough 1100) entries"
