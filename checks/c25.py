"""C25: error-state counters against a reference counter, over all sequences of reports and clear requests."""
TECHNIQUE = 'explicit-state exploration (transition tour to a fixpoint) of the real error-state list through its endpoints'
NOTE = 'Every reachable combination of counts up to the cap and every operation from it is executed on the real list and the real endpoints, and the full listing is compared after each.'
import asyncio, json
from mc import appkit, vloop
from mc.core import Chooser, Violation, pmap
from mc.tour import Tour, canon


class Errors:
    def __init__(self, ids, cap, direct):
        from ekosis.state_keepers.error_state_list import ErrorStateList
        self.ids, self.cap, self.direct = ids, cap, direct
        self.run = 0
        self.list = ErrorStateList()
        self.env = vloop.Env(Chooser(), max_boundaries=10 ** 12)
        self.kit = appkit.Kit(self.env)
        self.loop = vloop.VLoop(self.env)
        self.kit.loop = self.env.loop = self.loop
        vloop.VNet(self.loop)
        asyncio.set_event_loop(self.loop)
        self.env.frozen = True
        self.loop.create_task(self.kit.serve())
        self.drain()
        self.conn = appkit.Conn(self.kit, "tcp")
        self.model = {}

    def drain(self):
        try:
            self.loop.run_forever()
        except vloop.Quiescent:
            pass

    def request(self, route, data):
        self.conn.send(appkit.line(route, appkit.span(1), data))
        self.drain()
        r = json.loads(self.conn.responses.pop())
        if r["status"] != 0:
            raise Violation(f"{route} {data} answered {r}", "error endpoint fails")
        return r["data"]["errors"]

    def ident(self, base):
        return f"{base}_r{self.run}"

    def reset(self):
        """Fresh ids: nothing has been reported under them."""
        for i in self.model:
            self.list.clear_all(i)
        self.run += 1
        self.model = {}
        self.observe(self.request("eco.error_states.get", {}))

    def ops(self):
        out = []
        for b in self.ids:
            for v in ("lower", "upper", "mixed"):
                if self.model.get(self.ident(b).upper(), [0])[0] < self.cap:
                    out.append(("report", b, v))
            for c in (-3, -1, 0, 1, 2, self.cap, self.cap + 5):
                for v in ("lower", "upper") if c in (0, 1) else ("mixed",):
                    out.append(("clear", b, v, c))
        for c in (0, 1, -1):
            out.append(("clear", "unknown", "lower", c))
        if self.direct:
            for b in self.ids:
                out.append(("clear_all", b, "mixed"))
        return out

    def name(self, base, how):
        i = self.ident(base)
        return {"lower": i.lower(), "upper": i.upper(), "mixed": i.title()}[how]

    def apply(self, op):
        i = self.name(op[1], op[2])
        k = i.upper()
        if op[0] == "report":
            d = f"description {self.model[k][0] if k in self.model else 'first'} {op[2]}"
            self.list.increment(i, d)
            self.model.setdefault(k, [0, d])[0] += 1
            got = self.request("eco.error_states.get", {})
        elif op[0] == "clear_all":
            self.list.clear_all(i)
            if k in self.model:
                self.model[k][0] = 0
            got = self.request("eco.error_states.get", {})
        else:
            c = op[3]
            if self.direct and c > 0:
                self.list.clear_some(i, c)
                got = self.request("eco.error_states.get", {})
            else:
                got = self.request("eco.error_states.clear", {"error_id": i, "count": c})
            if k in self.model:
                n = self.model[k][0]
                self.model[k][0] = 0 if c == 0 else n if c < 0 else max(0, n - c)
                if c < 0:           # what a negative count means is not stated, except that it never increases the count
                    now = next((e["count"] for e in got if e["error_id"] == k), 0)
                    if now > n:
                        raise Violation(f"clearing {c} increased the count from {n} to {now}", "clearing increases")
                    self.model[k][0] = now
        self.observe(got)

    def observe(self, got):
        want = sorted((k, n, d) for k, (n, d) in self.model.items() if n > 0)
        mine = sorted((e["error_id"].upper(), e["count"], e["description"]) for e in got)
        if want != mine:
            raise Violation(f"the listing is {mine}, should be {want}", "listing wrong")
        if sorted((s.get_id().upper(), s.get_error_count()) for s in self.list.get_error_states()) != [(a, b) for a, b, _ in want]:
            raise Violation("the in-process listing differs from the endpoint's", "listing wrong")
        for b in (*self.ids, "unknown"):
            if self.ident(b).upper() in self.model and not (self.list.has_error_id(self.name(b, "lower")) and self.list.has_error_id(self.name(b, "upper"))):
                raise Violation(f"{b} is reported but not known", "unknown id")

    def digest(self):
        return repr(sorted((k.rsplit("_R", 1)[0], n, d) for k, (n, d) in self.model.items()))


def work(job):
    ids, cap, direct, budget = job
    s = Errors(ids, cap, direct)
    try:
        return Tour(f"{len(ids)} error ids, counts up to {cap}{', partly in process' if direct else ''}", s, budget).run()
    finally:
        vloop.dispose(s.loop, s.env)
        s.kit.cleanup()


class Many(Errors):
    """Straight histories of many reports; the listing is compared now and then only."""
    def name(self, base, how):
        i = base
        return {"lower": i.lower(), "upper": i.upper(), "mixed": i.title()}[how]

    ident = staticmethod(lambda base: base)

    def several(self, base, how, n):
        i = self.name(base, how)
        self.model.setdefault(i.upper(), [0, f"description of {base[-20:]}"])
        for _ in range(n):
            self.list.increment(i, self.model[i.upper()][1])
        self.model[i.upper()][0] += n
        self.observe(self.request("eco.error_states.get", {}))


def many(job):
    kind, n = job
    s = Many(("e",), 0, False)
    part = {"name": "many reports, many ids, long ids", "states": set(), "transitions": 0, "traces": 1, "samples": [{"kind": kind, "reports": n}], "violations": [], "exhaustive": True}
    try:
        s.observe(s.request("eco.error_states.get", {}))
        if kind == "counts":
            for c in (1, 2, n // 2, n - 1, n, n + 1, 0):
                for direct in (False, True):
                    base = f"count {c} {direct}"
                    s.several(base, "mixed", n)
                    s.direct = direct
                    s.apply(("clear", base, "lower", c))
                    part["transitions"] += n + 1
                    s.several(base, "upper", 3)
        elif kind == "ids":
            for i in range(n):
                s.list.increment(f"id {i}", f"description {i}")
                s.model[f"ID {i}"] = [1, f"description {i}"]
            s.observe(s.request("eco.error_states.get", {}))
            for i in (0, 1, n // 2, n - 2, n - 1):
                s.apply(("clear", f"id {i}", "mixed", 0))
                s.several(f"id {i}", "upper", 2)
                s.apply(("clear", f"id {i}", "lower", 1))
            part["transitions"] += n + 15
        else:
            ids = ["x" * n + t for t in ("", "y", "z", "yz")] + [t + "x" * n for t in ("y", "z")]
            for i in ids:
                s.several(i, "mixed", 2)
            for i in ids:
                s.apply(("clear", i, "upper", 1))
                s.apply(("clear", i, "lower", 0))
                s.several(i, "mixed", 1)
            part["transitions"] += 5 * len(ids)
    except Violation as e:
        part["violations"].append({"what": f"{kind}, {n}: {e.what:.400}", "sig": e.sig, "replay": {"kind": kind, "n": n}, "trace": []})
    finally:
        vloop.dispose(s.loop, s.env)
        s.kit.cleanup()
    part["states"].add(repr(job))
    return part


def run(rep, tier):
    appkit.load()
    jobs = [(("e1",), 6, False, 100), (("e1", "e2"), 3, False, 100), (("e1", "e2"), 3, True, 100), (("straße",), 3, False, 100), (("",), 2, False, 100)]
    if tier != "quick":
        jobs += [(("e1", "e2"), 8, False, 800), (("e1", "e2", "e3"), 3, True, 800), (("e1", "e1x", "e"), 3, False, 800)]
    for p in pmap(work, jobs):
        rep.add(p)
    big = [("counts", n) for n in (9, 33, 130, 1100, 5000)] + [("ids", n) for n in (12, 70, 300, 1100)] + [("long", n) for n in (20, 70, 260, 1100, 5000)]
    for p in pmap(many, big if tier == "quick" else big + [("counts", 70000), ("ids", 5000), ("long", 100000)]):
        rep.add(p)
