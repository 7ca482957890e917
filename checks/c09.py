"""C09: every sequence of management requests in every reachable state of a buffered endpoint's or sender's queues."""
TECHNIQUE = 'explicit-state exploration of the real endpoint/sender through its management endpoints'
NOTE = 'Every (reachable state, management request) pair within the bounds on messages and page size is executed through the real servers and management endpoints and compared with a reference of two ordered lists and two switches.'
from mc import appkit
from mc.core import pmap
from mc.tour import Tour
from .managed import ManagedBuffer


def configs(tier):
    G = ("errors", "unknown")
    if tier == "quick":
        return [("handler", 1, 4, 0, G), ("handler", 2, 5, 0, ("errors",)), ("handler", 1, 3, 0, ("switch", "errors", "unknown")), ("sender", 1, 4, 0, G),
                ("sender", 2, 5, 0, ("errors",)), ("handler", 3, 4, 2, G), ("sender", 3, 4, 2, G), ("handler", 1, 2, 0, G, True), ("sender", 1, 2, 0, G, True)]
    return [("handler", 1, 6, 0, G), ("handler", 2, 8, 0, ("errors",)), ("handler", 1, 4, 0, ("switch", "errors", "unknown")), ("sender", 1, 6, 0, G),
            ("sender", 2, 8, 0, ("errors",)), ("handler", 3, 6, 2, G), ("sender", 3, 6, 2, G), ("handler", 1, 3, 0, G, True), ("sender", 1, 3, 0, G, True)]


def many(kind, n=14, page=3, retries=0):
    """More than ten errors, up to hundreds: the listing stops at ten; reprocessing keeps the order."""
    s = ManagedBuffer(kind, page, n, retries, ("errors", "unknown"))
    s.reset()
    from mc.core import Violation, digest
    part = {"name": f"{kind}: {n} errors, page {page}, limit {retries}", "states": set(), "transitions": 0, "traces": 1, "samples": [], "violations": []}
    hist = []
    at = [n - 2, n // 3, n - 3]
    look = [("first",), ("data",)]
    script = [("fate",)] + [("submit",)] * n + [("first",), ("data",), ("inspect", at[0]), ("popone", at[1]), ("first",), ("reone", at[2]), ("first",), ("pause",), ("reall",), ("data",), ("first",),
                                                ("unpause",), ("first",), ("clear",), ("first",), ("data",)]
    if n > 14:
        some = lambda op, k: [(op, (i * 37) % (n - 60)) for i in range(k)]
        script += [("submit",)] * n + look + some("popone", 30) + look + some("reone", 40) + look + some("inspect", 40) + [("reall",)] + look + [("fate",)] + some("reone", 15) + look
        script += [("pause",), ("reall",)] + look + [("unpause",)] + look + [("pause",)] + [("submit",)] * n + look + [("fate",), ("unpause",)] + look + [("fate",), ("pause",), ("reall",), ("clear",)] + look + [("unpause",)] + look
    try:
        for op in script:
            hist.append(op)
            s.apply(op)
            part["states"].add(s.digest() if n < 20 else digest((len(hist), list(s.pend), list(s.err), s.pp)))
    except Violation as e:
        part["violations"].append({"what": f"{n} messages, page {page}, limit {retries}, after {len(hist)} operations, the last being {hist[-4:]}: {e.what[:500]}", "sig": e.sig,
                                   "replay": {"kind": kind, "messages": n, "page": page, "limit": retries, "operations": len(hist)}, "trace": [str(h) for h in hist[-60:]]})
    part["transitions"] = len(hist)
    part["samples"].append({"ops": [str(h) for h in hist[:20]]})
    return part


def run(report, tier):
    appkit.load()
    budget = 240 if tier == "quick" else 2400

    def one(cfg):
        if cfg[0] == "many":
            return many(*cfg[1:])
        return Tour(f"{cfg[0]} page={cfg[1]} messages={cfg[2]} retries={cfg[3]} {cfg[4]} {cfg[5:]}", ManagedBuffer(*cfg), budget).run()
    for part in pmap(one, configs(tier) + [("many", k, *c) for k in ("handler", "sender") for c in ((), (130, 20, 3), (260, 100, 0), *(((1200, 300, 2),) if tier != "quick" else ()))]):
        report.add(part)
    report.notes["bounds"] = "messages, page sizes and retry limits per part; attempts either all succeed or all fail, switchable in every state"
