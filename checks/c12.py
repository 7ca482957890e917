"""C12: answers are never mixed up between calls, whatever is late, lost, retried or probed."""
TECHNIQUE = 'stateless exploration of all schedules of calls, late or lost answers, disconnects, timeouts, cancellations and heartbeats on the real clients'
NOTE = 'Real client classes on a virtual network with virtual time. Every answer may arrive at any idle moment (in the parts marked so: at any event-loop boundary), also long after the call gave up; up to the stated number of disconnects and cancellations.'
from mc import appkit
from mc.core import Violation, explore
from .clients import concurrent


def judge(env, log, R):
    for i, (what, v) in log["calls"].items():
        if what != "value":
            continue
        if v.n != i:
            raise Violation(f"call {i} returned the answer to call {v.n}", "answer to somebody else's request")
        if v.serial not in [s for _, s in log["attempts"][i]]:
            raise Violation(f"call {i} returned {v!r}, which was never an answer to it", "answer to somebody else's request")
        if v.serial not in [s for _, s in log["answered"][i]]:
            raise Violation(f"call {i} returned {v!r} before that answer was sent", "answer to somebody else's request")
    for i, (what, v) in log["calls"].items():
        if what == "error" and type(v).__module__.split(".")[0] != "ekosis" and "JSON" in type(v).__name__:
            raise Violation(f"call {i} took something else for its answer: {v!r}", "answer to somebody else's request")


def scenarios(tier):
    S = []

    def add(name, kind, ncalls, budget, **kw):
        S.append((f"{kind}: {name}", concurrent(kind, ncalls, budget, judge=judge, **kw)))
    for kind in ("persistent tcp", "persistent uds", "udp", "transient tcp", "transient uds"):
        add("two calls one after the other, 2 attempts, late answers", kind, 2, 2, sequential=True)
        add("two concurrent calls, 1 attempt", kind, 2, 1)
        add("two calls with the same key, 1 attempt", kind, 2, 1, same_key=True, sequential=True)
        add("two calls, one may be cancelled", kind, 2, 1, cancels=1)
    for kind in ("persistent tcp", "udp"):
        add("three calls one after the other, 1 attempt", kind, 3, 1, sequential=True)
        add("two concurrent calls, 2 attempts", kind, 2, 2)
    for kind in ("persistent tcp", "persistent uds"):
        add("two calls, heartbeats from the start", kind, 2, 1, heartbeat=7, base=1e9, sequential=True, horizon=16)
        add("one call, frequent heartbeats", kind, 1, 2, heartbeat=3, base=1e9)
    add("two calls, one disconnect", "persistent tcp", 2, 2, faults=1, sequential=True)
    add("two calls, answer cut short", "persistent tcp", 2, 2, faults=1, fault_kinds=("cut",), sequential=True)
    add("two calls, answers at any boundary", "persistent tcp", 2, 1, anytime=True)
    add("two calls, answers at any boundary", "udp", 2, 1, anytime=True)
    add("two calls, heartbeat at any boundary", "persistent tcp", 2, 1, heartbeat=100, base=1e9, anytime=True, sequential=True)
    n = 40 if tier == "quick" else 150
    for kind in ("persistent tcp", "persistent uds", "udp", "transient tcp", "transient uds"):
        for what, delays in (("prompt answers", (0.25,)), ("answers out of order", (3, 0.5, 2, 4.5, 1)), ("late and lost answers", (1, 6, 0.5, None, 4.5, 7.5, 11))):
            add(f"{n} calls at once, {what}", kind, n, 2, crowd=delays, horizon=40 * n, **({"heartbeat": 9, "base": 1e9} if kind.startswith("persistent") else {}))
            add(f"{n} calls one after the other, {what}", kind, n, 2, crowd=delays, horizon=40 * n, sequential=True)
    if tier != "quick":
        for kind in ("persistent tcp", "udp"):
            add("three concurrent calls, 2 attempts", kind, 3, 2)
            add("two concurrent calls, 3 attempts", kind, 2, 3)
            add("two calls, 2 attempts, answers at any boundary", kind, 2, 2, anytime=True)
        add("two concurrent calls, heartbeats, one disconnect", "persistent tcp", 2, 2, faults=1, heartbeat=4, base=1e9)
    return S


def run(rep, tier):
    appkit.load()
    for p in explore(scenarios(tier), 200 if tier == "quick" else 2400):
        rep.add(p)
    rep.assumptions = ["the network does not duplicate datagrams", "a stream delivers bytes in order"]
