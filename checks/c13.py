"""C13: every call ends, within its retry budget, with an answer or a documented exception."""
TECHNIQUE = 'exhaustive exploration of all per-attempt fault sequences and of all schedules of concurrent calls on the real clients in virtual time'
NOTE = 'Real client classes on a virtual network with virtual time. All sequences of connect and exchange faults up to the budget (1 to 3, thorough 4), followed by further calls with the server reachable; all schedules of two concurrent calls with the stated faults; heartbeats that fail in every way.'
import asyncio, json
from mc import appkit
from mc.core import Violation, explore, forked
from .clients import KINDS, STREAM, Peer, concurrent, make_client, reply_line, virtual_clock, ACK

TIMEOUT, DELAY, EPS = 5, 0.25, 1e-6
CONNECT = {
    "refused": lambda: ConnectionRefusedError(111, "refused"), "reset on connect": lambda: ConnectionResetError(104, "reset"),
    "aborted on connect": lambda: ConnectionAbortedError(103, "aborted"), "broken pipe on connect": lambda: BrokenPipeError(32, "pipe"),
    "connect times out": lambda: TimeoutError(110, "timed out"), "no such socket": lambda: FileNotFoundError(2, "none"), "unreachable": lambda: OSError(113, "no route"),
}
FATAL = ("refused", "no such socket", "unreachable")
LINE = ("ok", "nearly late", "lost", "late", "reset", "broken pipe", "aborted", "eof", "cut", "cut, then nothing", "reset after the answer")
BROKEN = ("reset", "broken pipe", "aborted")
LENIENT = ("eof", "cut")            # the peer closed without (complete) answer: transient clients may give up at once


def outcome(kind, attempts, budget):
    """Set of allowed endings given the faults met, in order."""
    last = attempts[-1]
    if last in ("ok", "nearly late", "reset after the answer"):
        return {"value"}
    if last in FATAL:
        return {"nonretryable"}
    ok = set()
    if len(attempts) >= budget:
        ok.add("maxretries")
    if last in LENIENT and kind.startswith("transient"):
        ok.add("nonretryable")
    return ok


def classify(v):
    from ekosis import exceptions as x
    if v[0] == "value":
        return "value"
    return {x.CommunicationsMaxRetriesReached: "maxretries", x.CommunicationsNonRetryable: "nonretryable"}.get(type(v[1]), repr(v[1]))


def sequence(kind, budget, ncalls=2, connect=tuple(CONNECT), lines=LINE, between=(None,), uniform=False):
    """One call that meets any sequence of faults (uniform: any number of one kind of fault), then calls that meet none."""
    def build(env, kit):
        virtual_clock(env)
        R, N = appkit.dto_type("ReplyDto", n=int, serial=int), appkit.dto_type(n=int)
        st = {"call": None, "faulty": True, "links": []}
        log = []        # per call: dict(attempts=[(start, fault, end)], result)

        def cur():
            return log[st["call"]]

        def attempt(fault, end):
            env.log(f"attempt of call {st['call']}: {fault}")
            cur()["attempts"].append((env.now, fault, end))

        def on_connect(n):
            if not st["faulty"] or not connect:
                return None
            f = env.pick("connect", ["ok", *connect])
            if f == "ok":
                return None
            attempt(f, env.now)
            return CONNECT[f]()

        def on_line(link, line):
            i = json.loads(line)["data"]["n"]
            if i != st["call"]:
                env.fail(f"the server receives call {i} while call {st['call']} is under way", "stray request")
            if not st["faulty"]:
                f = "ok"
            elif uniform:
                if "plan" not in st:
                    st["plan"] = [env.pick("fault", lines)] * env.pick("how often", range(budget + 1))
                f = st["plan"].pop() if st["plan"] else "ok"
            else:
                f = env.pick("exchange", lines)
            a = reply_line(line, {"n": i, "serial": len(cur()["attempts"])})
            late = f in ("lost", "late", "cut, then nothing")
            attempt(f, env.now + (TIMEOUT if late else TIMEOUT - 0.01 if f == "nearly late" else 0))
            L = env.loop
            if f == "ok":
                L.call_soon(link.answer, a)
            elif f == "nearly late":
                L.call_later(TIMEOUT - 0.01, link.answer, a)
            elif f == "late":
                L.call_later(TIMEOUT + 0.01, link.answer, a)
            elif f == "reset after the answer":
                def go():
                    link.answer(a)
                    link.lost(ConnectionResetError("reset"))
                L.call_soon(go)
            elif f in ("reset", "broken pipe", "aborted"):
                L.call_soon(link.lost, {"reset": ConnectionResetError, "broken pipe": BrokenPipeError, "aborted": ConnectionAbortedError}[f]("x"))
            elif f == "eof":
                L.call_soon(link.eof)
            elif f == "cut":
                def go():
                    link.answer(a[:-7])
                    link.eof()
                L.call_soon(go)
            elif f == "cut, then nothing":
                L.call_soon(link.answer, a[:-5])
            st["links"].append(link)

        async def main(loop):
            Peer(env, loop, on_connect, on_line)
            client = make_client(kind, timeout=TIMEOUT, budget=budget, delay=DELAY)
            for c in range(ncalls):
                st["call"] = c
                st["faulty"] = c == 0
                log.append({"attempts": [], "start": env.now})
                if c and between != (None,):
                    b = env.pick("between the calls", between)
                    if b == "idle":
                        await asyncio.sleep(1000)
                    elif b == "server drops the connection" and st["links"]:
                        st["links"][-1].eof()
                        await asyncio.sleep(0.01)
                    elif b == "server resets the connection" and st["links"]:
                        st["links"][-1].lost(ConnectionResetError("r"))
                        await asyncio.sleep(0.01)
                    log[-1]["start"] = env.now
                    log[-1]["dropped"] = b is not None and b.startswith("server")
                try:
                    res = ("value", await client.send_message("app.item", N(n=c), R, span_key=appkit.span(c)))
                except Exception as e:
                    res = ("error", e)
                env.log(f"call {c} ends: {res}")
                log[-1]["result"], log[-1]["end"] = res, env.now
            env.frozen = True

        def judge(loop):
            if len(log) != ncalls or "result" not in log[-1]:
                raise Violation(f"call {len(log) - 1} never ends", "call never ends")
            for c, l in enumerate(log):
                A = l["attempts"]
                faults = [f for _, f, _ in A]
                got = classify(l["result"])
                if l.get("dropped") or c and kind.startswith("persistent") and [f for _, f, _ in log[c - 1]["attempts"]][-1:] == ["reset after the answer"]:      # the connection was gone before the call: reconnecting may cost an attempt
                    if got != "value" and not (got == "maxretries" and budget == 1):
                        raise Violation(f"call {c} after the connection was dropped ends with {l['result'][1]!r}", "call after an idle disconnect fails")
                    continue
                if not A:
                    raise Violation(f"call {c} ended with {l['result']} without any attempt", "no attempt")
                if len(A) > budget:
                    raise Violation(f"call {c} made {len(A)} attempts {faults} with a budget of {budget}", "too many attempts")
                want = outcome(kind, faults, budget)
                if got not in want:
                    raise Violation(f"call {c} (budget {budget}) met {faults} and ended with {l['result'][1]!r}; expected {sorted(want)}", "wrong ending" + (": value" if "value" in want else ""))
                for j, f in enumerate(faults[:-1]):
                    if f in FATAL or f in ("ok", "nearly late", "reset after the answer"):
                        raise Violation(f"call {c} went on after attempt {j}: {faults}", "retried what must not be retried")
                    gap = A[j + 1][0] - A[j][2]
                    if abs(gap - DELAY) > EPS:
                        raise Violation(f"call {c}: {gap:g} s between the end of attempt {j} ({f}) and attempt {j + 1}; configured {DELAY}", "delay between attempts")
                if abs(A[0][0] - l["start"]) > EPS:
                    raise Violation(f"call {c}: the first attempt is made {A[0][0] - l['start']:g} s after the call", "delay before the first attempt")
                if not -EPS <= l["end"] - A[-1][2] <= DELAY + EPS:
                    raise Violation(f"call {c} ends {l['end'] - A[-1][2]:g} s after its last attempt ended ({faults})", "call ends late or early")
                if got == "value" and (l["result"][1].n != c or l["result"][1].serial != len(A) - 1):
                    raise Violation(f"call {c} returned {l['result'][1]!r}; its last attempt is number {len(A) - 1}", "wrong answer")
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=1e7))


def judge_concurrent(kind, budget, timeout=5, delay=0.1):
    def judge(env, log, R):
        n = len(log["attempts"])
        for i in range(n):
            if i not in log["calls"]:
                if env.now >= 90:
                    raise Violation(f"call {i} never ends", "call never ends")
                raise Violation(f"call {i} never ends (nothing more can happen)", "call never ends")
            what, v = log["calls"][i]
            A = log["attempts"][i]
            got = classify(log["calls"][i]) if what != "cancelled" else "cancelled"
            if what == "cancelled":
                continue
            if len(A) > budget:
                raise Violation(f"call {i} made {len(A)} attempts with a budget of {budget}", "too many attempts")
            if got not in ("value", "maxretries", "nonretryable"):
                raise Violation(f"call {i} ended with {v!r}", "undocumented ending")
            if got == "nonretryable" and not (kind.startswith("transient") and log["faults"]):
                raise Violation(f"call {i} ended with {v!r} although nothing was refused", "undocumented ending")
            if got == "maxretries":
                unanswered = [s for t, s in A if not any(s == s2 and t2 < t + timeout - 1e-9 for t2, s2 in log["answered"][i])]
                shared = len(log["faults"]) if not kind.startswith("transient") else 0
                if len(unanswered) + shared < budget:
                    raise Violation(f"call {i} gave up; attempts {A}, answered {log['answered'][i]}, disconnects {log['faults']}", "gave up early")
            if got != "value":
                in_time = [s for t, s in A if any(s == s2 and t2 < t + timeout - 1e-9 for t2, s2 in log["answered"][i])]
                if in_time and not log["faults"]:
                    raise Violation(f"call {i} got its answer in time and yet ended with {v!r}", "answer dropped")
            else:
                answers = [(t2, s2) for t2, s2 in log["answered"][i]]
                if v.n != i or v.serial not in [s for _, s in answers]:
                    raise Violation(f"call {i} returned {v!r}", "wrong answer")
    return judge


def heartbeat(kind, fates, ncalls=2, budget=2, period=20):
    """Heartbeats that go wrong in every way; calls made before, during and after."""
    def build(env, kit):
        virtual_clock(env, 1e9)
        R, N = appkit.dto_type("ReplyDto", n=int), appkit.dto_type(n=int)
        results, left = [], {"n": 2}
        st = {"beats": 0, "connect_fails": 0}

        def on_connect(n):
            if st["connect_fails"] > 0:
                st["connect_fails"] -= 1
                return ConnectionRefusedError(111, "refused")
            return None

        def on_line(link, line):
            L = env.loop
            if line[:1] != b"\x05":
                i = json.loads(line)["data"]["n"]
                L.call_soon(link.answer, reply_line(line, {"n": i}))
                return
            st["beats"] += 1
            f = "ack"
            if left["n"]:
                f = env.pick(f"heartbeat {st['beats']}", fates)
                if f != "ack":
                    left["n"] -= 1
            env.log(f"heartbeat {st['beats']}: {f}")
            if f == "ack":
                L.call_soon(link.answer, ACK)
            elif f == "late":
                L.call_later(TIMEOUT + 0.5, link.answer, ACK)
            elif f == "reset":
                L.call_soon(link.lost, ConnectionResetError("x"))
            elif f == "eof":
                L.call_soon(link.eof)
            elif f == "nonsense":
                L.call_soon(link.answer, b"what?\n")
            elif f == "reset, then refused":
                st["connect_fails"] = 1
                L.call_soon(link.lost, ConnectionResetError("x"))

        async def main(loop):
            Peer(env, loop, on_connect, on_line)
            client = make_client(kind, timeout=TIMEOUT, budget=budget, delay=DELAY, heartbeat=period)
            for c in range(ncalls):
                try:
                    results.append(("value", await client.send_message("app.item", N(n=c), R, span_key=appkit.span(c))))
                except Exception as e:
                    results.append(("error", e))
                env.log(f"call {c} ends: {results[-1]}")
                wait = env.pick("pause between calls", (0, 1, period * 2.5 + 1, period * 1.0))
                await asyncio.sleep(wait)
            # a last call when all is well must work
            st["connect_fails"] = 0
            left["n"] = 0
            await asyncio.sleep(period * 4)
            try:
                results.append(("value", await client.send_message("app.item", N(n=ncalls), R, span_key=appkit.span(ncalls))))
            except Exception as e:
                results.append(("error", e))
            env.frozen = True

        def judge(loop):
            if len(results) != ncalls + 1:
                raise Violation("a call never ends", "call never ends")
            for c, r in enumerate(results):
                got = classify(r)
                if got == "value":
                    if r[1].n != c:
                        raise Violation(f"call {c} returned {r[1]!r}", "wrong answer")
                elif got == "nonretryable" and "refused" in repr(r[1]).lower() and c < ncalls:
                    continue                 # the call itself met the refused connection
                else:
                    raise Violation(f"call {c} ended with {r[1]!r} although the server answers", "heartbeat disturbs calls")
            if not st["beats"]:
                raise Violation("an idle persistent client never sends a heartbeat", "no heartbeat")
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=1e7))


def scenarios(tier):
    S = []
    deep = tier != "quick"
    few = ("refused", "reset on connect", "unreachable")
    lines = ("ok", "lost", "late", "reset", "eof", "cut")
    for kind in STREAM:
        S.append((f"{kind}: budget 1, all faults", sequence(kind, 1)))
        S.append((f"{kind}: budget 2, all faults", sequence(kind, 2)))
        S.append((f"{kind}: budget 3", sequence(kind, 3) if deep else sequence(kind, 3, connect=few, lines=lines)))
    if deep:
        S.append(("persistent tcp: budget 4", sequence("persistent tcp", 4, connect=few, lines=lines)))
        S.append(("transient tcp: budget 4", sequence("transient tcp", 4, connect=few, lines=lines)))
    for b in (1, 2, 3) + ((5,) if deep else ()):
        S.append((f"udp: budget {b}", sequence("udp", b, connect=(), lines=("ok", "nearly late", "lost", "late"))))
    for kind in KINDS:
        for b in (4, 5, 6, 11) + ((30,) if deep else ()):
            S.append((f"{kind}: budget {b}, any number of one fault", sequence(kind, b, connect=(), lines=("lost", "late") if kind == "udp" else ("lost", "late", "reset", "cut, then nothing"), uniform=True)))
    for kind in ("persistent tcp", "persistent uds"):
        for b in (1, 2):
            S.append((f"{kind}: connection dropped between calls, budget {b}", sequence(kind, b, ncalls=3, connect=(), lines=("ok", "lost", "reset"),
                                                                             between=("idle", "server drops the connection", "server resets the connection"))))
        S.append((f"{kind}: failing heartbeats", heartbeat(kind, ("ack", "lost", "late", "reset", "eof", "nonsense", "reset, then refused"))))
    for kind in KINDS:
        S.append((f"{kind}: two concurrent calls, budget 2", concurrent(kind, 2, 2, judge=judge_concurrent(kind, 2), delay=DELAY)))
        S.append((f"{kind}: two concurrent calls, one may be cancelled", concurrent(kind, 2, 1, cancels=1, judge=judge_concurrent(kind, 1), delay=DELAY)))
        if kind != "udp":
            S.append((f"{kind}: two concurrent calls, budget 1, one disconnect", concurrent(kind, 2, 1, faults=1, judge=judge_concurrent(kind, 1), delay=DELAY)))
            S.append((f"{kind}: two calls in turn, budget 2, one disconnect", concurrent(kind, 2, 2, faults=1, sequential=True, judge=judge_concurrent(kind, 2), delay=DELAY)))
        S.append((f"{kind}: two calls, answers at any boundary", concurrent(kind, 2, 1, anytime=True, judge=judge_concurrent(kind, 1), delay=DELAY)))
    S.append(("persistent tcp: two concurrent calls with heartbeats", concurrent("persistent tcp", 2, 1, heartbeat=7, base=1e9, horizon=16, judge=judge_concurrent("persistent tcp", 1), delay=DELAY)))
    if deep:
        for kind in KINDS:
            S.append((f"{kind}: three concurrent calls", concurrent(kind, 3, 1, judge=judge_concurrent(kind, 1), delay=DELAY)))
            if kind != "udp":
                S.append((f"{kind}: two concurrent calls, two disconnects", concurrent(kind, 2, 3, faults=2, judge=judge_concurrent(kind, 3), delay=DELAY)))
    return S


def run(rep, tier):
    appkit.load()
    for p in explore(scenarios(tier), 240 if tier == "quick" else 2400):
        rep.add(p)
    rep.assumptions = ["connecting itself either succeeds, fails or times out in the operating system"]
