"""C06: pausing and unpausing, at every moment, in every sequence with the other management operations."""
TECHNIQUE = 'stateless exploration of all event-loop schedules of operator commands, arrivals and attempts on the real endpoint and sender'
NOTE = 'All sequences of the stated commands up to the stated length, each sent at every event-loop boundary (or at every idle moment, per part), against a ledger of the two switches. Commands go through the real management endpoints and the virtual network.'
import asyncio
from mc import appkit
from mc.core import Violation, explore, forked, pmap
from mc.tour import Tour
from .managed import ManagedBuffer
from .buffers import Subject, connect


def scenario(kind, ncmd, alphabet, nreq, modes, outcomes, anytime, page=1, initial_errors=0, max_retries=0, script=None):
    def build(env, kit):
        Dto = appkit.dto_type(n=int)
        keys = [appkit.span(i) for i in range(nreq + initial_errors)]
        S = {"paused": False, "rpaused": False, "pending_cmd": None, "running": set(), "accepted": [], "refused": [], "started": [], "ok": [], "fail": {}}
        fate = {"errors": initial_errors > 0}

        async def attempt(who, span_key, dto):
            env.log(f"attempt {who}")
            if S["paused"] is True and not (S["pending_cmd"] in ("unpause", "aunpause")):
                env.fail(f"an attempt for message {who} starts although processing is paused", "attempt while paused")
            if S["running"]:
                env.fail(f"attempt for {who} while {S['running']} runs", "concurrent attempts")
            S["started"].append(who)
            if len(S["started"]) > 30 + 3 * initial_errors:
                env.fail("more than 30 attempts", "endless attempts")
            if fate["errors"]:
                return "raise"
            S["running"].add(who)
            if env.pick(f"mode {who}", modes) == "suspend":
                await env.suspend(f"attempt {who} continues")
            S["running"].discard(who)
            out = env.pick(f"outcome {who}", outcomes)
            if out is True:
                S["ok"].append(who)
            return out

        sub = Subject(kind, Dto, attempt, keys, page=page, max_retries=max_retries)

        def request(i):
            req = kit.req
            was = S["rpaused"]
            busy_cmd = S["pending_cmd"]

            def result(status):
                env.log(f"message {i}: status {status}")
                settled = busy_cmd is None and S["pending_cmd"] is None and was == S["rpaused"]
                if status == 0:
                    S["accepted"].append(i)
                    if settled and was:
                        env.fail(f"message {i} was accepted although receiving is paused", "accepted while receiving paused")
                elif status == 500:
                    S["refused"].append(i)
                    if settled and not was:
                        env.fail(f"message {i} was refused although receiving is not paused", "refused")
                else:
                    env.fail(f"message {i} was answered with status {status}", "wrong status")
            sub.submit(req, env.loop, i, {"n": i}, result)
            if i + 1 < nreq:
                env.add(f"message {i + 1} arrives", lambda: request(i + 1), guard)

        def command(n):
            op = script[n] if script else env.pick(f"command {n}", alphabet)
            S["pending_cmd"] = op
            key = keys[nreq] if op in ("reone", "popone", "inspect") and initial_errors else keys[0]

            def result(data):
                S["pending_cmd"] = None
                if op in ("pause", "apause"):
                    S["paused"] = True
                if op in ("unpause", "aunpause"):
                    S["paused"] = False
                if op in ("rpause", "apause"):
                    S["rpaused"] = True
                if op in ("runpause", "aunpause"):
                    S["rpaused"] = False
                qd = data["queue_data"]
                if isinstance(qd, dict):
                    r, p = sub.flags(qd)
                    if p != S["paused"] or (r is not None and r != S["rpaused"]):
                        env.fail(f"after {op} the switches read receiving paused={r}, processing paused={p}; should be {S['rpaused']}, {S['paused']}", "switch wrong")
                if n + 1 < ncmd:
                    env.add(f"command {n + 1} is sent", lambda: command(n + 1), guard)
            sub.manage(kit.ctl, op, result, key=key if op in ("reone", "popone", "inspect") else None)
        guard = None if anytime else (lambda: env.idle)

        async def main(loop):
            await kit.serve()
            await sub.setup(kit.dir)
            kit.req, kit.ctl = connect(env, kit, "req"), connect(env, kit, "ctl")
            for i in range(nreq, nreq + initial_errors):
                sub.submit(kit.req, loop, i, {"n": i}, lambda s: None)
            for _ in range(40 * max(1, initial_errors)):
                if len(S["started"]) < initial_errors * max(1, 1 if kind == "sender" else max_retries) or kit.req.waiting:
                    await asyncio.sleep(0)
            await asyncio.sleep(0)
            fate["errors"] = False
            S["started"].clear()
            env.add("message 0 arrives", lambda: request(0), guard)
            env.add("command 0 is sent", lambda: command(0), guard)

        def judge(loop):
            b = sub.buffer

            async def final():
                return await b.pending_queue_size(), await b.error_queue_size(), await b.get_first_x_error_span_keys(50 + initial_errors)
            pend, nerr, errs = appkit.query(loop, final())
            t = env.trace[-80:]
            if kit.req.waiting or kit.ctl.waiting or S["pending_cmd"]:
                raise Violation("a request was never answered", "no answer", t)
            if len(S["accepted"]) + len(S["refused"]) != nreq:
                raise Violation("not all messages were accepted or refused", "no answer", t)
            for i in S["refused"]:
                if i in S["started"] or str(keys[i]) in errs:
                    raise Violation(f"message {i} was refused and yet queued", "refused but queued", t)
            if not S["paused"] and pend:
                raise Violation(f"not paused and idle, but {pend} message(s) are waiting", "not resumed", t)
            gone = "popone" in repr(env.trace) or "clear" in repr(env.trace)
            known = set(S["ok"]) | {i for i, k in enumerate(keys) if str(k) in errs}
            want_pending = [i for i in S["accepted"] + list(range(nreq, nreq + initial_errors)) if i not in known]
            if not gone and len(want_pending) != pend:
                raise Violation(f"messages {want_pending} should be waiting, but {pend} are", "lost or duplicated", t)
            if S["paused"] and not gone:
                # resume at last: everything waiting must be worked on
                fate["errors"] = False
                S["pending_cmd"] = "unpause"
                env.frozen = False
                env.stuck = False
                S["final"] = True
                sub.manage(kit.ctl, "unpause", lambda d: S.update(paused=False, pending_cmd=None))
                from mc import vloop
                try:
                    loop.run_forever()
                except vloop.Quiescent:
                    pass
                if env.failures:
                    raise env.failures[0]
                pend, nerr, errs = appkit.query(loop, final())
                if pend:
                    raise Violation(f"after unpausing {pend} message(s) still wait", "not resumed", t)
                missing = [i for i in want_pending if i not in S["started"]]
                if missing:
                    raise Violation(f"messages {missing} were waiting and never attempted after unpausing", "lost while paused", t)
        env.snap = lambda: repr(S)
        return main, judge
    return forked(lambda ch: appkit.execute(ch, build, horizon=30.0))


def run(report, tier):
    appkit.load(warm=True)
    R = ("pause", "unpause", "rpause", "runpause", "apause", "aunpause")
    E = ("reall", "reone", "popone", "inspect", "clear", "first", "data")
    P = ("pause", "unpause")
    N, S = ("now",), ("suspend",)
    n = 150 if tier == "quick" else 500
    many = [(f"{kind}: {n} errors, {' '.join(script)}", scenario(kind, len(script), None, 1, N, (True,), False, page=page, initial_errors=n, script=script))
            for kind in ("handler", "sender") for script, page in ((("pause", "reall", "unpause"), 7), (("reall", "pause"), 100), (("pause", "reall", "clear"), 20), (("pause", "unpause", "reall"), 1))]
    if tier == "quick":
        sc = many + [
            ("endpoint: 2 switch commands, 1 suspended message, at idle", scenario("handler", 2, R, 1, S, (True, False), False)),
            ("endpoint: pause/unpause at any time, suspended attempts", scenario("handler", 2, P, 2, S, (True,), True)),
            ("endpoint: all switches at any time", scenario("handler", 2, R, 1, S, (True,), True)),
            ("endpoint: switches at any time, failing attempts", scenario("handler", 2, P, 1, N, (True, False), True, max_retries=2)),
            ("endpoint: reprocess at any time", scenario("handler", 2, ("pause", "reall", "reone"), 1, S, (True,), True, initial_errors=1)),
            ("sender: 2 switch commands, 2 messages, at idle", scenario("sender", 2, P, 2, S, (True, False), False)),
            ("sender: at any time, suspended attempts", scenario("sender", 2, P, 1, S, (True, False), True)),
            ("sender: reprocess at any time", scenario("sender", 2, ("pause", "reall", "reone"), 1, S, (True,), True, initial_errors=1)),
        ]
        tours = [("handler", 1, 3, 0, ("switch",)), ("handler", 2, 2, 0, ("switch", "errors", "unknown")), ("sender", 1, 3, 0, ("switch", "errors", "unknown")), ("handler", 1, 2, 2, ("switch", "errors"))]
        budget = 200
    else:
        sc = many + [
            ("endpoint: 5 switch commands, 2 messages, at idle", scenario("handler", 5, R, 2, N, (True,), False)),
            ("endpoint: 4 switch commands, 3 messages, suspended, at idle", scenario("handler", 4, R, 3, S, (True, False), False)),
            ("endpoint: pause/unpause at any time, suspended attempts", scenario("handler", 3, P, 3, S, (True,), True)),
            ("endpoint: all switches at any time", scenario("handler", 3, R, 2, S, (True,), True)),
            ("endpoint: switches at any time, failing attempts", scenario("handler", 3, P, 2, ("now", "suspend"), (True, False), True, max_retries=2)),
            ("endpoint: management commands, two errors, at idle", scenario("handler", 4, ("pause", "rpause", "unpause", "runpause") + E, 1, S, (True, False), False, initial_errors=2)),
            ("endpoint: management at any time", scenario("handler", 2, ("pause", "unpause") + E, 1, S, (True,), True, initial_errors=1)),
            ("sender: 5 switch commands, 3 messages, at idle", scenario("sender", 5, P, 3, S, (True, False), False)),
            ("sender: at any time, suspended attempts", scenario("sender", 3, P, 2, S, (True, False), True)),
            ("sender: management commands, two errors, at idle", scenario("sender", 4, ("pause", "unpause") + E, 1, S, (True, False), False, initial_errors=2)),
            ("sender: management at any time", scenario("sender", 2, ("pause", "unpause") + E, 1, S, (True,), True, initial_errors=1)),
        ]
        tours = [("handler", 1, 5, 0, ("switch",)), ("handler", 2, 4, 0, ("switch", "errors", "unknown")), ("sender", 1, 5, 0, ("switch", "errors", "unknown")), ("handler", 2, 3, 2, ("switch", "errors", "unknown"))]
        budget = 2400
    for part in pmap(lambda c: Tour(f"command sequences at idle: {c}", ManagedBuffer(*c), budget).run(), tours):
        report.add(part)
    for part in explore(sc, budget):
        report.add(part)
    report.notes["bounds"] = "commands, messages, outcomes and placement per part"
    report.assumptions += ["a command is in force from its answer to the sending of the opposite command; in between either is accepted"]
