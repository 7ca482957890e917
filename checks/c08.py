"""C08: buffered senders: order, retries, error queue, wait period, restarts."""
TECHNIQUE = 'stateless exploration of all hand-over and outcome histories of the real buffered sender'
NOTE = 'All placements of hand-overs, all outcomes of every send (each kind of failure the clients can raise), restarts and reprocessings within the stated numbers, in virtual time, judged on-line by a send ledger.'
import asyncio, copy
from mc import appkit
from mc.appkit import same
from mc.core import Violation, explore
from .buffers import Subject, connect

RETRY = ("busy", "max")
FINAL = ("nonretry", "processing", "unhandled", "raise", "timeout", "empty", "unknown route", "denied", "validation", "parsing", "unknown status")


def failure_kinds():
    from . import buffers
    from ekosis import exceptions as x
    base = buffers.failure

    def failure(kind):
        more = {"denied": "ClientDeniedException", "validation": "PydanticValidationException", "parsing": "ProtocolParsingException", "unknown status": "UnknownStatusCodeException"}
        if kind in more:
            return getattr(x, more[kind])("x")
        return base(kind)
    buffers.failure = failure


def scenario(nmsg, limit, outcomes, modes=("now",), wait=0, restarts=0, reprocess=0, page=1, burst=True, nokey=False, horizon=60.0, anytime=False, lazy=True, shared=False):
    data = [{"n": i, "text": f"t\u00e9xt {i}", "opt": None} for i in range(nmsg)]

    def life(ch, directory, carry, k):
        def build(env, kit):
            env.lazy_time = lazy
            failure_kinds()
            Dto = appkit.rich_type(n=int, text=str)
            keys = [appkit.span(0 if shared else i) for i in range(nmsg)]
            L = copy.deepcopy(carry)
            cur = {"running": None, "stop": False, "last": None}

            def keyless(i):
                return nokey is True or (nokey == "mixed" and i % 2 == 1)

            async def attempt(who, key, dto):
                i = dto.n if 0 <= dto.n < nmsg else None
                env.log(f"send {i} under {key}")
                if i is None or not same(dto, data[i], L["msg"][i]):
                    env.fail(f"{dto!r} is sent", "content changed")
                    return True
                m = L["msg"][i]
                m["key"] = m["key"] or str(key)
                if str(key) != m["key"] or (not keyless(i) and key != keys[i]):
                    env.fail(f"message {i} is sent under key {key}, was {m['key']}", "key changed")
                if cur["running"] is not None:
                    env.fail(f"message {i} is sent while message {cur['running']} is being sent", "concurrent sends")
                if m["state"] not in ("pending", "handing"):
                    env.fail(f"message {i} is sent although it is {m['state']}", "sent after its end")
                if m["sends"] == 0:
                    L["first"].append(i)
                m["sends"] += 1
                if m["sends"] > max(12, 4 * limit):
                    env.fail(f"message {i}: {m['sends']} sends", "endless sends")
                if cur["last"] is not None and env.now - cur["last"] < wait - 1e-6:
                    env.fail(f"message {i} is sent {env.now - cur['last']:g} s after the previous one, wait period {wait} s", "wait period")
                cur["last"] = env.now
                cur["running"] = i
                if env.pick(f"mode {i}", modes) == "suspend":
                    await env.suspend(f"send {i} is answered")
                cur["running"] = None
                out = env.pick(f"result {i}", outcomes)
                if out is True:
                    m["state"] = "ok"
                elif out in RETRY:
                    m["failed"] += 1
                    if m["failed"] >= max(1, limit):
                        m["state"] = "error"
                else:
                    m["state"] = "error"
                return out
            sub = Subject("sender", Dto, attempt, keys, page=page, max_retries=limit, wait=wait)

            def hand_over(i):
                L["msg"][i]["state"] = "pending"
                L["handed"] = i + 1

                async def go():
                    if keyless(i):
                        await sub.push(data[i])
                    else:
                        await sub.push(data[i], span_key=keys[i])
                    L["order"].append(i)
                env.loop.create_task(go())
                if i + 1 < nmsg:
                    if burst:
                        hand_over(i + 1)
                    else:
                        env.add(f"message {i + 1} handed over", lambda: hand_over(i + 1), lambda: not shared or L["msg"][i]["state"] in ("ok", "error"))

            def restart():
                cur["stop"] = True
                L["restarts"] -= 1
                for e in list(env.events):
                    if not env.events[e][0].startswith("send"):
                        env.remove(e)
                sub.buffer.shut_down()

            def can_reprocess():
                return env.idle and cur["running"] is None and any(m["state"] == "error" for m in L["msg"])

            def reprocess_():
                L["reprocess"] -= 1
                bad = [i for i, m in enumerate(L["msg"]) if m["state"] == "error"]
                what = env.pick("reprocess", ["all"] + ([] if nokey or shared else bad if nmsg < 10 else bad[nmsg // 2:nmsg // 2 + 1]))
                for i in bad if what == "all" else [what]:
                    L["msg"][i]["state"], L["msg"][i]["failed"] = "pending", 0

                def done(d):
                    if L["reprocess"] and not cur["stop"]:
                        env.add("reprocess", reprocess_, can_reprocess)
                sub.manage(kit.ctl, "reall" if what == "all" else "reone", done, key=None if what == "all" else keys[what])

            async def main(loop):
                await kit.serve()
                await sub.setup(kit.dir)
                kit.ctl = connect(env, kit, "ctl")
                if L["handed"] < nmsg:
                    env.add(f"message {L['handed']} handed over", lambda: hand_over(L["handed"]))
                if L["restarts"]:
                    env.add("orderly restart", restart, lambda: len(L["order"]) == L["handed"] == nmsg and (anytime or env.idle))
                if L["reprocess"]:
                    env.add("reprocess", reprocess_, can_reprocess)

            def judge(loop):
                t = env.trace[-80:]
                b = sub.buffer
                if cur["stop"]:
                    if wait and cur["running"] is None and not b.on_shutdown_future.done():
                        raise Violation("the sender does not shut down", "no shutdown", t)
                    return L, True

                async def final():
                    return (await b.pending_queue_size(), await b.get_first_x_error_span_keys(nmsg + 50),
                            [await b.inspect_request_in_error_queue(x) for x in keys], await b.error_queue_size())
                pend, errs, items, count = appkit.query(loop, final())
                if pend:
                    raise Violation(f"idle with {pend} messages waiting", "idle with pending", t)
                if L["first"] != L["order"] or len(L["order"]) != nmsg:
                    raise Violation(f"handed over in order {L['order']}, first sent in order {L['first']}", "order", t)
                if not shared and len(set(m["key"] for m in L["msg"])) != nmsg:
                    raise Violation("two messages share a key", "key", t)
                for i, m in enumerate(L["msg"] if not shared else []):
                    here = m["key"] in errs
                    if here != (m["state"] == "error"):
                        raise Violation(f"message {i}: {m['sends']} sends, {m['failed']} retryable failures (limit {limit}), should be {m['state']}; in the error queue: {here}", "retry limit or lost message", t)
                    if here and not nokey and (items[i] is None or not same(items[i], data[i], L["msg"][i])):
                        raise Violation(f"message {i} is in the error queue as {items[i]!r}", "content changed", t)
                want = [i for i, m in enumerate(L["msg"]) if m["state"] == "error"]
                if shared:
                    want = want[:1]  # a key is in the error queue once
                if len(errs) != len(want) or count != len(want):
                    raise Violation(f"error queue {errs}, expected messages {want}", "error queue wrong", t)
                return L, False
            env.snap = lambda: repr((L, cur))
            return main, judge
        return appkit.execute(ch, build, directory, horizon=horizon)
    first = {"msg": [{"state": "new", "failed": 0, "sends": 0, "key": None} for _ in range(nmsg)], "restarts": restarts, "reprocess": reprocess, "handed": 0, "order": [], "first": []}
    return appkit.lives(life, first, restarts + 1, lambda carry, trace: None)


def run(report, tier):
    appkit.load(warm=True)
    S, NS = ("suspend",), ("now", "suspend")
    ALL = (True,) + RETRY + FINAL
    many = [(f"1 message, limit {m}, retryable failures", scenario(1, m, ("busy",), reprocess=1)) for m in (5, 7, 11, 20, 70)]
    many += [("1 message, limit 9, restart at any time", scenario(1, 9, ("max",), S, restarts=1, anytime=True)),
             ("1 message, limit 7, any success", scenario(1, 7, ("busy", True))),
             ("300 messages, suspended", scenario(300, 0, (True,), S, page=20)),
             ("150 messages, failing", scenario(150, 2, ("busy",), page=7, reprocess=1)),
             ("60 messages, wait period, restart", scenario(60, 0, ("raise",), wait=2, page=9, restarts=1, horizon=300.0)),
             ("150 messages, every other one without a key, restart", scenario(150, 0, ("processing",), page=7, nokey="mixed", restarts=1))]
    if tier == "quick":
        sc = many + [(f"1 message, limit {m}, every kind of failure", scenario(1, m, ALL, reprocess=0)) for m in (0, 1, 2)]
        sc += [("1 message, limit 3, reprocess", scenario(1, 3, (True, "busy", "raise"), reprocess=1)),
               ("2 messages at any time, limit 2", scenario(2, 2, (True, "max"), NS, burst=False)),
               ("2 messages, limit 2", scenario(2, 2, (True, "busy", "nonretry"))),
               ("3 messages at any time, suspended", scenario(3, 0, (True, "raise"), S, burst=False)),
               ("3 messages without keys", scenario(3, 2, (True, "busy"), nokey=True)),
               ("3 messages, every other one without a key", scenario(3, 2, (True, "raise"), NS, burst=False, nokey="mixed")),
               ("2 messages one after another under one key", scenario(2, 2, (True, "busy", "raise"), NS, burst=False, shared=True)),
               ("3 messages, wait period", scenario(3, 2, (True, "busy"), wait=2)),
               ("2 messages at any time, wait period", scenario(2, 2, (True, "busy"), wait=2, burst=False, lazy=False, horizon=12.0)),
               ("1 message, limit 3, restart", scenario(1, 3, (True, "busy"), S, restarts=1, anytime=True)),
               ("3 messages, restart", scenario(3, 0, (True, "raise"), S, restarts=1)),
               ("2 messages, limit 2, restart, reprocess", scenario(2, 2, (True, "busy"), S, restarts=1, reprocess=1)),
               ("4 messages, page 2", scenario(4, 2, (True, "busy"), page=2))]
        budget = 240
    else:
        sc = many + [(f"2 messages, limit {m}, every kind of failure", scenario(2, m, ALL)) for m in (0, 1, 2)]
        sc += [("1 message, limit 4, reprocess", scenario(1, 4, (True, "busy", "max", "raise"), reprocess=2)),
               ("3 messages at any time, limit 2", scenario(3, 2, (True, "max"), NS, burst=False)),
               ("3 messages one after another under one key", scenario(3, 2, (True, "busy", "raise"), NS, burst=False, shared=True)),
               ("4 messages at any time, suspended", scenario(4, 0, (True, "raise"), S, burst=False)),
               ("4 messages, limit 3", scenario(4, 3, (True, "busy"), page=1)),
               ("3 messages at any time, wait period", scenario(3, 2, (True, "busy"), NS, wait=2, burst=False, lazy=False, horizon=15.0)),
               ("2 messages, limit 3, two restarts", scenario(2, 3, (True, "busy"), S, restarts=2, anytime=True)),
               ("3 messages, limit 2, restart, reprocess", scenario(3, 2, (True, "busy"), S, restarts=1, reprocess=1)),
               ("4 messages, every other one without a key", scenario(4, 2, (True, "raise"), NS, burst=False, nokey="mixed")),
               ("5 messages, page 2", scenario(5, 2, (True, "busy"), page=2))]
        budget = 2400
    for part in explore(sc, budget):
        report.add(part)
    report.notes["bounds"] = "messages, limits, outcomes, restarts and reprocessings per part"
    report.assumptions += ["the client is a stand-in that raises exactly what the real clients are checked to raise in C11/C13"]
