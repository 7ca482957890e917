"""C07: retries, error queue, hooks and metadata of buffered requests, across reprocessing and restarts."""
TECHNIQUE = 'stateless exploration of all outcome histories, restarts and reprocessings of the real buffered endpoint'
NOTE = 'All combinations of attempt outcomes, reprocessing requests and orderly restarts (each process life in its own process on the same files) within the stated numbers, judged on-line by an attempt ledger.'
import asyncio, copy
from mc import appkit
from mc.appkit import same
from mc.core import Violation, explore
from .buffers import Subject, connect


def scenario(nreq, limit, outcomes, modes, restarts=0, reprocess=0, page=1, mutate=False, anytime=False):
    data = [{"n": i, "text": f"t\u00e9xt {i}", "extra": {"l": [i, None, 1.5]}, "opt": None} for i in range(nreq)]
    meta = [{"m": i, "deep": {"a": [1, "\u00e9", None]}} for i in range(nreq)]

    def life(ch, directory, carry, k):
        def build(env, kit):
            Dto = appkit.rich_type(n=int, text=str, extra=dict)
            keys = [appkit.span(i) for i in range(nreq)]
            L = copy.deepcopy(carry)       # per message: state, failures in this set, attempts; plus commands left
            cur = {"before": [], "after": [], "running": None, "stop": False}

            def fail(what, sig):
                env.fail(what, sig)

            from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
            from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager

            class Hook(BufferedMiddlewareBase):
                async def before_push(self, span_key, dto):
                    i = keys.index(span_key)
                    if not same(dto, data[i], L["msg"][i]):
                        fail(f"before_push for request {i} got {dto!r}", "hook arguments")
                    return copy.deepcopy(meta[i])

                async def before_process(self, span_key, dto, metadata, retries):
                    env.log(f"before_process {span_key} retries={retries}")
                    i = next((j for j, x in enumerate(keys) if x == span_key), None)
                    if cur["before"]:
                        fail("before_process ran again before the attempt ended", "hook twice")
                    cur["before"].append(i)
                    if i is None or not same(dto, data[i], L["msg"][i]) or metadata != meta[i]:
                        fail(f"before_process for request {i} got key {span_key}, content {dto!r}, metadata {metadata}", "hook arguments")
                    elif retries != L["msg"][i]["failed"]:
                        fail(f"before_process for request {i} got {retries} earlier failures, there were {L['msg'][i]['failed']}", "hook retries")
                    if mutate:
                        metadata["touched"] = True

                async def after_process(self, span_key, dto, metadata, success):
                    env.log(f"after_process {span_key} success={success}")
                    i = next((j for j, x in enumerate(keys) if x == span_key), None)
                    if cur["running"] is None or cur["running"][0] != i:
                        fail(f"after_process for request {i} although the last attempt was {cur['running']}", "hook order")
                        return
                    out = cur["running"][1]
                    if bool(success) != (out is True):
                        fail(f"after_process for request {i} got success={success}, the attempt ended with {out}", "hook outcome")
                    want = dict(meta[i], touched=True) if mutate else meta[i]
                    if (not mutate and not same(dto, data[i], L["msg"][i])) or metadata != want:
                        fail(f"after_process for request {i} got content {dto!r}, metadata {metadata}", "hook arguments")
                    cur["after"].append(i)
                    settle()
            BufferedMiddlewareManager().add(Hook())

            def settle():
                """An attempt is complete: handler and both hooks have run."""
                i, out = cur["running"]
                cur["running"], cur["before"], cur["after"] = None, [], []
                m = L["msg"][i]
                if out is True:
                    m["state"] = "ok"
                else:
                    m["failed"] += 1
                    if m["failed"] >= max(1, limit):
                        m["state"] = "error"

            async def attempt(who, key, dto):
                env.log(f"attempt {who}")
                if who is None:
                    fail(f"attempt with unknown key {key}", "unknown key")
                    return True
                m = L["msg"][who]
                if not same(dto, data[who], m):
                    fail(f"request {who} is handed over as {dto!r}", "content changed")
                if cur["running"]:
                    fail(f"attempt {who} while the hooks of {cur['running']} have not run", "hook missing")
                if cur["before"] != [who]:
                    fail(f"attempt for {who}: before_process ran for {cur['before']}", "hook missing")
                if m["state"] == "moving":
                    m["state"], m["failed"] = "pending", 0
                if m["state"] != "pending":
                    fail(f"request {who} is attempted although it is {m['state']} ({m['failed']} failures, limit {limit})", "attempted after its end")
                m["attempts"] += 1
                if m["attempts"] > max(12, 4 * limit):
                    fail(f"request {who}: {m['attempts']} attempts", "endless attempts")
                if mutate:
                    dto.text = "changed by the handler"
                if env.pick(f"mode {who}", modes) == "suspend":
                    await env.suspend(f"attempt {who} continues")
                out = env.pick(f"outcome {who}", outcomes)
                cur["running"] = (who, out)
                return out
            sub = Subject("handler", Dto, attempt, keys, page=page, max_retries=limit)

            def restart():
                cur["stop"] = True
                L["restarts"] -= 1
                L["again"] = True
                for e in list(env.events):
                    if not env.events[e][0].startswith("attempt"):
                        env.remove(e)
                sub.buffer.shut_down()

            def offer():
                if cur["stop"]:
                    return
                if L["restarts"]:
                    env.add("orderly restart", restart, (lambda: not kit.ctl.waiting) if anytime else (lambda: env.idle))
                if L["reprocess"]:
                    env.add("reprocess", reprocess_, lambda: env.idle and any(m["state"] == "error" for m in L["msg"]))

            def reprocess_():
                L["reprocess"] -= 1
                bad = [i for i, m in enumerate(L["msg"]) if m["state"] == "error"]
                what = env.pick("reprocess", ["all"] + (bad if nreq < 10 else bad[nreq // 2:nreq // 2 + 1]))
                for i in bad if what == "all" else [what]:
                    L["msg"][i]["state"], L["msg"][i]["failed"] = "pending", 0

                def done(d):
                    if L["reprocess"] and not cur["stop"]:
                        env.add("reprocess", reprocess_, lambda: env.idle and any(m["state"] == "error" for m in L["msg"]))
                sub.manage(kit.ctl, "reall" if what == "all" else "reone", done, key=None if what == "all" else keys[what])

            async def main(loop):
                await kit.serve()
                if k == 0:
                    for m in L["msg"]:
                        m["state"] = "pending"
                await sub.setup(kit.dir)
                kit.ctl = connect(env, kit, "ctl")
                if k == 0:
                    for i in range(nreq):
                        sub.submit(kit.ctl, loop, i, data[i], lambda s, i=i: s == 0 or fail(f"request {i} refused: {s}", "refused"))
                offer()

            def judge(loop):
                t = env.trace[-80:]
                b = sub.buffer
                if cur["running"]:
                    raise Violation(f"after_process never ran for {cur['running']}", "hook missing", t)
                if cur["stop"]:
                    async def wait():
                        return b.on_shutdown_future.done()
                    L["again"] = True
                    return L, True

                async def final():
                    return (await b.pending_queue_size(), await b.get_first_x_error_span_keys(nreq + 50), [await b.inspect_request_in_error_queue(x) for x in keys])
                pend, errs, items = appkit.query(loop, final())
                L["again"] = False
                if pend:
                    raise Violation(f"idle with {pend} pending requests", "idle with pending", t)
                for i, m in enumerate(L["msg"]):
                    here = str(keys[i]) in errs
                    if here != (m["state"] == "error"):
                        raise Violation(f"request {i}: {m['failed']} failures of {max(1, limit)} attempts allowed, state {m['state']}; in the error queue: {here}", "retry limit", t)
                    if m["state"] == "pending":
                        raise Violation(f"request {i} is neither done nor set aside", "lost", t)
                    if here and not same(items[i], data[i], L["msg"][i]):
                        raise Violation(f"request {i} is in the error queue as {items[i]!r}", "content changed", t)
                return L, False
            env.snap = lambda: repr((L, cur))
            return main, judge
        return appkit.execute(ch, build, directory, horizon=30.0)
    first = {"msg": [{"state": "new", "failed": 0, "attempts": 0} for _ in range(nreq)], "restarts": restarts, "reprocess": reprocess}
    return appkit.lives(life, first, restarts + 1, lambda carry, trace: None)


def run(report, tier):
    appkit.load(warm=True)
    A, N, S = (True, False, "raise"), ("now",), ("suspend",)
    many = [(f"1 failing request, limit {m}", scenario(1, m, (False,), N, reprocess=1)) for m in (5, 7, 11, 20, 70)]
    many += [("1 failing request, limit 9, restart at any time", scenario(1, 9, (False,), S, restarts=1, anytime=True)),
             ("1 request, limit 7, any success", scenario(1, 7, (False, True), N)),
             ("40 failing requests, limit 6", scenario(40, 6, (False,), N, reprocess=1, page=7)),
             ("150 failing requests, limit 1, restart", scenario(150, 1, (False,), N, restarts=1, reprocess=1, page=20))]
    if tier == "quick":
        sc = [(f"1 request, limit {m}", scenario(1, m, A, N, reprocess=1)) for m in (0, 1, 2, 3)]
        sc += [("2 requests, limit 2", scenario(2, 2, (True, False), N, reprocess=1)),
               ("1 request, limit 3, restart", scenario(1, 3, (True, False), S, restarts=1)),
               ("1 request, limit 2, restart, reprocess", scenario(1, 2, (True, False), S, restarts=1, reprocess=1)),
               ("2 requests, limit 2, restart at idle", scenario(2, 2, (True, False), S, restarts=1)),
               ("1 request, limit 3, restart at any time", scenario(1, 3, (True, False), S, restarts=1, anytime=True)),
               ("1 request, limit 3, two restarts", scenario(1, 3, (False,), S, restarts=2)),
               ("4 requests, limit 2, page 1, restart, reprocess", scenario(4, 2, (False,), S, restarts=1, reprocess=1)),
               ("2 requests, limit 2, restart, reprocess", scenario(2, 2, (True, False), S, restarts=1, reprocess=1)),
               ("2 requests, limit 3, any outcome", scenario(2, 3, A, N)),
               ("1 request, limit 2, handler returns nothing", scenario(1, 2, (True, None), N, reprocess=1)),
               ("3 requests, limit 0, reprocess", scenario(3, 0, (False,), N, reprocess=2)),
               ("1 request, limit 2, handler and hook alter their arguments", scenario(1, 2, A, N, reprocess=1, mutate=True))]
        sc = many + sc
        budget = 240
    else:
        sc = [(f"1 request, limit {m}", scenario(1, m, A, N, reprocess=2)) for m in (0, 1, 2, 3, 4)]
        sc += [("2 requests, limit 3", scenario(2, 3, A, N, reprocess=0)),
               ("3 requests, limit 2", scenario(3, 2, (True, False), N, reprocess=1)),
               ("2 requests, limit 2, two restarts, reprocess", scenario(2, 2, (True, False), S, restarts=2, reprocess=1)),
               ("2 requests, limit 3, restart at any time", scenario(2, 3, (True, False), S, restarts=1, anytime=True)),
               ("1 request, limit 4, three restarts", scenario(1, 4, (True, False), S, restarts=3)),
               ("2 requests, limit 2, alterations", scenario(2, 2, A, N, reprocess=1, mutate=True))]
        sc += many + [("600 failing requests, limit 2", scenario(600, 2, (False,), N, reprocess=1, page=50))]
        budget = 2400
    for part in explore(sc, budget):
        report.add(part)
    report.notes["bounds"] = "requests, limits, outcomes, restarts and reprocessings per part"
