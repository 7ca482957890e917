"""C28: background tasks live exactly as long as the application."""
TECHNIQUE = 'stateless exploration of all orders of background task progress, endings and failures, requests and termination, on the real application object, with restart'
NOTE = 'Real application, servers and buffers; background tasks registered through setup_tasks end, fail or go on at every event-loop boundary, requests arrive and the termination signal comes at every boundary; afterwards a second process life on the same files is judged.'
import asyncio
from mc import appkit
from mc.core import Violation, explore
from checks import c05


def life(kinds, setup="plain", requests=1, signal="SIGTERM", **more):
    """kinds: one per background task. setup: what setup_tasks itself does."""
    async def task(env, st, i, kind):
        st["started"].append(i)
        env.log(f"background task {i} starts")
        try:
            if kind == "ends at once":
                st["over"].add(i)
                return
            if kind in ("fails at once", "fails"):
                if kind == "fails":
                    await env.suspend(f"background task {i} fails")
                env.log(f"background task {i} fails")
                st["over"].add(i)
                st["task failed"] = True
                env.remove(st["sig_event"])
                raise RuntimeError("a background task fails")
            if kind == "ends":
                await env.suspend(f"background task {i} ends")
                st["over"].add(i)
                return
            if kind == "works":
                await env.suspend(f"background task {i} goes on")
            await asyncio.get_running_loop().create_future()
        except asyncio.CancelledError:
            env.log(f"background task {i} is cancelled")
            st["cancelled"].append(i)
            if kind == "slow":
                await asyncio.sleep(0.5)
            raise
        finally:
            st["ended"].add(i)

    async def tasks(env, st, tasks):
        st.update(started=[], over=set(), cancelled=[], ended=set())
        if setup == "fails":
            st["task failed"] = True
            env.remove(st["sig_event"])
            raise RuntimeError("the set up fails")
        for i, k in enumerate(kinds):
            tasks.append(asyncio.create_task(task(env, st, i, k)))
        st["set up"] = True

    def before_request(env, st):
        if setup != "fails" and not st.get("set up") or st.get("set up") and sorted(st["started"]) != list(range(len(kinds))):
            env.fail(f"a request is handled when only background tasks {st.get('started')} of {len(kinds)} run", "request before tasks")

    def after(env, st, acked):
        if "started" not in st:
            if env.signalled:
                return
            raise Violation("setup_tasks was never called", "not set up", env.trace[-80:])
        if st["started"] != sorted(set(st["started"])):
            raise Violation(f"background tasks were started {st['started']}", "started twice", env.trace[-80:])
        for i in st["started"]:
            if i in st["over"]:
                if i in st["cancelled"]:
                    raise Violation(f"background task {i} was over, and cancelled", "cancelled after end", env.trace[-80:])
                continue
            if i not in st["cancelled"]:
                raise Violation(f"background task {i} ran when the application ended, and was not cancelled", "not cancelled", env.trace[-80:])
            if i not in st["ended"]:
                raise Violation(f"background task {i} was cancelled, but has not ended when the application has", "not ended", env.trace[-80:])
    return c05.scenario(tasks=tasks, before_request=before_request, after=after, n=requests, signal=signal, page=1, modes=("now",), outcomes=(True,), **more)


def run(report, tier):
    appkit.load(env={"ECOENV_LOCK_DIR": ".", "ECOENV_BUFFER_DIR": ".", "ECOENV_TCP_VERIF_APP_0": "127.0.0.1:8888"}, warm=True)
    sc = [("the set up fails", life((), setup="fails")), ("no task", life(()))]
    for k in ("forever", "slow", "ends", "ends at once", "fails", "fails at once", "works"):
        sc.append((f"one task: {k}", life((k,))))
    two = ("forever", "slow", "ends", "fails")
    for a, b in [("forever", "fails"), ("slow", "fails"), ("ends", "fails"), ("ends", "slow"), ("fails", "fails")] if tier == "quick" else [(a, b) for a in two for b in two]:
        sc.append((f"two tasks: {a}, {b}", life((a, b))))
    for s in ("SIGINT", "SIGHUP"):
        sc.append((f"{s}: slow, works", life(("slow", "works"), signal=s)))
    for kinds in (("forever",) * 40, ("forever",) * 150, ("slow",) * 90, ("ends at once",) * 100 + ("slow",) * 70, ("forever",) * 15 + ("fails",), ("slow",) * 12 + ("fails at once",), ("ends at once",) * 20 + ("forever",) * 3, ("slow",) * 20):
        sc.append((f"{len(kinds)} tasks: {kinds[0]} ... {kinds[-1]}", life(kinds)))
    if tier != "quick":
        sc.append(("600 tasks: forever", life(("forever",) * 600)))
    sc.append(("one task: ends, two requests", life(("ends",), requests=2)))
    if tier != "quick":
        sc.append(("one task: fails, two requests", life(("fails",), requests=2)))
        for a in two:
            for b in two:
                for c in ("slow", "ends", "fails"):
                    sc.append((f"three tasks: {a}, {b}, {c}", life((a, b, c))))
                sc.append((f"two tasks, two requests: {a}, {b}", life((a, b), requests=2)))
    for part in explore(sc, 350 if tier == "quick" else 2400):
        report.add(part)
    report.notes["bounds"] = "up to two (thorough: three) background tasks, one or two buffered requests, termination at every event-loop boundary"
