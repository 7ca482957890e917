"""C27: the command line tools do exactly what their options say."""
TECHNIQUE = 'exhaustive enumeration of option combinations and server answers of the real tools on a virtual network, and explicit-state exploration of real queues managed through the tools'
NOTE = 'Every tool is run with every combination of up to two options, over every server type, against servers that answer every kind of answer or fail in every way; and every management action is taken through the tools in every reachable state of a buffered endpoint and a buffered sender, and compared with a reference.'
import asyncio, contextlib, io, itertools, json, os, runpy, socket, subprocess, sys, threading
from collections import Counter
from mc import appkit, boot, vloop
from mc.core import Violation, Chooser, digest, pmap
from mc.tour import Tour
from checks.clients import Peer
from checks.managed import ManagedBuffer

BEM = {"-pr": "--pause_receiving", "-pp": "--pause_processing", "-ur": "--unpause_receiving", "-up": "--unpause_processing", "-pa": "--pause_all", "-ua": "--unpause_all",
       "-e10": "--error_10", "-rp1": "--reprocess_one", "-rpa": "--reprocess_all", "-ins": "--inspect_request", "-pop": "--pop_request", "-clr": "--clear"}
BSM = {"-ps": "--pause_sending", "-us": "--unpause_sending", "-e10": "--error_10", "-rp1": "--reprocess_one", "-rpa": "--reprocess_all", "-ins": "--inspect_request", "-pop": "--pop_request", "-clr": "--clear"}
ROUTE = {None: "data", "-pr": "receiving.pause", "-pp": "processing.pause", "-ur": "receiving.unpause", "-up": "processing.unpause", "-pa": "all.pause", "-ua": "all.unpause", "-ps": "send_process.pause",
         "-us": "send_process.unpause", "-e10": "errors.get_first_10", "-rp1": "errors.reprocess.one", "-rpa": "errors.reprocess.all", "-ins": "errors.inspect_request", "-pop": "errors.pop_request",
         "-clr": "errors.clear"}
ITEM = ("-rp1", "-ins", "-pop")
OPTION = {"data": None, "pause": "-pp", "unpause": "-up", "rpause": "-pr", "runpause": "-ur", "apause": "-pa", "aunpause": "-ua", "first": "-e10", "reall": "-rpa", "clear": "-clr", "reone": "-rp1",
          "popone": "-pop", "inspect": "-ins"}
SERVERS = {"tcp": "127.0.0.1:9", "udp": "127.0.0.1:9", "uds": "/nowhere/s"}
OTHERS = {"tcp": "some.host-1:65535", "udp": "localhost:8080", "uds": "run/My App_0.uds.sock"}
QUEUES = ("shop.order", "Shop.order_2.Late-1")


class Policy(asyncio.DefaultEventLoopPolicy):
    loop = None

    def new_event_loop(self):
        return self.loop


class Result:
    def __init__(self):
        self.code, self.out, self.err, self.lines, self.now, self.addresses = 0, "", "", [], 0.0, []


def tool(name, argv, serve, on_connect=lambda n: None):
    """Run a tool as its own main program; serve(link, line, loop) answers requests."""
    for m in [m for m in sys.modules if m == "ekosis.cli" or m.startswith("ekosis.cli.")]:
        del sys.modules[m]
    outer = asyncio.events._get_running_loop()
    asyncio.events._set_running_loop(None)
    env = vloop.Env(Chooser(), max_boundaries=20000)
    loop = vloop.VLoop(env)
    env.loop = loop
    vloop.VNet(loop)
    r = Result()

    def line(link, data):
        r.lines.append(data)
        serve(link, data, loop)
    peer = Peer(env, loop, on_connect, line)
    connect = loop.net.on_connect

    async def seen(addr, factory):
        r.addresses.append(addr)
        return await connect(addr, factory)
    loop.net.on_connect = seen
    datagram = loop.net.on_datagram

    def sent_to(local, remote, t):
        if remote is not None:
            r.addresses.append(("udp", *remote[:2]))
        return datagram(local, remote, t)
    loop.net.on_datagram = sent_to
    policy, args = asyncio.get_event_loop_policy(), sys.argv
    mine = Policy()
    mine.loop = loop
    asyncio.set_event_loop_policy(mine)
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [name, *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_module("ekosis.cli." + name, run_name="__main__", alter_sys=False)
            except SystemExit as e:
                r.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except vloop.Quiescent:
                raise Violation(f"{name} {' '.join(argv)} never ends", "tool never ends")
            except Violation:
                raise
            except Exception as e:
                r.code, r.err = 1, repr(e)
    finally:
        sys.argv = args
        asyncio.set_event_loop_policy(policy)
        vloop.dispose(loop, env)
        asyncio.events._set_running_loop(outer)
    r.out, r.now = out.getvalue(), env.now
    r.err += err.getvalue()
    return r


def docs(r):
    return [json.loads(l) for l in r.lines if l[:1] != b"\x05"]


def leaves(x, names=False):
    if isinstance(x, dict):
        for k, v in x.items():
            if names:
                yield str(k)
            yield from leaves(v, names or k in ("statistics", "request_data"))
    elif isinstance(x, list):
        for v in x:
            yield from leaves(v, names)
    elif x is not None:
        yield json.dumps(x).strip('"') if not isinstance(x, str) else x


def shown(what, r, answer):
    for leaf, n in Counter(leaves(answer)).items():
        if max(r.out.count(leaf), r.out.count(json.dumps(leaf)[1:-1])) < n:
            raise Violation(f"{what}: the answer's {leaf!r} is not shown ({n} times): {r.out[:400]!r}", "answer not shown")


def reply(link, line, loop, data, status=0):
    d = json.loads(line)
    out = (json.dumps({"span_key": d["span_key"], "status": status, "data": data}) + "\n").encode()
    loop.call_soon(lambda: link.answer(out))


# ------------------------------------------------------------------------------ what is sent
KEY = "01234567-89ab-cdef-0123-456789abcdef:00000000000000ab"


def expected(name, opts, key, queue=QUEUES[0]):
    """The requests a command line asks for: a list of (route, data) or None if it is wrong."""
    if name == "stat":
        kinds = [v for o, v in opts]
        return [("eco.statistics.get", {"type": kinds[-1] if kinds else "current"})]
    if name == "log":
        d = dict(opts)
        return [(f"eco.log.{'level' if o == '-l' else 'buffer'}", {"level": v} if o == "-l" else {"size": int(v)}) for o, v in d.items()]
    acts = {o for o, _ in opts}
    if len(acts) > 1:
        return None
    act = next(iter(acts), None)
    data = {"queue_route_key": queue}
    if act in ITEM:
        if not key:
            return None
        data["span_key"] = key
    return [(f"eco.buffered_{'handler' if name == 'bem' else 'sender'}.{ROUTE[act]}", data)]


def answer_for(route, data):
    if route == "eco.statistics.get":
        return {"statistics": {"uptime": 5, "custom": {"a": {"b": 1.5}}, "type asked": data["type"]}}
    if route == "eco.log.level":
        return {"level": data["level"]}
    if route == "eco.log.buffer":
        return {"size": data["size"]}
    return {"queue_data": None, "request_data": None, "message": "done as told"}


def combos():
    out = []
    for name, acts in (("bem", BEM), ("bsm", BSM)):
        other = [o for o in (BEM if name == "bsm" else BSM) if o not in acts]
        singles = [[]] + [[(o, None)] for o in acts]
        pairs = [[(a, None), (b, None)] for a, b in itertools.permutations(acts, 2)]
        for opts in singles + pairs:
            for key in (None, KEY):
                out.append((name, opts, key, None))
        out += [(name, [(o, None)], KEY, "foreign") for o in other]
        for act in [None, *acts]:
            out.append((name, [(act, None)] if act else [], KEY, "no route key"))
        for act in ITEM:
            out += [(name, [(act, None)], k, "bad key") for k in ("xyz", KEY[:-1], KEY + "0", "", KEY.replace(":", ""), KEY.replace("a", "g"), KEY.replace(":", "::"))]
    for name in ("bem", "bsm", "stat", "log"):
        for flaw in ("no server type", "no server details", "other server type"):
            out.append((name, [("-l", "info")] if name == "log" else [], None, flaw))
    types = ("current", "gathered", "full")
    out += [("stat", [("-type", t)], None, None) for t in types] + [("stat", [], None, None)] + [("stat", [("-type", t)], None, "foreign") for t in ("all", "", "Current")]
    levels = ("debug", "info", "warn", "error", "critical")
    sizes = ("0", "1", "17", "100000")
    out += [("log", [], None, None)] + [("log", [("-l", v)], None, None) for v in levels] + [("log", [("-b", v)], None, None) for v in sizes]
    out += [("log", list(p), None, None) for l in levels for s in sizes for p in ((("-l", l), ("-b", s)), (("-b", s), ("-l", l)))]
    out += [("log", [(o, v)], None, "foreign") for o, v in (("-l", "loud"), ("-l", ""), ("-b", "x"), ("-b", "1.5"), ("-b", ""))]
    return out


def sent_part(job):
    st, long = job
    part = {"name": f"requests sent over {st}{' (long options)' if long else ''}", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    names = {**BEM, **BSM, "-type": "--type", "-l": "--level", "-b": "--buff_size", "-rk": "--route_key", "-sk": "--span_key", "-st": "--server_type", "-sd": "--server_details"}
    f = (lambda o: names[o]) if long else (lambda o: o)
    for name, opts, key, flaw in combos():
        if len(part["violations"]) >= 3:
            break
        for where in ("before", "after") if not long else ("before",):
            details, queue = (OTHERS if long else SERVERS)[st], QUEUES[long]
            server = [f("-st"), st, f("-sd"), details]
            if flaw == "no server type":
                server = server[2:]
            elif flaw == "no server details":
                server = server[:2]
            elif flaw == "other server type":
                server[1] = "unix"
            mine = [] if name in ("stat", "log") or flaw == "no route key" else [f("-rk"), queue]
            for o, v in opts:
                mine += [f(o)] + ([v] if v is not None else [])
            if key is not None:
                mine += [f("-sk"), key]
            argv = server + mine if where == "before" else mine + server
            what = f"{name} {' '.join(argv)}"
            want = None if flaw else expected(name, opts, key, queue)
            answers = []

            def serve(link, line, loop):
                if line[:1] == b"\x05":
                    loop.call_soon(lambda: link.answer(b"\x06\n"))
                    return
                d = json.loads(line)
                a = answer_for(d["route_key"], d["data"])
                answers.append(a)
                reply(link, line, loop, a)
            try:
                r = tool(name, argv, serve)
                got = [(d["route_key"], d["data"]) for d in docs(r)]
                for _, data in got:
                    if isinstance(data.get("span_key"), dict):
                        data["span_key"] = data["span_key"]["trace_id"] + ":" + data["span_key"]["span_id"]
                if want is None:
                    if got:
                        raise Violation(f"{what}: wrong options, but {got} is sent", "sent although wrong")
                    if r.code == 0:
                        raise Violation(f"{what}: wrong options, but the tool ends successfully", "wrong options accepted")
                else:
                    if sorted(map(repr, got)) != sorted(map(repr, want)):
                        raise Violation(f"{what}: sent {got}, asked for {want} ({r.err[-200:]})", "wrong requests")
                    if r.code:
                        raise Violation(f"{what}: answered, but the tool ends with status {r.code} ({r.err[-200:]})", "status")
                    for a in answers:
                        shown(what, r, a)
                    right = (st, details) if st == "uds" else (st, details.split(":")[0], int(details.split(":")[1]))
                    for addr in r.addresses:
                        if tuple(addr) != right:
                            raise Violation(f"{what}: connects to {addr}", "wrong server")
                    if st != "udp" and want and not r.addresses:
                        raise Violation(f"{what}: does not connect over {st}", "wrong server")
            except Violation as e:
                part["violations"].append({"what": e.what, "sig": e.sig, "trace": e.detail, "replay": {"argv": [name, *argv]}})
                continue
            part["traces"] += 1
            part["transitions"] += 1 + len(r.lines)
            part["states"].add(digest((name, opts, key, flaw)))
            if len(part["samples"]) < 2 and got:
                part["samples"].append({"argv": [name, *argv], "sent": repr(got)})
    return part


# ------------------------------------------------------------------------------ what is shown
def shapes():
    hs = [{"route_key": "shop.order", "receiving_paused": a, "processing_paused": b, "database_sizes": {"pending": p, "error": e}} for a in (True, False) for b in (True, False) for p, e in ((0, 0), (3, 0), (0, 12345))]
    ss = [{"route_key": "shop.order", "send_process_paused": a, "database_sizes": {"pending": p, "error": e}} for a in (True, False) for p, e in ((0, 0), (7, 12345))]
    ls = [[], [KEY], [KEY, KEY.replace("a", "b")], [KEY.replace("0123-", f"{n:04d}-") for n in range(12)]]
    rs = [None, {"n": 5}, {"text": "m\u00e9ss\"age\n", "list": [1, {"deep": "value"}]}, {"n": 17.25, "flag": True}]
    return [{"queue_data": q, "request_data": d, "message": m} for q in [None, *hs, *ss, *ls] for d in rs for m in ("all well", "n\u00f6 queue for [x]")]


def answers_part(name):
    part = {"name": f"{name}: answers and failures", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    base = ["-st", "tcp", "-sd", SERVERS["tcp"]]
    cases = []
    if name in ("bem", "bsm"):
        acts = BEM if name == "bem" else BSM
        for act in [None, *acts]:
            argv = base + ["-rk", "shop.order"] + ([act] if act else []) + (["-sk", KEY] if act in ITEM else [])
            cases += [(argv, ("data", s)) for s in (shapes() if act in (None, "-ins") else shapes()[::7])]
    elif name == "stat":
        cases = [(base, ("data", {"statistics": s})) for s in ({}, {"a": 1}, {"a": {"b": {"c": 1.25}}, "text": "\u00e9"}, {"list": [{"timestamp": 5}, {"timestamp": 6.5}]}, {f"group{n}": {"count": n * 1000003} for n in range(700)})]
    else:
        cases = [(base + ["-l", "info"], ("data", {"level": v})) for v in ("info", "debug")] + [(base + ["-b", "7"], ("data", {"size": v})) for v in (7, 0, 100)]
    failing = {tuple(a) for a, _ in cases}
    for a in sorted(failing):
        cases += [(list(a), ("status", s)) for s in (100, 101, 102, 200, 300, 400, 500, 999)]
        for st, sd in SERVERS.items():
            b = ["-st", st, "-sd", sd] + list(a)[4:]
            cases += [(b, (k, None)) for k in ("refuse", "close", "garbage", "silent", "wrong data") if not (st == "udp" and k in ("refuse", "close"))]
    for argv, (kind, x) in cases:
        if len(part["violations"]) >= 3:
            break
        what = f"{name} {' '.join(argv)}, server: {kind} {x if kind != 'data' else json.dumps(x)[:200]}"

        def serve(link, line, loop):
            if line[:1] == b"\x05":
                loop.call_soon(lambda: link.answer(b"\x06\n"))
            elif kind == "data":
                reply(link, line, loop, x)
            elif kind == "status":
                reply(link, line, loop, "the reason is this", x)
            elif kind == "close":
                loop.call_soon(link.eof)
            elif kind == "garbage":
                loop.call_soon(lambda: link.answer(b"no json\n"))
            elif kind == "wrong data":
                reply(link, line, loop, {"something": "else"})
        try:
            r = tool(name, argv, serve, lambda n: ConnectionRefusedError("refused") if kind == "refuse" else None)
            sent = {json.dumps([d["route_key"], d["data"]]) for d in docs(r)}
            if len(sent) > 1:
                raise Violation(f"{what}: different requests are sent: {sent}", "wrong requests")
            if kind == "data":
                if r.code or len(docs(r)) != 1:
                    raise Violation(f"{what}: ends with status {r.code} after {len(docs(r))} requests ({r.err[-200:]})", "status")
                shown(what, r, x)
            elif r.code == 0:
                raise Violation(f"{what}: the tool ends successfully, showing {r.out[:200]!r}", "failure not reported")
        except Violation as e:
            part["violations"].append({"what": e.what, "sig": e.sig, "trace": e.detail, "replay": {"argv": [name, *argv]}})
            continue
        part["traces"] += 1
        part["transitions"] += 1 + len(r.lines)
        part["states"].add(digest((name, argv, kind, repr(x))))
        if len(part["samples"]) < 2:
            part["samples"].append({"argv": [name, *argv], "server": f"{kind} {x}"[:200], "status": r.code})
    return part


# ------------------------------------------------------------------------------ real queues
class ByTool(ManagedBuffer):
    """Every management request is made by running the tool."""
    turn = 0

    def request(self, op, key=None, queue=None):
        name = "bsm" if self.kind == "sender" else "bem"
        act = OPTION[op]
        if name == "bsm":
            act = {"-pp": "-ps", "-up": "-us"}.get(act, act)
        ByTool.turn += 1
        st = ("tcp", "uds", "udp")[ByTool.turn % 3]
        argv = ["-st", st, "-sd", SERVERS[st], "-rk", queue or self.route] + ([act] if act else []) + (["-sk", str(key)] if key is not None else [])
        got = []

        def serve(link, line, loop):
            if line[:1] == b"\x05":
                loop.call_soon(lambda: link.answer(b"\x06\n"))
                return
            outer = asyncio.events._get_running_loop()
            asyncio.events._set_running_loop(None)
            try:
                self.conn.waiting.append(got.append)
                self.conn.send(line if line.endswith(b"\n") else line + b"\n")
                self.settle()
            finally:
                asyncio.events._set_running_loop(outer)
            out = (json.dumps(got[-1]) + "\n").encode()
            loop.call_soon(lambda: link.answer(out))
        r = tool(name, argv, serve)
        asyncio.set_event_loop(self.loop)
        what = f"{name} {' '.join(argv)}"
        if len(got) != 1 or got[0]["status"] or r.code:
            raise Violation(f"{what}: {len(got)} requests, answers {[g['status'] for g in got]}, ends with status {r.code} ({r.err[-200:]})", "tool fails")
        shown(what, r, got[0]["data"])
        return got[0]["data"]


# ------------------------------------------------------------------------------ on its own
def process_part(name):
    """The tool as a real process with a real server."""
    part = {"name": f"{name} as a process", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    argv = {"stat": [], "log": ["-l", "info"], "bem": ["-rk", "a.b"], "bsm": ["-rk", "a.b"]}[name]
    for ok in (True, False):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        s.listen(5)
        got = []

        def server():
            while True:
                try:
                    c, _ = s.accept()
                except OSError:
                    return
                with c:
                    f = c.makefile("rwb")
                    for l in f:
                        if l[:1] == b"\x05":
                            f.write(b"\x06\n")
                        else:
                            d = json.loads(l)
                            got.append(d)
                            f.write((json.dumps({"span_key": d["span_key"], "status": 0 if ok else 300, "data": answer_for(d["route_key"], d["data"]) if ok else "no"}) + "\n").encode())
                        f.flush()
        threading.Thread(target=server, daemon=True).start()
        env = {k: v for k, v in os.environ.items() if not k.startswith("ECOENV")}
        env.update(PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE="1")
        d = boot.fresh_dir("cli")
        r = subprocess.run([sys.executable, "-m", "ekosis.cli." + name, "-st", "tcp", "-sd", f"127.0.0.1:{s.getsockname()[1]}", *argv], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        s.close()
        if ok and (r.returncode or len(got) != 1) or not ok and (r.returncode == 0 or len(got) < 1):
            part["violations"].append({"what": f"{name} as a process: status {r.returncode} after {len(got)} requests answered {'well' if ok else 'with a failure'}: {r.stderr[-300:]}", "sig": "process", "replay": {"argv": argv}})
        part["traces"] += 1
        part["transitions"] += 1 + len(got)
        part["states"].add((name, ok))
        boot.drop_dir(d)
    return part


def run(report, tier):
    appkit.load()
    q = tier == "quick"
    jobs = [("sent", (st, long)) for st in SERVERS for long in (False, True)] + [("answers", n) for n in ("bem", "bsm", "stat", "log")] + [("process", n) for n in ("bem", "bsm", "stat", "log")]
    for kind in ("handler", "sender"):
        jobs += [("tour", (kind, 1, 3 if q else 4, 0, ("errors", "unknown"))), ("tour", (kind, 2, 2 if q else 3, 0, ("switch", "errors", "unknown")))]

    def one(j):
        what, arg = j
        if what == "tour":
            return Tour(f"real queue of a {arg[0]}, page={arg[1]} messages={arg[2]} {arg[4]}", ByTool(*arg), 200 if q else 2400).run()
        return {"sent": sent_part, "answers": answers_part, "process": process_part}[what](arg)
    for part in pmap(one, jobs):
        report.add(part)
    report.notes["bounds"] = "up to two options per command line (all orders), keys given or not; queues of up to 3 (thorough: 4) messages"
