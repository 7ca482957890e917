"""C20: one running process per application instance; stale and damaged locks never block."""
TECHNIQUE = 'explicit-state exploration of start/end/crash histories of real application processes, with a real crash before every file modification of a start'
NOTE = 'Every start is a real forked process constructing the real application object on a real lock directory; processes really live, end, or are killed; starts are killed before every file modification.'
import json, os, pickle, signal, socket, sys, traceback
from mc import boot, iotap
from mc.core import Violation, digest, pmap

IDENT = {"shop/0": ("shop.py", "0"), "shop/1": ("shop.py", "1"), "store/0": ("store.py", "0"), "shop/10": ("shop.py", "10"),
         "shop-a/0": ("shop-a.py", "0"), "shop/a-0": ("shop.py", "a-0")}
NOBODY = 65534


# ------------------------------------------------------------------------------ the processes of the application
def life(sock, directory, crash, user):
    """One process life: start, report, wait for the order to end."""
    from ekosis.application_base import ApplicationBase
    os.chdir(directory)
    if user:
        try:
            os.setresgid(user, user, user)
            os.setresuid(user, user, user)
        except OSError:                    # no privilege to become somebody else: what the system call would say
            real = os.kill
            def kill(pid, sig):
                real(pid, sig)
                raise PermissionError(1, "Operation not permitted")
            os.kill = kill
    seen = [0, 0]
    if crash is not None:
        at, torn = crash
        lib = iotap.ensure()
        tap = iotap.Tap(lib)

        def on(kind, path, off, data, n):
            import ctypes
            raw = ctypes.string_at(data, n) if n else b""
            if seen[0] == at:
                if kind == 1 and torn:
                    with open(path.decode(), "r+b") as f:
                        f.seek(off if off >= 0 else os.path.getsize(path.decode()))
                        f.write(raw[:torn])
                sock.sendall(pickle.dumps(("crashed", kind, len(raw))))
                os._exit(0)
            seen[0] += 1
        tap._cb = iotap._T(on)
        tap.log = []
        lib.iotap_set(tap._cb, directory.encode())
    try:
        with ApplicationBase() as app:
            if crash is not None:
                lib.iotap_set(iotap.ctypes.cast(None, iotap._T), b"")
            sock.sendall(pickle.dumps(("started",)))
            order = sock.recv(64)
            if order != b"end":
                os._exit(1)
        sock.sendall(pickle.dumps(("ended",)))
    except BaseException as e:
        kind = "refused" if type(e).__name__ == "InstanceAlreadyRunningException" else "failed"
        sock.sendall(pickle.dumps((kind, f"{type(e).__name__}: {e}")))


def zygote(ctl, ident):
    """Has the framework loaded as this instance; forks one process per start."""
    script, instance = IDENT[ident]
    boot.prepare(script[:-3], instance, {"ECOENV_LOCK_DIR": ".", "ECOENV_BUFFER_DIR": ".", "ECOENV_LOG_DIR": "."})
    os.chdir(boot.fresh_dir("log"))
    import ekosis.application_base  # noqa
    boot.quiet_logging()
    while True:
        msg, fds, _, _ = socket.recv_fds(ctl, 65536, 1)
        if not msg:
            os._exit(0)
        cmd = pickle.loads(msg)
        if cmd[0] == "reap":
            os.waitpid(cmd[1], 0)
            ctl.sendall(b"done")
            continue
        pid = os.fork()
        if pid == 0:
            try:
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                ctl.close()
                s = socket.socket(fileno=fds[0])
                life(s, *cmd[1:])
            finally:
                os._exit(0)
        os.close(fds[0])
        ctl.sendall(pickle.dumps(pid))


class World:
    """A lock directory and the processes around it."""
    zygotes = {}

    def __init__(self):
        self.dir = boot.fresh_dir("locks")
        os.chmod(self.dir, 0o777)
        self.alive = {}                       # ident -> [(pid, socket, zygote)]
        self.others = []
        self.steps = 0

    def zyg(self, ident):
        if (os.getpid(), ident) not in self.zygotes:
            a, b = socket.socketpair()
            if os.fork() == 0:
                a.close()
                for z in self.zygotes.values():
                    z.close()
                try:
                    zygote(b, ident)
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            b.close()
            self.zygotes[(os.getpid(), ident)] = a
        return self.zygotes[(os.getpid(), ident)]

    def start(self, ident, crash=None, user=None):
        """('started',) | ('refused', text) | ('failed', text) | ('crashed', kind, bytes)"""
        self.steps += 1
        z = self.zyg(ident)
        mine, theirs = socket.socketpair()
        mine.settimeout(60)
        socket.send_fds(z, [pickle.dumps(("start", self.dir, crash, user))], [theirs.fileno()])
        theirs.close()
        pid = pickle.loads(z.recv(4096))
        data = mine.recv(65536)
        if not data:
            raise RuntimeError("process died without a word")
        res = pickle.loads(data)
        if res[0] == "started":
            self.alive.setdefault(ident, []).append((pid, mine, z))
        else:
            self.reap(pid, mine, z)
        self.last_pid = pid
        return res

    def reap(self, pid, sock, z):
        z.sendall(pickle.dumps(("reap", pid)))
        if z.recv(64) != b"done":
            raise RuntimeError("no such process")
        sock.close()

    def stop(self, ident, orderly):
        self.steps += 1
        pid, sock, z = self.alive[ident].pop()
        if orderly:
            sock.sendall(b"end")
            res = pickle.loads(sock.recv(65536) or pickle.dumps(("died",)))
            if res[0] != "ended":
                raise Violation(f"the orderly end of {ident} failed: {res}", "end fails")
        else:
            os.kill(pid, signal.SIGKILL)
        self.reap(pid, sock, z)

    def bystander(self, user=None):
        """An unrelated live process."""
        pid = os.fork()
        if pid == 0:
            try:
                if user:
                    os.setresuid(user, user, user)
            except OSError:
                pass
            while True:
                signal.pause()
        self.others.append(pid)
        return pid

    def dead_pid(self):
        pid = os.fork()
        if pid == 0:
            os._exit(0)
        os.waitpid(pid, 0)
        return pid

    def close(self):
        for ident in list(self.alive):
            while self.alive[ident]:
                self.stop(ident, False)
        for p in self.others:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        boot.drop_dir(self.dir)

    def files(self):
        out = {}
        for f in sorted(os.listdir(self.dir)):
            try:
                with open(os.path.join(self.dir, f), "rb") as fh:
                    out[f] = fh.read()
            except OSError:
                pass
        return out

    def named(self):
        """Process ids named by the files of the lock directory."""
        out = []
        for c in self.files().values():
            t = c.split(b"\n")[0].strip()
            if t.isdigit():
                out.append(int(t))
        return out


# ------------------------------------------------------------------------------ histories
def check_start(w, ident, hist, crash=None, user=None):
    res = w.start(ident, crash, user)
    running = bool(w.alive.get(ident)) and (res[0] != "started" or len(w.alive[ident]) > 1)
    if res[0] == "failed":
        raise Violation(f"after {hist}: starting {ident} fails: {res[1]}", "start fails")
    if running and res[0] == "started":
        raise Violation(f"after {hist}: {ident} is started although it is already running", "started twice")
    if not running and res[0] == "refused":
        raise Violation(f"after {hist}: starting {ident} is refused although it is not running: {res[1]}", "start refused")
    if res[0] == "started" and w.last_pid not in w.named():
        raise Violation(f"after {hist}: {ident} was started as process {w.last_pid}, but no lock names it: {w.files()}", "lock does not name the process")
    return res


def apply(w, op, hist):
    kind, ident = op[0], op[1]
    if kind == "start":
        return check_start(w, ident, hist)
    if kind == "crash":
        return check_start(w, ident, hist, crash=op[2])
    w.stop(ident, kind == "end")


def state(w, idents):
    live = {w.alive[i][0][0]: i for i in w.alive if w.alive[i]}
    def cls(c):
        t = c.strip()
        if t.isdigit():
            return live.get(int(t), "dead")
        return "damaged" if t else "empty"
    return tuple(sorted((f, cls(c), c.endswith(b"\n")) for f, c in w.files().items())), tuple(i for i in idents if w.alive.get(i))


def points(w_ops):
    """All crash points of a start after this history: before every modification (a write of a few bytes happens or not)."""
    out, at = [], 0
    while True:
        w = World()
        try:
            for o in w_ops[:-1]:
                apply(w, o, ())
            res = w.start(w_ops[-1], crash=(at, 0))
        finally:
            w.close()
        if res[0] != "crashed":
            return out
        out.append((at, 0))
        at += 1


def work_graph(job):
    """States reached by extending one history by every operation."""
    ops, idents, torn = job
    w = World()
    try:
        for o in ops:
            apply(w, o, ops)
        alive = [i for i in idents if w.alive.get(i)]
    finally:
        w.close()
    nxt = []
    for i in idents:
        nxt.append(("start", i))
        if i in alive:
            nxt += [("end", i), ("kill", i)]
        if i == idents[0] or torn:
            nxt += [("crash", i, p) for p in points(list(ops) + [i])]
    out, steps = [], 0
    for o in nxt:
        w = World()
        h = list(ops) + [o]
        try:
            for k, x in enumerate(h):
                apply(w, x, h[:k])
            # whatever happened: each instance that is not running can be started now, each that runs cannot
            st = state(w, idents)
            for i in idents:
                check_start(w, i, h)
            out.append((h, st, None))
        except Violation as e:
            out.append((h, None, (e.what, e.sig)))
        finally:
            steps += w.steps
            w.close()
    return out, steps


def graph(report, name, idents, depth, torn):
    seen, level, n, trans, viol, sizes = set(), [()], 0, 0, [], []
    samples = []
    for d in range(depth):
        nxt = {}
        for out, steps in pmap(work_graph, [(h, idents, torn) for h in level]):
            trans += steps
            for h, st, v in out:
                n += 1
                if v:
                    if len(viol) < 3:
                        viol.append({"what": v[0], "sig": v[1], "trace": [str(o) for o in h], "replay": {"history": h}})
                elif st not in seen:
                    seen.add(st)
                    nxt[st] = tuple(h)
        level = [nxt[s] for s in sorted(nxt, key=repr)]
        sizes.append(len(level))
        samples += [{"history": [list(map(str, o)) for o in h]} for h in level[-1:]]
        if not level or viol:
            break
    report.add({"name": name, "states": {digest(s) for s in seen}, "transitions": trans, "traces": n, "samples": samples, "violations": viol,
                "exhaustive": not viol, "frontier": sizes, "closed": not level, "depth": depth})


# ------------------------------------------------------------------------------ what a lock file may contain
def contents(w):
    dead, me = w.dead_pid(), w.bystander()
    other = w.bystander(NOBODY)
    yield "absent", None, False
    for name, c in (("empty", b""), ("blank line", b"\n"), ("zero bytes", b"\0" * 8), ("a zero byte", b"\0"), ("text", b"garbage\n"), ("half a number", b"12x4\n"),
                    ("not utf-8", b"\xff\xfe\xfd\n"), ("process group 0", b"0\n"), ("process group -1", b"-1\n"), ("negative", b"-%d\n" % me),
                    ("beyond 64 bits", b"99999999999999999999999\n"), ("beyond 32 bits", b"4294967297\n"), ("5000 digits", b"9" * 5000 + b"\n"), ("a float", b"1.5\n"),
                    ("a minus", b"-\n"), ("second line only", b"\n%d\n" % me)):
        yield name, c, False
    yield "a dead process", b"%d\n" % dead, False
    yield "a dead process, no line end", b"%d" % dead, False
    yield "a live process", b"%d\n" % me, True
    yield "a live process of another user", b"%d\n" % other, True
    yield "a live process and another line", b"%d\nmore\n" % me, True


def work_content(job):
    ident, user = job
    out, steps = [], 0
    w0 = World()
    names = None
    try:
        check_start(w0, ident, "a fresh directory")
        names = list(w0.files())
        w0.stop(ident, False)
    except Violation as e:
        return [((), (e.what, e.sig))], w0.steps
    finally:
        w0.close()
    probe = World()
    try:
        for name, c, refuse in contents(probe):
            w = World()
            hist = f"lock content: {name}" + (f", started by user {user}" if user else "")
            try:
                for f in names:
                    if c is not None:
                        p = os.path.join(w.dir, f)
                        with open(p, "wb") as fh:
                            fh.write(c)
                        os.chmod(p, 0o666)
                res = w.start(ident, None, user)
                if res[0] == "failed":
                    raise Violation(f"{hist}: starting {ident} fails: {res[1]}", "start fails")
                if (res[0] == "refused") != refuse:
                    raise Violation(f"{hist}: the start of {ident} should have been {'refused' if refuse else 'possible'}: {res}", "started twice" if refuse else "start refused")
                if refuse and any(w.files().get(f) != c for f in names):
                    raise Violation(f"{hist}: a refused start changed the lock: {w.files()}", "refused start changes lock")
                if not refuse:
                    if w.last_pid not in w.named():
                        raise Violation(f"{hist}: {ident} runs as {w.last_pid}, but no lock names it: {w.files()}", "lock does not name the process")
                    r2 = w.start(ident, None, user)
                    if r2[0] != "refused":
                        raise Violation(f"{hist}, then {ident} started: a second start is not refused: {r2}", "started twice")
                    w.stop(ident, True)
                    r3 = w.start(ident, None, user)
                    if r3[0] != "started":
                        raise Violation(f"{hist}, then {ident} started and ended: a start is not possible: {r3}", "start refused")
                out.append(((ident, user, name), None))
            except Violation as e:
                out.append(((ident, user, name), (e.what, e.sig)))
            finally:
                steps += w.steps
                w.close()
    finally:
        probe.close()
    return out, steps


def work_pair(job):
    """Two different instances: the life of one has no influence on the other."""
    a, b = job
    out, steps = [], 0
    for how in ("running", "ended", "killed"):
        w = World()
        h = f"{a} {how}"
        try:
            check_start(w, a, "nothing")
            if how != "running":
                w.stop(a, how == "ended")
            try:
                check_start(w, b, h)
                check_start(w, a, f"{h}, {b} running")
            except Violation as e:
                raise Violation(e.what, f"{e.sig}: {min(a, b)} and {max(a, b)}")
            out.append(((a, b, how), None))
        except Violation as e:
            out.append(((a, b, how), (e.what, e.sig)))
        finally:
            steps += w.steps
            w.close()
    return out, steps


def run(report, tier):
    iotap.ensure()
    import pydantic, sqlalchemy, sqlalchemy.orm, asyncio, logging.handlers  # noqa
    os.chmod(boot.scratch(), 0o711)
    quick = tier == "quick"
    graph(report, "histories of one instance", ("shop/0",), 6 if quick else 12, True)
    graph(report, "histories of three instances", ("shop/0", "shop/1", "store/0"), 5 if quick else 9, False)
    for name, fn, jobs in (("contents of the lock file", work_content, [(i, u) for i in ("shop/0", "store/0") for u in (None, NOBODY)]),
                           ("pairs of instances", work_pair, [(a, b) for a in IDENT for b in IDENT if a != b])):
        part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
        for out, steps in pmap(fn, jobs):
            part["transitions"] += steps
            for key, v in out:
                part["traces"] += 1
                part["states"].add(key)
                if v:
                    part["violations"].append({"what": v[0], "sig": v[1], "trace": [str(key)], "replay": {"case": key}})
        part["samples"].append({"case": str(sorted(part["states"], key=repr)[0])})
        report.add(part)
    report.notes["bounds"] = "histories of start/end/kill/crash-in-start up to the given depth with equal lock states merged; 22 lock contents x 2 users; all ordered pairs of 6 instances"
