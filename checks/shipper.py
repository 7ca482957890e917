"""The real log shipper program under a controller: what C21 and C22 share."""
import glob, json, os, signal, socket, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from mc import boot
from mc.core import Violation

_HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "shipper.cpp")
_binary = None
_servers = {}


def build():
    """Compile the shipper's sources from the working tree into this check's scratch directory."""
    global _binary
    d = boot.fresh_dir("ship")
    src = sorted(glob.glob(os.path.join(boot.REPO, "ekosis_log_shipper", "src", "**", "*.cpp"), recursive=True))
    inc = os.path.join(boot.REPO, "ekosis_log_shipper", "src")

    def cc(k, f):
        o = os.path.join(d, f"o{k}.o")
        own = f == _HARNESS
        subprocess.run(["g++", "-std=c++20", "-O0", "-w", "-c", f, "-o", o, "-I", inc, *([] if own else ["-Dmain=shipper_main"])], check=True)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda kf: cc(*kf), enumerate([_HARNESS] + src)))
    _binary = os.path.join(d, "shipper")
    subprocess.run(["g++", "-o", _binary, *objs, "-lSQLiteCpp", "-lsqlite3", "-lcurl", "-ldl", "-lpthread"], check=True)
    for o in objs:
        os.remove(o)


def server():
    """One server process per checker process."""
    if os.getpid() not in _servers:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})       # taking turns on one CPU is much faster than waking each other up across two
        a, b = socket.socketpair()
        os.set_inheritable(b.fileno(), True)
        env = {k: v for k, v in os.environ.items() if not k.startswith("LD_")}
        env["TZ"] = "America/New_York"              # not UTC, so that local time is not taken for it
        subprocess.Popen([_binary, str(b.fileno())], pass_fds=[b.fileno()], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        b.close()
        _servers[os.getpid()] = a
    return _servers[os.getpid()]


class Life:
    """One life of the shipper process."""
    def __init__(self, logs, state, io=False):
        s = server()
        mine, theirs = socket.socketpair()
        socket.send_fds(s, [f"F{int(io)}\n{logs}\n{state}\n{state}/state.db".encode()], [theirs.fileno()])
        theirs.close()
        self.pid = struct.unpack("i", s.recv(4))[0]
        self.sock, self.buf = mine, b""
        self.status = None

    def _read(self, n):
        while len(self.buf) < n:
            d = self.sock.recv(1 << 20)
            if not d:
                return None
            self.buf += d
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def next(self):
        """The point it has reached: (kind, data), or ('exit', status)."""
        h = self._read(5)
        if h is None:
            self.reap()
            return "exit", self.status
        k, n = h[:1].decode(), struct.unpack("I", h[1:])[0]
        return k, self._read(n) if n else b""

    def go(self, a=0, b=0):
        self.sock.sendall(struct.pack("ii", a, b))

    def reap(self):
        if self.status is None:
            s = server()
            s.sendall(b"R%d" % self.pid)
            self.status = struct.unpack("i", s.recv(4))[0]
            self.sock.close()

    def kill(self, wait=True):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            if wait:
                self.reap()
            else:                                    # letting go of its inotify instance takes the kernel a while
                self.status = -1
                self.sock.close()


def records(payload):
    """The log records of a payload, with the attributes of their resource."""
    doc = json.loads(payload)
    out = []
    for r in doc["resourceLogs"]:
        res = {a["key"]: a["value"] for a in r["resource"]["attributes"]}
        for sc in r["scopeLogs"]:
            for rec in sc["logRecords"]:
                out.append((res, rec))
    return out


def line(ident, app="shop", instance="0"):
    """A log line as an application writes it, with a body that identifies it."""
    return json.dumps({"timestamp": "2026-06-18T17:27:24.331740+00:00", "severity_number": 9, "severity_text": "INFO", "body": ident,
                       "attributes": {"application_name": app, "application_instance": instance, "filename": "a.py", "lineno": 7, "module": "a", "funcName": "f"},
                       "trace_id": None, "span_id": None}, separators=(",", ":")).encode() + b"\n"
