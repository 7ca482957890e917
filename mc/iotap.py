"""Recording of every file modification made below a directory (write, truncate, unlink, rename), in order.

Needs the process to have been started with the shim preloaded: call ensure() first thing in a check.
"""
import ctypes, os, subprocess, sys, tempfile
from . import boot

_SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "iotap.c")
_T = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_void_p, ctypes.c_long)


def ensure():
    """Compile the shim and re-execute this process under it (once)."""
    if os.environ.get("VERIF_IOTAP"):
        boot._scratch = os.environ["VERIF_IOTAP"]
        boot._owner = os.getpid()
        import atexit
        atexit.register(boot._cleanup)
        return ctypes.CDLL(os.path.join(boot._scratch, "iotap.so"))
    d = boot.scratch()
    so = os.path.join(d, "iotap.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, _SRC, "-ldl"], check=True)
    env = dict(os.environ, VERIF_IOTAP=d, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-m", "mc.main"] + sys.argv[1:], env)


class Tap:
    def __init__(self, lib):
        self.lib = lib
        self.log = None
        self._cb = _T(self._on)

    def _on(self, kind, path, off, data, n):
        if self.log is not None:
            self.log.append((kind, path.decode(), off, ctypes.string_at(data, n) if n else b""))

    def start(self, directory):
        self.log = []
        self.lib.iotap_set(self._cb, directory.encode())

    def stop(self):
        self.lib.iotap_set(ctypes.cast(None, _T), b"")
        log, self.log = self.log, None
        return log


def snapshot(d):
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def step(files, ev, torn=None):
    """files after the modification ev (or after only the first `torn` bytes of it)."""
    kind, path, off, data = ev
    files = dict(files)
    if kind == 1:
        b = bytearray(files.get(path, b""))
        if off < 0:
            off = len(b)
        d = data if torn is None else data[:torn]
        if len(b) < off:
            b.extend(b"\0" * (off - len(b)))
        b[off:off + len(d)] = d
        files[path] = bytes(b)
    elif kind == 2:
        b = files.get(path, b"")
        files[path] = b[:off] if len(b) >= off else b + b"\0" * (off - len(b))
    elif kind == 3:
        files.pop(path, None)
    elif kind == 4:
        if path in files:
            files[data.decode()] = files.pop(path)
    return files
