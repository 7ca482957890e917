"""Explicit-state exploration of a sequential component by transition tour.

The component is the real object. Every (canonical state, operation) pair that is reachable within the bounds is
executed at least once and compared with the reference automaton; known edges are only used to travel to states
that still have unexecuted operations. Canonical digests only decide what counts as "already explored"; a digest
that is too fine makes the search bigger, never wrong.
"""
import collections, time
from .core import Violation, Hang, alarm, digest, HANG


def canon(obj, rename=None, skip=(), depth=0, seen=None):
    """Generic canonical form of an object graph: attribute names and plain data, aliasing by first visit."""
    if seen is None:
        seen = {}
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        if rename is not None:
            return rename(obj)
        return obj
    if depth > 40:
        return "<deep>"
    if id(obj) in seen:
        return ("ref", seen[id(obj)])
    if rename is not None:
        r = rename(obj)
        if r is not obj:
            return r
    t = type(obj)
    mod = t.__module__ or ""
    if isinstance(obj, (list, tuple, collections.deque)):
        seen[id(obj)] = len(seen)
        return (t.__name__, tuple(canon(x, rename, skip, depth + 1, seen) for x in obj))
    if isinstance(obj, dict):
        seen[id(obj)] = len(seen)
        return ("dict", tuple((canon(k, rename, skip, depth + 1, seen), canon(v, rename, skip, depth + 1, seen)) for k, v in obj.items()))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(x, rename, skip, depth + 1, seen)) for x in obj)))
    if isinstance(obj, type) or callable(obj) and not hasattr(obj, "__dict__"):
        return getattr(obj, "__qualname__", str(t))
    if not (mod.startswith("ekosis") or mod.startswith("checks") or mod == "__main__"):
        return "<" + t.__qualname__ + ">"
    seen[id(obj)] = len(seen)
    fields = []
    d = getattr(obj, "__dict__", None)
    if d:
        fields += [(k, v) for k, v in d.items()]
    for c in t.__mro__:
        sl = c.__dict__.get("__slots__", ())
        for s in ((sl,) if isinstance(sl, str) else sl):
            if hasattr(obj, s) and s not in ("__dict__", "__weakref__"):
                fields.append((s, getattr(obj, s)))
    return (t.__name__, tuple((k, canon(v, rename, skip, depth + 1, seen)) for k, v in fields if k not in skip))


class Tour:
    """system: reset(), ops()->list of hashable ops, apply(op) (raises Violation), digest()."""
    def __init__(self, name, system, budget_s, max_states=10**9, max_history=250, hang=HANG, max_violations=3):
        self.name, self.sys = name, system
        self.deadline = time.time() + budget_s
        self.max_states, self.max_history, self.hang = max_states, max_history, hang
        self.graph = {}       # digest -> {op: digest}
        self.todo = {}        # digest -> list of unexecuted ops
        self.transitions = self.travel = self.resets = 0
        self.violations, self.samples = [], []
        self.max_violations = max_violations
        self.truncated = False

    def _note(self, d):
        if d not in self.graph:
            if len(self.graph) >= self.max_states:
                self.truncated = True
                self.graph[d] = {}
                self.todo[d] = []
            else:
                self.graph[d] = {}
                self.todo[d] = list(self.sys.ops())[::-1]
                if self.todo[d]:
                    self.open.add(d)
        return d

    def _reset(self):
        self.sys.reset()
        self.history = []
        self.resets += 1
        self.cur = self._note(self.sys.digest())
        return self.cur

    def _step(self, op):
        self.history.append(op)
        try:
            with alarm(self.hang):
                self.sys.apply(op)
                d = self.sys.digest()
        except Violation as e:
            self._violation(op, e.what, e.sig)
            return False
        except Hang as e:
            self._violation(op, f"operation {op} does not terminate ({e})", "hang", True)
            self.max_violations = 0
            return False
        self.graph[self.cur][op] = self._note(d)
        self.cur = d
        return True

    def _violation(self, op, what, sig, hangs=False):
        replay = list(self.history)
        short = self._path(self.root, {self.cur})
        if short is not None and not hangs and len(short) + 1 < len(replay):
            try:
                self.sys.reset()
                for o in short:
                    self.sys.apply(o)
            except (Violation, Hang):
                pass
            else:
                try:
                    with alarm(self.hang):
                        self.sys.apply(op)
                except (Violation, Hang):
                    replay = short + [op]
        self.violations.append({"what": f"{self.name}: after {[str(o) for o in replay][-12:]}: {what}", "sig": sig,
                                "replay": {"system": self.name, "ops": [list(o) if isinstance(o, tuple) else o for o in replay]},
                                "trace": [str(o) for o in replay] + [what]})

    def _path(self, start, targets):
        """Shortest known path from start to any state in targets (list of ops)."""
        prev = {start: None}
        q = collections.deque([start])
        while q:
            s = q.popleft()
            if s in targets:
                path = []
                while prev[s] is not None:
                    s, op = prev[s]
                    path.append(op)
                return path[::-1]
            for op, n in self.graph[s].items():
                if n not in prev:
                    prev[n] = (s, op)
                    q.append(n)
        return None

    def run(self):
        self.open = set()
        self.root = None
        try:
            self.root = self._reset()
        except Violation as e:
            self.violations.append({"what": f"{self.name}: initial state: {e.what}", "sig": e.sig, "replay": {"system": self.name, "ops": []}})
            return self._part(True)
        done = True
        while self.open:
            if time.time() > self.deadline:
                done = False
                break
            if len(self.violations) >= self.max_violations:
                done = False
                break
            todo = self.todo[self.cur]
            if todo:
                op = todo.pop()
                if not todo:
                    self.open.discard(self.cur)
                self.transitions += 1
                ok = self._step(op)
                if len(self.samples) < 2 and len(self.history) in (6, 18):
                    self.samples.append({"system": self.name, "ops": [str(o) for o in self.history]})
                if not ok or len(self.history) > self.max_history:
                    self._reset()
                continue
            self.open.discard(self.cur)
            path = self._path(self.cur, self.open)
            if path is None:
                self._reset()
                path = self._path(self.cur, self.open)
                if path is None:
                    # remaining open states are not reachable by known deterministic edges
                    done = not self.open
                    break
            for op in path:
                want = self.graph[self.cur][op]
                self.travel += 1
                self.sys.travelling = True       # systems may skip re-observation on edges already checked
                ok = self._step(op)
                self.sys.travelling = False
                if not ok:
                    self._reset()
                    break
                if self.cur != want:
                    break
        return self._part(done and not self.truncated)

    def _part(self, exhaustive):
        if not self.samples and getattr(self, "history", None):
            self.samples.append({"system": self.name, "ops": [str(o) for o in self.history[:40]]})
        return {"name": self.name, "states": set(self.graph), "transitions": self.transitions + self.travel,
                "traces": self.resets, "samples": self.samples, "violations": self.violations,
                "exhaustive": exhaustive, "distinct_state_operation_pairs": self.transitions}
