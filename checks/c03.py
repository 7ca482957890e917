"""C03: the process is killed at every file-system-visible instant of every queue operation in every queue state."""
TECHNIQUE = 'exhaustive crash-point and torn-write enumeration on the real queue'
NOTE = 'Every file-system-changing system call of every operation in every reachable state within bounds is a kill point, torn writes included; the surviving files are reopened with the real code. Assumes a process kill (not power loss): completed system calls persist.'
import os, sqlite3
from mc import boot, iotap
from mc.core import Violation, pmap, digest
from mc.tour import Tour
from .queues import QueueSystem, plain


class CrashSystem(QueueSystem):
    def __init__(self, page_size, max_items, restart_sizes, tap, torn):
        super().__init__(page_size, max_items, restart_sizes, light=True)
        self.tap, self.torn = tap, torn
        self.seen_pairs = set()
        self.points = self.images = self.checked = self.unmatched = 0
        self.cache = {}

    def ops(self):
        return super().ops() + [("kill",)]

    def observe(self):      # functional agreement is C01/C02's business; here only what survives counts
        self.expect("size()", self.call("size()", lambda: self.q.size()), len(self.ref))

    def marks(self):
        return self.tap.log is not None and len(self.tap.log)

    def apply(self, op):
        pair = (self.digest_now, op)
        first = pair not in self.seen_pairs
        self.seen_pairs.add(pair)
        if op[0] == "kill":
            return self.kill()
        before = list(self.ref)
        page_before = self.page
        base = iotap.snapshot(self.dir) if first else None
        self.opened_at = None
        if first:
            self.drop_peek()
            self.tap.start(self.dir)
        try:
            super().apply(op)
        finally:
            log = self.tap.stop() if first else None
        if not first:
            return
        self.queued_before = before
        after = list(self.ref)
        stay = [i for i in before if i in after]         # items whose removal is not under way
        may = before + [i for i in after if i not in before]
        files = base
        self.judge(files, stay, may, page_before, f"{op} before it begins")
        for n, ev in enumerate(log):
            page = max(page_before, self.page) if op[0] == "restart" else self.page
            if self.torn and ev[0] == 1 and len(ev[3]) > 1:
                self.judge(iotap.step(files, ev, len(ev[3]) // 2), stay, may, page, f"{op} torn at file change {n}/{len(log)}")
            files = iotap.step(files, ev)
            self.judge(files, stay, may, page, f"{op} after file change {n}/{len(log)}")
        real = iotap.snapshot(self.dir)
        if files != real:
            self.unmatched += 1
        self.judge(real, after, after, self.page, f"{op} just completed")

    # restart in the base class copies to a new file name; keep one name here so that every change is recorded
    def restart(self, page):
        self.call("shut_down()", lambda: self.q.shut_down())
        boot.close_sqlite()
        self.drop_peek()
        self.page = page
        self.open()

    def recover(self, files):
        """Open what the kill left behind with the real code and read it all: key indices in order."""
        key = digest(sorted((os.path.basename(p), b) for p, b in files.items() if b or not p.endswith("-journal")))
        page = self.page
        ck = (key, page)
        if ck in self.cache:
            return self.cache[ck]
        d = boot.fresh_dir("r")
        held, boot._tracked[:] = list(boot._tracked), []
        try:
            for p, b in files.items():
                with open(os.path.join(d, os.path.basename(p)), "wb") as f:
                    f.write(b)
            # sqlite's own recovery of the image decides which stored content the queue code gets to see
            rk = (self.stored(os.path.join(d, os.path.basename(self.path))), page)
            self.images += 1
            if rk[0] is not None and rk in self.cache:
                self.cache[ck] = self.cache[rk]
                return self.cache[ck]
            ck = rk if rk[0] is not None else ck
            self.checked += 1
            try:
                q = self.Q(os.path.join(d, os.path.basename(self.path)), self.E, page)
                size = q.size()
                out = []
                while True:
                    e = self.await_(q.pop())
                    if e is None:
                        break
                    out.append(e)
                    if len(out) > 4 * self.max + 10:
                        break
                if size != len(out):
                    raise Violation(f"recovered queue reports size {size} but yields {len(out)} items", "recovered size wrong")
                res = [self.identify(e) for e in out]
            except Violation as e:
                res = e
            except Exception as e:
                res = Violation(f"queue cannot be opened or read after the kill: {type(e).__name__}: {str(e)[:200]}", "not recoverable")
        finally:
            boot.close_sqlite()
            boot._tracked[:] = held
            boot.drop_dir(d)
        if len(self.cache) > 20000:
            self.cache.clear()
        self.cache[ck] = res
        return res

    @staticmethod
    def stored(path):
        try:
            c = sqlite3.connect(path)
            try:
                out = []
                for (t,) in sorted(c.execute("select name from sqlite_master where type='table'").fetchall()):
                    rows = c.execute(f'select * from "{t}"').fetchall()
                    ids = sorted({v for r in rows for v in r if isinstance(v, int)})
                    rank = {v: (k, (v > 0) - (v < 0)) for k, v in enumerate(ids)}
                    out.append((t, sorted(repr([rank[v] if isinstance(v, int) else v for v in r]) for r in rows)))
                out.append(c.execute("pragma integrity_check").fetchall())
                return digest(out)
            finally:
                c.close()
        except sqlite3.Error:
            return None

    def identify(self, e):
        for i, k in enumerate(self.keys):
            if e.span_key == k:
                want = self.entry(i)
                for f in ("data", "retries", "metadata"):
                    if plain(getattr(e, f)) != plain(getattr(want, f)):
                        raise Violation(f"item {i} came back with different {f}: {getattr(e, f)!r}", "content corrupted")
                return i
        raise Violation(f"unknown item {e.span_key} came back", "unknown item")

    def judge(self, files, stay, may, page, where):
        self.points += 1
        got = self.recover(files)
        if isinstance(got, Violation):
            raise Violation(f"killed during {where}: {got.what}", got.sig)
        if len(set(got)) != len(got):
            raise Violation(f"killed during {where}: duplicated items {got}", "duplicated")
        gone = [i for i in got if i not in may]
        if gone:
            raise Violation(f"killed during {where}: removed items came back: {gone}", "removed item came back")
        if got != [i for i in may if i in got]:
            raise Violation(f"killed during {where}: order changed: {got}, was {may}", "order changed")
        missing = [i for i in stay if i not in got]
        if len(missing) > 2 * page:
            raise Violation(f"killed during {where}: {len(missing)} items lost {missing}, page size {page}, queue {stay}", "too many lost")

    def kill(self):
        """Killed at rest, then reopened; the history goes on with what survived."""
        files = iotap.snapshot(self.dir)
        self.judge(files, self.ref, self.ref, self.page, "rest")
        self.drop_peek()
        boot.close_sqlite()                 # the uncommitted part of a dead process is gone
        boot.drop_dir(self.dir)
        self.dir = boot.fresh_dir("q")
        self.path = os.path.join(self.dir, os.path.basename(self.path))
        for p, b in files.items():
            with open(os.path.join(self.dir, os.path.basename(p)), "wb") as f:
                f.write(b)
        got = self.recover(files)
        self.open()
        self.ref = list(got)
        self.observe()

    def reset(self):
        super().reset()
        self.digest()

    def digest(self):
        self.digest_now = super().digest()
        return self.digest_now


def configs(tier):
    if tier == "quick":
        return [(4, 9, ()), (3, 7, (3,)), (3, 8, ()), (2, 5, (2, 3)), (2, 6, (2,)), (2, 8, ()), (1, 4, (1, 2)), (1, 5, (1,))]
    return [(1, 7, (1, 2)), (2, 9, (2,)), (3, 11, (3,)), (2, 7, (2, 3)), (2, 7, (2, 1)), (4, 13, ()), (3, 9, (3, 2)), (5, 13, ())]


def run(report, tier):
    lib = iotap.ensure()
    boot.prepare()
    boot.quiet_logging()
    import ekosis.queues  # noqa
    budget = 240 if tier == "quick" else 2400

    def one(cfg):
        s = CrashSystem(cfg[0], cfg[1], cfg[2], iotap.Tap(lib), True)
        part = Tour(f"kill: page_size={cfg[0]} max_items={cfg[1]} restart_page_sizes={cfg[2]}", s, budget).run()
        part.update(crash_points=s.points, distinct_crash_images=s.images, distinct_recoveries_by_the_queue_code=s.checked, images_with_unrecorded_changes=s.unmatched)
        return part

    for part in pmap(one, configs(tier)):
        report.add(part)
    report.notes["crash_points"] = sum(p["crash_points"] for p in report.parts)
    report.notes["distinct_crash_images"] = sum(p["distinct_crash_images"] for p in report.parts)
    report.notes["distinct_recoveries_by_the_queue_code"] = sum(p["distinct_recoveries_by_the_queue_code"] for p in report.parts)
    report.notes["bounds"] = "kill before and after every write/truncate/unlink system call (and in the middle of each write) of every operation in every canonical state; the history continues after a kill at rest"
    report.assumptions += ["the process dies, the operating system does not: completed system calls survive"]
