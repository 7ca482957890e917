"""C21: the log shipper delivers every complete line, in order, once."""
TECHNIQUE = 'stateless exploration of the real shipper program (C++): all interleavings of the applications\' file operations with its system calls, all post results, and a real crash at every such point'
NOTE = 'The shipper is compiled from the working tree with its HTTP transfer answered by the checker; it stops at every look at a log file, every post and every wait, where the log files may change, the post may fail, or the shipper may be killed and restarted.'
import os, shutil
from mc import boot
from mc.core import Violation, explore
from checks import shipper

BAD = {"garbage": b"this is no json\n", "empty": b"\n", "object": b"{}\n", "array": b"[1,2]\n", "null": b"null\n", "number": b"17\n", "string": b'"text"\n',
       "torn": b'{"timestamp":"2026-06-18T17:27:24.33\n', "not utf-8": b'{"timestamp":"\xff\xfe"}\n', "zeros": b"\0\0\0\0\n", "no body": shipper.line("x").replace(b'"body":"x",', b""),
       "number for text": shipper.line("x").replace(b'"body":"x"', b'"body":5'), "text for number": shipper.line("x").replace(b'"severity_number":9', b'"severity_number":"9"'),
       "null attributes": shipper.line("x").replace(b'"attributes":{', b'"attributes":null,"other":{'), "time missing": shipper.line("x").replace(b'"timestamp"', b'"time"'),
       "number for application": shipper.line("x").replace(b'"application_name":"shop"', b'"application_name":5'), "trace number": shipper.line("x").replace(b'"trace_id":null', b'"trace_id":5'),
       "lone surrogate": shipper.line("x").replace(b'"body":"x"', b'"body":"\\ud800"'), "deep": b"[" * 2000 + b"\n"}


PATIENCE = 600           # seconds nothing happens after which a line not posted counts as never posted


class Files:
    """The applications' side: log files, written and rotated as the logging of the framework does it."""
    def __init__(self, directory):
        self.dir = directory
        self.gens = {}           # file -> list of generations, each {"lines": [ids], "rotated": None|True, "excused": bool}
        self.complete = {}       # id -> (file, position in the order written)
        self.half = {}           # file -> rest of the line
        self.n = {}
        self.any_bad = False

    def path(self, f, k=0):
        return os.path.join(self.dir, f + ".log" + (f".{k}" if k else ""))

    def append(self, f, data):
        with open(self.path(f), "ab") as fh:
            fh.write(data)

    def ident(self, f):
        self.n[f] = self.n.get(f, 0) + 1
        return f"{f}:{self.n[f]}"

    def done(self, f, ident):
        self.gens[f][-1]["lines"].append(ident)
        self.complete[ident] = (f, self.n[f])

    def do(self, op, looked):
        """looked: the running shipper has had a full look at the current file."""
        kind, f = op[0], op[1]
        if kind == "create":
            self.gens.setdefault(f, []).append({"lines": [], "rotated": False, "excused": False})
            open(self.path(f), "wb").close()
        elif kind == "line":
            i = self.ident(f)
            self.append(f, shipper.line(i))
            self.done(f, i)
        elif kind == "lines":
            data = b""
            for _ in range(op[2]):
                i = self.ident(f)
                data += shipper.line(i + ":" + "x" * op[3]) if len(op) > 3 else shipper.line(i)
                self.done(f, i)
            self.append(f, data)
        elif kind == "part":                       # cut: the beginning, the middle of it, everything but the line end
            i = self.ident(f)
            data = shipper.line(i)
            cut = {"start": 1, "middle": len(data) // 2, "end": len(data) - 1}[op[2]]
            self.append(f, data[:cut])
            self.half[f] = (i, data[cut:])
        elif kind == "rest":
            i, data = self.half.pop(f)
            self.append(f, data)
            self.done(f, i)
        elif kind == "bad":
            self.any_bad = True
            self.append(f, BAD[op[2]])
        elif kind == "rotate":
            g = self.gens[f][-1]
            g["rotated"] = True
            g["excused"] = not looked
            for k in range(3, 0, -1):
                if os.path.exists(self.path(f, k)):
                    os.rename(self.path(f, k), self.path(f, k + 1))
            os.rename(self.path(f), self.path(f, 1))
        elif kind == "reuse":                      # rotated while nobody looked, and the new file got the old one's inode number
            self.gens[f][-1].update(rotated=True, excused=True)
            self.gens[f].append({"lines": [], "rotated": False, "excused": False})
            i = self.ident(f)
            with open(self.path(f), "r+b") as fh:
                fh.truncate(0)
                fh.write(shipper.line(i))
            self.done(f, i)
        else:
            raise RuntimeError(op)


def scenario(before, script, fails=0, deaths=0, io=False, early=False, quiet=3, refused=(), calm=False, outage=0, most=4000):
    """before: operations before the shipper starts; script: what happens afterwards, each at any point, in this order.

    early: rotations also happen before the shipper has had a look at the file (then what is left in it may be missed);
    refused: files whose posts all fail; calm: files change only while the shipper waits; outage: so many posts fail first."""
    def run(ch):
        base = boot.fresh_dir("s21")
        logs, state = os.path.join(base, "logs"), os.path.join(base, "state")
        os.mkdir(logs)
        os.mkdir(state)
        w = Files(logs)
        trace, states = [], set()
        todo = list(script)
        left = {"fail": fails, "death": deaths, "outage": outage}
        looked, fresh = {}, {}                        # file -> a full look was had at its current generation / it was there when this round began
        posted, order = {}, {}                        # id -> number of successful posts; file -> last position posted in this life
        maybe = set()                                 # posted successfully, perhaps not recorded yet
        again = set()                                 # may be posted again
        steps = [0]
        life = None

        def bad(what, sig):
            raise Violation(what, sig, trace[-80:])

        def note(text):
            trace.append(text)

        def write_op():
            op = todo.pop(0)
            note("   file: " + " ".join(map(str, op)))
            f = op[1]
            w.do(op, looked.get(f, False))
            if op[0] in ("create", "reuse"):
                looked[f] = fresh[f] = False
            st["news"] = True

        def can_write():
            if not todo:
                return False
            op = todo[0]
            if op[0] == "rotate" and life is not None and not looked.get(op[1]) and not early:
                return False
            if op[0] == "reuse" and life is not None:
                return False
            if len(op) > 1 and op[-1] == "down" and life is not None:
                return False
            return True

        def success(recs):
            for res, rec in recs:
                ident = rec["body"]["stringValue"].split(":x")[0]
                if ident not in w.complete:
                    if w.any_bad and not ident.count(":") == 1:
                        continue
                    bad(f"posted {ident!r}, which is no complete line written so far", "posted an incomplete line")
                f, pos = w.complete[ident]
                if posted.get(ident) and ident not in again:
                    bad(f"line {ident} is posted again", "posted twice")
                again.discard(ident)
                if pos <= order.get(f, 0):
                    bad(f"line {ident} is posted after line {f}:{order[f]}", "order of lines")
                order[f] = pos
                posted[ident] = posted.get(ident, 0) + 1
                maybe.add(ident)

        def die(text):
            note(f"   shipper is killed {text}")
            left["death"] -= 1
            life.kill()

        def die_bookkeeping():
            again.update(maybe)
            maybe.clear()
            order.clear()
            for gs in w.gens.values():
                for g in gs:
                    if g["rotated"]:
                        g["excused"] = True          # rotated away and not all posted: nobody will look at it again
            looked.clear()

        try:
            for op in before:
                w.do(op, False)
            while True:                                  # lives
                st = {"news": True, "quiet": 0, "failed": False, "failing": False, "wait": False}
                for f in w.gens:
                    looked[f], fresh[f] = False, False
                life = shipper.Life(logs, state, io and left["death"] > 0)
                note("shipper starts")
                died = False
                while not died:
                    kind, data = life.next()
                    steps[0] += 1
                    if kind == "exit":
                        bad(f"the shipper ended by itself (status {data})", "shipper ends")
                    if steps[0] > most:
                        bad("the shipper never comes to rest", "endless activity")
                    text = data.decode(errors="replace") if kind in "PI" else ""
                    if kind == "P" and text.startswith("fstat"):
                        life.go()
                        continue
                    if kind == "T":                      # the wait would have been over by itself, after this long
                        if float(data) <= PATIENCE:
                            life.go()
                        elif can_write():
                            write_op()
                            life.go(1)
                        elif todo and left["death"]:
                            die("in its wait")
                            died = True
                        else:
                            note(f"shipper: waits for {float(data):g} seconds, with nothing happening")
                            return finish(states, steps, trace, w, posted, bad, todo, refused)
                        continue
                    if kind == "I":
                        if left["death"] and ch.choose(2):
                            die(f"before {text} of its state")
                            died = True
                        else:
                            life.go()
                        continue
                    if kind == "S":
                        maybe.clear()                    # by now, what was posted is recorded
                        st["quiet"] = 0 if st["news"] else st["quiet"] + 1
                        for f in w.gens:
                            here = bool(w.gens[f]) and not w.gens[f][-1]["rotated"]
                            if fresh.get(f) and here and not st["failed"] and not st["failing"]:
                                looked[f] = True
                            fresh[f] = here
                        st["failing"] = st["failed"]
                        st["news"] = st["failed"] = False
                    here = {"S": "waits", "P": text, "H": "posts"}[kind]
                    recs = None
                    if kind == "H":
                        url, body = data.split(b"\n", 1)
                        recs = shipper.records(body)
                        here = f"posts {[r[1]['body']['stringValue'][:12] for r in recs]}"
                        no = any(w.complete.get(r[1]["body"]["stringValue"].split(":x")[0], [None])[0] in refused for r in recs)
                        st["news"] = st["news"] or not no
                        if left["outage"]:
                            left["outage"] -= 1
                            no = True
                    note(f"shipper: {here}")
                    states.add((kind, text, tuple(sorted(w.complete)), tuple(sorted(posted)), len(todo), left["fail"], left["death"]))
                    while not died:
                        options = ["go"]
                        if kind == "H" and left["fail"]:
                            options += ["refused", "error"]
                        if kind == "H" and no:
                            options = ["never"]
                        if kind == "S" and st["quiet"] and can_write():
                            options = []
                        if can_write() and (not calm or kind == "S" and (st["quiet"] or left["outage"])):
                            options.append("file")
                        if left["death"]:
                            options.append("kill")
                            if kind == "H":
                                options.append("kill after")
                        if kind == "S" and st["quiet"] >= quiet and not can_write():
                            if todo and todo[0][-1] != "down" and todo[0][0] != "reuse":
                                bad(f"the shipper never had a look at {todo[0][1]}", "no look")
                            if not left["death"] or not todo:
                                return finish(states, steps, trace, w, posted, bad, todo, refused)
                            options = ["kill"]
                        c = options[0] if len(options) == 1 else ch.pick(options)
                        if c == "file":
                            write_op()
                            if calm:
                                st["quiet"] = 0
                            continue
                        if c == "kill":
                            die("here")
                            died = True
                        elif c == "kill after":
                            note("   the post succeeds")
                            success(recs)
                            die("before it learns of it")
                            died = True
                        elif c in ("refused", "error", "never"):
                            left["fail"] -= c != "never"
                            st["failed"] = True
                            note(f"   the post fails ({c})")
                            life.go(7 if c == "refused" else 0, 0 if c == "refused" else 503)
                        else:
                            if kind == "H":
                                success(recs)
                                life.go(0, 200)
                            else:
                                life.go()
                        break
                die_bookkeeping()
                life = None
                while can_write() and (todo[0][-1] == "down" or todo[0][0] == "reuse" or ch.choose(2)):
                    write_op()
        finally:
            if life is not None:
                life.kill(wait=False)
            shutil.rmtree(base, ignore_errors=True)
    return run


def finish(states, steps, trace, w, posted, bad, todo, refused=()):
    for f, gs in w.gens.items():
        for k, g in enumerate(gs):
            if g["excused"] or f in refused:
                continue
            for i in g["lines"]:
                if not posted.get(i):
                    bad(f"line {i} was never posted", "line never posted")
    return {"states": states, "transitions": steps[0], "trace": trace}


def C(f="a"):
    return ("create", f)


def L(f="a"):
    return ("line", f)


def P(cut, f="a"):
    return ("part", f, cut)


def Z(f="a"):
    return ("rest", f)


def R(f="a"):
    return ("rotate", f)


def down(op):
    return (*op, "down")


def run(report, tier):
    shipper.build()
    S = []

    def add(name, *a, **k):
        S.append((name, scenario(*a, **k)))
    add("lines being written", [C(), L()], [L(), L(), L()], fails=1)
    for cut in ("middle", "end") if tier == "quick" else ("start", "middle", "end"):
        add(f"a line in two pieces ({cut})", [C(), L()], [P(cut), Z(), L()], fails=1)
        add(f"a line in two pieces ({cut}), killed", [C(), L()], [P(cut), Z()], deaths=1)
    add("rotation", [C(), L()], [L(), R(), C(), L()])
    add("rotation, posts fail", [C(), L()], [L(), R(), C(), L()], fails=1)
    add("rotation without lines", [C()], [R(), C(), L()], fails=1)
    add("two rotations", [C(), L()], [R(), C(), L(), R(), C(), L()])
    add("rotation, killed", [C(), L(), L()], [R(), C(), L()], deaths=1)
    add("a line left unfinished in a rotated file", [C(), L()], [P("middle"), R(), C(), L(), L()])
    add("much written just before a rotation", [C(), L()], [("lines", "a", 12, 8000), R(), C(), L()])
    add("a very long line", [C(), ("lines", "a", 1, 40000)], [("lines", "a", 2, 70000), L()])
    add("ten files", [op for f in "abcdefghij" for op in (C(f), L(f))], [L("j"), L("a")])
    add("the posts of one file all fail", [C(), L(), C("b"), L("b"), C("c"), L("c")], [L("c"), L("b")], refused="b")
    add("the posts of the first file all fail", [C(), L(), C("b"), L("b")], [L("b"), C("c"), L("c")], refused="a")
    add("rotation while the shipper starts", [C(), L()], [R(), C(), L()], early=True)
    add("rotation while the shipper starts, killed", [C(), L()], [R(), C()] if tier == "quick" else [R(), C(), L()], deaths=1, early=True)
    add("a file appears", [], [C(), L(), L()], fails=1)
    add("a second file appears", [C(), L()], [C("b"), L("b"), L()])
    add("two files", [C(), L(), C("b"), L("b")], [L(), L("b")], fails=1 if tier == "quick" else 2)
    add("two files, killed", [C(), L(), C("b"), L("b")], [L("b")], deaths=1)
    add("two files, one rotated", [C(), L(), C("b"), L("b")], [R("b"), C("b"), L("b")], fails=1)
    add("killed twice", [C(), L()], [L()], deaths=2)
    add("killed inside its bookkeeping", [C(), L()], [L()], deaths=1, io=True)
    add("killed inside its bookkeeping twice", [C(), L()], [], deaths=2, io=True)
    add("killed and posts fail", [C(), L()], [L()], fails=1, deaths=1)
    add("a shorter file under the old inode number", [C(), L(), L(), L()], [("reuse", "a"), L()], deaths=1)
    add("lines longer than any buffer", [C(), ("lines", "a", 2, 9000)], [("lines", "a", 3, 8000), L()], fails=1)
    many = [f"f{k:03}" for k in range(150)]
    add("thousands of lines", [C(), ("lines", "a", 3000)], [("lines", "a", 2500), R(), C(), ("lines", "a", 1200)], calm=True)
    add("many files", [op for f in many for op in (C(f), L(f))], [L(many[0]), L(many[-1]), C("z"), L("z"), R(many[70]), C(many[70]), L(many[70])], calm=True, most=40000)
    add("a long outage", [C(), L()], [L()], calm=True, outage=30)
    add("a long outage, another file appears", [C(), L()], [C("b"), L("b")], calm=True, outage=10)
    add("a long outage, many lines", [C(), ("lines", "a", 500)], [("lines", "a", 400)], calm=True, outage=12)
    add("enormous lines", [C(), ("lines", "a", 1, 1500000)], [("lines", "a", 2, 1100000), L()], calm=True)
    add("many bad lines", [C()] + [("bad", "a", "garbage")] * 300 + [L()] + [("bad", "a", "empty")] * 300, [L(), *[("bad", "a", "torn")] * 20, L()], calm=True, quiet=2)
    add("many small rounds", [C()], [L()] * 40, calm=True, quiet=2)
    add("many rotations", [C(), L()], [op for _ in range(12) for op in (R(), C(), L())], calm=True, quiet=2)
    for k, text in enumerate(BAD):
        add(f"a bad line ({text}) first", [C(), ("bad", "a", text), L()], [L()])
        if tier != "quick" or text in ("garbage", "torn"):
            add(f"a bad line ({text}) between, killed", [C(), L()], [("bad", "a", text), L()], deaths=1)
        add(f"a bad line ({text}) alone", [C(), ("bad", "a", text)], [L(), ("bad", "a", text)])
    if tier != "quick":
        add("four lines, two failures", [C(), L()], [L(), L(), L(), L()], fails=2)
        add("pieces and rotation", [C(), P("middle")], [Z(), R(), C(), P("end"), Z()], fails=1)
        add("pieces and rotation, killed", [C(), P("end")], [Z(), R(), C(), P("middle"), Z()], deaths=1)
        add("three rotations", [C(), L()], [R(), C(), L(), R(), C(), L(), R(), C(), L()])
        add("two rotations, posts fail", [C(), L()], [L(), R(), C(), L(), R(), C(), L()], fails=1)
        add("two rotations, killed", [C(), L()], [R(), C(), L(), R(), C(), L()], deaths=1)
        add("killed three times", [C(), L()], [L(), L()], deaths=3)
        add("killed inside its bookkeeping, rotation", [C(), L()], [L(), R(), C(), L()], deaths=1, io=True)
        add("three files", [C(), L(), C("b"), L("b"), C("c"), L("c")], [L(), L("b"), L("c")], fails=1, deaths=1)
        add("rotation, fails and killed", [C(), L()], [L(), R(), C(), L()], fails=1, deaths=1)
    for part in explore(S, 400 if tier == "quick" else 2400, procs=3 * (os.cpu_count() or 1)):
        report.add(part)
    report.notes["bounds"] = "file operations, post failures and kills per part; at every stat/open/read/list/post/wait of the shipper, and at every write of its state where stated"
