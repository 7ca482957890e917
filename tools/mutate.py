#!/usr/bin/env python3
"""Mass mutation of the Python sources, to look for changes the checks miss. Not a check; nothing registered uses it.

usage: mutate.py gen OUT.jsonl [FILTER]     all mutants (one per line)
       mutate.py tests IN.jsonl OUT.jsonl   those that pass the stable tests (each in namespaces of its own)
       mutate.py checks IN.jsonl OUT.jsonl  which check reports each of them
"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
MAP = [("queues/", "C01 C02 C03 C04 C05"), ("requests/buffered", "C04 C07 C06 C05 C09 C17 C23"), ("state_keepers/buffered", "C09 C06 C04 C05"), ("sending/buffered", "C08 C06 C05 C13"), ("sending/", "C11 C08 C16"),
       ("standard_endpoints/buffered", "C09 C06"), ("standard_endpoints/log", "C18"), ("standard_endpoints/stat", "C15"), ("standard_endpoints/err", "C25"), ("application_base", "C05 C20 C10 C19 C15"),
       ("configuration/", "C19 C20 C10"), ("lru", "C14"), ("cacheing", "C14"), ("statistics_keeper", "C15"), ("error_state", "C25"), ("clients/", "C13 C12 C11 C08"), ("servers/", "C10 C11 C12 C16"),
       ("logs/", "C18 C16"), ("request_context", "C16 C18"), ("request_router", "C10 C17 C11 C16 C15"), ("requests/", "C10 C11 C17 C16"), ("span_id", "C26 C16"), ("json_protocol", "C11 C26 C10"), ("data_transfer", "C11 C09 C15 C25"),
       ("middleware/", "C17 C23"), ("prometheus", "C24"), ("otlp_traces", "C23"), ("exceptions", "C11 C13 C10"), ("util", "C05 C04 C19 C24"), ("cli/", "C27")]


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def put(n, text, what):
        a = sum(len(l.encode()) + 1 for l in lines[:n.lineno - 1]) + n.col_offset
        b = sum(len(l.encode()) + 1 for l in lines[:n.end_lineno - 1]) + n.end_col_offset
        raw = src.encode()
        out.append({"line": n.lineno, "what": what, "old": raw[a:b].decode(), "new": text, "a": a, "b": b})
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for n in ast.walk(fn):
            for body in (getattr(n, f, None) for f in ("body", "orelse", "finalbody")):
                if not isinstance(body, list):
                    continue
                for k, s in enumerate(body):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    t = seg(s)
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)) or (isinstance(s, ast.Return) and s.value is None):
                        if "logg" in t and isinstance(s, ast.Expr):
                            continue
                        put(s, "pass", "delete")
                    if k and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(body[k - 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(body[k - 1], "value", None), ast.Constant):
                        p = body[k - 1]
                        if "logg" in t or "logg" in seg(p) or p.lineno == s.lineno:
                            continue
                        raw = src.encode()
                        off = lambda l, c: sum(len(x.encode()) + 1 for x in lines[:l - 1]) + c
                        a, b, c, d = off(p.lineno, p.col_offset), off(p.end_lineno, p.end_col_offset), off(s.lineno, s.col_offset), off(s.end_lineno, s.end_col_offset)
                        out.append({"line": p.lineno, "what": "swap", "old": raw[a:d].decode(), "new": (raw[c:d] + raw[b:c] + raw[a:b]).decode(), "a": a, "b": d})
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Constant):
                put(n.test, f"(not ({seg(n.test)}))", "negate")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
                if o:
                    put(n, f"({seg(n.left)} {o} {seg(n.comparators[0])})", "boundary")
            if isinstance(n, ast.BoolOp):
                if len(n.values) == 2:
                    put(n, seg(n.values[0]), "left only")
                    put(n, seg(n.values[1]), "right only")
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, (ast.JoinedStr,)):
                put(n, f"({seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)})", "arith")
            if isinstance(n, ast.Constant) and type(n.value) is int and n.value in (0, 1, 2):
                put(n, str(n.value + 1), "const")
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                put(n, str(not n.value), "bool")
    return out


def gen(outp, flt=""):
    n = 0
    with open(outp, "w") as f:
        for p in sorted(glob.glob(REPO + "/ekosis*/**/*.py", recursive=True)):
            rel = os.path.relpath(p, REPO)
            if "test" in rel or rel.startswith("ekosis.egg") or (flt and flt not in rel) or "/build/" in rel:
                continue
            seen = set()
            for m in mutants(p):
                key = (m["a"], m["b"], m["new"])
                if key in seen:
                    continue
                seen.add(key)
                m["file"] = rel
                m["id"] = n
                n += 1
                f.write(json.dumps(m) + "\n")
    print(n)


def apply(m, repo):
    p = os.path.join(repo, m["file"])
    raw = open(os.path.join(REPO, m["file"]), "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"], m
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    try:
        compile(new, p, "exec")
    except SyntaxError:
        return False
    open(p, "wb").write(new)
    return True


def done_ids(p):
    return {json.loads(l)["id"] for l in open(p)} if os.path.exists(p) else set()


def tests(inp, outp, procs=int(os.environ.get("PROCS", 6))):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base.get("tests") or base
    import queue, threading
    clones = queue.Queue()
    root = tempfile.mkdtemp(prefix="mut-")
    for k in range(procs):
        c = f"{root}/r{k}"
        subprocess.run(["cp", "-a", REPO, c], check=True)
        os.makedirs(f"{root}/o{k}")
        clones.put((c, k))
    lock = threading.Lock()
    skip = done_ids(outp)

    def one(m):
        c, k = clones.get()
        try:
            if not apply(m, c):
                return
            out = f"{root}/o{k}/res.json"
            if os.path.exists(out):
                os.remove(out)
            cmd = f"ip link set lo up; mount --bind {c} /repo; mount --bind {root}/o{k} /mnt; mount -t tmpfs t /tmp; cp -a /opt/build /tmp/ob; mount --bind /tmp/ob /opt/build; timeout 100 bash /opt/vp/test.sh /mnt/res.json"
            subprocess.run(["unshare", "-Urnmpf", "--mount-proc", "--propagation", "private", "bash", "-c", cmd], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                o = json.load(open(out))
                p = set(o["passed"])
                m["tests"] = all(n in p for n in names)
            except Exception:
                m["tests"] = False
            with lock, open(outp, "a") as f:
                f.write(json.dumps(m) + "\n")
        finally:
            shutil.copy(os.path.join(REPO, m["file"]), os.path.join(c, m["file"]))
            clones.put((c, k))
    ms = [m for m in map(json.loads, open(inp)) if m["id"] not in skip]
    random.Random(1).shuffle(ms)
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(root)


def checks(inp, outp):
    root = tempfile.mkdtemp(prefix="mutc-")
    c = root + "/r"
    subprocess.run(["git", "clone", "-q", REPO, c], check=True)
    skip = done_ids(outp)
    for m in map(json.loads, open(inp)):
        if not m.get("tests") or m["id"] in skip:
            continue
        if not apply(m, c):
            continue
        m["killed"] = None
        m["odd"] = []
        for pat, cs in MAP:
            if pat in m["file"]:
                for ck in cs.split():
                    if not os.path.exists(f"/verif/checks/{ck.lower()}.py"):
                        continue
                    try:
                        r = subprocess.run(["./run", ck], cwd="/verif", env={**os.environ, "VERIF_REPO": c}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                    if rc == 1:
                        m["killed"] = ck
                        break
                    if rc != 0:
                        m["odd"].append((ck, rc))
                break
        subprocess.run(["git", "-C", c, "checkout", "-q", "."])
        with open(outp, "a") as f:
            f.write(json.dumps(m) + "\n")
        print(m["id"], m["file"], m["line"], m["what"], "->", m["killed"], m["odd"], flush=True)
    shutil.rmtree(root)


if __name__ == "__main__":
    {"gen": gen, "tests": tests, "checks": checks}[sys.argv[1]](*sys.argv[2:])
