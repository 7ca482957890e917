"""C26: request keys through every composition of conversions, and malformed texts."""
TECHNIQUE = 'exhaustive enumeration of boundary identifiers through all compositions of the real conversions, and of all malformed texts within two edits'
NOTE = 'Every key of the boundary grid through every sequence of conversions up to the stated length, including the queue database and the wire; every text within two edits of a well-formed one over the stated alphabet.'
import asyncio, itertools, json, uuid
from mc import appkit, boot
from mc.core import Violation, digest, pmap

TRACES = [0, 1, (1 << 128) - 1, 1 << 127, 0xab, 0xab << 120, 0x00ff00ff00ff00ff00ff00ff00ff00ff, 0xdeadbeef << 64, 0x0a, 0x7f << 56, 0x20202020202020202020202020202020, 0x30 << 64, 0x0d0a << 32]
SPANS = [0, 1, (1 << 64) - 1, 1 << 63, 0x0a, 0xab << 56, 0x00ff00ff00ff00ff, 0xdeadbeef, 0x2020202020202020, 0x3030303030303030, 0x0d0a, 0x8000000000000001]


def forms():
    from ekosis.data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    import pickle, copy
    F = {
        "text": lambda k: SpanKey.from_hex(str(k)),
        "upper text": lambda k: SpanKey.from_hex(str(k).upper()),
        "binary": lambda k: SpanKey.from_bytes(k.bytes),
        "key()": lambda k: SpanKey.from_bytes(k.key()),
        "json": lambda k: SpanKey(**json.loads(k.model_dump_json())),
        "validate json": lambda k: SpanKey.model_validate_json(k.model_dump_json()),
        "dump": lambda k: SpanKey(**k.model_dump(mode="json")),
        "python dump": lambda k: SpanKey(**k.model_dump()),
        "request": lambda k: RequestDTO(**json.loads(RequestDTO(route_key="r", span_key=k, data={}).model_dump_json())).span_key,
        "response": lambda k: ResponseDTO(**json.loads(ResponseDTO(span_key=k, status=0, data=None).model_dump_json())).span_key,
        "parts": lambda k: SpanKey(trace_id=uuid.UUID(str(k.trace_id)), span_id=SpanId(hex_=k.span_id.hex)),
        "parts binary": lambda k: SpanKey(trace_id=uuid.UUID(bytes=k.trace_id.bytes), span_id=SpanId(bytes_=k.span_id.bytes)),
        "parts number": lambda k: SpanKey(trace_id=uuid.UUID(int=k.trace_id.int), span_id=SpanId(int_=k.span_id.value)),
        "text parts": lambda k: SpanKey(trace_id=str(k.trace_id), span_id=str(k.span_id)),
        "copy": lambda k: copy.deepcopy(k),
    }
    return F


def check(k, t, s, how):
    if k.trace_id.int != t or k.span_id.value != s:
        raise Violation(f"key {t:032x}:{s:016x} became {k} through {how}", "key changed")
    if str(k.trace_id) != str(uuid.UUID(int=t)) or str(k.span_id) != f"{s:016x}" or k.span_id.hex != f"{s:016x}" or k.span_id.bytes != s.to_bytes(8, "big") \
            or str(k) != f"{uuid.UUID(int=t)}:{s:016x}" or k.bytes != t.to_bytes(16, "big") + s.to_bytes(8, "big"):
        raise Violation(f"key {t:032x}:{s:016x} is shown as {k!s} / {k.bytes.hex()} / {k.span_id.hex} after {how}", "key changed")


def compositions(job):
    pairs, depth = job
    F = forms()
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    part = {"name": f"all conversions composed up to length {depth}", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    for t, s in pairs:
        start = SpanKey(trace_id=uuid.UUID(int=t), span_id=SpanId(int_=s))
        for n in range(1, depth + 1):
            for path in itertools.product(F, repeat=n):
                part["traces"] += 1
                part["transitions"] += n
                try:
                    k = start
                    for f in path:
                        try:
                            k = F[f](k)
                        except Violation:
                            raise
                        except Exception as e:
                            raise Violation(f"key {t:032x}:{s:016x} can not be converted through {f}: {e!r:.200}", "conversion fails")
                    check(k, t, s, " > ".join(path))
                    if not (k == start and start == k and hash(k) == hash(start) and not (k != start) and k == str(start) and k == str(start).upper() and not (k != str(start)) and len({k, start}) == 1 and {start: 1}.get(k) == 1):
                        raise Violation(f"key {start} and the same key through {' > '.join(path)} are not equal or do not hash alike", "equality")
                    if not (k.span_id == start.span_id and hash(k.span_id) == hash(start.span_id)):
                        raise Violation("span ids not equal", "equality")
                except Violation as e:
                    part["violations"].append({"what": e.what, "sig": e.sig, "replay": {"trace": hex(t), "span": hex(s), "path": path}, "trace": []})
                    if len(part["violations"]) > 3:
                        part["exhaustive"] = False
                        return part
        part["states"].add(digest((t, s)))
    part["samples"] = [{"key": f"{pairs[0][0]:032x}:{pairs[0][1]:016x}", "paths": part["traces"]}]
    return part


def distinct(pairs):
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    part = {"name": "different keys stay different", "states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    ks = [SpanKey(trace_id=uuid.UUID(int=t), span_id=SpanId(int_=s)) for t, s in pairs]
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            part["transitions"] += 1
            if (a == b) != (i == j) or (a != b) != (i != j) or (str(a) == str(b)) != (i == j) or (a.bytes == b.bytes) != (i == j) or (a == str(b)) != (i == j):
                part["violations"].append({"what": f"{a} and {b} compare wrongly", "sig": "equality", "replay": {"a": str(a), "b": str(b)}, "trace": []})
    if len(set(ks)) != len(ks):
        part["violations"].append({"what": "different keys collapse in a set", "sig": "equality", "replay": {}, "trace": []})
    part["traces"] = 1
    part["samples"] = [{"keys": len(ks)}]
    return part


def database(pairs):
    """Through the queue database: pushed, closed, reopened, listed and popped; and through the wire and the management texts."""
    from ekosis.queues.pending_queue import PendingQueue
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    D = appkit.dto_type(n=int)
    part = {"name": "through the queue database", "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    d = boot.fresh_dir("c26")

    async def go():
        keys = [SpanKey(trace_id=uuid.UUID(int=t), span_id=SpanId(int_=s)) for t, s in pairs]
        q = PendingQueue(d, "q", 2)
        for i, k in enumerate(keys):
            await q.push_error(k, D(n=i), "reason")
            await q.push_pending(k, D(n=i), 0)
        q.shut_down()
        boot.close_sqlite()
        q = PendingQueue(d, "q", 2)
        listed = await q.get_first_x_error_span_keys(len(keys) + 5)
        if [str(x) for x in listed] != [str(k) for k in keys]:
            raise Violation(f"listed {listed[:5]}..., pushed {[str(k) for k in keys][:5]}...", "key changed in the database")
        for i, k in enumerate(keys):
            again = SpanKey.from_hex(str(listed[i]))
            e = await q.pop_error_q_span_key(again)
            if e is None or e != D(n=i).model_dump():
                raise Violation(f"key {k} is not found by its listed text {listed[i]}", "key changed in the database")
            e = await q.pop()
            check(e.span_key, *pairs[i], "the database")
            part["transitions"] += 4
            part["states"].add(digest(pairs[i]))
        q.shut_down()
    try:
        asyncio.run(go())
    except Violation as e:
        part["violations"].append({"what": e.what, "sig": e.sig, "replay": {}, "trace": []})
    finally:
        boot.close_sqlite()
        boot.drop_dir(d)
    part["traces"] = 1
    part["samples"] = [{"keys": len(pairs)}]
    return part


def allowed(text, span_only):
    """The only key a text may be read as, or None."""
    def hexes(x, n):
        return len(x) == n and all(c in "0123456789abcdefABCDEF" for c in x)
    if span_only:
        return int(text, 16) if hexes(text, 16) else None
    if text.count(":") < 1:
        return None
    t, s = text.rsplit(":", 1)
    low = t.lower()
    if low.startswith("urn:uuid:"):
        t = t[9:]
    if t.startswith("{") and t.endswith("}"):
        t = t[1:-1]
    t = t.replace("-", "")
    if hexes(t, 32) and hexes(s, 16):
        return int(t, 16), int(s, 16)
    return None


ALPHABET = ["0", "a", "F", "g", "-", "_", "+", " ", "x", ":", "\n", "\x00", "{", "}", "é", "\u0661", "\uff11", ".", "O", "l"]


def edits(base, positions):
    for p in positions:
        for c in ALPHABET:
            yield base[:p] + c + base[p:]
            yield base[:p] + c + base[p + 1:]
        yield base[:p] + base[p + 1:]
        yield base[:p]
        yield base[:p] + base[p:p + 2][::-1] + base[p + 2:]


def malformed(job):
    kind, base, two = job
    from ekosis.data_transfer_objects import RequestDTO, SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    part = {"name": f"texts within {2 if two else 1} edits of a well-formed {kind}", "states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True}
    texts = set(edits(base, range(len(base) + 1)))
    if two:
        few = sorted({0, 1, len(base) // 2, len(base) - 1, len(base)})
        texts |= {t2 for t in list(texts) for t2 in edits(t, [p for p in few if p <= len(t)])}
    texts |= {base, base.upper(), "", ":", base * 2, base + "\n", " " + base, base + " ", "0x" + base[2:], "+" + base[1:], "-" + base[1:]}

    def readers():
        if kind == "span id":
            yield "hex", lambda t: SpanId(hex_=t).value
            yield "json", lambda t: SpanKey.model_validate_json(json.dumps({"trace_id": str(uuid.UUID(int=7)), "span_id": t})).span_id.value
            yield "request", lambda t: RequestDTO(route_key="r", span_key={"trace_id": str(uuid.UUID(int=7)), "span_id": t}, data=None).span_key.span_id.value
        else:
            def rd(t):
                k = SpanKey.from_hex(t)
                return k.trace_id.int, k.span_id.value
            yield "from_hex", rd

    for t in sorted(texts):
        want = allowed(t, kind == "span id")
        for name, f in readers():
            part["transitions"] += 1
            try:
                got = f(t)
            except (ValueError, TypeError):
                got = None
            except Exception as e:
                got = None
                part["violations"].append({"what": f"{kind} text {t!r} via {name}: {e!r}", "sig": "malformed text crashes", "replay": {"text": t}, "trace": []})
            if got is not None and got != want:
                part["violations"].append({"what": f"malformed {kind} text {t!r} is read as {got} via {name}", "sig": "malformed text accepted", "replay": {"text": t, "via": name}, "trace": []})
            if got is None and t in (base, base.upper()):
                part["violations"].append({"what": f"well-formed {kind} text {t!r} is rejected via {name}", "sig": "well-formed text rejected", "replay": {"text": t}, "trace": []})
        if len(part["violations"]) > 5:
            part["exhaustive"] = False
            break
    part["states"] = len(texts)
    part["traces"] = len(texts)
    part["samples"] = [{"base": base, "texts": len(texts), "examples": sorted(texts)[:5]}]
    return part


def binary(_):
    from ekosis.data_transfer_objects import SpanKey
    from ekosis.data_transfer_objects.span_id import SpanId
    part = {"name": "binary forms of every length, numbers at every boundary", "states": 0, "transitions": 0, "traces": 1, "samples": [], "violations": [], "exhaustive": True}
    for n in range(0, 40):
        part["transitions"] += 2
        for f, right in ((lambda b: SpanKey.from_bytes(b).bytes, 24), (lambda b: SpanId(bytes_=b).bytes, 8)):
            b = bytes(range(200, 200 + n))
            try:
                got = f(b)
            except (ValueError, TypeError):
                got = None
            if got != (b if n == right else None):
                part["violations"].append({"what": f"{n} bytes are read as {got}", "sig": "malformed binary", "replay": {"n": n}, "trace": []})
    for v in (-1, -(1 << 63), 1 << 64, (1 << 64) + 5, 1 << 128):
        try:
            got = SpanId(int_=v)
            part["violations"].append({"what": f"{v} is read as {got}", "sig": "number out of range", "replay": {"v": v}, "trace": []})
        except (ValueError, TypeError, OverflowError):
            pass
    part["states"] = 45
    part["samples"] = [{"lengths": "0..39"}]
    return part


def dispatch(job):
    return globals()[job[0]](job[1])


def run(rep, tier):
    appkit.load()
    pairs = [(t, s) for t in TRACES for s in SPANS] + [(1 << b, 1 << (b % 64)) for b in range(128)] + [(((1 << 128) - 1) ^ (1 << b), ((1 << 64) - 1) ^ (1 << (b % 64))) for b in range(0, 128, 3)]
    m = (1 << 61) - 1                                  # numbers that hash alike in Python
    pairs += [(t, s) for t in (5, 5 + m, 5 + m * m) for s in (7, 7 + m, 7 + 2 * m)]
    pairs = list(dict.fromkeys(pairs))
    depth = 2 if tier == "quick" else 3
    size = 20
    jobs = [("compositions", (pairs[i:i + size], depth)) for i in range(0, len(pairs), size)]
    jobs += [("distinct", pairs)] + [("database", pairs[i:i + 90]) for i in range(0, len(pairs), 90)] + [("binary", None)]
    for base in ("00000000000000ab", "ffffffffffffffff", "0123456789abcdef"):
        jobs.append(("malformed", ("span id", base, True)))
    for base in ("0000abcd-0000-4000-8000-00000000beef:00000000000000ab", "ffffffff-ffff-ffff-ffff-ffffffffffff:ffffffffffffffff"):
        jobs.append(("malformed", ("key", base, tier != "quick")))
    merged = {}
    for part in pmap(dispatch, jobs):
        m = merged.setdefault(part["name"], part)
        if m is not part:
            for k in ("transitions", "traces", "states"):
                m[k] = m[k] | part[k] if k == "states" and isinstance(m[k], set) else m[k] + part[k]
            m["violations"] += part["violations"]
            m["exhaustive"] &= part["exhaustive"]
    for p in merged.values():
        rep.add(p)
