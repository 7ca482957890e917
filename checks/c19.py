"""C19: configuration values come from the most specific level that sets them."""
TECHNIQUE = 'exhaustive enumeration of environments, names and configuration files, loading the real configuration for each, against the documented precedence'
NOTE = 'For every application/instance name in the list: all subsets of the five levels (machine, application, instance, other application, other instance) for every setting, with different settings at different levels at once; all combinations of file and environment for every setting.'
import importlib, itertools, json, os, sys
from mc import boot
from mc.core import Violation, digest, forked, pmap, Chooser

LEVELS = ("machine", "application", "instance", "other application", "other instance", "longer application", "longer instance")
# setting -> (documented default, how values look, where it ends up)
SETTINGS = {
    "STAT_GP": (300, lambda n: 1000 + n, lambda c: c.stats_keeper.gather_period),
    "STAT_HL": (12, lambda n: 100 + n, lambda c: c.stats_keeper.history_length),
    "LOG_DIR": (None, lambda n: f"/nowhere/log{n}", lambda c: c.logging.file_logging.directory),
    "LOG_LEVEL": ("info", lambda n: ("debug", "warn", "error", "critical", "info", "debug", "warn")[n % 7], lambda c: c.logging.level),
    "LOG_BUF_SIZE": (0, lambda n: 50 + n, lambda c: c.logging.file_logging.buffer_size),
    "LOG_MAX_SIZE": (10485760, lambda n: 70000 + n, lambda c: c.logging.file_logging.max_size_in_bytes),
    "LOG_MAX_FILES": (10, lambda n: 30 + n, lambda c: c.logging.file_logging.max_files),
    "LOCK_DIR": (None, lambda n: f"/nowhere/lock{n}", lambda c: c.lock_directory),
    "BUFFER_DIR": (None, lambda n: f"/nowhere/buf{n}", lambda c: c.buffer_directory),
    "DEFAULT_DIR": ("/tmp", lambda n: f"/nowhere/default{n}", None),
}
NAMES = [  # script, application name, instance, other application, other instance
    ("foo.py", "foo", "0", "bar", "1"),
    ("MyCoolApplication.py", "my_cool_application", "feeds_cats", "my_cool", "feeds_dogs"),
    ("/some/where/foo.py", "foo", "1", "foobar", "11"),
    ("foo_bar", "foo_bar", "a", "foo_baz", "ab"),
    ("app.py", "app", "X", "ap", "y"),
]


def names_of(setting, n):
    """variable name per level"""
    app, inst, oapp, oinst = n[1].upper(), n[2].upper(), n[3].upper(), n[4].upper()
    b = f"ECOENV_{setting}"
    return {"machine": b, "application": f"{b}_{app}", "instance": f"{b}_{app}_{inst}", "other application": f"{b}_{oapp}",
            "other instance": f"{b}_{app}_{oinst}", "longer application": f"{b}_{app}S_{inst}", "longer instance": f"{b}_{app}_{inst}9"}


def load(script, instance, env, argv=()):
    """The real configuration as a process started like this would have it. Runs in a forked child."""
    boot.clean_env()
    os.environ.update(env)
    sys.dont_write_bytecode = False      # into this check's scratch directory only (sys.pycache_prefix)
    if boot.REPO not in sys.path:
        sys.path.insert(0, boot.REPO)
    sys.argv = [script, "-i", instance, *argv]
    for m in [m for m in sys.modules if m == "ekosis" or m.startswith("ekosis.")]:
        del sys.modules[m]
    try:
        return importlib.import_module("ekosis.configuration.config_models").AppConfiguration()
    except SystemExit as e:
        raise Violation(f"a process with {env} and arguments {argv} refuses to start: {e}", "refuses to start")


def chosen(present):
    for l in ("instance", "application", "machine"):
        if l in present:
            return l


def check(cfg, n, present, vals, what, file=None):
    """present: setting -> set of levels; file: setting -> value."""
    def expected(s):
        if file and s in file:
            return file[s]
        l = chosen(present.get(s, ()))
        return vals[s][l] if l else None
    dd = expected("DEFAULT_DIR") or "/tmp"
    for s, (default, _, get) in SETTINGS.items():
        if get is None:
            continue
        want = expected(s)
        if want is None:
            want = dd if s in ("LOG_DIR", "LOCK_DIR") else default
        got = get(cfg)
        if got != want:
            raise Violation(f"{what}: {s} is {got!r}, should be {want!r} (set at {sorted(present.get(s, ()))})", f"setting {s}")
    if cfg.name != n[1] or cfg.instance != n[2]:
        raise Violation(f"{what}: name and instance are {cfg.name}, {cfg.instance}", "names")


def env_of(n, present, shift):
    env, vals = {}, {}
    for k, s in enumerate(SETTINGS):
        for j, l in enumerate(LEVELS):
            vals.setdefault(s, {})[l] = SETTINGS[s][1](j + shift)
            if l in present.get(s, ()):
                env[names_of(s, n)[l]] = str(vals[s][l])
    return env, vals


def case_levels(job):
    n, k, stride = job
    subsets = [frozenset(l for i, l in enumerate(LEVELS) if m >> i & 1) for m in range(1 << len(LEVELS))]
    present = {s: subsets[(k + stride * i) % len(subsets)] for i, s in enumerate(SETTINGS)}
    env, vals = env_of(n, present, k % 3)
    check(load(n[0], n[2], env), n, present, vals, f"application {n[1]} instance {n[2]} with {env}")
    return digest((n, sorted((s, sorted(p)) for s, p in present.items())))


def case_servers(job):
    """Addresses at every subset of levels: only the instance level counts."""
    n, k, d = job
    present = {l for i, l in enumerate(LEVELS) if k >> i & 1}
    env = {}
    stem = ("sock", "default", "Default", "sock.default", "DEFAULT_", "my DEFAULT", "default.uds.sock")[k // 2 % 7]
    for s in ("TCP", "UDP", "UDS"):
        for j, l in enumerate(LEVELS):
            if l in present:
                env[names_of(s, n)[l]] = f"10.0.0.{j}:{7000 + j}" if s != "UDS" else f"{d}/{'DEFAULT' if k % 2 else stem + (str(j) if stem == 'sock' else '')}"
    c = load(n[0], n[2], env)
    what = f"application {n[1]} instance {n[2]} with {env}"
    on = "instance" in present
    j = LEVELS.index("instance")
    for s, got in (("TCP", c.tcp), ("UDP", c.udp)):
        want = (f"10.0.0.{j}", 7000 + j) if on else None
        if (got and (got.host, got.port)) != want:
            raise Violation(f"{what}: {s} address is {got}, should be {want}", f"{s} address")
    want = (d, f"{n[1]}_{n[2]}.uds.sock" if k % 2 else stem + (str(j) if stem == "sock" else "")) if on else None
    got = c.uds
    if (got and (got.directory, got.socket_file_name)) != want:
        raise Violation(f"{what}: UDS address is {got}, should be {want}", "UDS address")
    return digest(("servers", n, sorted(present)))


def case_extra(job):
    n, k = job
    env, want = {}, {}
    subsets = [frozenset(l for i, l in enumerate(LEVELS) if m >> i & 1) for m in range(1 << len(LEVELS))]
    for t, name in enumerate(("DB", "DATABASE_NAME", "LIMIT_1", f"Z_{n[1].upper()}_{n[2].upper()}_Y")):
        present = subsets[(k + 37 * t) % len(subsets)]
        for j, l in enumerate(LEVELS):
            if l in present:
                env[names_of("EXTRA", n)[l] + "_" + name] = f"{name}-{j}"
        l = chosen(present)
        want[name] = f"{name}-{LEVELS.index(l)}" if l else None
    c = load(n[0], n[2], env)
    for name, w in want.items():
        got = (c.extra or {}).get(name)
        if got != w:
            raise Violation(f"application {n[1]} instance {n[2]} with {env}: extra setting {name} is {got!r}, should be {w!r}", "extra setting")
    for name, v in (c.extra or {}).items():
        if name not in want and LEVELS[int(v.rsplit("-", 1)[1])] in ("machine", "application", "instance"):
            raise Violation(f"application {n[1]} instance {n[2]} with {env}: there is an extra setting {name} = {v!r}", "extra setting under a wrong name")
    return digest(("extra", n, k))


NUMBERS = (0, 1, 7, 2 ** 31 + 5, 2 ** 40 + 1, 10 ** 15)
PATHS = ("/nowhere/" + "x" * 3000, "/nowhere/with space=and equals", "/nowhere/\u00fc\u65e5", "relative/path", "/nowhere/trailing/", "/")


def case_values(job):
    """Every setting at two neighbouring levels with unusual values, among many variables and extra settings of others."""
    n, k, crowd = job
    high, low = (("instance", "application"), ("application", "machine"), ("instance", "machine"))[k % 3]
    present = {s: {high, low} for s in SETTINGS}
    env, vals = env_of(n, present, 0)
    for i, s in enumerate(SETTINGS):
        unusual = NUMBERS if isinstance(SETTINGS[s][0], int) else PATHS if s.endswith("DIR") else None
        if unusual:
            vals[s][high] = unusual[(k // 3 + i) % len(unusual)]
            env[names_of(s, n)[high]] = str(vals[s][high])
    want = {}
    for i in range(crowd):
        env[f"OTHER_{i}"] = "x" * 50
        levels = [l for l in LEVELS[:3] if (i + k) % 7 + 1 >> LEVELS.index(l) & 1]
        name = f"ITEM_{i}" if i % 2 else f"VERY_{'LONG_' * (i % 40)}NAME_{i}"
        for l in levels:
            env[names_of("EXTRA", n)[l] + "_" + name] = want[name] = f"{l}={i}" + "y" * (i * 20)
        want[name] = f"{chosen(levels)}={i}" + "y" * (i * 20)
    c = load(n[0], n[2], env)
    what = f"application {n[1]} instance {n[2]} with unusual values at the level of the {high} and {crowd} extra settings"
    check(c, n, present, vals, what)
    got = {a: b for a, b in (c.extra or {}).items()}
    if got != want:
        a = next(a for a in [*want, *got] if want.get(a) != got.get(a))
        raise Violation(f"{what}: extra setting {a} is {str(got.get(a))[:80]!r}, should be {str(want.get(a))[:80]!r}", "extra setting")
    return digest(("values", n, k, crowd))


PLACE = {"STAT_GP": ("stats_keeper", "gather_period"), "STAT_HL": ("stats_keeper", "history_length"), "LOG_DIR": ("logging", "file_logging", "directory"),
         "LOG_LEVEL": ("logging", "level"), "LOG_BUF_SIZE": ("logging", "file_logging", "buffer_size"), "LOG_MAX_SIZE": ("logging", "file_logging", "max_size_in_bytes"),
         "LOG_MAX_FILES": ("logging", "file_logging", "max_files"), "LOCK_DIR": ("lock_directory",), "BUFFER_DIR": ("buffer_directory",)}


def case_file(job):
    """mask: which settings the file sets; env level of the others from k; other instances in the same file; servers and extras."""
    n, mask, k, d = job
    names = [s for s in SETTINGS if s in PLACE]
    inst, file = {}, {}
    for i, s in enumerate(names):
        if mask >> i & 1:
            v = SETTINGS[s][1](9 + i)
            file[s] = v
            t = inst
            for p in PLACE[s][:-1]:
                t = t.setdefault(p, {})
            t[PLACE[s][-1]] = v
    subsets = [frozenset(l for i, l in enumerate(LEVELS) if m >> i & 1) for m in range(1 << len(LEVELS))]
    present = {s: subsets[(k + 19 * i) % len(subsets)] for i, s in enumerate(SETTINGS)}
    env, vals = env_of(n, present, k % 3)
    servers = {}
    for b, s in enumerate(("tcp", "udp")):
        where = (mask >> b) & 1, (k >> b) & 1
        if where[0]:
            inst[s] = {"host": "10.9.9.9", "port": 900 + b}
        if where[1]:
            env[names_of(s.upper(), n)["instance"]] = f"10.1.1.1:{100 + b}"
        servers[s] = ("10.9.9.9", 900 + b) if where[0] else ("10.1.1.1", 100 + b) if where[1] else None
    extra = None
    if k & 1:
        env[names_of("EXTRA", n)["instance"] + "_DB"] = "env"
        extra = "env"
    if mask & 4:
        inst["extra"] = {"DB": "file"}
        extra = "file"
    other = {"lock_directory": "/nowhere/wrong", "tcp": {"host": "10.8.8.8", "port": 1}, "stats_keeper": {"gather_period": 1, "history_length": 1},
             "logging": {"level": "critical", "file_logging": {"directory": "/nowhere/wrong", "buffer_size": 9}}, "buffer_directory": "/nowhere/wrong", "extra": {"DB": "wrong"}}
    doc = {"instances": {n[4]: other, n[2]: inst}}
    path = os.path.join(d, f"c{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump(doc, f)
    c = load(n[0], n[2], env, ("-c", path) if k % 2 else ("--config_file", path))
    os.remove(path)
    what = f"application {n[1]} instance {n[2]} with {env} and file {doc}"
    check(c, n, present, vals, what, file)
    for s, got in (("tcp", c.tcp), ("udp", c.udp)):
        if (got and (got.host, got.port)) != servers[s]:
            raise Violation(f"{what}: {s} address is {got}, should be {servers[s]}", f"{s} address from file")
    if (c.extra or {}).get("DB") != extra:
        raise Violation(f"{what}: extra setting DB is {(c.extra or {}).get('DB')!r}, should be {extra!r}", "extra setting from file")
    return digest(("file", n, mask, k))


CASES = {"levels": case_levels, "servers": case_servers, "extra": case_extra, "file": case_file, "values": case_values}


def work(job):
    kind, name, items = job
    part = {"name": name, "states": set(), "transitions": 0, "traces": 0, "samples": [], "violations": []}
    for it in items:
        try:
            part["states"].add(forked(lambda ch: CASES[kind](it))(Chooser()))
        except Violation as e:
            part["violations"].append({"what": e.what, "sig": e.sig, "trace": [], "replay": {"case": kind, "item": it}})
            if len(part["violations"]) >= 3:
                break
        part["traces"] += 1
        part["transitions"] += 1
    part["samples"].append({"case": kind, "item": items[0]})
    return part


def run(report, tier):
    import pydantic, argparse, platform, asyncio, sqlalchemy, sqlalchemy.orm, logging.handlers  # noqa
    sys.pycache_prefix = os.path.join(boot.scratch(), "pycache")
    boot.clean_env()
    d = boot.fresh_dir("cfg")
    jobs = []

    def add(kind, name, items, step=24):
        items = list(items)
        for k in range(0, len(items), step):
            jobs.append((kind, name, items[k:k + step]))
    N = 1 << len(LEVELS)
    if tier == "quick":
        add("levels", "all settings at the same subset of levels", ((n, k, 0) for n in NAMES[:2] for k in range(N)))
        add("levels", "all settings at different subsets of levels", ((n, k, 37) for n in NAMES[2:] for k in range(N)))
        add("servers", "server addresses", ((n, k, d) for n in NAMES[:3] for k in range(N)))
        add("extra", "extra settings", ((n, k) for n in NAMES for k in range(N)))
        add("file", "configuration file, every subset of settings", ((NAMES[0], m, m % N, d) for m in range(1 << 9)))
        add("file", "configuration file, every environment", ((NAMES[1], (k * 73) % 512, k, d) for k in range(N)))
    else:
        for stride in (0, 1, 5, 37):
            add("levels", f"levels of settings differ by {stride}", ((n, k, stride) for n in NAMES for k in range(N)))
        add("servers", "server addresses", ((n, k, d) for n in NAMES for k in range(N)))
        add("extra", "extra settings", ((n, k) for n in NAMES for k in range(N)))
        for n in NAMES:
            add("file", "configuration file", ((n, m, k, d) for m in range(1 << 9) for k in range(0, N, 7)))
    for n in NAMES if tier != "quick" else NAMES[:2]:
        add("values", "unusual values, many variables", ((n, k, crowd) for k in range(18) for crowd in (0, 150, 400)), 9)
    merged = {}
    for p in pmap(work, jobs):
        m = merged.setdefault(p["name"], p)
        if m is not p:
            for k in ("transitions", "traces"):
                m[k] += p[k]
            m["states"] |= p["states"]
            m["violations"] += p["violations"]
    for p in merged.values():
        report.add(p)
    report.notes["bounds"] = f"{len(NAMES)} name sets, {len(LEVELS)} places a variable can be set, {len(SETTINGS)} settings, 3 server kinds, extras, configuration file"
