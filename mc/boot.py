"""Process bootstrap: scratch directories, environment and import path for the code under test (/repo)."""
import atexit, os, shutil, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
_scratch = None
_owner = None


def scratch():
    """One scratch directory per check process (in memory if possible), removed at exit by its creator."""
    global _scratch, _owner
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="ekosis-mc-", dir=base)
        _owner = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _owner == os.getpid() and _scratch and os.path.basename(_scratch).startswith("ekosis-mc-"):
        shutil.rmtree(_scratch, ignore_errors=True)


def fresh_dir(tag="d"):
    return tempfile.mkdtemp(prefix=tag + "-", dir=scratch())


def drop_dir(d):
    if d and os.path.dirname(d) == scratch():
        shutil.rmtree(d, ignore_errors=True)


def clean_env():
    for k in [k for k in os.environ if k.startswith("ECOENV")]:
        del os.environ[k]


def prepare(app="verif_app", instance="0", env=None, argv_extra=("-lfo",)):
    """Set argv/environment so that `import ekosis...` configures itself inside the scratch directory."""
    # third-party modules may come from their byte-code caches; /repo is always compiled afresh
    import asyncio, sqlite3, pydantic, sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite, json, logging.handlers  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pycache")
    for p in [p for p in sys.path if p == REPO]:
        sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.argv = [app + ".py", "-i", instance, *argv_extra]
    clean_env()
    d = scratch()
    base = {"ECOENV_LOG_DIR": d, "ECOENV_LOCK_DIR": d, "ECOENV_BUFFER_DIR": d, "ECOENV_DEFAULT_DIR": d}
    base.update(env or {})
    for k, v in base.items():
        if v is not None:
            os.environ[k] = v


CLOCK = None


def install_clock():
    """Let the clocks of the code under test (imported later) follow CLOCK when it is set."""
    import time, timeit
    for mod, name in ((time, "time"), (time, "monotonic"), (time, "perf_counter"), (timeit, "default_timer")):
        def wrap(real):
            return lambda: CLOCK() if CLOCK else real()
        setattr(mod, name, wrap(getattr(mod, name)))


def quiet_logging():
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False


_tracked = []
_tracking = False


def track_sqlite():
    """Remember every sqlite connection the code opens, so that a finished execution can be cleaned up."""
    global _tracking
    if _tracking:
        return
    _tracking = True
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    @event.listens_for(Engine, "connect")
    def _c(dbapi_connection, record):
        _tracked.append(dbapi_connection)


def close_sqlite():
    while _tracked:
        c = _tracked.pop()
        try:
            c.close()
        except Exception:
            pass
