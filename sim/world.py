"""The simulated surroundings of the library: clock, entropy, environment, host, disk, warnings, solvers.

Every seam is a patch of a standard-library or dependency function made before the package is imported, in
processes the harness owns.  Outside a simulated run the originals are used.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import random
import socket
import platform
import sys
import threading
import time
import warnings

from . import sched as S

REAL = {"time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter, "sleep": time.sleep,
        "open": builtins.open, "urandom": os.urandom, "getpid": os.getpid, "cpu_count": os.cpu_count}
EPOCH = 1_750_000_000.0
PROTECTED = ("/opt/venv", "/opt/vp", "/usr", "/proc", "/dev", "/etc", "/sys", "/lib")


class World:
    """State of the surroundings in the current process; `cfg` holds the adversary's choices."""

    def __init__(self):
        self.reset({}, None)

    def reset(self, cfg, scratch):
        self.cfg = cfg
        self.scratch = scratch
        self.clock_n = 0
        self.ent = random.Random.__new__(random.Random)
        _seed0(self.ent, cfg.get("entropy", 12345))
        self.jumps = cfg.get("jumps") or []
        self.reads = {"clock": 0, "entropy": 0, "env": 0, "host": 0, "disk": 0}
        self.warned = []                 # (opid, category, text)
        self.writes = []                 # paths opened for writing under the library's frames
        self.ioops = 0
        self.iofaults = {}
        self.phantoms = 0
        self.solver = {}                 # opid -> evaluations
        self.extra = 0.0


def _seed0(r, v):
    _orig_seed(r, v)


_orig_seed = random.Random.seed
W = None


def _now():
    """Simulated seconds since the start of the run."""
    s = S.SCHED
    t = S.CUR
    return (s.vclock if s is not None else 0.0) + (t.step * S.STEP_SECONDS if t is not None else 0.0)


def _wall():
    W.reads["clock"] += 1
    c = W.cfg
    v = c.get("epoch", EPOCH) + _now() * c.get("rate", 1.0)
    if W.jumps:
        v += W.jumps[W.reads["clock"] % len(W.jumps)]
    return v


def _mono():
    W.reads["clock"] += 1
    return W.cfg.get("mono0", 1000.0) + _now() * W.cfg.get("mrate", 1.0)


def _sim():
    return S.me() is not None


def _install_clock():
    def wrap(name, f):
        o = getattr(time, name)
        setattr(time, name, lambda *a: f() if _sim() else o(*a))
    wrap("time", _wall)
    wrap("time_ns", lambda: int(_wall() * 1e9))
    wrap("monotonic", _mono)
    wrap("monotonic_ns", lambda: int(_mono() * 1e9))
    wrap("perf_counter", _mono)
    wrap("perf_counter_ns", lambda: int(_mono() * 1e9))
    wrap("process_time", _mono)
    wrap("process_time_ns", lambda: int(_mono() * 1e9))
    wrap("thread_time", _mono)
    for name in ("localtime", "gmtime"):
        o = getattr(time, name)
        setattr(time, name, lambda x=None, o=o: o(_wall() if x is None and _sim() else x))
    for name in ("ctime",):
        o = getattr(time, name)
        setattr(time, name, lambda x=None, o=o: o(_wall() if x is None and _sim() else x))
    o_strftime = time.strftime
    time.strftime = lambda fmt, t=None: o_strftime(fmt, time.localtime() if t is None else t)

    def sleep(dt):
        if _sim():
            S.SCHED.sleep(dt)
        else:
            REAL["sleep"](dt)
    time.sleep = sleep
    threading._time = time.monotonic
    import queue
    queue.time = time.monotonic

    class datetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_wall(), tz) if _sim() else super().now(tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(_wall(), _dt.timezone.utc).replace(tzinfo=None) if _sim() else super().utcnow()

        @classmethod
        def today(cls):
            return cls.fromtimestamp(_wall()) if _sim() else super().today()

    class date(_dt.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(_wall()) if _sim() else super().today()
    _dt.datetime = datetime
    _dt.date = date


def _install_entropy():
    def urandom(n):
        if _sim():
            W.reads["entropy"] += 1
            return W.ent.randbytes(n)
        return REAL["urandom"](n)
    os.urandom = urandom
    random._urandom = urandom

    def seed(self, a=None, version=2):
        if a is None and _sim():
            W.reads["entropy"] += 1
            a = W.ent.getrandbits(64)
        return _orig_seed(self, a, version)
    random.Random.seed = seed
    # the module-level function was bound to the hidden instance before the patch
    random.seed = random._inst.seed


def _caller_is_sut(depth=2, skip=("/os.py", "_collections_abc", "<frozen")):
    f = sys._getframe(depth)
    n = 0
    while f is not None and n < 8:
        fn = f.f_code.co_filename
        if fn.startswith(S.PKG):
            return True
        if not any(k in fn for k in skip):
            return False
        f = f.f_back
        n += 1
    return False


def _install_env():
    E = type(os.environ)
    o = E.__getitem__

    def getitem(self, key):
        if _sim() and self is os.environ and _caller_is_sut():
            W.reads["env"] += 1
            spy = W.cfg.get("envspy")
            if spy is not None:
                v = spy[sum(map(ord, str(key))) % len(spy)]
                if v is None:
                    raise KeyError(key)
                if v != "@real":
                    return v.replace("@scratch", W.scratch or "/nonexistent")
        return o(self, key)
    E.__getitem__ = getitem


def _install_host():
    def wrap(mod, name, key):
        o = getattr(mod, name)

        def f(*a, **k):
            if _sim() and key in W.cfg and S.sut_on_stack(sys._getframe(1)):
                W.reads["host"] += 1
                return W.cfg[key]
            return o(*a, **k)
        setattr(mod, name, f)
    wrap(os, "cpu_count", "cpus")
    wrap(os, "getpid", "pid")
    wrap(os, "getppid", "ppid")
    wrap(socket, "gethostname", "host")
    wrap(platform, "node", "host")
    wrap(platform, "system", "system")
    if hasattr(os, "process_cpu_count"):
        wrap(os, "process_cpu_count", "cpus")
    o = os.sched_getaffinity
    os.sched_getaffinity = lambda p=0: (set(range(W.cfg["cpus"])) if _sim() and "cpus" in W.cfg
                                        and S.sut_on_stack(sys._getframe(1)) else o(p))


# ------------------------------------------------------------------ disk
class Torn(Exception):
    pass


def _map(path, write):
    """Where a path used under the library's frames really leads (overlay inside the run's scratch folder)."""
    if isinstance(path, int) or W.scratch is None:
        return path
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return path
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith(PROTECTED) and not write:
        return path
    if p == W.scratch or p.startswith(W.scratch + os.sep):
        if not write and W.cfg.get("phantom") is not None and not _lexists(p) and _caller_is_sut(2, PHANTOM_SKIP) \
                and os.path.isdir(os.path.dirname(p)):
            with REAL["open"](p, "wb") as fh:
                fh.write(W.cfg["phantom"].encode("latin-1"))
            W.phantoms += 1
        return path
    ov = W.scratch + "/overlay" + p
    if write or _lexists(ov):
        os.makedirs(os.path.dirname(ov), exist_ok=True)
        if write and _lexists(p) and not _lexists(ov) and os.path.isfile(p):
            try:
                with REAL["open"](p, "rb") as a, REAL["open"](ov, "wb") as b:
                    b.write(a.read())
            except OSError:
                pass
        return ov
    ph = W.cfg.get("phantom")
    if ph is not None and not _lexists(p) and _caller_is_sut(2, PHANTOM_SKIP):
        # a file the library asks for, left behind by somebody else
        os.makedirs(os.path.dirname(ov), exist_ok=True)
        with REAL["open"](ov, "wb") as fh:
            fh.write(ph.encode("latin-1"))
        W.phantoms += 1
        return ov
    return path


_o_lstat = os.lstat
PHANTOM_SKIP = ("/os.py", "genericpath", "pathlib", "posixpath", "<frozen", "/sim/world.py", "/numpy/", "configparser")


def _lexists(p):
    try:
        _o_lstat(p)
        return True
    except OSError:
        return False


def _io_event(kind, path, write):
    """Count an I/O operation of the library; may raise an injected disk error or end the process."""
    W.ioops += 1
    W.reads["disk"] += 1
    plan = W.cfg.get("io") or {}
    act = plan.get("all") or plan.get(str(W.ioops))
    if not act:
        return None
    pr = isinstance(path, str) and os.path.abspath(path).startswith(PROTECTED)
    if pr:
        return None
    if act in ("ENOSPC", "EACCES", "EIO", "ENOENT", "EMFILE"):
        if act in ("ENOSPC",) and not write:
            return None
        W.iofaults[act] = W.iofaults.get(act, 0) + 1
        raise OSError(getattr(errno, act), os.strerror(getattr(errno, act)), path)
    W.iofaults[act] = W.iofaults.get(act, 0) + 1
    return act


_busy = threading.local()


DEVICES = ("/dev/null", "/dev/zero", "/dev/full", "/dev/stdin", "/dev/stdout", "/dev/stderr")


def _device(p):
    return isinstance(p, str) and p in DEVICES


def _under_sut():
    if not _sim() or getattr(_busy, "on", False) or W.scratch is None:
        return False
    return S.sut_on_stack(sys._getframe(2))


def _install_disk():
    o_open, o_oopen = builtins.open, os.open

    def popen(file, mode="r", *a, **k):
        if not _under_sut() or isinstance(file, int) or _device(file):
            return o_open(file, mode, *a, **k)
        _busy.on = True
        try:
            write = any(c in mode for c in "wax+")
            act = _io_event("open", file, write)
            real = _map(file, write)
            fh = o_open(real, mode, *a, **k)
            if write:
                W.writes.append(os.path.abspath(os.fspath(real)) if not isinstance(real, int) else str(real))
            if write and act == "kill":
                fh.flush()
                S.SCHED.on_kill()
            return fh
        finally:
            _busy.on = False
    builtins.open = popen
    io.open = popen

    def oopen(path, flags, mode=0o777, *, dir_fd=None):
        if not _under_sut() or dir_fd is not None or _device(path):
            return o_oopen(path, flags, mode, dir_fd=dir_fd)
        _busy.on = True
        try:
            write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            act = _io_event("os.open", path, write)
            real = _map(path, write)
            fd = o_oopen(real, flags, mode)
            if write:
                W.writes.append(os.path.abspath(os.fspath(real)))
            if write and act == "kill":
                S.SCHED.on_kill()
            return fd
        finally:
            _busy.on = False
    os.open = oopen

    def one(name, write):
        o = getattr(os, name)

        def f(path=".", *a, **k):
            if k.get("dir_fd") is not None or not _under_sut() or _device(path):
                return o(path, *a, **k)
            _busy.on = True
            try:
                _io_event(name, path, write)
                r = _map(path, write)
                if write:
                    W.writes.append(str(r))
                return o(r, *a, **k)
            finally:
                _busy.on = False
        setattr(os, name, f)
    for n in ("stat", "lstat", "listdir", "scandir", "access"):
        one(n, False)
    for n in ("mkdir", "rmdir", "remove", "unlink", "chmod", "utime", "truncate", "chdir"):
        one(n, n != "chdir")

    def two(name):
        o = getattr(os, name)

        def f(a, b, **k):
            if not _under_sut():
                return o(a, b, **k)
            _busy.on = True
            try:
                act = _io_event(name, b, True)
                ra, rb = _map(a, True), _map(b, True)
                if act == "kill":
                    S.SCHED.on_kill()
                W.writes.append(str(rb))
                return o(ra, rb, **k)
            finally:
                _busy.on = False
        setattr(os, name, f)
    for n in ("rename", "replace", "link", "symlink"):
        two(n)
    if "pathlib" in sys.modules:
        import pathlib
        pathlib.io = io
        pathlib.os = os


# ------------------------------------------------------------------ warnings and solvers
def _install_warnings():
    def show(message, category, filename, lineno, file=None, line=None):
        t = S.CUR
        if W is not None:
            W.warned.append((t.opid if t is not None else None, category, str(message)))
    warnings.showwarning = show
    warnings.resetwarnings()
    warnings.simplefilter("always")


def _install_solvers():
    """Count evaluations of the function handed to an iterative solver, per operation."""
    import scipy.integrate as si
    import scipy.optimize as so

    def wrap(mod, name):
        o = getattr(mod, name, None)
        if o is None:
            return

        def f(func, *a, **k):
            t = S.CUR
            if t is None or not callable(func):
                return o(func, *a, **k)

            def counted(*x, **y):
                t.evals += 1
                return func(*x, **y)
            return o(counted, *a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    for n in ("fsolve", "root", "brentq", "newton", "root_scalar", "bisect", "least_squares", "minimize", "fixed_point"):
        wrap(so, n)
    for n in ("odeint", "solve_ivp", "quad"):
        wrap(si, n)


def install():
    global W
    W = World()
    S.install_sync()
    _install_clock()
    _install_entropy()
    _install_env()
    _install_host()
    _install_disk()
    _install_warnings()
    _install_solvers()
