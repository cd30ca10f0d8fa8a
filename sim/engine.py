"""Zygote set-up, forked evaluation of references and of simulated runs."""
import gc
import json
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import time as _time
import traceback

from . import outcome as O
from . import sched as S
from . import values as V

REPO = os.environ.get("VERIF_REPO", "/repo")
RP = None                 # the package under test
SCRATCH = None            # this worker's scratch folder
MINED = {}                # constants of the code under test (search guidance)
_clock = _time.monotonic


# ------------------------------------------------------------------ set-up
def prepare_env(base):
    """Scratch HOME, TMPDIR, matplotlib configuration and working directory, before heavy imports."""
    os.makedirs(base + "/mpl", exist_ok=True)
    for d in ("/opt/vp/mplconfig", os.path.expanduser("~/.cache/matplotlib")):
        if os.path.isdir(d):
            for f in os.listdir(d):
                if not os.path.exists(base + "/mpl/" + f):
                    shutil.copy(os.path.join(d, f), base + "/mpl/" + f)
            break
    os.environ["MPLCONFIGDIR"] = base + "/mpl"
    os.environ["MPLBACKEND"] = "Agg"
    enter_scratch(base + "/boot")


def enter_scratch(path):
    """Make `path` the current scratch folder of this process (HOME, TMPDIR, cwd)."""
    global SCRATCH
    for d in ("home", "tmp", "cwd"):
        os.makedirs(path + "/" + d, exist_ok=True)
    SCRATCH = path
    os.environ["HOME"] = path + "/home"
    os.environ["TMPDIR"] = path + "/tmp"
    os.environ["XDG_CACHE_HOME"] = path + "/home/.cache"
    os.environ["XDG_CONFIG_HOME"] = path + "/home/.config"
    os.environ["XDG_DATA_HOME"] = path + "/home/.local"
    os.chdir(path + "/cwd")
    if "tempfile" in sys.modules:
        sys.modules["tempfile"].tempdir = None


def wipe(path=None):
    path = path or SCRATCH
    for root, dirs, files in os.walk(path):
        if files or len(dirs) > 3:
            for d in os.listdir(path):
                shutil.rmtree(os.path.join(path, d), ignore_errors=True)
            enter_scratch(path)
            return


def third_party():
    import copy, pickle, random, decimal, locale, logging, tempfile, threading, queue, uuid, secrets, hashlib  # noqa
    import multiprocessing, multiprocessing.process  # noqa
    import asyncio, atexit, contextvars, importlib.machinery  # noqa
    import concurrent.futures.thread, contextlib, functools, inspect, weakref, collections, itertools  # noqa
    import numpy as np
    import numpy.lib.format, numpy.ma, numpy.testing  # noqa
    import scipy.integrate, scipy.interpolate, scipy.linalg, scipy.optimize, scipy.special, scipy.stats  # noqa
    import pandas as pd
    import matplotlib
    import matplotlib.pyplot as plt
    import kde_diffusion
    # warm caches of the dependencies so that one-off effects do not look like effects of the library
    fig, ax = plt.subplots(figsize=(4, 3))
    sc = ax.scatter([0, 1, 2], [1, 2, 3], c=[0., 1., 2.], cmap="viridis", edgecolor="grey", alpha=.8)
    cb = fig.colorbar(sc)
    cb.set_label("x")
    ax.contour(np.arange(16.).reshape(4, 4))
    ax.plot([0, 1], [0, 1], "-k", label="a")
    ax.legend()
    ax.text(0, 0, "t")
    ax.grid(ls="--")
    fig.canvas.draw()
    plt.close("all")
    r = np.random.Generator(np.random.PCG64(1))
    kde_diffusion.kde2d(r.uniform(0, 1, 50), r.uniform(0, 1, 50), n=16)
    df = pd.DataFrame({"a": [1., 2.], "b": [3., 4.]})
    df.loc[df.a > 1, "b"] = 5
    df.sort_values("a").reset_index(drop=True).to_numpy()
    pickle.loads(pickle.dumps(df))
    copy.deepcopy(df)
    pd.Series([1., 2.]).iloc[0]
    scipy.optimize.fsolve(lambda x: x * x - 2, 1.)
    scipy.integrate.odeint(lambda y, t: -y, [1.], [0, 1.])
    scipy.interpolate.interp1d([0, 1], [0, 1])(.5)
    scipy.special.jv(1, 2.)
    np.linalg.inv(np.eye(3))
    np.random.get_state()
    scipy.stats.norm.cdf(.1)
    str(np.arange(3.)), repr(df)


def import_sut():
    global RP
    sys.pycache_prefix = (SCRATCH or "/tmp") + "/pyc"      # never trust byte code lying beside the sources
    import rockphypy
    f = os.path.realpath(rockphypy.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("rockphypy imported from %s, not from %s" % (f, REPO))
    RP = rockphypy
    return rockphypy


def boot(base):
    """Build the zygote: everything imported and instrumented, no library call made."""
    prepare_env(base)
    sys.path.insert(0, REPO)
    S.PKG = os.path.realpath(REPO) + "/rockphypy/"
    third_party()
    from . import world
    world.install()
    import_sut()
    instrument()
    gc.collect()
    gc.freeze()
    gc.disable()          # collections happen at deterministic points only (never, in these short processes)


def instrument():
    from . import focus, spice
    MINED.update(spice.mine())
    focus.load()
    S.find_shared_names()
    S.TABLES.clear()
    S.instrument(S.code_objects(None))


def target(f):
    cls, _, name = f.partition(".")
    return getattr(getattr(RP, cls), name)


# ------------------------------------------------------------------ forked evaluation
class Died(Exception):
    def __init__(self, status, note=""):
        self.status, self.note = status, note
        super().__init__("child ended: %s %s" % (status, note))


def fork_call(fn, timeout=60.0):
    """Run fn() in a forked child and return its (pickled) value; raises Died on any other ending."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, timeout)
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            try:
                out = ("ok", fn(w))
            except BaseException:
                out = ("err", traceback.format_exc())
            send(w, out)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        raise Died("timeout" if sig == signal.SIGALRM else "signal %d" % sig)
    if not data:
        raise Died("exit %d" % os.WEXITSTATUS(st))
    kind, val = pickle.loads(data)
    if kind == "err":
        raise Died("error", val)
    return val


def send(w, obj):
    data = pickle.dumps(obj, protocol=5)
    mv = memoryview(data)
    while mv:
        n = os.write(w, mv)
        mv = mv[n:]


# ------------------------------------------------------------------ calls
class FP:
    """Fingerprint of caller-owned data (contents, shape, type, flags; the whole underlying buffer)."""


def fp(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        b = x
        while isinstance(b.base, np.ndarray):
            b = b.base
        return ("nd", x.shape, x.strides, str(x.dtype), bool(x.flags.writeable),
                x.tobytes() if x.dtype != object else repr(x.tolist()),
                b.tobytes() if b is not x and b.dtype != object else None)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), fp(v)) for k, v in x.items()))
    tn = type(x).__name__
    if tn == "Series":
        return ("ser", x.index.values.tobytes(), str(x.dtype), x.to_numpy().tobytes(), repr(x.name), repr(x.index.name))
    if tn == "DataFrame":
        return ("df", tuple(map(str, x.columns)), x.index.values.tobytes(), x.to_numpy().tobytes())
    if tn == "QI":
        return ("QI", tuple(sorted((k, fp(v)) for k, v in vars(x).items() if k in LOGS)))
    if hasattr(x, "is_gray") and hasattr(x, "N"):
        from .outcome import _cmap_sig
        return ("cmap", x.name, repr(_cmap_sig(x)), x.N)
    if isinstance(x, float):
        return ("f", struct.pack("d", x))
    return (tn, repr(x))


LOGS = ("Vp", "phi", "Vsh", "Vs", "den", "eff_stress", "TVD")


def build(call, slots=None, objs=None):
    """-> (function, args, kwargs, owned data objects)"""
    args = [V.make(a, slots) for a in call["a"]]
    kw = {k: V.make(v, slots) for k, v in call.get("k", {}).items()}
    owned = args + list(kw.values())
    if "o" in call:
        o = objs[call["o"]]
        fn = getattr(o, call["f"].partition(".")[2])
        owned = owned + [o]
    elif "obj" in call:
        o = make_qi({k: V.make(v, slots) for k, v in call["obj"].items()})
        fn = getattr(o, call["f"].partition(".")[2])
        owned = owned + [o]
    else:
        fn = target(call["f"])
    return fn, args, kw, owned


def make_qi(logs):
    logs = dict(logs)
    return RP.QI(logs.pop("Vp"), logs.pop("phi"), **logs)


class Recorder:
    def __init__(self, cap=30000):
        self.elig, self.aft, self.hot, self.evb, self.foc = [], [], [], [], []
        from . import focus
        self.changed = focus.CHANGED
        self.codes = set()
        self.cap = cap
        self.cov = None         # {(code, previous offset, offset)} in changed code, when asked for
        self.prev = (None, -1)

    def __call__(self, t, code, off):
        if self.cov is not None and code in self.changed:
            pc, po = self.prev
            self.cov.add((code, po if pc is code else -1, off))
            self.prev = (code, off)
        fl = S.table(code)[0]
        f = fl[off] if off < len(fl) else 0
        if not f:
            return
        st = t.step
        if f & S.ENTRY:
            self.codes.add(code)
            fr = sys._getframe(2).f_back
            if st > 1 and fr is not None and not fr.f_code.co_filename.startswith(S.PKG) and len(self.evb) < 4000:
                self.evb.append(st)
        if code in self.changed and len(self.foc) < 4000:
            self.foc.append(st)
        if len(self.elig) < self.cap:
            if f & S.ELIG:
                self.elig.append(st)
            if f & S.HOT:
                self.hot.append(st)
            elif f & S.AFTER:
                self.aft.append(st)


REF_LIMIT = 20_000_000


def package_state():
    """Digest of everything reachable from the package that could carry information from call to call.
    Guidance for the search only (which models keep state); never used to judge."""
    import hashlib
    import types
    import numpy as np
    h = hashlib.blake2b(digest_size=8)
    seen = set()

    def w(x, d):
        if x is None or isinstance(x, (int, float, complex, str, bytes, bool, np.generic)):
            h.update(repr(x).encode()[:200])
            return
        if isinstance(x, (types.ModuleType, types.BuiltinFunctionType, types.CodeType)):
            return
        if id(x) in seen or d > 6 or len(seen) > 20000:
            return
        seen.add(id(x))
        h.update(type(x).__name__.encode())
        if isinstance(x, np.ndarray):
            h.update(x.tobytes()[:4096] if x.dtype != object else b"o")
        elif isinstance(x, dict):
            h.update(b"%d" % len(x))
            for k, v in list(x.items()):
                w(k, d + 1)
                w(v, d + 1)
        elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ in ("deque",):
            h.update(b"%d" % len(x))
            for v in list(x)[:200]:
                w(v, d + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            w(x.__func__, d)
        elif isinstance(x, property):
            w(x.fget, d)
        elif isinstance(x, types.FunctionType):
            if x.__module__ is None or not x.__module__.startswith("rockphypy"):
                if not is_sut_func(x):
                    return
            w(x.__dict__, d + 1)
            w(x.__defaults__, d + 1)
            w(x.__kwdefaults__, d + 1)
            for c in x.__closure__ or ():
                try:
                    w(c.cell_contents, d + 1)
                except ValueError:
                    pass
        elif hasattr(x, "cache_info"):
            h.update(repr(x.cache_info()).encode())
        elif type(x).__name__ == "SimLock":
            h.update(b"L%d" % x.locked())
        elif isinstance(x, type):
            if x.__module__.startswith("rockphypy"):
                for k, v in list(vars(x).items()):
                    if not (k.startswith("__") and k.endswith("__")):
                        h.update(k.encode())
                        w(v, d + 1)
        elif type(x).__module__.split(".")[0] in ("numpy", "pandas", "matplotlib", "scipy"):
            return
        else:
            dd = getattr(x, "__dict__", None)
            if isinstance(dd, dict):
                w(dd, d + 1)
    for n, m in sorted(sys.modules.items()):
        if (n + ".").startswith("rockphypy.") and isinstance(m, types.ModuleType):
            for k, v in list(vars(m).items()):
                if not (k.startswith("__") and k.endswith("__")):
                    h.update(k.encode())
                    w(v, 0)
    return h.hexdigest()


def is_sut_func(f):
    return S.is_sut(f.__code__)


def _ref_child(call, cfg, w):
    from . import world
    import warnings
    world.W.reset(dict(cfg.get("world", {})), SCRATCH)
    if cfg.get("wfilter"):
        warnings.simplefilter(cfg["wfilter"], UserWarning)
    st0 = package_state() if cfg.get("probe") else None
    rec = Recorder()
    if cfg.get("cov"):
        rec.cov = set()
    S.RECORD = rec
    sc = S.Sched()
    out = {}

    def bail():
        send(w, ("ok", {"stuck": sc.failure["kind"], "steps": 0}))
        os._exit(0)
    sc.on_fail = bail

    def body(t):
        fn, args, kw, owned = build(call)
        t.begin("ref", [], REF_LIMIT, 1 << 60)
        try:
            res = fn(*args, **kw)
            t.end()
            out["out"] = ("ret", O.norm(res))
        except BaseException as e:
            t.end()
            out["out"] = ("exc", O.exc_name(e))
            out["msg"] = str(e)[:200]
        out["steps"], out["evals"] = t.step, t.evals
    sc.run_main(body)
    S.RECORD = None
    from .world import W
    out["warn"] = sum(1 for o, c, m in W.warned if o == "ref" and issubclass(c, UserWarning))
    out["num"] = sum(1 for o, c, m in W.warned if o == "ref" and issubclass(c, RuntimeWarning))
    out["elig"], out["aft"], out["hot"], out["evb"] = rec.elig, rec.aft, rec.hot, rec.evb
    out["foc"] = rec.foc
    out["codes"] = sorted("%s:%d" % (c.co_qualname, c.co_firstlineno) for c in rec.codes)
    out["reads"] = dict(W.reads)
    if rec.cov is not None:
        from . import focus
        out["cov"] = sorted((focus.label(c), a, b) for c, a, b in rec.cov)
    if st0 is not None:
        out["stateful"] = st0 != package_state()
    out["writes"] = len(W.writes)
    return out


def reference(call, cfg=None, timeout=60.0):
    """The outcome of `call` made alone, first thing, in a fresh process image."""
    cfg = cfg or {}
    try:
        r = fork_call(lambda w: _ref_child(call, cfg, w), timeout)
    except Died as d:
        if d.status == "timeout":
            r = {"stuck": "hang", "steps": 0}
        else:
            raise
    if r.get("writes") or r.get("stuck"):
        wipe()
    return r


def key_of(call, cfg=None):
    return json.dumps([call, cfg or {}], sort_keys=True)
