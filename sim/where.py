"""Places a call can be made from: coroutine, generator, finaliser, handler of another error, import of another module, ..."""
import os
import sys

SMALL = 20000         # contexts that look at every line are used for calls of at most that many steps


def at(names, fn, args, kw, scratch):
    """fn(*args, **kw), made from inside the named places (outermost first)."""
    if not names:
        return fn(*args, **kw)
    if names[0] in CALLERS and len(names) == 1:
        return caller(names[0], fn, args, kw)
    return PLACES[names[0]](lambda: at(names[1:], fn, args, kw, scratch), scratch)


def boxed(run, box):
    try:
        box.append((True, run()))
    except BaseException as e:
        box.append((False, e))


def unbox(box):
    ok, x = box.pop()
    if ok:
        return x
    try:
        raise x
    finally:
        del x


def task(run, scratch):
    import asyncio
    loop = asyncio.new_event_loop()

    async def other(n):
        for _ in range(n):
            await asyncio.sleep(0)

    async def mine():
        o = asyncio.ensure_future(other(3))
        await asyncio.sleep(0)
        boxed(run, box)
        await o
    box = []
    try:
        loop.run_until_complete(mine())
    finally:
        loop.close()
    return unbox(box)


def ctx(run, scratch):
    import contextvars
    return contextvars.copy_context().run(run)


def bare(run, scratch):
    import contextvars
    return contextvars.Context().run(run)


def gen(run, scratch):
    def g():
        yield 0
        yield run()
    it = g()
    next(it)
    try:
        return next(it)
    finally:
        it.close()


def finaliser(run, scratch):
    box = []

    class F:
        def __del__(self):
            boxed(run, box)
    f = F()
    del f
    return unbox(box)


def weak(run, scratch):
    import weakref
    box = []

    class F:
        pass
    f = F()
    r = weakref.ref(f, lambda _: boxed(run, box))
    del f
    del r
    return unbox(box)


def handler(run, scratch):
    try:
        raise KeyError("the caller's own error")
    except KeyError:
        return run()


def leaving(run, scratch):
    box = []
    try:
        try:
            raise FloatingPointError("the caller's own error")
        finally:
            boxed(run, box)
    except FloatingPointError:
        pass
    return unbox(box)


_N = [0]


def importing(run, scratch):
    import importlib
    import importlib.abc
    import importlib.machinery
    _N[0] += 1
    name = "users_own_module_%d" % _N[0]
    box = []

    class L(importlib.abc.Loader):
        def create_module(self, spec):
            return None

        def exec_module(self, m):
            boxed(run, box)

    class M:
        def find_spec(self, n, path=None, target=None):
            if n == name:
                return importlib.machinery.ModuleSpec(n, L())
    m = M()
    sys.meta_path.insert(0, m)
    try:
        importlib.import_module(name)
    finally:
        sys.meta_path.remove(m)
        sys.modules.pop(name, None)
    return unbox(box)


def traced(run, scratch):
    n = [0]

    def tr(frame, ev, arg):
        n[0] += 1
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return run()
    finally:
        sys.settrace(old)


def profiled(run, scratch):
    n = [0]

    def pr(frame, ev, arg):
        n[0] += 1
    old = sys.getprofile()
    sys.setprofile(pr)
    try:
        return run()
    finally:
        sys.setprofile(old)


def nostd(run, scratch):
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = sys.stdout = sys.stderr = None
    try:
        return run()
    finally:
        sys.stdin, sys.stdout, sys.stderr = old


def nocwd(run, scratch):
    old = os.getcwd()
    d = scratch + "/gone%d" % _N[0]
    _N[0] += 1
    os.makedirs(d)
    os.chdir(d)
    os.rmdir(d)
    try:
        return run()
    finally:
        os.chdir(old)


# ---- kinds of session: what a program can find out about the session it runs in
class _Stub:
    def __init__(self, name):
        import types
        self.m = types.ModuleType(name)
        self.m.__file__ = "/home/user/lib/%s/__init__.py" % name
        self.m.__version__ = "8.30.0"
        self.m.version_info = (8, 30, 0)


def _nobody():
    return None


def session(attrs=(), modules=(), env=(), main=False, builtin=()):
    """A place whose process looks like a session of the given kind (put back afterwards)."""
    def place(run, scratch):
        import builtins
        gone = object()
        old = [(o, k, getattr(o, k, gone)) for o, k in [(sys, a) for a, _ in attrs] + [(builtins, a) for a in builtin]]
        for a, v in attrs:
            setattr(sys, a, v)
        for a in builtin:
            setattr(builtins, a, _nobody)
        mods = []
        for m in modules:
            if m not in sys.modules:
                sys.modules[m] = st = _Stub(m).m
                st.get_ipython = _nobody
                mods.append(m)
        envs = [(k, os.environ.get(k)) for k, _ in env]
        for k, v in env:
            os.environ[k] = v
        mm = sys.modules["__main__"]
        f = mm.__dict__.get("__file__", gone)
        if main:
            mm.__dict__.pop("__file__", None)
        try:
            return run()
        finally:
            if f is not gone:
                mm.__file__ = f
            for k, v in envs:
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            for m in mods:
                sys.modules.pop(m, None)
            for o, k, v in old:
                if v is gone:
                    if hasattr(o, k):
                        delattr(o, k)
                else:
                    setattr(o, k, v)
    return place


class _Failing:
    """A stream whose device is full or gone."""
    encoding = "ascii"
    errors = "strict"
    closed = False

    def __init__(self, how):
        self.how = how

    def write(self, s):
        if self.how == "ascii":
            s.encode("ascii")
            return len(s)
        raise OSError(28, "No space left on device") if self.how == "full" else BrokenPipeError(32, "Broken pipe")

    def flush(self):
        self.write("")

    def isatty(self):
        return self.how == "ascii"

    def fileno(self):
        raise OSError(9, "Bad file descriptor")


def stream(how):
    def place(run, scratch):
        old = sys.stdout, sys.stderr
        if how == "closed":
            import io
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            sys.stdout.close(), sys.stderr.close()
        else:
            sys.stdout, sys.stderr = _Failing(how), _Failing(how)
        try:
            return run()
        finally:
            sys.stdout, sys.stderr = old
    return place


def logged(run, scratch):
    import io
    import logging
    root = logging.getLogger()
    h = logging.StreamHandler(io.StringIO())
    old = root.level
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        return run()
    finally:
        root.setLevel(old)
        root.removeHandler(h)


SESSIONS = {
    "prompt": session(attrs=(("ps1", ">>> "), ("ps2", "... "), ("argv", [""])), main=True),
    "notebook": session(modules=("IPython", "ipykernel"), builtin=("get_ipython",), main=True,
                        env=(("JPY_PARENT_PID", "77"),), attrs=(("argv", ["ipykernel_launcher.py", "-f", "kernel.json"]),)),
    "testrun": session(modules=("pytest", "_pytest"), env=(("PYTEST_CURRENT_TEST", "tests/test_mine.py::test_model (call)"), ("CI", "true")),
                       attrs=(("argv", ["/usr/bin/pytest", "-q"]),)),
    "frozen": session(attrs=(("frozen", True), ("_MEIPASS", "/tmp/_MEI4242"), ("argv", ["mytool.exe"])), main=True),
    "debugger": session(modules=("pydevd", "debugpy"), env=(("PYTHONBREAKPOINT", "0"),)),
    "embedded": session(attrs=(("argv", []),), main=True),
    "tool": session(attrs=(("argv", ["mytool", "--fast", "-v", "--debug"]),)),
    "noargv": session(attrs=(("orig_argv", []), ("executable", ""))),
    "full": stream("full"), "pipe": stream("pipe"), "closed": stream("closed"), "ascii": stream("ascii"), "logged": logged}


# who calls: module name, file name, function the call is written in
CALLERS = {"string": (None, "<string>", None), "script": ("__main__", "/home/user/script.py", None),
           "cell": ("__main__", "<ipython-input-3-0f1e2d3c4b5a>", None), "doctest": ("mine", "<doctest mine.f[0]>", None),
           "test": ("test_mine", "/home/user/tests/test_mine.py", "test_model"), "setup": ("mine", "/home/user/mine.py", "__init__"),
           "repr": ("mine", "/home/user/mine.py", "__repr__"), "main": ("mine.__main__", "/home/user/mine/__main__.py", "main"),
           "kin": ("rockphypy_tools", "/home/user/rockphypy/tools.py", "run")}


def caller(who, fn, args, kw):
    mod, file, name = CALLERS[who]
    g = {"f": fn, "a": args, "k": kw}
    if mod:
        g.update(__name__=mod, __file__=file)
    src = "x = f(*a, **k)" if name is None else "def %s():\n    return f(*a, **k)\nx = %s()" % (name, name)
    try:
        exec(compile(src, file, "exec"), g)
        return g["x"]
    finally:
        g.clear()


def written(who):
    return lambda run, scratch: caller(who, run, (), {})


def deep(run, scratch, n=250):
    return run() if n == 0 else deep(run, scratch, n - 1)


def objective(solver):
    def place(run, scratch):
        import numpy as np
        from scipy import integrate, optimize
        box = []

        def once(x):
            if not box:
                boxed(run, box)
            return np.ravel(x)[0] ** 2 - 2.0

        def curve(t, y):
            once(y)
            return -y
        if solver == "fsolve":
            optimize.fsolve(once, 1.0)
        elif solver == "minimize":
            optimize.minimize(lambda x: once(x) ** 2, [1.0], method="Nelder-Mead", options={"maxiter": 3})
        elif solver == "leastsq":
            optimize.leastsq(lambda x: [once(x), 0.0], [1.0])
        elif solver == "brentq":
            optimize.brentq(once, 0.0, 3.0)
        elif solver == "quad":
            integrate.quad(once, 0.0, 1.0)
        elif solver == "ivp":
            integrate.solve_ivp(curve, (0, .1), [1.0])
        elif solver == "odeint":
            integrate.odeint(lambda y, t: curve(t, y), [1.0], [0, .1])
        return unbox(box)
    return place


def npcall(run, scratch):
    import numpy as np
    box = []
    np.frompyfunc(lambda i: boxed(run, box) or i, 1, 1)(0)
    return unbox(box)


def applied(run, scratch):
    import pandas as pd
    box = []
    pd.Series([1.0]).map(lambda i: boxed(run, box) or i)
    return unbox(box)


def sorting(run, scratch):
    box = []
    sorted([1], key=lambda i: boxed(run, box) or i)
    return unbox(box)


PLACES = {"task": task, "ctx": ctx, "bare": bare, "gen": gen, "finaliser": finaliser, "weak": weak, "handler": handler,
          "leaving": leaving, "importing": importing, "traced": traced, "profiled": profiled, "nostd": nostd, "nocwd": nocwd,
          "deep": deep, "npcall": npcall, "applied": applied, "sorting": sorting}
for _s in ("fsolve", "minimize", "leastsq", "brentq", "quad", "ivp", "odeint"):
    PLACES["in-" + _s] = objective(_s)
for _s in CALLERS:
    PLACES[_s] = written(_s)
PLACES.update(SESSIONS)
SLOW = ("traced", "profiled")


def through(fn, call, how):
    """The same model reached through a subclass or an instance of its class."""
    from . import engine as E
    cls, _, name = call["f"].partition(".")
    c = getattr(E.RP, cls)
    if how == "subclass":
        return getattr(type("Mine", (c,), {}), name)
    return getattr(object.__new__(c), name)


def leave(first):
    """The process is ending: no new threads; exit handlers registered after the caller's own have run."""
    import atexit
    import threading
    from . import sched
    sched.EXITING = True
    calls = getattr(threading, "_threading_atexits", [])
    for f in reversed(list(calls)):
        f()
    if not first:
        atexit._run_exitfuncs()
