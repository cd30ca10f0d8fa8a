"""Deterministic scheduler: real threads parked and released one at a time.

Only the thread that holds the baton (CUR) runs.  The baton changes hands at bytecode instructions of
rockphypy code (sys.monitoring INSTRUCTION events), at operation boundaries, when a thread blocks on a
simulated lock / sleep / join, and when it ends.  All decisions come from the run specification.
"""
import _thread
import ast
import dis
import opcode
import os
import sys
import threading

TOOL = 3
EXITING = False       # the simulated process is ending
CUR = None            # SimThread holding the baton, or None
SCHED = None          # active Sched, or None
PKG = None            # directory prefix of the package under test (with trailing separator)
_real_alloc = _thread.allocate_lock

STEP_SECONDS = 1e-6   # one instruction = one microsecond of simulated time


class Cancelled(BaseException):
    """Asynchronous cancellation of a call (as a task runner or notebook kernel would inject)."""


def make_exc(kind):
    if kind == "mem":
        return MemoryError("simulated allocation failure")
    if kind == "kbd":
        return KeyboardInterrupt()
    if kind == "cancel":
        return Cancelled("simulated cancellation")
    if kind == "fpe":
        return FloatingPointError("simulated trapped floating-point error")
    if kind == "rec":
        return RecursionError("simulated stack exhaustion")
    raise ValueError(kind)


# ------------------------------------------------------------------ code tables
_ELIG = {n for n in opcode.opmap if n.startswith("CALL") and "INTRINSIC" not in n and n != "CALL_KW"}
_ELIG |= {"BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "STORE_SUBSCR", "STORE_SLICE", "UNARY_NEGATIVE",
          "UNARY_INVERT", "COMPARE_OP", "BUILD_LIST", "BUILD_MAP", "FORMAT_VALUE", "CALL_FUNCTION_EX"}
_STORE = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "STORE_DEREF", "DELETE_ATTR",
          "DELETE_SUBSCR", "STORE_NAME"}
ELIG, AFTER, HOT, ENTRY = 1, 2, 4, 8
# ELIG: a fault may be injected here; AFTER: the previous instruction called or stored something;
# HOT: the previous or next instruction touches state that outlives the call; ENTRY: first instruction
SHARED_NAMES = set()   # names of non-callable module / class / function attributes of the package
TABLES = {}            # code -> (flags bytearray by offset, excluded bytearray by offset)
_EXCL = {}             # filename -> set of excluded lines


def excluded_lines(fn):
    """Lines of finally/except bodies and with-headers: faults there would defeat correct clean-up code."""
    if fn not in _EXCL:
        s = set()
        try:
            with open(fn, encoding="utf-8") as fh:
                t = ast.parse(fh.read())
        except Exception:
            t = ast.Module([], [])

        def add(a, b):
            s.update(range(a, b + 1))
        for n in ast.walk(t):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for b in n.finalbody:
                    add(b.lineno, b.end_lineno)
                if n.finalbody:       # the normal-exit copy of the finally body may carry these lines too
                    add(n.finalbody[0].lineno - 1, n.finalbody[0].lineno)
                for h in n.handlers:
                    if not _ordinary(h):
                        add(h.lineno, h.end_lineno)
                    elif h.body:
                        add(h.lineno, h.body[0].lineno - 1)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                add(n.lineno, max(i.context_expr.end_lineno for i in n.items))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__", "__enter__"):
                add(n.lineno, n.end_lineno)
        _EXCL[fn] = s
    return _EXCL[fn]


_LOOKUP = {"KeyError", "IndexError", "LookupError", "AttributeError", "NameError", "StopIteration", "FileNotFoundError"}


def _ordinary(h):
    """A handler that only supplies what a look-up did not find (`except KeyError: compute`): ordinary code, not clean-up."""
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    if not all(isinstance(t, ast.Name) and t.id in _LOOKUP for t in ts):
        return False
    return not any(isinstance(n, ast.Raise) or (isinstance(n, ast.Attribute) and n.attr in ("release", "close", "set", "notify_all"))
                   for b in h.body for n in ast.walk(b))


def table(code):
    t = TABLES.get(code)
    if t is None:
        n = len(code.co_code) + 2
        fl, ex = bytearray(n), bytearray(n)
        lines = excluded_lines(code.co_filename)
        prev = ""
        hot = entry = False
        for ins in dis.get_instructions(code):
            if ins.opname == "CACHE":
                continue
            ln = ins.positions.lineno if ins.positions else None
            bad = ln is None or ln in lines
            f = 0
            if ins.opname in _ELIG and not bad:
                f |= ELIG
            if prev in _STORE or prev.startswith("CALL"):
                f |= AFTER
            h = is_hot(ins)
            if h or hot:
                f |= HOT
            hot = h
            if entry:
                f |= ENTRY
            entry = ins.opname == "RESUME" and ins.arg == 0
            if 0 <= ins.offset < n:
                fl[ins.offset] = f
                ex[ins.offset] = bad
            prev = ins.opname
        t = TABLES[code] = (fl, ex)
    return t


_PLAIN = {"np", "pd", "plt", "math"}


def is_hot(ins):
    """Does this instruction read or write something that outlives the call?  (guidance only)"""
    o = ins.opname
    if o in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_ATTR", "DELETE_ATTR", "STORE_DEREF"):
        return True
    if o in ("LOAD_GLOBAL", "LOAD_ATTR", "LOAD_METHOD", "LOAD_NAME"):
        return ins.argval in SHARED_NAMES
    return False


def find_shared_names():
    """Names bound to data (not functions, classes or modules) in the package's modules, classes, functions."""
    import types
    SHARED_NAMES.clear()

    def scan(d):
        for k, v in list(d.items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, (types.ModuleType, types.FunctionType, staticmethod, classmethod, type, property,
                              types.BuiltinFunctionType)):
                f = getattr(v, "__func__", v)
                if isinstance(f, types.FunctionType):
                    for q in vars(f):
                        if not q.startswith("__"):
                            SHARED_NAMES.add(q)
                    if f.__defaults__ and any(isinstance(x, (list, dict, set)) for x in f.__defaults__):
                        SHARED_NAMES.add(k)
                continue
            if isinstance(v, (int, float, str, bool, tuple, frozenset)) or v is None or type(v).__name__ == "ufunc":
                if isinstance(v, (str, float, tuple, frozenset)):
                    continue
            SHARED_NAMES.add(k)
    for n, m in list(sys.modules.items()):
        if (n + ".").startswith("rockphypy.") and isinstance(m, types.ModuleType):
            scan(vars(m))
            for c in list(vars(m).values()):
                if isinstance(c, type) and getattr(c, "__module__", "").startswith("rockphypy"):
                    scan(vars(c))
    return SHARED_NAMES


def is_sut(code):
    return code.co_filename.startswith(PKG)


def sut_on_stack(f, limit=60):
    while f is not None and limit:
        if f.f_code.co_filename.startswith(PKG):
            return True
        f = f.f_back
        limit -= 1
    return False


def fault_ok(code, off, frame):
    t = table(code)
    if off >= len(t[0]) or not (t[0][off] & ELIG):
        return False
    f = frame.f_back
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(PKG):
            li = f.f_lasti
            ex = table(c)[1]
            if li < 0 or li >= len(ex) or ex[li]:
                return False
        f = f.f_back
    return True


# ------------------------------------------------------------------ threads
class SimThread:
    def __init__(self, sched, tid, body, name=None):
        self.sched = sched
        self.tid = tid
        self.body = body
        self.lock = _real_alloc()
        self.lock.acquire()
        self.state = "ready"          # ready | blocked | done
        self.deadline = None
        self.waiting = None
        self.timed_out = False
        self.ident = None
        self.opid = None              # running operation
        self.step = 0
        self.next = -1
        self.events = []              # [(step, action), ...] sorted, consumed from self.ei
        self.ei = 0
        self.pending = None           # fault waiting for an eligible instruction
        self.fired = []               # faults that fired in the current operation
        self.limit = 1 << 60
        self.fair = 1 << 60
        self.back = None              # tid to return to at the end of the operation
        self.tobj = None              # adopted threading.Thread
        self.total = 0
        self.evals = 0
        self.returning = False

    # --- per-operation bookkeeping
    def begin(self, opid, events, limit, fair):
        self.opid = opid
        self.step = 0
        self.events = events
        self.ei = 0
        self.pending = None
        self.fired = []
        self.limit = limit
        self.fair = fair
        self.evals = 0
        self._arm()

    def end(self):
        self.total += self.step
        self.sched.vclock += self.step * STEP_SECONDS
        self.opid = None
        self.next = -1
        self.pending = None

    # --- a call inside a call, on the same thread
    KEEP = ("opid", "step", "events", "ei", "pending", "fired", "limit", "fair", "evals")

    def save(self):
        return {k: getattr(self, k) for k in self.KEEP}

    def restore(self, d):
        for k, v in d.items():
            setattr(self, k, v)
        self._arm()

    def _arm(self):
        n = self.limit if self.limit < self.fair else self.fair
        if self.ei < len(self.events) and self.events[self.ei][0] < n:
            n = self.events[self.ei][0]
        if self.pending is not None:
            n = self.step + 1
        self.next = n if n > self.step else self.step + 1

    def slow(self, code, off):
        s = self.sched
        st = self.step
        while self.ei < len(self.events) and self.events[self.ei][0] <= st:
            a = self.events[self.ei][1]
            self.ei += 1
            if a[0] == "sw":
                self._arm()
                s.switch(self, a[1], a[2])
            elif a[0] == "kill":
                s.on_kill()
            elif a[0] == "obs":
                s.observe(self)
            elif a[0] == "act":
                s.action(self, a[1])
            else:
                self.pending = a[1]
        if st >= self.limit:
            self._arm()
            s.fail("budget", self)
        if st >= self.fair:
            self.fair = st + 500
            self._arm()
            o = s.other(self)
            if o is not None:
                s.switch(self, o.tid, "free", forced=True)
        if self.pending is not None:
            fr = sys._getframe(2)
            if fault_ok(code, off, fr):
                k = self.pending
                self.pending = None
                self._arm()
                self.fired.append(k)
                s.log(("fault", self.tid, self.opid, st, k))
                s.faults[k] = s.faults.get(k, 0) + 1
                s.observe(self)
                raise make_exc(k)
        self._arm()


class Sched:
    def __init__(self):
        self.threads = []
        self.done = _real_alloc()
        self.done.acquire()
        self.failure = None
        self.events = []
        self.faults = {}
        self.switches = 0
        self.forced = 0
        self.vclock = 0.0
        self.observer = None
        self.actor = None
        self.kill = None
        self.idents = {}
        self.on_fail = None

    # --- hooks
    def log(self, e):
        self.events.append(e)

    def observe(self, t):
        if self.observer is not None:
            self.observer(t)

    def action(self, t, a):
        if self.actor is not None:
            self.actor(t, a)

    def on_kill(self):
        self.log(("kill",))
        if self.kill is not None:
            self.kill()
        os._exit(77)

    def fail(self, kind, t):
        """Stop the whole run: the calling thread parks for ever, the controller reports."""
        global CUR
        if self.failure is None:
            self.log(("fail", kind))
            self.failure = {"kind": kind, "tid": t.tid if t else None, "op": t.opid if t else None,
                            "states": [(x.tid, x.state, x.opid) for x in self.threads]}
        CUR = None
        if self.on_fail is not None:
            self.on_fail()
        self.done.release()
        _park()

    # --- choice of the next thread
    def runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def other(self, t):
        r = [x for x in self.threads if x.state == "ready" and x is not t]
        if not r:
            return None
        later = [x for x in r if x.tid > t.tid]
        return later[0] if later else r[0]

    def switch(self, t, to, mode="free", forced=False):
        o = self.threads[to] if 0 <= to < len(self.threads) else None
        if o is None or o is t or o.state != "ready":
            return False
        if mode == "op":
            o.back = t.tid
        self.switches += 1
        self.forced += forced
        self.log(("sw", t.tid, t.opid, t.step, to, mode))
        self.observe(t)
        self._handover(t, o)
        return True

    def _handover(self, t, o):
        global CUR
        CUR = o
        o.lock.release()
        t.lock.acquire()
        CUR = t

    def yield_blocked(self, t):
        """t cannot continue: run somebody else; returns when t is scheduled again."""
        global CUR
        while True:
            o = self.other(t)
            if o is not None:
                self.log(("block", t.tid, t.opid, t.step, o.tid))
                self._handover(t, o)
                if t.state == "ready":
                    return
                continue
            # nobody runnable: advance simulated time to the earliest deadline
            timed = [x for x in self.threads if x.state == "blocked" and x.deadline is not None]
            if not timed:
                self.fail("deadlock", t)
            x = min(timed, key=lambda y: (y.deadline, y.tid))
            self.vclock = max(self.vclock, x.deadline)
            x.state = "ready"
            x.timed_out = True
            x.deadline = None
            self.log(("wake", x.tid))
            if x is t:
                return

    def block_on(self, what, timeout):
        """Block the current thread on `what`; True if woken, False on time-out."""
        t = CUR
        t.state = "blocked"
        t.waiting = what
        t.timed_out = False
        t.deadline = None if timeout is None or timeout < 0 else self.vclock + timeout
        self.yield_blocked(t)
        t.waiting = None
        t.deadline = None
        return not t.timed_out

    def wake(self, what):
        for x in self.threads:
            if x.state == "blocked" and x.waiting is what:
                x.state = "ready"

    def sleep(self, dt):
        t = CUR
        if t.step > t.limit:
            self.fail("budget", t)
        t.nsleep = getattr(t, "nsleep", 0) + 1
        if t.nsleep > 20000:
            self.fail("livelock", t)
        self.block_on(("sleep", t.tid), max(float(dt), 0.0))

    def end_of_op(self, t):
        if t.back is not None:
            b, t.back = t.back, None
            self.switch(t, b, "free")

    # --- running
    def _boot(self, t):
        global CUR
        t.lock.acquire()
        CUR = t
        t.ident = _thread.get_ident()
        self.idents[t.ident] = t
        try:
            t.body(t)
        except BaseException as e:        # harness error: never a verdict
            import traceback
            self.failure = {"kind": "harness", "tid": t.tid, "op": t.opid, "tb": traceback.format_exc(), "exc": repr(e)}
            CUR = None
            self.done.release()
            _park()
        t.state = "done"
        t.next = -1
        self.log(("end", t.tid))
        self.wake(t)
        if t.back is not None:
            b, t.back = t.back, None
            o = self.threads[b]
            o = o if o.state == "ready" else self.other(t)
        else:
            o = self.other(t)
        if o is None:
            timed = [x for x in self.threads if x.state == "blocked" and x.deadline is not None]
            if timed:
                x = min(timed, key=lambda y: (y.deadline, y.tid))
                self.vclock = max(self.vclock, x.deadline)
                x.state, x.timed_out, x.deadline = "ready", True, None
                o = x
            elif any(x.state == "blocked" for x in self.threads):
                b = [x for x in self.threads if x.state == "blocked"][0]
                self.failure = self.failure or {"kind": "deadlock", "tid": b.tid, "op": b.opid,
                                                "states": [(x.tid, x.state, x.opid) for x in self.threads]}
                CUR = None
                self.done.release()
                return
            else:
                CUR = None
                self.done.release()
                return
        CUR = o
        o.lock.release()

    def add(self, body):
        t = SimThread(self, len(self.threads), body)
        self.threads.append(t)
        return t

    def start_adopted(self, tobj):
        """A thread created by the code under test becomes part of the simulation."""
        def body(t):
            tobj._ident = _thread.get_ident()
            with _real_guard:
                threading._active[tobj._ident] = tobj
            tobj._started.set()
            try:
                tobj.run()
            except BaseException:
                pass
            with _real_guard:
                threading._active.pop(tobj._ident, None)
            tobj._sim_done = True
        t = self.add(body)
        t.tobj = tobj
        tobj._sim = t
        t.opid = "bg%d" % t.tid
        t.limit = 5000000
        t.fair = 500
        t._arm()
        _thread.start_new_thread(self._boot, (t,))
        # give the scheduler the choice: the new thread stays ready, the creator continues

    def run_main(self, body):
        """Run one body on the calling (main) thread; threads it creates join the simulation."""
        global CUR, SCHED
        t = self.add(body)
        t.ident = _thread.get_ident()
        SCHED, CUR = self, t
        try:
            body(t)
        finally:
            CUR, SCHED = None, None
        return t

    def run(self, first=0):
        global CUR, SCHED
        SCHED = self
        for t in list(self.threads):
            _thread.start_new_thread(self._boot, (t,))
        CUR = self.threads[first]
        self.threads[first].lock.release()
        self.done.acquire()
        CUR = None
        SCHED = None
        return self.failure


_real_guard = _real_alloc()


def _park():
    lk = _real_alloc()
    lk.acquire()
    lk.acquire()


def me():
    """The SimThread of the calling thread, or None when called from outside the simulation."""
    s = SCHED
    if s is None or CUR is None:
        return None
    t = CUR
    return t if t.ident == _thread.get_ident() else None


# ------------------------------------------------------------------ simulated synchronisation
class SimLock:
    """Drop-in for _thread.lock; cooperative inside the simulation, real outside it."""
    __slots__ = ("_r", "__weakref__")

    def __init__(self):
        self._r = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        if me() is None:
            return self._r.acquire(blocking, timeout)
        s = SCHED
        if not blocking or timeout == 0:
            return self._r.acquire(False)
        end = None if timeout is None or timeout < 0 else s.vclock + timeout
        while not self._r.acquire(False):
            if not s.block_on(self, -1 if end is None else max(0.0, end - s.vclock)):
                return self._r.acquire(False)
        return True

    def release(self):
        self._r.release()
        if SCHED is not None:
            SCHED.wake(self)

    def locked(self):
        return self._r.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._r = _real_alloc()

    def __repr__(self):
        return "<SimLock locked=%s>" % self._r.locked()


def install_sync():
    """Put simulated locks, threads and queues in place (after third-party imports, before the package)."""
    import queue
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None           # RLock() now builds _PyRLock on top of SimLock
    _thread.allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue
    T = threading.Thread
    o_start, o_join, o_alive = T.start, T.join, T.is_alive

    def start(self):
        if me() is None:
            return o_start(self)
        if self._started.is_set():
            raise RuntimeError("threads can only be started once")
        if EXITING:
            raise RuntimeError("can't create new thread at interpreter shutdown")
        SCHED.start_adopted(self)

    def join(self, timeout=None):
        t = getattr(self, "_sim", None)
        if t is None:
            return o_join(self, timeout)
        if me() is not None:
            while t.state != "done":
                if not SCHED.block_on(t, -1 if timeout is None else timeout):
                    return

    def is_alive(self):
        t = getattr(self, "_sim", None)
        return o_alive(self) if t is None else t.state != "done"
    T.start, T.join, T.is_alive = start, join, is_alive


# ------------------------------------------------------------------ instrumentation
RECORD = None     # set by the reference evaluator


def _on_instr(code, off):
    t = CUR
    if t is None:
        return
    t.step += 1
    if t.step == t.next:
        t.slow(code, off)
    if RECORD is not None:
        RECORD(t, code, off)


def code_objects(mods):
    import gc
    import types
    seen = set()

    def add(c):
        if c in seen or not is_sut(c):
            return
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    return seen


def start_monitoring():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "rockphypy-dst")
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)


def instrument(codes):
    m = sys.monitoring
    start_monitoring()
    for c in codes:
        m.set_local_events(TOOL, c, m.events.INSTRUCTION)
        table(c)
