"""Execution of one run specification: phases of simulated threads performing operations."""
import copy
import os
import pickle
import sys

from . import engine as E
from . import outcome as O
from . import pool as P
from . import sched as S
from . import values as V


# ------------------------------------------------------------------ static walk: what each call should be compared with
def annotate(spec):
    """{opid: resolved call} following the effects of slot and object operations in program order."""
    out = {}
    slots = [copy.deepcopy(s) for s in spec.get("slots", [])]
    objs = {}
    for ph in spec["phases"]:
        if not ph.get("keep"):
            pass
        for th in ph["threads"]:
            for op in th:
                k = op["op"]
                if k == "call":
                    oc = op.get("as", op["c"])
                    c = {"f": oc["f"], "a": V.resolve(oc["a"], slots)}
                    if oc.get("k"):
                        c["k"] = V.resolve(oc["k"], slots)
                    if "o" in op["c"]:
                        c["obj"] = copy.deepcopy(objs[op["c"]["o"]])
                    elif "obj" in oc:
                        c["obj"] = V.resolve(oc["obj"], slots)
                    out[op["id"]] = c
                    for e in op.get("ev", ()):
                        inner(e, slots, out)
                elif k == "setslot":
                    slots[op["i"]] = copy.deepcopy(op["v"])
                elif k == "mkobj":
                    objs[op["o"]] = V.resolve(copy.deepcopy(op["logs"]), slots)
                elif k in ("setlog", "inlog"):
                    objs[op["o"]] = dict(objs[op["o"]])
                    objs[op["o"]][op["name"]] = copy.deepcopy(op["v"])
                elif k == "dup":
                    objs[op["to"]] = copy.deepcopy(objs[op["o"]])
    return out


def nested(op):
    """Operations started by events of this one (calls inside the call, calls in a forked child)."""
    for e in op.get("ev", ()):
        if e[1][0] == "act" and e[1][1][0] in ("nest", "fork", "ship"):
            yield e[1][1][1]
            yield from nested(e[1][1][1])


def inner(e, slots, out):
    if e[1][0] == "act" and e[1][1][0] in ("nest", "fork", "ship"):
        op = e[1][1][1]
        c = {"f": op["c"]["f"], "a": V.resolve(op["c"]["a"], slots)}
        for k in ("k", "obj"):
            if op["c"].get(k):
                c[k] = V.resolve(op["c"][k], slots)
        out[op["id"]] = c
        for e2 in op.get("ev", ()):
            inner(e2, slots, out)


def cfg_of(spec, ph):
    return {"wfilter": ph["wfilter"]} if ph.get("wfilter") else {}


# ------------------------------------------------------------------ helpers
def arrays_of(x, depth=0):
    import numpy as np
    if isinstance(x, np.ndarray):
        return [x] if x.dtype != object else []
    if isinstance(x, (list, tuple)) and depth < 4:
        return [a for v in x for a in arrays_of(v, depth + 1)]
    if isinstance(x, dict) and depth < 4:
        return [a for v in x.values() for a in arrays_of(v, depth + 1)]
    if type(x).__name__ == "QI" and depth < 4:
        return [a for v in vars(x).values() for a in arrays_of(v, depth + 1)]
    return []


def shares(a, b):
    import numpy as np
    if not np.may_share_memory(a, b):
        return False
    if a.size == 0 or b.size == 0:
        return False
    try:
        return bool(np.shares_memory(a, b, max_work=20000))
    except Exception:
        return True


def scribble(x, mark, depth=0):
    """What a caller may do to a result it owns."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in "fciub":
            x[...] = mark if x.dtype.kind in "fc" else 1
        return
    if isinstance(x, (list,)):
        for v in x:
            scribble(v, mark, depth + 1)
        if depth == 0 and x and not isinstance(x[0], np.ndarray):
            x[:] = [mark] * len(x)
        return
    if isinstance(x, tuple):
        for v in x:
            scribble(v, mark, depth + 1)
        return
    if isinstance(x, dict):
        for v in x.values():
            scribble(v, mark, depth + 1)
        x.clear()
        return
    tn = type(x).__name__
    if tn == "Series":
        try:
            x.iloc[:] = mark
        except Exception:
            pass
    elif tn == "DataFrame":
        for c in list(x.columns):
            try:
                x[c] = mark
            except Exception:
                pass


def assign(dst, src):
    """In-place update of a caller-owned value; False when the value cannot be updated in place."""
    import numpy as np
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray) and dst.shape == src.shape and dst.flags.writeable:
        dst[...] = src
        return True
    if isinstance(dst, list) and isinstance(src, list):
        dst[:] = src
        return True
    if type(dst).__name__ == "Series" and type(src).__name__ == "Series" and len(dst) == len(src):
        dst.iloc[:] = src.to_numpy()
        return True
    return False


# ------------------------------------------------------------------ one phase in the current process
class Phase:
    def __init__(self, spec, pi, refs, keys, carry, pipe):
        self.spec, self.pi, self.refs, self.keys = spec, pi, refs, keys
        self.ph = spec["phases"][pi]
        self.watch = set(spec["watch"])
        self.viol = []
        self.outs = {}
        self.results = {}       # opid -> [raw result, fingerprint or None]
        self.args = {}          # opid -> owned data of finished calls (kept alive for alias checks)
        self.marks = []
        self.crew = {}          # worker name -> (pid, request pipe, reply pipe)
        self.late = []          # replies not looked at yet
        self.live = {}          # tid -> (opid, owned, fingerprints)
        self.carry = carry
        self.objs = {}
        self.slots = []
        self.userfigs = {}
        self.open = {}          # figures that must stay registered with pyplot
        self.pipe = pipe
        self.skipped = 0
        self.obs = 0
        self.t0 = {}
        self.strays = []        # calls whose lone execution is looked up after the run
        self.nfault = 0

    def bad(self, kind, op, detail):
        self.viol.append({"kind": kind, "op": op["id"] if op else None, "f": (op or {}).get("c", {}).get("f"),
                          "phase": self.pi, "detail": detail})

    # ---- set-up and end
    def setup(self):
        from . import user, world
        import warnings
        cfg = dict(self.spec.get("world", {}))
        cfg.update(self.ph.get("world", {}))
        world.W.reset(cfg, E.SCRATCH)
        apply_world(cfg)
        self.user = cfg.get("user") or {}
        user.apply_process(self.user, E.SCRATCH)
        self.heap = cfg.get("heap")
        if self.heap:
            user.heap_process(self.heap)
        if self.ph.get("wfilter"):
            warnings.simplefilter(self.ph["wfilter"], UserWarning)
        self.slots = [V.make(s) for s in self.spec.get("slots", [])]
        self.slotfp = [E.fp(s) for s in self.slots]
        for name, blob in (self.carry or {}).items():
            self.objs[name] = pickle.loads(blob)
        if "env" in self.watch:
            from . import snapshot
            self.env0 = snapshot.process_state()
            self.files0 = snapshot.files(E.SCRATCH)

    def check_env(self, op):
        from . import snapshot
        b = snapshot.process_state()
        d = snapshot.diff(self.env0, b)
        if d:
            self.bad("setting", op, "changed: " + "; ".join(d[:6]))
            self.env0 = b
        f = snapshot.files(E.SCRATCH)
        if f != self.files0:
            new = sorted(set(f) - set(self.files0)) or sorted(k for k in self.files0 if f.get(k) != self.files0[k])
            self.bad("file", op, "files left or changed: " + ", ".join(new[:4]))
            self.files0 = f

    def observe(self, t):
        if "input" not in self.watch:
            return
        self.obs += 1
        for tid, (op, owned, fps) in list(self.live.items()):
            for i, o in enumerate(owned):
                if E.fp(o) != fps[i]:
                    self.bad("input", op, "argument %d differs from what the caller passed while the call is in "
                                          "flight (seen at step %d of %s)" % (i, t.step, t.opid))
                    fps[i] = E.fp(o)

    # ---- operations
    def do(self, t, op):
        k = op["op"]
        self.sc.log(("op", t.tid, op["id"], k, op["c"]["f"] if k == "call" else op.get("do") or op.get("i") or op.get("of")))
        if k == "call":
            if "w" in op:
                self.ship(t, op)
            elif "keep" in self.watch:
                self.call_keep(t, op)
            else:
                self.call(t, op)
        elif k == "grow":
            self.grow(t, op)
        elif k == "worker":
            self.hire(t, op)
        elif k == "fill":
            self.fill(t, op)
        elif k == "setslot":
            v = V.make(op["v"])
            if not assign(self.slots[op["i"]], v):
                raise RuntimeError("slot cannot be assigned")
            self.slotfp[op["i"]] = E.fp(self.slots[op["i"]])
        elif k == "scrib":
            r = self.results.get(op["of"])
            if r is not None:
                scribble(r[0], op.get("mark", -123456.75))
                r[1] = E.fp(r[0])
        elif k == "mkobj":
            self.objs[op["o"]] = E.make_qi({n: V.make(v, self.slots) for n, v in op["logs"].items()})
        elif k == "setlog":
            setattr(self.objs[op["o"]], op["name"], V.make(op["v"]))
        elif k == "inlog":
            if not assign(getattr(self.objs[op["o"]], op["name"]), V.make(op["v"])):
                raise RuntimeError("log cannot be assigned")
        elif k == "dup":
            o = self.objs[op["o"]]
            self.objs[op["to"]] = {"pickle": lambda: pickle.loads(pickle.dumps(o)), "copy": lambda: copy.copy(o),
                                   "deepcopy": lambda: copy.deepcopy(o)}[op["how"]]()
        elif k == "fig":
            self.fig(t, op)
        elif k == "exit":
            from . import where
            self.sc.faults["process-ending"] = self.sc.faults.get("process-ending", 0) + 1
            t.begin(op["id"], [], E.REF_LIMIT, 1 << 60)
            where.leave(op["first"])
            t.end()
        elif k == "stall":
            pass
        else:
            raise ValueError(k)

    def fig(self, t, op):
        import matplotlib.pyplot as plt
        do, lab = op["do"], op.get("label")
        if do == "new":
            f = plt.figure(lab)
            f.add_subplot(111).plot([1, 2, 3], [3, 1, 2])
        elif do == "many":
            for i in range(op["n"]):
                l = "%s.%d" % (lab, i)
                if l not in self.userfigs:
                    f = plt.figure(l)
                    self.userfigs[l] = [f, O.norm(f)]
                    self.open[l] = f
            return
        elif do == "subplots":
            if plt.fignum_exists(lab):
                return
            f, ax = plt.subplots(1, 2, num=lab)
        elif do == "draw":
            if lab in self.userfigs:
                f = plt.figure(lab) if plt.fignum_exists(lab) else self.userfigs[lab][0]
                (f.axes[0] if f.axes else f.add_subplot(111)).plot([0, op["x"]], [1, op["x"]])
            else:
                return
        elif do == "select":
            if lab in self.userfigs and plt.fignum_exists(lab):
                plt.figure(lab)
            return
        elif do == "close":
            if plt.fignum_exists(lab):
                plt.close(lab)
            self.open.pop(lab, None)
            return
        elif do == "closeall":
            plt.close("all")
            self.open.clear()
            return
        elif do == "save":
            if lab in self.userfigs:
                self.userfigs[lab][0].canvas.draw()
            return
        else:
            raise ValueError(do)
        self.userfigs[lab] = [f, O.norm(f)]
        if registered(f):
            self.open[lab] = f

    def check_figs(self, op):
        for lab, f in list(self.open.items()):
            if not registered(f):
                self.bad("figure", op, "the open figure %r of another caller was closed" % lab)
                del self.open[lab]
        for lab, (f, sig) in self.userfigs.items():
            now = O.norm(f)
            if not O.same(now, sig):
                self.bad("figure", op, "the figure %r of another caller changed: %s" % (lab, fig_diff(sig, now)))
                self.userfigs[lab][1] = now

    def fill(self, t, op):
        """Many distinct calls of one function; errors and a few answers are compared with lone ones afterwards."""
        import random
        r = random.Random(op["seed"])
        base = op.get("base")
        look = set(random.Random(op["seed"] + 1).sample(range(op["n"]), min(4, op["n"])) + [op["n"] - 1])
        seen = {}
        for i in range(op["n"]):
            c = P.variant(r, base, op.get("kind")) if base and r.random() < .6 else P.gen_call(r, op["f"], swarm=False,
                                                                                             n=op.get("len"))
            try:
                fn, args, kw, owned = E.build(c)
            except Exception:
                continue
            t.begin(op["id"], [], E.REF_LIMIT, 1 << 60)
            try:
                x = fn(*args, **kw)
                t.end()
                if i in look and "result" in self.watch and op["f"] not in P.PLOTS and len(self.strays) < 12:
                    self.strays.append((c, ("ret", O.norm(x)), op["id"], self.pi))
            except Exception as e:
                t.end()
                n = O.exc_name(e)
                seen[n] = seen.get(n, 0) + 1
                if seen[n] < 3 and "result" in self.watch and len(self.strays) < 20:
                    self.strays.append((c, ("exc", n), op["id"], self.pi))
            x = None
        if op["f"] in P.PLOTS:
            import matplotlib.pyplot as plt
            plt.close("all")

    def call(self, t, op):
        from . import world, snapshot, user, where
        c = op["c"]
        fn, args, kw, owned = E.build(c, self.slots, self.objs)
        if op.get("via") and "o" not in c and "obj" not in c:
            fn = where.through(fn, c, op["via"])
        fps = [E.fp(o) for o in owned] if "input" in self.watch else []
        self.live[t.tid] = (op, owned, fps)
        ref = self.refs[self.keys[op["id"]]]
        lim = ref["steps"] * 50 + 200_000
        fair = ref["steps"] * 3 + 2000
        if "env" in self.watch and t.tid not in self.t0:
            self.t0[t.tid] = snapshot.thread_state()
        if self.heap:
            user.heap_call(self.heap)
        if "at" in op:
            for w in op["at"]:
                self.sc.faults["from-" + w] = self.sc.faults.get("from-" + w, 0) + 1
        t.begin(op["id"], op.get("ev", []), lim, fair)
        res = None
        try:
            if "at" in op:
                res = where.at(op["at"], fn, args, kw, E.SCRATCH)
            else:
                res = fn(*args, **kw)
            t.end()
            fired = t.fired
            raw = True
        except BaseException as e:
            t.end()
            fired = t.fired
            raw = False
            out = ("exc", O.exc_name(e))
            msg = str(e)[:120]
            if "own" not in self.watch:
                e.__traceback__ = None
            e = None
        if raw:
            out = ("ret", O.norm(res))
        # observe before leaving: nothing else runs between the end of the call and here
        if "input" in self.watch:
            for i, o in enumerate(owned):
                if E.fp(o) != fps[i]:
                    self.bad("input", op, "argument %d changed by the call (%s)" % (i, "returned" if raw else "raised"))
        del self.live[t.tid]
        self.outs[op["id"]] = O.digest(out) + ("!" if fired else "")
        nwarn = [w for w in world.W.warned if w[0] == op["id"] and issubclass(w[1], UserWarning)]
        if "result" in self.watch and not op.get("nochk"):
            good = O.same(out, ref["out"])
            if not good and out[0] == "exc" and self.user and user.strict(self.user):
                good = True              # the user asked for errors
            if not good and not (fired and out[0] == "exc"):
                self.bad("result", op, "%s%s, alone: %s%s" % (
                    "after an injected %s " % fired[0] if fired else "",
                    O.brief(out) + (" (%s)" % msg if out[0] == "exc" else ""), O.brief(ref["out"]), out_diff(out, ref["out"])))
        if "warn" in self.watch:
            self.check_warn(op, out, fired, len(nwarn), ref)
        if "evals" in self.watch and not fired and t.evals != ref["evals"]:
            self.bad("evals", op, "%d evaluations, alone %d" % (t.evals, ref["evals"]))
        if raw and ("own" in self.watch or op.get("hold")):
            if "own" in self.watch:
                self.check_own(op, res, owned)
                self.args[op["id"]] = owned
            self.results[op["id"]] = [res, E.fp(res) if not is_fig(res) else None]
        if "fig" in self.watch:
            self.check_figs(op)
            if raw:
                self.results[op["id"]] = [res, None, out]
                if is_fig(res):
                    for f in (res if isinstance(res, tuple) else (res,)):
                        if hasattr(f, "savefig") and registered(f):
                            self.open[op["id"]] = f
        if "env" in self.watch:
            s = snapshot.thread_state()
            d = snapshot.diff(self.t0[t.tid], s)
            if d:
                self.bad("setting", op, "changed for the calling thread: " + "; ".join(d))
                self.t0[t.tid] = s
            if not self.live:
                self.check_env(op)
        if "fig" not in self.watch and op["c"]["f"] in P.PLOTS and not self.live and not op.get("hold"):
            import matplotlib.pyplot as plt
            plt.close("all")

    def call_keep(self, t, op):
        """A call after which the caller drops arguments, result and error: nothing of them may stay alive."""
        import gc
        fired, raw, refs = self.call_drop(t, op)
        if op["c"]["f"] in P.PLOTS:
            if any(k != t.tid for k in self.live):
                return                   # figures cannot be told from those of calls in flight
            import matplotlib.pyplot as plt
            plt.close("all")
        alive = [n for n, w in refs if w() is not None]
        if alive:
            gc.collect()
            alive = [n for n, w in refs if w() is not None]
        self.outs[op["id"]] = "ret" if raw else "exc"
        self.obs += 1
        for n in alive:
            self.bad("kept", op, "%s is still alive after the call %s and the caller let go of everything%s" % (
                n, "returned" if raw else "raised", holder([w() for m, w in refs if m == n])))
        n = self.ph.get("litter")
        if n:
            self.marks.append((len(os.listdir("/proc/self/fd")), sum(x.state != "done" for x in self.sc.threads)))
            if len(self.marks) == n:
                for what, a, b in zip(("open files", "running threads"), self.marks[1], self.marks[-1]):
                    if b - a >= n - 2:
                        self.bad("grows", op, "%s grew from %d to %d over %d such calls" % (what, a, b, n))

    def call_drop(self, t, op):
        import weakref
        fn, args, kw, owned = E.build(op["c"])
        refs = weaks(owned, "argument", weakref)
        del owned
        ref = self.refs[self.keys[op["id"]]]
        self.live[t.tid] = (op, [], [])
        t.begin(op["id"], op.get("ev", []), ref["steps"] * 50 + 200_000, ref["steps"] * 3 + 2000)
        try:
            res = fn(*args, **kw)
            t.end()
            refs += weaks([res], "result", weakref)
            res = None
            raw = True
        except BaseException as e:
            t.end()
            raw = False
            e = None
        del self.live[t.tid]
        return t.fired, raw, refs

    def grow(self, t, op):
        """Many different calls: what the library holds must not grow with their number."""
        import gc
        import random
        r = random.Random(op["seed"])
        n = op["n"]
        marks = []
        for i in range(n + 1):
            if i in (n // 2, n):
                gc.collect()
                marks.append((held(), len(os.listdir("/proc/self/fd")), sum(x.state != "done" for x in self.sc.threads)))
            c = P.variant(r, op["base"], r.choice(("tiny", "scal", "tiny", "vals")))
            try:
                fn, args, kw, _ = E.build(c)
            except Exception:
                continue
            t.begin(op["id"], [], E.REF_LIMIT, 1 << 60)
            try:
                fn(*args, **kw)
            except Exception:
                pass
            t.end()
        for what, a, b in zip(("objects reachable from the library", "open files", "running threads"), *marks):
            if b - a >= .8 * (n - n // 2):
                self.bad("grows", op, "%s grew from %d to %d between call %d and call %d of %s" % (
                    what, a, b, n // 2, n, op["base"]["f"]))

    def check_warn(self, op, out, fired, n, ref):
        if ref["out"][0] == "exc" and ref["out"][1] != "UserWarning":
            return
        exp = op["exceeds"]
        if self.ph.get("wfilter") == "error":
            if fired and out[0] == "exc":
                return
            if (out == ("exc", "UserWarning")) != bool(exp):
                self.bad("warn", op, "pressure %s 100 MPa, warnings are errors, yet the call %s"
                         % ("above" if exp else "never above", O.brief(out)))
            return
        if fired and out[0] == "exc":
            if not exp and n:
                self.bad("warn", op, "warned although no pressure exceeds 100 MPa")
            return
        if bool(n) != bool(exp):
            self.bad("warn", op, "pressure %s 100 MPa, %d warning(s) issued" % ("above" if exp else "never above", n))

    def check_own(self, op, res, owned):
        ra = arrays_of(res)
        for i, a in enumerate(ra):
            for j, b in enumerate(arrays_of(owned)):
                if shares(a, b):
                    self.bad("alias", op, "returned array %d shares storage with argument array %d" % (i, j))
            for oid, r in self.results.items():
                for b in arrays_of(r[0]):
                    if shares(a, b):
                        self.bad("alias", op, "returned array %d shares storage with the result of %s" % (i, oid))
        self.check_changed(op)

    def check_changed(self, op):
        for oid, r in self.results.items():
            if r[1] is not None and E.fp(r[0]) != r[1]:
                self.bad("changed", op, "the result returned earlier by %s changed" % oid)
                r[1] = E.fp(r[0])

    # ---- running
    def run(self):
        from . import user, world
        sc = self.sc = S.Sched()
        sc.observer = self.observe
        sc.actor = self.actor
        sc.kill = self.killed
        self.setup()

        def mk(ops):
            def body(t):
                if self.user:
                    user.apply_thread(self.user)
                for op in ops:
                    self.do(t, op)
                    sc.end_of_op(t)
            return body
        if self.ph.get("main"):
            sc.on_fail = self.bail
            sc.run_main(mk(self.ph["threads"][0]))
        else:
            for ops in self.ph["threads"]:
                sc.add(mk(ops))
            sc.run(self.ph.get("first", 0))
        return self.finish()

    def nest(self, t, op):
        """Another call on the same thread, right here (signal handler, finaliser, warning hook, argument's method)."""
        saved, mine = t.save(), self.live.pop(t.tid, None)
        if mine is not None:
            self.live[("outer", t.tid, mine[0]["id"])] = mine
        self.sc.log(("nest", t.tid, saved["opid"], saved["step"], op["id"], op["c"]["f"]))
        self.sc.faults["nested-call"] = self.sc.faults.get("nested-call", 0) + 1
        try:
            if "crowd" in op:            # many calls before that one
                sys.call_tracing(self.fill, (t, op["crowd"]))
            t.begin(op["id"], [], 1 << 60, 1 << 60)
            sys.call_tracing(self.call, (t, op))
        finally:
            t.restore(saved)
            if mine is not None:
                del self.live[("outer", t.tid, mine[0]["id"])]
                self.live[t.tid] = mine

    def fork(self, t, op):
        """Fork here; the child makes one call of its own and ends; the parent goes on."""
        import signal
        import warnings
        self.sc.log(("fork", t.tid, t.opid, t.step, op["id"], op["c"]["f"]))
        self.sc.faults["forked-child"] = self.sc.faults.get("forked-child", 0) + 1
        r, w = os.pipe()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_REAL, 30.0)

                def stuck():
                    E.send(w, ("ok", [{"kind": self.sc.failure["kind"], "op": op["id"], "f": op["c"]["f"], "phase": self.pi,
                                       "detail": "the call in a forked child cannot go on"}]))
                    os._exit(0)
                self.sc.on_fail = stuck
                self.sc.failure = None
                self.sc.observer = None
                for x in self.sc.threads:
                    if x is not t:
                        x.state = "gone"
                self.viol, self.live = [], {}
                op = dict(op, ev=[])
                t.begin(op["id"], [], 1 << 60, 1 << 60)
                sys.call_tracing(self.call, (t, op))
                E.send(w, ("ok", self.viol))
            except BaseException:
                import traceback
                E.send(w, ("err", traceback.format_exc()))
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if not data:
            self.bad("hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "died", op,
                     "the call in a forked child did not end (status %d)" % st)
            return
        k, v = pickle.loads(data)
        if k == "err":
            raise RuntimeError("in forked child: " + v)
        for x in v:
            x["detail"] = "in a child forked while other calls were in flight: " + x["detail"]
        self.viol += v

    # ---- a pool of worker processes: calls travel as pickles, so do their results
    def hire(self, t, op):
        """Start worker op["w"] here: a fork of this process, or one that has to import the package by itself."""
        import warnings
        if op["w"] in self.crew:
            return
        self.sc.log(("worker", op["w"], op["how"], t.opid, t.step))
        key = "worker-" + op["how"]
        self.sc.faults[key] = self.sc.faults.get(key, 0) + 1
        q, p = os.pipe(), os.pipe()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pid = os.fork()
        if pid == 0:
            try:
                os.close(q[1]), os.close(p[0])
                for x in self.crew.values():
                    os.close(x[1]), os.close(x[2])
                sys.call_tracing(self.serve, (t, q[0], p[1], op["how"]))
            finally:
                os._exit(0)
        os.close(q[0]), os.close(p[1])
        self.crew[op["w"]] = (pid, q[1], p[0])

    def serve(self, t, rd, wr, how):
        """The life of a worker process."""
        import signal

        def stuck():
            put(wr, ("stuck", self.sc.failure["kind"]))
            os._exit(0)
        self.sc.on_fail = stuck
        self.sc.kill = None
        self.sc.failure = self.sc.observer = self.sc.actor = None
        for x in self.sc.threads:
            if x is not t:
                x.state = "gone"
        self.live = {}
        import multiprocessing.process as mp
        mp._current_process = mp.BaseProcess(name=("ForkPoolWorker-1", "SpawnPoolWorker-1")[how == "spawn"], daemon=True)
        mp._current_process._parent_pid = os.getppid()
        if how == "spawn":
            for m in [m for m in sys.modules if m == "rockphypy" or m.startswith("rockphypy.")]:
                del sys.modules[m]
            E.RP = None
        while True:
            m = get(rd)
            if m is None:
                return
            opid, data, ev, lim, fair = m
            signal.setitimer(signal.ITIMER_REAL, 40.0)
            try:
                fn, args, kw = pickle.loads(data)
            except Exception as e:
                put(wr, ("lost", "%s: %s" % (type(e).__name__, e)))
                continue
            if how == "spawn":
                S.instrument(S.code_objects(None))
                how = ""
            t.begin(opid, ev, lim, fair)
            try:
                res = fn(*args, **kw)
                t.end()
                out = ("ret", res)
            except BaseException as e:
                t.end()
                e.__traceback__ = None
                out = ("exc", e)
            fired = list(t.fired)
            try:
                data = pickle.dumps(out)
            except Exception as e:
                put(wr, ("bad", "%s: %s" % (type(e).__name__, e)))
                continue
            signal.setitimer(signal.ITIMER_REAL, 0)
            put(wr, ("ok", data, fired))

    def ship(self, t, op):
        """Hand a call to a worker; the transport may deliver it twice, lose the answer or delay it; the worker may die."""
        ref = self.refs[self.keys[op["id"]]]
        fn, args, kw, _ = E.build(op["c"], self.slots, self.objs)
        try:
            data = pickle.dumps(fn)
        except Exception as e:
            self.bad("pickle", op, "the model cannot be handed to another process: %s: %s" % (type(e).__name__, e))
            return
        data = pickle.dumps((fn, args, kw), protocol=op.get("proto"))
        del fn, args, kw
        fate = op.get("fate", ["ok"])
        for n in range(2):
            if op["w"] not in self.crew:
                self.hire(t, {"w": op["w"], "how": op.get("how", "fork")})
            ev = []
            if n == 0 and fate[0] in ("crash", "fault"):
                ev = [[fate[1], ["kill"] if fate[0] == "crash" else ["fault", fate[2]]]]
            if n == 0 and fate[0] != "ok":
                k = "task-" + fate[0] if fate[0] not in ("crash", "fault") else "worker-" + fate[0]
                self.sc.faults[k] = self.sc.faults.get(k, 0) + 1
            a = self.ask(op, data, ev, ref)
            if n == 0 and fate[0] == "late" and a is not None and a[0] == "ok":
                self.late.append((op, a))
                return
            if a is None and ev and fate[0] == "crash":
                continue                     # the worker died as arranged: another one takes the task
            if n == 0 and fate[0] == "lost":
                continue
            self.judge(op, a, ref)
            if n or fate[0] not in ("dup", "fault"):
                return

    def ask(self, op, data, ev, ref):
        pid, q, p = self.crew[op["w"]]
        a = None
        try:
            put(q, (op["id"], data, ev, ref["steps"] * 50 + 200_000, ref["steps"] * 3 + 2000))
            a = get(p)
        except BrokenPipeError:
            pass
        if a is None or a[0] == "stuck":
            del self.crew[op["w"]]
            os.close(q), os.close(p)
            st = os.waitpid(pid, 0)[1]
            self.sc.log(("worker-died", op["w"], op["id"]))
            if a is None and not (ev and ev[0][1][0] == "kill" and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77):
                a = ("died", st)
        return a

    def judge(self, op, a, ref):
        import signal
        if a[0] == "stuck":
            self.bad(a[1], op, "the call in a worker process cannot go on")
        elif a[0] == "died":
            alarm = os.WIFSIGNALED(a[1]) and os.WTERMSIG(a[1]) == signal.SIGALRM
            self.bad("hang" if alarm else "died", op, "the worker process ended during the call (status %d)" % a[1])
        elif a[0] == "lost":
            self.bad("pickle", op, "the worker process could not read the call: " + a[1])
        elif a[0] == "bad":
            self.bad("pickle", op, "the answer cannot be sent back: " + a[1])
        else:
            try:
                k, v = pickle.loads(a[1])
            except Exception as e:
                self.bad("pickle", op, "the answer cannot be read: %s: %s" % (type(e).__name__, e))
                return
            out = ("ret", O.norm(v)) if k == "ret" else ("exc", O.exc_name(v))
            self.outs[op["id"]] = O.digest(out) + ("!" if a[2] else "")
            if not O.same(out, ref["out"]) and not (a[2] and k == "exc"):
                self.bad("result", op, "in a worker process: %s%s, alone: %s%s" % (
                    O.brief(out), " (%s)" % str(v)[:120] if k == "exc" else "", O.brief(ref["out"]), out_diff(out, ref["out"])))
            if op["c"]["f"] in P.PLOTS and not self.live:
                import matplotlib.pyplot as plt
                plt.close("all")

    def dismiss(self):
        for w, (pid, q, p) in sorted(self.crew.items()):
            os.close(q), os.close(p)
        for w, (pid, q, p) in sorted(self.crew.items()):
            os.waitpid(pid, 0)
        self.crew = {}
        for op, a in self.late:
            self.judge(op, a, self.refs[self.keys[op["id"]]])
        self.late = []

    def actor(self, t, a):
        try:
            if a[0] == "fig":
                self.fig(t, a[1])
            elif a[0] == "nest":
                self.nest(t, a[1])
            elif a[0] == "fork":
                self.fork(t, a[1])
            elif a[0] == "worker":
                self.hire(t, a[1])
            elif a[0] == "ship":
                sys.call_tracing(self.ship, (t, a[1]))
        except BaseException:
            import traceback
            self.sc.failure = {"kind": "harness", "tb": traceback.format_exc(), "op": None}
            self.sc.fail("harness", t)

    def finish(self):
        from . import world
        f = self.sc.failure
        self.dismiss()
        if f is not None and f["kind"] == "harness":
            raise RuntimeError("harness: " + f["tb"])
        if f is not None:
            op = next((q for th in self.ph["threads"] for o in th for q in [o, *nested(o)] if q["id"] == f["op"]), None)
            self.bad(f["kind"], op, "the run cannot go on: %s" % (f["states"],))
        else:
            if "own" in self.watch:
                self.check_changed(None)
            if "input" in self.watch:
                for i, s in enumerate(self.slots):
                    if E.fp(s) != self.slotfp[i]:
                        self.bad("input", None, "shared argument %d changed" % i)
            if "fig" in self.watch:
                self.check_figs(None)
                for oid, r in self.results.items():
                    if len(r) > 2 and r[2][0] == "ret" and is_fig(r[0]):
                        now = ("ret", O.norm(r[0]))
                        if not O.same(now, r[2]):
                            self.bad("figure", None, "the figure returned by %s changed afterwards: %s" % (oid, fig_diff(r[2], now)))
            if "env" in self.watch:
                self.check_env(None)
        return self.report(False)

    def report(self, killed):
        from . import world
        sc = self.sc
        carry = {}
        if not killed and self.spec.get("carry"):
            for n, o in self.objs.items():
                carry[n] = pickle.dumps(o)
        return {"viol": self.viol, "log": sc.events, "switches": sc.switches, "forced": sc.forced, "faults": sc.faults,
                "steps": sum(t.total for t in sc.threads), "vclock": sc.vclock, "outs": self.outs, "killed": killed,
                "reads": world.W.reads, "iofaults": dict(world.W.iofaults, **({"phantom-file": world.W.phantoms} if world.W.phantoms else {})), "obs": self.obs, "threads": len(sc.threads),
                "carry": carry, "strays": self.strays, "skipped": self.skipped, "writes": list(world.W.writes)}

    def killed(self):
        if self.ph.get("torn") is not None:
            from . import world
            for p in world.W.writes[-2:]:
                try:
                    n = os.path.getsize(p)
                    os.truncate(p, int(n * self.ph["torn"]))
                except OSError:
                    pass
        E.send(self.pipe, ("ok", self.report(True)))
        os._exit(0)

    def bail(self):
        E.send(self.pipe, ("ok", self.finish()))
        os._exit(0)


def put(fd, x):
    d = pickle.dumps(x)
    d = len(d).to_bytes(8, "little") + d
    while d:
        d = d[os.write(fd, d):]


def get(fd):
    """The next message, or None when the other side is gone."""
    d, n = b"", 8
    head = True
    while True:
        while len(d) < n:
            b = os.read(fd, n - len(d))
            if not b:
                return None
            d += b
        if not head:
            return pickle.loads(d)
        n, d, head = int.from_bytes(d, "little"), b"", False


def weaks(xs, what, weakref, depth=0):
    """(description, weak reference) of every object the caller could wait for."""
    import numpy as np
    out = []
    for i, x in enumerate(xs):
        name = "%s %d" % (what, i)
        if isinstance(x, np.ndarray):
            out.append((name, weakref.ref(x)))
            b = x.base
            while isinstance(b, np.ndarray):
                out.append((name + " (its buffer)", weakref.ref(b)))
                b = b.base
        elif isinstance(x, (list, tuple)) and depth < 3:
            out += weaks(x, name, weakref, depth + 1)
        elif type(x).__name__ == "QI":
            out.append((name + " (the object)", weakref.ref(x)))
            out += weaks([v for k, v in sorted(vars(x).items())], name + " log", weakref, depth + 1)
        elif type(x).__name__ in ("Series", "DataFrame", "Figure") or hasattr(x, "get_xlabel"):
            out.append((name, weakref.ref(x)))
    return out


def holder(objs):
    ids = {id(o) for o in objs if o is not None}
    path = []
    reach(lambda o: path.append(type(o).__name__) if id(o) in ids else None)
    return " (reachable from the library)" if path else ""


def reach(visit):
    """Visit everything the package's modules hold, without entering other packages."""
    import gc
    import types
    seen = set()
    todo = [vars(m) for n, m in sorted(sys.modules.items()) if (n + ".").startswith("rockphypy.") and isinstance(m, types.ModuleType)]
    while todo and len(seen) < 3_000_000:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        visit(o)
        if isinstance(o, (types.ModuleType, types.CodeType, types.FrameType)):
            continue
        if isinstance(o, type) and not o.__module__.startswith("rockphypy"):
            continue
        if isinstance(o, types.FunctionType) and not S.is_sut(o.__code__):
            continue
        if type(o).__module__.split(".")[0] in ("matplotlib", "scipy"):
            continue
        todo += gc.get_referents(o)
    return len(seen)


def held():
    return reach(lambda o: None)


def is_fig(x):
    return hasattr(x, "savefig") and hasattr(x, "axes") or \
        (isinstance(x, tuple) and any(hasattr(v, "savefig") for v in x))


def registered(f):
    from matplotlib._pylab_helpers import Gcf
    return any(m.canvas.figure is f for m in Gcf.figs.values())


def fig_diff(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return "%d elements became %d" % (len(a), len(b))
    for x, y in zip(a, b):
        if not O.same(x, y):
            return "%s became %s" % (O.brief(x, 60), O.brief(y, 60))
    return "?"


def flat(x):
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and x[0] == "nd"):
        return [z for v in x for z in flat(v)]
    return [x]


def out_diff(a, b):
    import numpy as np
    try:
        if a[0] == b[0] == "ret":
            fa, fb = flat(a[1]), flat(b[1])
            if len(fa) != len(fb):
                return " [structure differs: %d and %d elements]" % (len(fa), len(fb))
            for x, y in zip(fa, fb):
                if not O.same(x, y):
                    if isinstance(x, tuple) and x[0] == "nd" and x[3].shape == y[3].shape and x[3].dtype == y[3].dtype:
                        i = int(np.argmax(~((x[3] == y[3]) | (np.isnan(x[3]) & np.isnan(y[3])))))
                        return " [element %d: %r, alone %r]" % (i, x[3].reshape(-1)[i].item(), y[3].reshape(-1)[i].item())
                    return " [%s, alone %s]" % (O.brief(x, 60), O.brief(y, 60))
    except Exception:
        pass
    return ""


def apply_world(cfg):
    """Global state the adversary chooses before the phase starts."""
    import random
    if "nprand" in cfg:
        import numpy as np
        np.random.seed(cfg["nprand"])
        random.seed(cfg["nprand"] + 1)
    for k, v in (cfg.get("environ") or {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v.replace("@scratch", E.SCRATCH)
    if cfg.get("cwd"):
        d = E.SCRATCH + "/" + cfg["cwd"]
        os.makedirs(d, exist_ok=True)
        os.chdir(d)


# ------------------------------------------------------------------ whole run: phases in fresh process images
def execute(spec, refs, keys, timeout=60.0):
    """-> list of phase reports.  Raises engine.Died for anything that is not a report."""
    reports = []
    carry = None
    E.wipe()
    try:
        for pi, ph in enumerate(spec["phases"]):
            for m in ph.get("before", ()):
                mutate_disk(m)

            def child(w, pi=pi, carry=carry):
                return Phase(spec, pi, refs, keys, carry, w).run()
            try:
                rep = E.fork_call(child, timeout)
            except E.Died as d:
                if d.status == "timeout":
                    rep = {"viol": [{"kind": "hang", "op": None, "f": None, "phase": pi,
                                     "detail": "no progress for %.0f s of wall time" % timeout}], "log": [], "switches": 0,
                           "forced": 0, "faults": {}, "steps": 0, "vclock": 0.0, "outs": {}, "killed": False, "reads": {},
                           "iofaults": {}, "obs": 0, "threads": 0, "carry": {}, "skipped": 0, "writes": [], "hang": True}
                else:
                    raise
            carry = rep.pop("carry", None)
            reports.append(rep)
    finally:
        E.wipe()
    return reports


def mutate_disk(m):
    """What a crash or another process does to files left behind."""
    import random
    r = random.Random(m["seed"])
    for root, ds, fs in os.walk(E.SCRATCH):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if "/pyc/" in p:
                continue
            try:
                n = os.path.getsize(p)
                if m["how"] == "truncate":
                    os.truncate(p, int(n * r.random()))
                elif m["how"] == "empty":
                    os.truncate(p, 0)
                elif m["how"] == "garbage":
                    with open(p, "r+b") as fh:
                        for _ in range(8):
                            fh.seek(r.randrange(max(n, 1)))
                            fh.write(bytes([r.randrange(256)]))
                elif m["how"] == "dir":
                    os.remove(p)
                    os.mkdir(p)
            except OSError:
                pass


def refs_for(spec, cache):
    """Compute (or fetch) the reference of every checked call; returns opid -> key."""
    keys = {}
    calls = annotate(spec)
    cfgs = {}
    for ph in spec["phases"]:
        for th in ph["threads"]:
            for op in th:
                cfgs[op["id"]] = cfg_of(spec, ph)
                for o in nested(op):
                    cfgs[o["id"]] = cfg_of(spec, ph)
    for oid, c in calls.items():
        k = E.key_of(c, cfgs[oid])
        if k not in cache:
            cache[k] = E.reference(c, cfgs[oid])
        keys[oid] = k
    return keys


def judge_strays(spec, reports, cache):
    """Compare the recorded calls of fillers with their lone execution."""
    n = 0
    for rep in reports:
        for c, out, oid, pi in rep.get("strays", ()):
            cfg = cfg_of(spec, spec["phases"][pi])
            k = E.key_of(c, cfg)
            if k not in cache:
                n += 1
                cache[k] = E.reference(c, cfg)
            if "out" in cache[k] and not O.same(out, cache[k]["out"]):
                rep["viol"].append({"kind": "result", "op": oid, "f": c["f"], "phase": pi, "detail": "one of many calls: %s, alone: %s%s" % (
                    O.brief(out), O.brief(cache[k]["out"]), out_diff(out, cache[k]["out"]))})
                break
    return n
