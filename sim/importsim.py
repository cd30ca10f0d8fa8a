"""C11: import histories with faults in module bodies, source reads and dependency imports."""
import builtins
import copy
import errno
import gc
import importlib
import importlib.machinery
import json
import os
import random
import sys
import time as _t

from . import engine as E
from . import gen as G
from . import outcome as O
from . import pool as P
from . import runner as R
from . import sched as S

DOCUMENTED = ['Anisotropy', 'AVO', 'BW', 'Permeability', 'Fluid', 'Empirical', 'QI', 'Emp', 'EM', 'GM', 'Perm', 'utils']
SUBS = ["Anisotropy", "AVO", "BW", "utils", "Perm", "GM", "Fluid", "EM", "Emp", "QI"]
CLASSES = {"Anisotropy": "Anisotropy", "AVO": "AVO", "BW": "BW", "utils": "utils", "Perm": "Permeability", "GM": "GM",
           "Fluid": "Fluid", "EM": "EM", "Emp": "Empirical", "QI": "QI"}
KINDS = ("mem", "kbd", "cancel")

_state = {"dep": 0, "deperr": {}, "io": 0, "ioerr": {}}


def boot(base):
    E.prepare_env(base)
    sys.path.insert(0, E.REPO)
    S.PKG = os.path.realpath(E.REPO) + "/rockphypy/"
    E.third_party()
    from . import world
    world.install()
    sys.pycache_prefix = base + "/pyc"
    install_loader()
    gc.collect()
    gc.freeze()
    gc.disable()


def install_loader():
    L = importlib.machinery.SourceFileLoader
    o_code, o_data = L.get_code, L.get_data

    compiled = {}

    def get_code(self, fullname):
        path = str(self.path)
        if path.startswith(S.PKG):
            data = self.get_data(path)              # the read that may fail
            c = compiled.get((path, data))
            if c is None:
                c = compiled[(path, data)] = self.source_to_code(data, path)
            else:
                return c
        else:
            c = o_code(self, fullname)
        if c is not None and S.is_sut(c):
            allc = set()

            def add(x):
                allc.add(x)
                for k in x.co_consts:
                    if type(k) is type(x):
                        add(k)
            add(c)
            S.instrument(allc)
        return c

    def get_data(self, path):
        if S.me() is not None and str(path).startswith(S.PKG):
            _state["io"] += 1
            e = _state["ioerr"].get(_state["io"])
            if e:
                S.SCHED.faults["src-" + e] = S.SCHED.faults.get("src-" + e, 0) + 1
                S.SCHED.log(("srcerr", _state["io"], e))
                S.CUR.fired.append(e)
                raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), path)
        return o_data(self, path)
    L.get_code, L.get_data = get_code, get_data
    for root, ds, fs in os.walk(S.PKG):             # compile once, in the zygote
        for f in sorted(fs):
            if f.endswith(".py"):
                try:
                    L("warm", os.path.join(root, f)).get_code("warm")
                except SyntaxError:
                    pass
    o_imp = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if S.me() is not None and not name.startswith("rockphypy") and level == 0:
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(S.PKG):
                _state["dep"] += 1
                k = _state["deperr"].get(_state["dep"])
                if k and S.CUR.opid:
                    S.SCHED.faults["dep-" + k] = S.SCHED.faults.get("dep-" + k, 0) + 1
                    S.SCHED.log(("deperr", _state["dep"], name, k))
                    S.CUR.fired.append(k)
                    if k == "imp":
                        raise ImportError("simulated: cannot import " + name)
                    raise S.make_exc(k)
        return o_imp(name, globals, locals, fromlist, level)
    builtins.__import__ = imp


def do_import(op, ns):
    k = op["op"]
    if k == "imp":
        importlib.import_module(op["m"])
    elif k == "stmt":
        exec(compile("import " + op["m"], "<user>", "exec"), ns)
    elif k == "from":
        exec(compile("from %s import %s" % (op["m"], op["n"]), "<user>", "exec"), ns)
    elif k == "star":
        exec(compile("from rockphypy import *", "<user>", "exec"), ns)
    elif k == "reload":
        m = sys.modules.get(op["m"]) if "rockphypy" in sys.modules else None   # reload needs the parent package
        if m is not None:
            importlib.reload(m)
    else:
        raise ValueError(k)


def surface(m):
    """Public interface of the imported package: names, kinds and the public callables of each class."""
    out = {}
    for n in DOCUMENTED:
        o = getattr(m, n, None)
        if o is None:
            out[n] = None
        elif isinstance(o, type):
            out[n] = ["class", sorted(k for k in vars(o) if not k.startswith("_"))]
        else:
            c = CLASSES.get(n)
            cl = getattr(o, c, None)
            out[n] = ["module", sorted(k for k in vars(cl) if not k.startswith("_")) if isinstance(cl, type) else None]
    return out


def missing(ref, got):
    bad = []
    for n, r in ref.items():
        g = got.get(n)
        if r is None:
            continue
        if g is None:
            bad.append("%s missing" % n)
        elif g[0] != r[0]:
            bad.append("%s is a %s, not a %s" % (n, g[0], r[0]))
        elif r[1] is not None and (g[1] is None or set(r[1]) - set(g[1])):
            bad.append("%s lacks %s" % (n, sorted(set(r[1]) - set(g[1] or ()))[:3]))
    return bad


def evaluate(c, root):
    E.RP = root
    try:
        fn, args, kw, owned = E.build(c)
    except BaseException as e:
        return ("exc", O.exc_name(e))
    try:
        return ("ret", O.norm(fn(*args, **kw)))
    except BaseException as e:
        return ("exc", O.exc_name(e))
    finally:
        if c["f"] in P.PLOTS:
            import matplotlib.pyplot as plt
            plt.close("all")


class Space:
    """A name space holding the names a star import brought in."""

    def __init__(self, ns):
        self.__dict__.update(ns)


def _child(spec, refs):
    from . import world
    world.W.reset({}, E.SCRATCH)
    sc = S.Sched()
    viol, outs = [], {}
    rep = {}

    def bad(kind, op, detail):
        viol.append({"kind": kind, "op": op["id"] if op else None, "f": (op or {}).get("m"), "phase": 0, "detail": detail})

    def body(t):
        for op in spec["phases"][0]["threads"][0]:
            _state.update(dep=0, io=0, deperr={int(k): v for k, v in op.get("deperr", {}).items()},
                          ioerr={int(k): v for k, v in op.get("ioerr", {}).items()})
            sc.log(("op", op["id"], op["op"], op.get("m")))
            t.begin(op["id"], op.get("ev", []), 5_000_000, 1 << 60)
            try:
                do_import(op, {})
                t.end()
                outs[op["id"]] = "ok"
            except BaseException as e:
                t.end()
                outs[op["id"]] = O.exc_name(e)
                if not t.fired:
                    bad("import", op, "an undisturbed %s of %s after the history failed: %s: %s" % (
                        op["op"], op.get("m", "rockphypy"), O.exc_name(e), str(e)[:200]))
        _state.update(dep=0, io=0, deperr={}, ioerr={})
        final(t)

    def final(t):
        t.begin("final", [], 50_000_000, 1 << 60)
        try:
            ns = {}
            do_import(spec["final"], ns)
            m = importlib.import_module("rockphypy")
        except BaseException as e:
            bad("import", None, "the final import fails: %s: %s" % (O.exc_name(e), str(e)[:200]))
            return
        for x in missing(refs["surface"], surface(m)):
            bad("interface", None, x)
        star = {}
        try:
            exec(compile("from rockphypy import *", "<user>", "exec"), star)
        except BaseException as e:
            bad("interface", None, "star import fails: %s: %s" % (O.exc_name(e), str(e)[:200]))
        else:
            for n in DOCUMENTED:
                if n not in star:
                    bad("interface", None, "star import does not bring %s" % n)
        if getattr(m, "__version__", None) != refs["version"]:
            bad("interface", None, "__version__ is %r" % (getattr(m, "__version__", None),))
        for s in SUBS:
            try:
                mod = importlib.import_module("rockphypy." + s)
                ok = isinstance(getattr(mod, CLASSES[s], None), type)
            except BaseException as e:
                ok, mod = False, None
            if not ok:
                bad("interface", None, "rockphypy.%s does not offer %s" % (s, CLASSES[s]))
        if viol:
            return
        for i, c in enumerate(spec["calls"]):
            root = Space(star) if i % 2 else m
            out = evaluate(c, root)
            outs["c%d" % i] = O.digest(out)
            if not O.same(out, refs["calls"][json.dumps(c, sort_keys=True)]):
                bad("result", None, "%s gives %s, after a clean import %s" % (
                    c["f"], O.brief(out), O.brief(refs["calls"][json.dumps(c, sort_keys=True)])))
        t.end()
    sc.on_fail = lambda: bad(sc.failure["kind"], None, "import does not end")
    sc.run_main(body)
    return {"viol": viol, "log": sc.events, "switches": 0, "forced": 0, "faults": sc.faults, "steps": sum(x.total for x in sc.threads),
            "vclock": sc.vclock, "outs": outs, "killed": False, "reads": world.W.reads, "iofaults": {}, "obs": 0, "threads": 1,
            "writes": []}


def _clean(calls):
    from . import world
    world.W.reset({}, E.SCRATCH)
    rec = E.Recorder()
    S.RECORD = rec
    sc = S.Sched()
    out = {}

    def body(t):
        t.begin("clean", [], 1 << 60, 1 << 60)
        m = importlib.import_module("rockphypy")
        t.end()
        S.RECORD = None
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(E.REPO) + os.sep):
            raise RuntimeError("rockphypy imported from %s" % f)
        out["steps"], out["dep"], out["io"] = t.step, _state["dep"], _state["io"]
        out["surface"], out["version"] = surface(m), getattr(m, "__version__", None)
        t.begin("calls", [], 1 << 60, 1 << 60)
        out["calls"] = {json.dumps(c, sort_keys=True): evaluate(c, m) for c in calls}
        t.end()
    sc.run_main(body)
    out["elig"], out["aft"], out["hot"], out["evb"] = rec.elig, rec.aft, rec.hot, []
    return out


class Exec:
    def __init__(self, refs=None):
        self.refs = refs
        self.nref = 0

    def run(self, spec, timeout=60.0):
        calls = [c for c in spec["calls"] if json.dumps(c, sort_keys=True) not in (self.refs or {}).get("calls", {})]
        if self.refs is None or calls:
            self.refs = E.fork_call(lambda w: _clean(spec["calls"]), 120.0)
            self.nref += 1
        refs = self.refs
        return [E.fork_call(lambda w: _child(spec, refs), timeout)]


def gen(seed, i, clean, calls):
    r = random.Random("%s/C11/%d" % (seed, i))
    b = G.B()
    n = max(1, clean["steps"])
    ops = []

    def one():
        g = r.random()
        m = r.choice(SUBS)
        if g < .30:
            return b.op("imp", m="rockphypy")
        if g < .50:
            return b.op("imp", m="rockphypy." + m)
        if g < .60:
            return b.op("stmt", m=r.choice(("rockphypy", "rockphypy." + m)))
        if g < .75:
            return b.op("from", m="rockphypy", n=r.choice(DOCUMENTED))
        if g < .85:
            return b.op("from", m="rockphypy." + m, n=CLASSES[m])
        return b.op("star")
    for k in range(r.choice((1, 1, 2, 3, 5))):
        if k and r.random() < .3:
            op = b.op("reload", m=r.choice(["rockphypy"] + ["rockphypy." + s for s in SUBS]))
        else:
            op = one()
        g = r.random()
        if g < .62:
            src = r.choice(("elig", "elig", "aft", "any"))
            st = r.choice(clean[src]) if src != "any" and clean[src] else r.randint(1, n)
            if op["op"] == "reload":
                st = r.randint(1, max(2, n // 6))
            op["ev"] = [[int(st), ["fault", r.choice(KINDS)]]]
        elif g < .75:
            op["deperr"] = {str(r.randint(1, max(1, clean["dep"]))): r.choice(("imp", "imp", "mem", "kbd"))}
        elif g < .88:
            op["ioerr"] = {str(r.randint(1, max(1, clean["io"]))): r.choice(("EIO", "EMFILE", "EACCES"))}
        ops.append(op)
    return {"prop": "C11", "id": [i, 0], "f": "import", "style": "import", "watch": [], "slots": [],
            "phases": [{"threads": [ops]}], "final": one(), "calls": choose(r, ops, calls)}


def choose(r, ops, calls):
    """Calls made after the history: more of them when something the package imports was refused."""
    refused = any("deperr" in o or "ioerr" in o for o in ops)
    plots = [c for c in calls if c["f"] in P.PLOTS]
    other = [c for c in calls if c["f"] not in P.PLOTS]
    k = min(len(other), 60 if refused else 12)
    return r.sample(other, k) + r.sample(plots, r.choice((0, 1, 2)) if refused else r.choice((0, 0, 0, 1)))


def smoke(seed):
    r = random.Random("%s/smoke" % seed)
    out = []
    for f in P.NAMES:
        combos = P.option_combos(f)
        for k in range(1 if f in P.PLOTS else min(2, len(combos))):
            out.append(P.gen_call(r, f, opts=combos[k % len(combos)] if len(combos) > 1 else None, swarm=False,
                                  n=r.choice((3, 5, 8))))
    return out


def sweep(seed, n, base, deadline, tier):
    from . import driver as D
    calls = smoke(seed)
    E.enter_scratch(base + "/clean")
    clean = E.fork_call(lambda w: _clean(calls), 120.0)
    ctl = base + "/stop_at"

    def stop_at():
        try:
            return int(open(ctl).read() or 1 << 60)
        except (OSError, ValueError):
            return 1 << 60

    def work(i, emit):
        E.enter_scratch("%s/w%d" % (base, i))
        ex = Exec(clean)
        for k in range(i, n, D.NCPU):
            if D.now() > deadline or stop_at() < k:
                break
            spec = gen(seed, k, clean, calls)
            try:
                rep = ex.run(spec)
            except E.Died as d:
                emit(("harness", "run %d: %s\n%s" % (k, d.status, d.note)))
                continue
            vs = D.violations(rep)
            emit(("run", D.summary(spec, rep, vs)))
            if vs:
                emit(("viol", (k, spec, vs)))
    st = D.Stats()
    found = []
    for i, m in D.pool_run(D.NCPU, work):
        if m[0] == "crash":
            raise D.HarnessError(m[1])
        if m[0] == "run":
            st.add(m[1])
            st.groups += 1
        elif m[0] == "harness":
            st.harness.append(m[1])
        elif m[0] == "viol":
            found.append(m[1])
            with open(ctl + ".t", "w") as fh:
                fh.write(str(min(x[0] for x in found)))
            os.replace(ctl + ".t", ctl)
    found.sort(key=lambda x: x[0])
    return st, found, clean


def digests(seed, n, base):
    st, found, clean = sweep(seed, n, base, _t.monotonic() + 600, "quick")
    return ["%s %s" % x for x in sorted(st.digests)]


def check(prop, tier, seed, base, t0):
    from . import driver as D, evidence as EV
    boot(base)
    t_boot = _t.monotonic() - t0
    n = int((6000 if tier == "quick" else 40000) * float(os.environ.get("VERIF_SCALE", "1")))
    st, found, clean = sweep(seed, n, base, t0 + D.CAP[tier], tier)
    viol = None
    for k, spec, vs in found[:3]:
        E.enter_scratch(base + "/min")
        x = Exec()
        kind = vs[0]["kind"]
        if not D.confirm(x, spec, [v["kind"] for v in vs]):
            continue
        mini, tr = D.minimise(x, spec, kind)
        rep = x.run(mini)
        v = [q for q in D.violations(rep) if q["kind"] == kind]
        if not v:
            continue
        p = D.write_replay(prop, seed, mini, v[0], D.digest_run(rep), {"original": spec["id"], "trials": tr})
        ok, exact = D.replay_fresh(p)
        viol = {"spec": mini, "v": v[0], "path": p, "trials": tr, "replayed": "reproduced%s" % (" exactly" if exact else "") if ok else "not reproduced"}
        if ok:
            break
    extra = {"module_body_instructions_of_a_clean_import": clean["steps"], "dependency_imports_of_a_clean_import": clean["dep"],
             "source_reads_of_a_clean_import": clean["io"], "models_covered": len({c["f"] for c in smoke(seed)}),
             "seams": "module bodies (byte code), source reads (loader), dependency imports (builtins.__import__)"}
    EV.write(prop, tier, seed, st, {}, t_boot, t0, viol, extra)
    for h in st.harness[:3]:
        sys.stderr.write("HARNESS-ERROR %s\n" % h)
    if viol:
        print("  seed %d run %s: %s" % (seed, viol["spec"]["id"], viol["v"]["detail"][:600]))
        print("  kind %s, minimised with %d trial runs, replay in a fresh process: %s" % (viol["v"]["kind"], viol["trials"], viol["replayed"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["path"]))
        return 1
    if st.harness or found or st.runs < min(200, n):
        sys.stderr.write("harness errors %d, unreproduced %d, runs %d of %d\n" % (len(st.harness), len(found), st.runs, n))
        return 2
    print("%s %s seed=%d: held on %d import histories (%d distinct, faults %s), %.1f s" % (
        prop, tier, seed, st.runs, len(st.il), json.dumps(st.faults), _t.monotonic() - t0))
    return 0


def replay(d, base):
    from . import driver as D
    E.enter_scratch(base + "/replay")
    rep = Exec().run(d["spec"], 120.0)
    vs = D.violations(rep)
    return any(v["kind"] == d["violation"]["kind"] for v in vs), D.digest_run(rep) == d["digest"], vs
