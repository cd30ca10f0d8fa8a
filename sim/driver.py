"""Search driver: probe, parallel seeded search, minimisation, replay files, evidence."""
import copy
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import time as _t
import traceback

from . import engine as E
from . import gen as G
from . import pool as P
from . import runner as R
from . import sched as S
from . import corpus as CO, focus as FO, spice as SP

now = _t.monotonic
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# groups per tier and runs per group
PLAN = {"C01": (700, 6000, 8), "C02": (640, 6000, 6), "C03": (520, 5000, 6), "C04": (640, 6000, 6),
        "C05": (800, 7000, 8), "C06": (560, 5000, 6), "C07": (480, 4400, 8), "C08": (160, 1600, 6), "C09": (160, 1600, 6),
        "C10": (330, 3600, 8), "C12": (420, 4500, 8), "C13": (700, 6000, 8),
        "C14": (520, 5000, 8), "C15": (560, 5000, 8), "C16": (480, 4500, 6), "C17": (520, 5000, 8)}
CAP = {"quick": 420.0, "thorough": 6000.0}
NCPU = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, len(os.sched_getaffinity(0)) or 1)


# ------------------------------------------------------------------ worker pool
def pool_run(n, fn):
    """Fork n workers; fn(i, emit) in each; yields (i, message) as they arrive; raises if one dies."""
    pipes = {}
    for i in range(n):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q in pipes:
                    os.close(q)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)

                def emit(m):
                    b = pickle.dumps(m, protocol=5)
                    E_write(w, len(b).to_bytes(8, "little") + b)
                try:
                    fn(i, emit)
                    emit(("done", None))
                except BaseException:
                    emit(("crash", traceback.format_exc()))
            finally:
                os._exit(0)
        os.close(w)
        pipes[r] = [i, pid, b""]
    try:
        while pipes:
            ready, _, _ = select.select(list(pipes), [], [], 5.0)
            for fd in ready:
                st = pipes[fd]
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    os.waitpid(st[1], 0)
                    del pipes[fd]
                    yield st[0], ("eof", None)
                    continue
                st[2] += b
                while len(st[2]) >= 8:
                    k = int.from_bytes(st[2][:8], "little")
                    if len(st[2]) < 8 + k:
                        break
                    m = pickle.loads(st[2][8:8 + k])
                    st[2] = st[2][8 + k:]
                    yield st[0], m
    finally:
        for fd, st in pipes.items():
            try:
                os.kill(st[1], signal.SIGKILL)
                os.waitpid(st[1], 0)
            except OSError:
                pass


def E_write(w, data):
    mv = memoryview(data)
    while mv:
        k = os.write(w, mv)
        mv = mv[k:]


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ probe
def probe(names, seed, base, per=5, corpus=True):
    """A few lone calls of every model: which code it runs, whether it keeps state or consults its surroundings."""
    import random
    info = {}

    def work(i, emit):
        E.enter_scratch("%s/p%d" % (base, i))
        for j, f in enumerate(names):
            if j % NCPU != i:
                continue
            r = random.Random("%s/probe/%s" % (seed, f))
            d = {"codes": set(), "score": 0, "steps": 0, "reads": {}, "stuck": None, "refs": 0}
            combos = P.option_combos(f)
            for k in range(per):
                c = P.gen_call(r, f, opts=combos[k % len(combos)] if len(combos) > 1 else None)
                x = E.reference(c, {"probe": 1})
                d["refs"] += 1
                if "stuck" in x:
                    d["stuck"] = [x["stuck"], c]
                    continue
                d["codes"] |= set(x["codes"])
                d["steps"] = max(d["steps"], x["steps"])
                if x["hot"]:
                    d["score"] = max(d["score"], 1)
                if x["stateful"] or any(x["reads"].values()) or x["writes"]:
                    d["score"] = max(d["score"], 3)
                for q, v in x["reads"].items():
                    d["reads"][q] = d["reads"].get(q, 0) + v
            d["consts"] = SP.for_codes(E.MINED, d["codes"])
            d["focus"] = FO.degree(d["codes"], E.target(f) if "." in f else None)
            emit((f, d))
    for i, m in pool_run(NCPU, work):
        if m[0] == "crash":
            raise HarnessError(m[1])
        if m[0] not in ("done", "eof"):
            info[m[0]] = m[1]
    if len(info) != len(names):
        raise HarnessError("probe incomplete: %d of %d" % (len(info), len(names)))
    if corpus:
        search_calls(names, info, seed, base)
    return info


def search_calls(names, info, seed, base, total=2600):
    """Calls that reach rare branches of changed code (corpus.py); nothing on a tree like the calibrated one."""
    todo = [f for d in (3, 2, 1) for f in names if info[f]["focus"] == d and not info[f]["stuck"]]
    if not todo:
        return
    w = {f: {3: 4, 2: 2, 1: 1}[info[f]["focus"]] for f in todo}
    unit = total / max(1, sum(w.values()))
    plan = {f: int(min(400, unit * w[f])) for f in todo}

    def work(i, emit):
        E.enter_scratch("%s/q%d" % (base, i))
        for j, f in enumerate(todo):
            if j % NCPU == i and plan[f] >= 5:
                d = info[f]
                d["corpus"], d["edges"], d["tried"] = CO.explore(seed, f, d, plan[f])
                emit((f, d))
    for i, m in pool_run(NCPU, work):
        if m[0] == "crash":
            raise HarnessError(m[1])
        if m[0] not in ("done", "eof"):
            info[m[0]] = m[1]
            if os.environ.get("VERIF_TIMES"):
                sys.stderr.write("corpus %s: %d calls tried, %d edges, %d kept\n" % (m[0], m[1]["tried"], m[1]["edges"], len(m[1]["corpus"])))


# ------------------------------------------------------------------ running one spec
def digest_run(reports):
    h = hashlib.blake2b(digest_size=8)
    for rep in reports:
        h.update(repr((rep["log"], sorted(rep["outs"].items()), rep["killed"],
                       [(v["kind"], v["op"]) for v in rep["viol"]])).encode())
    return h.hexdigest()


def interleaving(reports):
    h = hashlib.blake2b(digest_size=8)
    for rep in reports:
        h.update(repr([e for e in rep["log"]]).encode())
    return h.hexdigest()


class Exec:
    """Runs specifications in this process's children, with a reference cache."""

    def __init__(self):
        self.cache = {}
        self.nref = 0

    def ref(self, call, cfg=None):
        k = E.key_of(call, cfg)
        if k not in self.cache:
            self.cache[k] = E.reference(call, cfg)
            self.nref += 1
        return self.cache[k]

    def run(self, spec, timeout=60.0):
        n = len(self.cache)
        keys = R.refs_for(spec, self.cache)
        self.nref += len(self.cache) - n
        if any("stuck" in self.cache[k] for k in keys.values()):
            return None
        reps = R.execute(spec, self.cache, keys, timeout)
        self.nref += R.judge_strays(spec, reps, self.cache)
        return reps


def violations(reports):
    return [v for rep in reports for v in rep["viol"]]


def confirm(ex, spec, kinds, tries=2):
    """Re-execute; True when a violation of one of the kinds shows again."""
    for _ in range(tries):
        try:
            rep = ex.run(spec, 120.0)
        except E.Died:
            continue
        if rep is not None and any(v["kind"] in kinds for v in violations(rep)):
            return True
    return False


# ------------------------------------------------------------------ minimisation
def minimise(ex, spec, kind, budget=250, wall=60.0):
    """Smaller run with a violation of the same kind (threads, operations, events, phases, fillers dropped)."""
    t0 = now()
    n = [0]

    def ok(s):
        if n[0] >= budget or now() - t0 > wall:
            return False
        n[0] += 1
        try:
            rep = ex.run(s, 60.0 if kind != "hang" else 20.0)
        except Exception:
            return False
        return rep is not None and any(v["kind"] == kind for v in violations(rep))
    cur = copy.deepcopy(spec)
    changed = True
    while changed and n[0] < budget and now() - t0 < wall:
        changed = False
        # whole threads
        for pi in range(len(cur["phases"])):
            for ti in range(len(cur["phases"][pi]["threads"])):
                if cur["phases"][pi]["threads"][ti]:
                    s = copy.deepcopy(cur)
                    s["phases"][pi]["threads"][ti] = []
                    if ok(s):
                        cur, changed = s, True
        # blocks of operations, then single ones
        for pi in range(len(cur["phases"])):
            for ti in range(len(cur["phases"][pi]["threads"])):
                size = max(1, len(cur["phases"][pi]["threads"][ti]) // 2)
                while size >= 1:
                    i = 0
                    while i < len(cur["phases"][pi]["threads"][ti]):
                        s = copy.deepcopy(cur)
                        del s["phases"][pi]["threads"][ti][i:i + size]
                        if ok(s):
                            cur, changed = s, True
                        else:
                            i += size
                    size //= 2
        # events
        for pi in range(len(cur["phases"])):
            for th in range(len(cur["phases"][pi]["threads"])):
                for oi in range(len(cur["phases"][pi]["threads"][th])):
                    op = cur["phases"][pi]["threads"][th][oi]
                    ev = op.get("ev") or []
                    if ev:
                        s = copy.deepcopy(cur)
                        s["phases"][pi]["threads"][th][oi]["ev"] = []
                        if ok(s):
                            cur, changed = s, True
                            continue
                    size = max(1, len(ev) // 2)
                    while size >= 1:
                        i = 0
                        while i < len(cur["phases"][pi]["threads"][th][oi].get("ev", [])):
                            s = copy.deepcopy(cur)
                            e = s["phases"][pi]["threads"][th][oi]["ev"]
                            if len(e) <= 1 and size > 1:
                                break
                            del e[i:i + size]
                            if ok(s):
                                cur, changed = s, True
                            else:
                                i += size
                        size //= 2
                    if op["op"] == "fill":
                        while cur["phases"][pi]["threads"][th][oi]["n"] > 1:
                            s = copy.deepcopy(cur)
                            s["phases"][pi]["threads"][th][oi]["n"] //= 2
                            if not ok(s):
                                break
                            cur, changed = s, True
        # surroundings
        for pi in range(len(cur["phases"])):
            for k in list(cur["phases"][pi].get("world", {})):
                s = copy.deepcopy(cur)
                del s["phases"][pi]["world"][k]
                if ok(s):
                    cur, changed = s, True
    return cur, n[0]


# ------------------------------------------------------------------ search
def search(prop, tier, seed, base, info, groups, runs, deadline):
    """-> (statistics, lowest violating spec or None)"""
    ctl = os.path.join(base, "stop_at")

    def stop_at():
        try:
            return int(open(ctl).read() or 1 << 60)
        except (OSError, ValueError):
            return 1 << 60

    def work(i, emit):
        E.enter_scratch("%s/w%d" % (base, i))
        for gi in range(i, groups, NCPU):
            if now() > deadline or stop_at() < gi:
                break
            ex = Exec()
            ctx = G.Ctx(ex.ref, info)
            nr = 0
            tg = now()
            try:
                for spec in G.group(prop, seed, gi, ctx, runs):
                    rep = ex.run(spec)
                    if rep is None:
                        continue
                    nr += 1
                    vs = violations(rep)
                    if any(v["kind"] == "hang" for v in vs) and not confirm(ex, spec, ("hang",), 1):
                        vs = [v for v in vs if v["kind"] != "hang"]
                        rep = [x for x in rep if not x.get("hang")]
                        emit(("note", "a run exceeded its wall time once and not again: %s" % spec["id"]))
                    emit(("run", summary(spec, rep, vs)))
                    if vs:
                        emit(("viol", (gi, spec, vs)))
                        break
                    if now() > deadline:
                        break
                stuck = [(k, v) for k, v in ex.cache.items() if "stuck" in v]
                emit(("group", (gi, nr, ex.nref, len(stuck))))
                if os.environ.get("VERIF_TIMES"):
                    sys.stderr.write("%.1f s group %d %s\n" % (now() - tg, gi, f_of(prop, seed, gi, ctx)))
                if stuck and prop == "C13":
                    c = json.loads(stuck[0][0])[0]
                    emit(("viol", (gi, {"prop": "C13", "watch": [], "slots": [], "style": "alone", "id": [gi, -1], "f": c["f"],
                                        "lone": c, "phases": []},
                                   [{"kind": stuck[0][1]["stuck"], "op": "lone", "f": c["f"], "phase": 0,
                                     "detail": "a lone call does not end"}])))
            except E.Died as d:
                emit(("harness", "group %d: %s\n%s" % (gi, d.status, d.note)))
    st = Stats()
    found = []
    for i, m in pool_run(NCPU, work):
        if m[0] == "crash":
            raise HarnessError(m[1])
        elif m[0] == "run":
            st.add(m[1])
        elif m[0] == "group":
            st.groups += 1
            st.refs += m[1][2]
            st.stuck += m[1][3]
        elif m[0] == "note":
            st.notes.append(m[1])
        elif m[0] == "harness":
            st.harness.append(m[1])
        elif m[0] == "viol":
            found.append(m[1])
            with open(ctl + ".t", "w") as fh:
                fh.write(str(min(x[0] for x in found)))
            os.replace(ctl + ".t", ctl)
    found.sort(key=lambda x: (x[0], x[1]["id"]))
    return st, found


def f_of(prop, seed, gi, ctx):
    import random
    return G.pick(random.Random("%s/%s/%d" % (seed, prop, gi)), ctx, gi, G.NAMES_FOR.get(prop, P.NAMES), "%s/%s" % (seed, prop))


def summary(spec, rep, vs):
    d = {"id": spec["id"], "f": spec["f"], "style": spec["style"], "il": interleaving(rep), "dg": digest_run(rep)}
    for k in ("switches", "forced", "steps", "vclock", "obs"):
        d[k] = sum(x[k] for x in rep)
    d["threads"] = max([x["threads"] for x in rep] or [0])
    d["ops"] = sum(len(x["outs"]) for x in rep)
    d["kills"] = sum(x["killed"] for x in rep)
    d["faults"] = {}
    for x in rep:
        for k, v in list(x["faults"].items()) + list(x["iofaults"].items()):
            d["faults"][k] = d["faults"].get(k, 0) + v
    if d["kills"]:
        d["faults"]["kill"] = d["kills"]
    d["reads"] = {}
    for x in rep:
        for k, v in x["reads"].items():
            d["reads"][k] = d["reads"].get(k, 0) + v
    d["events"] = sum(len(op.get("ev", ())) for ph in spec["phases"] for th in ph["threads"] for op in th)
    d["world"] = sorted({k for ph in spec["phases"] for k in ph.get("world", {})})
    d["nv"] = len(vs)
    return d


class Stats:
    def __init__(self):
        self.runs = self.groups = self.refs = self.stuck = 0
        self.switches = self.steps = self.obs = self.ops = self.forced = 0
        self.vclock = 0.0
        self.il = set()
        self.faults, self.styles, self.fn, self.reads, self.world = {}, {}, {}, {}, {}
        self.samples, self.notes, self.harness = [], [], []
        self.nontrivial = set()
        self.digests = []
        self.multi = 0

    def add(self, d):
        self.runs += 1
        for k in ("switches", "steps", "obs", "ops", "forced", "vclock"):
            setattr(self, k, getattr(self, k) + d[k])
        self.il.add(d["il"])
        self.styles[d["style"]] = self.styles.get(d["style"], 0) + 1
        self.fn[d["f"]] = self.fn.get(d["f"], 0) + 1
        for src, dst in ((d["faults"], self.faults), (d["reads"], self.reads)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k in d["world"]:
            self.world[k] = self.world.get(k, 0) + 1
        self.multi += d["threads"] > 1
        if d["switches"] or d["faults"] or d["ops"] > 1 or d["world"]:
            self.nontrivial.add((d["f"], d["il"], d["dg"]))
        self.digests.append((tuple(d["id"]), d["dg"]))


# ------------------------------------------------------------------ replay
def write_replay(prop, seed, spec, viol, digest, extra):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, seed, "_".join(map(str, spec["id"]))))
    with open(p, "w") as fh:
        json.dump(dict({"property": prop, "seed": seed, "spec": spec, "violation": viol, "digest": digest}, **extra), fh, indent=1)
    return p


def refused(x):
    return x.get("out", ("stuck",))[0] == "exc"


def never_answers(prop, seed):
    """C09: a method that raises for every ordinary log gives no answer at all."""
    import random
    out = []
    for f in sorted(P.QI_METHODS):
        r = random.Random("%s/answers/%s" % (seed, f))
        calls = [P.gen_call(r, f, swarm=False) for _ in range(8)]
        xs = []
        for c in calls:
            xs.append(E.reference(c))
            if not refused(xs[-1]):
                break
        else:
            out.append((-1, {"prop": prop, "watch": [], "slots": [], "style": "alone", "id": [-1, -1], "f": f, "lone": calls[0], "phases": []},
                        [{"kind": "refuses", "op": "lone", "f": f, "phase": 0,
                          "detail": "all of %d calls on fresh objects with ordinary logs raised, the first %s" % (len(calls), xs[0]["out"][1])}]))
    return out


def replay(path, base):
    """Re-execute a replay file; -> (reproduced, same digest, violations)"""
    d = json.load(open(path))
    E.enter_scratch(base + "/replay")
    if d["property"] == "C11":
        from . import importsim
        return importsim.replay(d, base)
    if "lone" in d["spec"]:
        x = E.reference(d["spec"]["lone"])
        if d["violation"]["kind"] == "refuses":
            bad = refused(x)
            return bad, True, [d["violation"]] if bad else []
        return "stuck" in x, True, [d["violation"]] if "stuck" in x else []
    if "fresh" in d["spec"]:
        from . import fresh
        return fresh.replay(d, base)
    ex = Exec()
    rep = ex.run(d["spec"], 120.0)
    vs = violations(rep) if rep else []
    same = [v for v in vs if v["kind"] == d["violation"]["kind"]]
    return bool(same), bool(rep) and digest_run(rep) == d["digest"], vs


def replay_fresh(path):
    """Replay in a new interpreter; -> (reproduced, exact)"""
    env = dict(os.environ)
    r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), "--replay", path], capture_output=True, text=True,
                       timeout=600, env=env)
    return r.returncode == 1 and "VIOLATION property=" in r.stdout, "exact=yes" in r.stdout
