"""Seeded generation of run specifications for each property.

A group is a handful of runs about one model: its calls (and their references) are shared by the runs, the
schedules and faults differ.  Everything is a function of (seed, property, group index, tree under test).
"""
import copy
import random

from . import pool as P
from . import spice as SP
from . import user as US
from . import values as V
from . import where as WH

KINDS = ("mem", "kbd", "cancel")


class Ctx:
    """What generators may ask: references of calls and what the probe learnt about each model."""

    def __init__(self, ref, info):
        self.ref = ref          # call, cfg -> reference dict
        self.info = info        # name -> {"codes": set, "score": int, "steps": int}

    def companions(self, f, r, k=1, among=None):
        me = self.info.get(f, {}).get("codes", set())
        fam = f.partition(".")[0]
        ws, ns = [], []
        for g in among or P.NAMES:
            if g == f:
                continue
            i = self.info.get(g, {})
            w = 1
            if me & i.get("codes", set()):
                w += 12
            if g.startswith(fam + "."):
                w += 4
            w += 6 * (i.get("score", 0) >= 3)
            if i.get("steps", 0) > 30000:
                w = 0.2
            ns.append(g)
            ws.append(w)
        return r.choices(ns, ws, k=k) if ns else [f] * k


def focus(ctx, names):
    """Models (with repetition as weight) that run code unlike the calibrated tree's; [] when nearly all or none do."""
    one, two, three = ([n for n in names if ctx.info.get(n, {}).get("focus", 0) == d] for d in (1, 2, 3))
    fo = three * max(8, 4 * len(two) // max(1, len(three))) + two * 4 + one
    if len(set(fo)) > max(6, .5 * len(names)):
        fo = three * max(8, 4 * len(two) // max(1, len(three))) + two * 4
    if len(set(fo)) > max(6, .5 * len(names)):
        fo = three
    return fo if 0 < len(set(fo)) <= max(6, .5 * len(names)) else []


def pick(r, ctx, gi, names, perm_seed):
    names = list(names)
    order = names[:]
    random.Random(perm_seed).shuffle(order)
    fo = focus(ctx, names)
    if fo:
        if gi % 2 == 0:
            return fo[r.randrange(len(fo))]
        gi //= 2
    if gi < len(order):
        return order[gi]
    if fo and r.random() < .5:
        return fo[r.randrange(len(fo))]
    hot = [n for n in names if ctx.info.get(n, {}).get("score", 0) >= 3]
    if hot and r.random() < .7:
        return hot[r.randrange(len(hot))]
    warm = [n for n in names if ctx.info.get(n, {}).get("score", 0) >= 1]
    if warm and r.random() < .2:
        return warm[r.randrange(len(warm))]
    return names[r.randrange(len(names))]


def point(r, ref):
    """A step inside a call, preferring those around calls, stores and state that outlives the call."""
    n = max(1, ref["steps"])
    g = r.random()
    if ref.get("foc") and r.random() < .35:
        return r.choice(ref["foc"]) + r.choice((0, 0, 1))
    if ref["hot"] and g < .45:
        return r.choice(ref["hot"]) + r.choice((0, 0, 0, 1))
    if ref["evb"] and g < .60:
        return r.choice(ref["evb"]) + r.choice((0, 1))
    if ref["aft"] and g < .80:
        return r.choice(ref["aft"]) + r.choice((0, 0, 1))
    return r.randint(1, n)


def fault_point(r, ref):
    g = r.random()
    if ref.get("foc") and r.random() < .35:
        return max(1, r.choice(ref["foc"]) + r.choice((0, 0, 1)))
    if ref["hot"] and g < .35:
        return max(1, r.choice(ref["hot"]) + r.choice((0, 0, 1, 2, 5)))
    if ref["elig"] and g < .55:      # a fault as soon as something was called or stored
        import bisect
        if ref["aft"]:
            s = r.choice(ref["aft"])
            i = bisect.bisect_left(ref["elig"], s)
            return ref["elig"][min(i, len(ref["elig"]) - 1)]
    if ref["elig"]:
        return r.choice(ref["elig"])
    return 1


class B:
    """Builder of operations with stable ids."""

    def __init__(self):
        self.n = 0

    def op(self, kind, **k):
        self.n += 1
        return dict({"id": "o%d" % self.n, "op": kind}, **k)

    def call(self, c, **k):
        return self.op("call", c=copy.deepcopy(c), **k)


def add_switches(r, ctx, threads, style, cfg=None, resolve=None):
    """Attach switch events to the call operations of the threads."""
    nt = len(threads)

    def ref(op):
        return ctx.ref(resolve(op) if resolve else op["c"], cfg)

    def ev(op, st, a):
        op.setdefault("ev", []).append([int(st), a])
    calls = [(ti, op) for ti, th in enumerate(threads) for op in th if op["op"] == "call"]
    if nt > 1:
        if style == "storm":
            for op in [o for t, o in calls if t == 0]:
                rf = ref(op)
                for _ in range(r.choice((1, 1, 2, 3, 5))):
                    ev(op, point(r, rf), ["sw", r.randrange(1, nt), "op"])
        elif style == "pct":
            for _ in range(r.choice((1, 2, 3, 4, 6))):
                ti, op = r.choice(calls)
                ev(op, point(r, ref(op)), ["sw", r.choice([x for x in range(nt) if x != ti]), "free"])
        elif style == "pair":       # A pauses in the middle, B pauses in the middle, A finishes, B finishes
            a = [o for t, o in calls if t == 0]
            for op in a[:2]:
                ev(op, point(r, ref(op)), ["sw", 1, "free"])
            for op in [o for t, o in calls if t == 1][:2]:
                ev(op, point(r, ref(op)), ["sw", 0, r.choice(("free", "op"))])
                if r.random() < .5:
                    ev(op, point(r, ref(op)), ["sw", r.randrange(nt), "free"])
        else:                        # walk
            for ti, op in calls:
                n = ref(op)["steps"]
                k = r.choice((2, 4, 8, 16))
                for _ in range(min(k, max(1, n // 4))):
                    ev(op, r.randint(1, max(1, n)), ["sw", r.choice([x for x in range(nt) if x != ti]), "free"])
    for _, op in calls:
        if "ev" in op:
            op["ev"].sort(key=lambda e: e[0])


def share(r, calls, slots):
    """Replace some array arguments by shared slots (the same object passed to several calls)."""
    out = []
    for c in calls:
        c = copy.deepcopy(c)
        for i, a in enumerate(c["a"]):
            if isinstance(a, dict) and a.get("t") in ("arr", "list", "ser") and r.random() < .7:
                for j, s in enumerate(slots):
                    if s == a:
                        c["a"][i] = {"t": "slot", "i": j}
                        break
                else:
                    if len(slots) < 8:
                        slots.append(copy.deepcopy(a))
                        c["a"][i] = {"t": "slot", "i": len(slots) - 1}
        out.append(c)
    return out


def usable(ctx, calls, cfg=None):
    """Calls whose lone execution ends."""
    return [c for c in calls if "stuck" not in ctx.ref(c, cfg) and not bulky(ctx.ref(c, cfg).get("out"))]


def bulky(x):
    """Results too large to be made many times over."""
    if isinstance(x, tuple) and len(x) == 4 and x[0] == "nd":
        return x[3].size > 200000
    return isinstance(x, (tuple, list)) and any(bulky(y) for y in x)


def fam(r, ctx, f, size, swarm=True, cfg=None, gi=0):
    combos = P.option_combos(f)
    opts = combos[gi % len(combos)] if len(combos) > 1 and r.random() < .5 else None
    base = None
    known = ctx.info.get(f, {}).get("corpus")
    if known and r.random() < .6:        # start from a call known to take a rare branch of changed code
        pick_from = [k for k in known if k[1] and k[2]] or [k for k in known if k[2]] or known
        base = copy.deepcopy(r.choice(pick_from if r.random() < .8 else known)[0])
    fs = P.family(r, f, size, swarm, opts, base)
    if base is not None and r.random() < .5:
        return usable(ctx, fs, cfg)
    cs = ctx.info.get(f, {}).get("consts")
    if r.random() < .65:             # some of the family sits on boundaries; others stay close to those
        for i in range(len(fs)):
            if r.random() < .4:
                fs[i] = SP.spice(r, fs[r.randrange(i + 1)], cs)
    fs = usable(ctx, fs, cfg)
    if fs and cfg is None and r.random() < .35:      # results fed back as arguments
        for _ in range(r.choice((1, 2))):
            c = chain(r, ctx, r.choice(fs))
            if c is not None:
                fs += usable(ctx, [c])
    return fs


def chain(r, ctx, c):
    """The call with one argument replaced by a value such a call returned."""
    import numpy as np
    out = ctx.ref(c, None)["out"]
    if out[0] != "ret":
        return None
    arrs, nums = [], []

    def w(x):
        if isinstance(x, tuple) and x:
            if x[0] == "nd" and x[3].dtype.kind == "f" and 1 <= x[3].size <= 300:
                arrs.append(x[3])
            elif x[0] == "s" and isinstance(x[2], float):
                nums.append(x[2])
            elif x[0] == "t":
                for y in x[2]:
                    w(y)
    w(out[1])
    d = copy.deepcopy(c)
    leaves = [(p, t) for p, t in P._walk(d) if p[0] != "obj" and not SP.skip(d["f"], p)]
    la = [p for p, t in leaves if t == "arr"]
    ln = [p for p, t in leaves if t == "num"]
    if arrs and la:
        a = r.choice(arrs)
        fit = [p for p in la if P._get(d, p).get("n") == a.size] or la
        v = {"t": "arr", "g": ["val", [float(z) for z in np.ravel(a)]], "n": int(a.size)}
        if a.ndim != 1:
            v["shape"] = list(a.shape)
        p = r.choice(fit)
        if p[-1] == "a" and len(p) > 2:
            v.pop("shape", None)
        P._set(d, p, v)
    elif nums and ln:
        P._set(d, r.choice(ln), r.choice(nums))
    else:
        return None
    return d


def preamble(r, ctx, f, calls, b):
    """Many earlier calls of a model that keeps state (fills whatever it remembers), else nothing."""
    if ctx.info.get(f, {}).get("score", 0) < 3 or r.random() > .4:
        return []
    return [filler(r, ctx, f, calls, False)(b)]


def one(r, ctx, g, swarm=True):
    c = P.gen_call(r, g, swarm=swarm)
    if r.random() < .25:
        c = SP.spice(r, c, ctx.info.get(g, {}).get("consts"))
    return c


STYLES = ("storm", "storm", "pct", "pct", "pair", "walk")


# ------------------------------------------------------------------ properties
def g_threads(prop, r, ctx, f, gi, runs, watch, names=None, faults=0.0, kinds=KINDS, size=6, shareargs=True, swarm=True):
    """Concurrent callers."""
    calls = fam(r, ctx, f, size, swarm, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 2, names):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for _ in range(runs):
        b = B()
        nt = r.choice((2, 2, 2, 3, 3, 4))
        slots = []
        threads = []
        pool = calls if r.random() < .6 else calls + comp
        if r.random() < .25:
            pool = r.sample(calls, min(2, len(calls)))
        if shareargs and r.random() < .5:
            pool = share(r, pool, slots)
        for ti in range(nt):
            threads.append([b.call(r.choice(pool)) for _ in range(r.choice((1, 1, 2, 3) if ti else (1, 1, 2)))])
        style = r.choice(STYLES)
        rs = lambda op: res(op["c"], slots)
        add_switches(r, ctx, threads, style, resolve=rs)
        if r.random() < faults:
            add_faults(r, ctx, threads, kinds, resolve=rs)
        pre = preamble(r, ctx, f, calls, b)
        threads[0] = pre + threads[0]
        if ctx.info.get(f, {}).get("score", 0) >= 3 and r.random() < .4:      # a whole crowd of other calls during one
            th = threads[r.randrange(1, nt)]
            th.insert(r.choice((0, 0, len(th))), filler(r, ctx, f, calls, False)(b))
        yield {"prop": prop, "watch": watch, "slots": slots, "style": style,
               "phases": [{"threads": threads, "first": r.randrange(nt) if style != "storm" and not pre else 0}]}


def res(c, slots):
    if not slots:
        return c
    o = dict(c, a=V.resolve(c["a"], slots))
    return o


def add_faults(r, ctx, threads, kinds, n=None, resolve=None, cfg=None, only=None):
    calls = [op for th in threads for op in th if op["op"] == "call" and (only is None or op["id"] in only)]
    for _ in range(n or r.choice((1, 1, 2, 3))):
        op = r.choice(calls)
        rf = ctx.ref(resolve(op) if resolve else op["c"], cfg)
        op.setdefault("ev", []).append([int(fault_point(r, rf)), ["fault", r.choice(kinds)]])
        op["ev"].sort(key=lambda e: e[0])


def g_C01(r, ctx, f, gi, runs):
    yield from g_threads("C01", r, ctx, f, gi, runs, ["result"])


def g_C02(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    if not calls:
        return
    for k in range(runs):
        b = B()
        slots = []
        mode = r.choice(("solo", "solo", "fault", "threads", "twin"))
        if mode == "twin":
            ops = []
            for c in r.sample(calls, min(3, len(calls))):
                tw = V.readonly_twin(c)
                if tw is None:
                    continue
                ok = ctx.ref(c, {})["out"][0] == "ret"
                ops.append(b.op("call", c=tw, **({"as": c} if ok else {})))
            if ops:
                yield {"prop": "C02", "watch": ["input", "result"], "slots": [], "style": "twin",
                       "phases": [{"threads": [ops]}]}
                continue
            mode = "solo"
        pool = share(r, calls, slots) if r.random() < .6 else calls
        rs = lambda op: res(op["c"], slots)
        if mode == "threads":
            nt = r.choice((2, 3))
            threads = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2)))] for _ in range(nt)]
            add_switches(r, ctx, threads, r.choice(STYLES), resolve=rs)
        else:
            threads = [[b.call(c) for c in r.sample(pool, min(3, len(pool)))]]
        for th in threads:
            for op in th:
                rf = ctx.ref(rs(op), None)
                cand = sorted(set(rf["aft"]) | set(rf["hot"]))
                if len(cand) > 150:
                    cand = sorted(r.sample(cand, 150))
                op["ev"] = sorted(op.get("ev", []) + [[s, ["obs"]] for s in cand], key=lambda e: e[0])
        if mode == "fault":
            add_faults(r, ctx, threads, KINDS, resolve=rs)
        yield {"prop": "C02", "watch": ["input"], "slots": slots, "style": mode, "phases": [{"threads": threads}]}


def mutable_slot(s):
    if not isinstance(s, dict):
        return False
    if s.get("t") == "arr":
        return s.get("lay", "C") in ("C", "str", "F", "neg", "mm", "view") and s["g"][0] in ("lin", "rng", "mat6", "inv6", "val")
    if s.get("t") == "ser":
        return True
    return s.get("t") == "list" and all(isinstance(x, (int, float)) for x in s["v"])


def compatible(old, new):
    def form(s):
        if s["t"] == "list":
            return ("list", len(s["v"]))
        a = s["a"] if s["t"] == "ser" else s
        return (s["t"], a.get("n"), a.get("dtype", "float64"))
    return mutable_slot(old) and form(old) == form(new)


def slot_update(r, s):
    """New contents for a caller-owned argument (same shape and type)."""
    s = copy.deepcopy(s)
    a = s["a"] if s["t"] == "ser" else s
    if s["t"] == "list":
        s["v"] = [x * r.uniform(.8, 1.05) for x in s["v"]]
        return s
    k = r.choice(("vals", "mid", "swap", "rev", "tiny", "last", "first"))
    if k == "vals" and a["g"][0] == "rng":
        a["g"][1] = r.randrange(1 << 30)
    elif k in ("swap", "rev"):
        a["tr"] = a.get("tr", []) + [k]
    elif k in ("mid", "first", "last"):
        n = max(1, a.get("n", 1))
        a["tr"] = a.get("tr", []) + [["scl", {"mid": n // 2, "first": 0, "last": n - 1}[k], r.choice((.9, .97, 1.02))]]
    else:
        a["tr"] = a.get("tr", []) + [["mul", r.choice((.9, .97, 1 - 1e-3, 1 - 1e-6))]]
    return s


def history(r, ctx, b, calls, comp, slots, n, scrib=False, setslot=True, refill=None):
    """A random single-threaded history over the calls (with slots) of a family."""
    ops = []
    cur = [copy.deepcopy(s) for s in slots]
    done = []
    for _ in range(n):
        g = r.random()
        if setslot and g < .25 and any(mutable_slot(s) for s in cur):
            i = r.choice([i for i, s in enumerate(cur) if mutable_slot(s)])
            cur[i] = slot_update(r, cur[i])
            ops.append(b.op("setslot", i=i, v=copy.deepcopy(cur[i])))
            using = [c for c in calls if uses(c, i)]
            if using:
                c = r.choice(using)
                o = b.call(c, hold=1)
                ops.append(o)
                done.append(o["id"])
            continue
        if scrib and g < .45 and done:
            ops.append(b.op("scrib", of=r.choice(done[-3:]), mark=-1000.5 - r.randrange(99)))
            if r.random() < .7:
                o = b.call(r.choice(calls), hold=1)
                ops.append(o)
                done.append(o["id"])
            continue
        if refill and g < .5:
            ops.append(refill(b))
            refill = None
            continue
        c = r.choice(calls) if g < .9 or not comp else r.choice(comp)
        o = b.call(c, hold=1)
        ops.append(o)
        done.append(o["id"])
    return ops


def uses(c, i):
    def w(x):
        if isinstance(x, dict):
            if x.get("t") == "slot":
                return x["i"] == i
            return any(w(v) for v in x.values())
        if isinstance(x, list):
            return any(w(v) for v in x)
        return False
    return w(c["a"]) or w(c.get("k", {})) or w(c.get("obj", {}))


def filler(r, ctx, f, calls, big):
    steps = max(50, ctx.info.get(f, {}).get("steps", 200))
    cost = steps * 1.2e-6 + 60e-6 + (20e-3 if f in P.PLOTS else 0) + (3e-3 if f.startswith("QI.") else 0)
    n = int(min(1100 if big else 300, max(4, (.45 if big else .12) / cost)))
    n = r.choice((n, n, n // 3 + 1, 17))

    def mk(b):
        o = b.op("fill", f=f, n=n, seed=r.randrange(1 << 30))
        if r.random() < .7:
            o["base"] = copy.deepcopy(r.choice(calls))
        return o
    return mk


def g_C03(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 7, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 2):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        slots = []
        pool = share(r, calls, slots) if r.random() < .7 else calls
        if r.random() < .25:
            pool = r.sample(pool, min(2, len(pool)))
        rf = filler(r, ctx, f, calls, k == 0) if (k == 0 or r.random() < .25) else None
        ops = history(r, ctx, b, pool, comp, slots, r.choice((3, 5, 8, 12)), scrib=r.random() < .2, refill=rf)
        if rf and k == 0:
            ops.append(b.call(r.choice(pool)))
        ph = {"threads": [ops]}
        if r.random() < .3:
            ph["world"] = {"heap": r.choice(US.HEAP)}
        yield {"prop": "C03", "watch": ["result"], "slots": slots, "style": "history", "phases": [ph]}


def g_C04(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 6, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 1):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        slots = []
        pool = share(r, calls, slots) if r.random() < .6 else calls
        if r.random() < .3:
            pool = r.sample(pool, min(2, len(pool)))
        if r.random() < .75:
            ops = history(r, ctx, b, pool, comp, slots, r.choice((3, 5, 8)), scrib=True, setslot=False)
            ths = [ops]
        else:
            ths = [history(r, ctx, b, pool, comp, slots, r.choice((2, 3)), scrib=True, setslot=False) for _ in range(2)]
            add_switches(r, ctx, ths, r.choice(STYLES), resolve=lambda op: res(op["c"], slots))
        yield {"prop": "C04", "watch": ["own", "result", "input"], "slots": slots, "style": "history",
               "phases": [{"threads": ths}]}


def g_C05(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 1):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        slots = []
        pool = share(r, calls, slots) if r.random() < .5 else calls
        rs = lambda op: res(op["c"], slots)
        if r.random() < .72:
            ops, ft = [], []
            for _ in range(r.choice((0, 0, 1))):
                ops.append(b.call(r.choice(pool)))
            for _ in range(r.choice((1, 1, 2, 3))):
                c = r.choice(pool)
                o = b.call(c)
                ft.append(o["id"])
                ops.append(o)
                x = r.random()
                if x < .6:
                    ops.append(b.call(c))
                if x > .4:
                    ops.append(b.call(r.choice(pool + comp)))
            ths = [ops]
            for o in ops:
                if o["id"] in ft:
                    add_faults(r, ctx, [[o]], KINDS, n=r.choice((1, 1, 1, 2)), resolve=rs)
        else:
            ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 3)))] for _ in range(2)]
            add_switches(r, ctx, ths, r.choice(STYLES), resolve=rs)
            add_faults(r, ctx, ths, KINDS, resolve=rs)
            ths[-1].append(b.call(r.choice(pool)))
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        if ctx.info.get(f, {}).get("score", 0) >= 3 and r.random() < .4:     # does anything half-made surface later?
            ths[0].append(filler(r, ctx, f, calls, False)(b))
        yield {"prop": "C05", "watch": ["result"], "slots": slots, "style": "faults", "phases": [{"threads": ths}]}


def g_C06(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 4, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 1):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        mode = r.choice(("solo", "fault", "fault", "threads", "threads", "both"))
        pool = calls + comp
        nt = 1 if mode in ("solo", "fault") else r.choice((2, 2, 3))
        ths = [[b.call(r.choice(pool if r.random() < .3 else calls)) for _ in range(r.choice((1, 2) if nt > 1 else (1, 2, 3)))]
               for _ in range(nt)]
        if nt > 1:
            add_switches(r, ctx, ths, r.choice(STYLES))
        if mode in ("fault", "both"):
            add_faults(r, ctx, ths, KINDS)
        ph = {"threads": ths}
        if r.random() < .6:
            ph["world"] = {"user": US.choose(r)}
        yield {"prop": "C06", "watch": ["env"], "slots": [], "style": mode, "phases": [ph]}


ENVV = ["1", "0", "", "true", "off", "debug", "fast", "float32", "3", "1e-3", "@scratch/x", "low", None, "@real"]


def adversary(r, plots=True):
    w = {}
    if r.random() < .5:
        w["user"] = US.choose(r, plots=plots)
    if r.random() < .5:
        w["heap"] = r.choice(US.HEAP)
    if r.random() < .8:
        w["epoch"] = r.choice((0.0, 1.0, 86399.5, 951782399.5, 1709164800.0, 2147483647.0, 4102444800.0, 1735689599.9,
                               -3600.0, r.uniform(0, 4e9)))
        w["rate"] = r.choice((1.0, 0.0, 1e6, -1.0, 1e9))
        w["mono0"] = r.choice((0.0, 1e9, 3.0, r.uniform(0, 1e7)))
        w["mrate"] = r.choice((1.0, 0.0, 1e6, 1e9))
        if r.random() < .5:
            w["jumps"] = [r.choice((0, 3600, -7200, 86400 * 40, -1e8, .5)) for _ in range(3)]
    if r.random() < .8:
        w["nprand"] = r.randrange(1 << 31)
        w["entropy"] = r.randrange(1 << 31)
    if r.random() < .8:
        k = r.randrange(1, len(ENVV) + 1)
        w["envspy"] = [r.choice(ENVV) for _ in range(k)]
    if r.random() < .8:
        w["cpus"] = r.choice((1, 2, 64, 256))
        w["pid"] = r.choice((1, 2, 4242, 99999))
        w["host"] = r.choice(("n01", "worker-17", "laptop"))
        w["system"] = r.choice(("Windows", "Darwin", "Linux"))
    if r.random() < .5:
        w["environ"] = {"LANG": r.choice(("C", "de_DE.UTF-8", "tr_TR.UTF-8")), "TZ": r.choice(("UTC", "Asia/Tokyo")),
                        "OMP_NUM_THREADS": r.choice(("1", "64")), "DEBUG": r.choice(("1", "0")),
                        "USER": r.choice(("root", "alice"))}
    if r.random() < .35:
        w["phantom"] = r.choice(("", "1", "0.5", "{}", "[]", "true", '{"version": 1, "precision": 3}', "[rockphypy]\nprecision = 3\n",
                                 "\x80\x04garbage", "\x93NUMPY"))
    if r.random() < .4:
        w["cwd"] = r.choice(("cwd/a b", "cwd/x/y"))
    return w


def g_C07(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    if not calls:
        return
    odd = []                 # calls that divide by zero, overflow ... : settings matter most there
    if f not in P.PLOTS:
        cs = ctx.info.get(f, {}).get("consts")
        more = calls + usable(ctx, [SP.spice(r, r.choice(calls), cs) for _ in range(8)])
        odd = [c for c in more if ctx.ref(c, None).get("num")]
    for k in range(runs):
        b = B()
        mode = r.choice(("world", "world", "world", "kill", "kill", "iokill", "ioerr", "leftover"))
        pool = r.sample(calls, min(3, len(calls)))
        phases = []
        if mode == "world":
            w = adversary(r, f not in P.PLOTS)
            if odd and r.random() < .4:
                pool = r.sample(odd, min(3, len(odd)))
                w["user"] = US.choose(r, plots=False, err=True)
            elif "user" in w and r.random() < .5:
                pool = calls
            ops = [b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 3) if pool is not calls else (3, 5)))]
            phases = [{"threads": [ops], "main": r.random() < .4, "world": w}]
        elif mode == "ioerr":
            e = r.choice(("ENOSPC", "EACCES", "EIO", "EMFILE"))
            io = {"all": e} if r.random() < .5 else {str(r.randint(1, 6)): e}
            ops = [b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 3)))]
            phases = [{"threads": [ops], "world": {"io": io}},
                      {"threads": [[b.call(r.choice(pool)) for _ in range(2)]]}]
        else:
            first = [b.call(r.choice(pool)) for _ in range(r.choice((1, 2)))]
            ph = {"threads": [first]}
            if mode == "kill":
                o = first[-1]
                rf = ctx.ref(o["c"], None)
                o["ev"] = [[int(point(r, rf)), ["kill"]]]
                if r.random() < .6:
                    ph["torn"] = r.choice((0, .3, .9, .999))
            elif mode == "iokill":
                ph["world"] = {"io": {str(r.randint(1, 8)): "kill"}}
            ph2 = {"threads": [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 3)))]]}
            if mode == "leftover":
                ph2["before"] = [{"how": r.choice(("truncate", "empty", "garbage", "dir")), "seed": r.randrange(1 << 30)}]
            if r.random() < .4:
                ph2["world"] = adversary(r, f not in P.PLOTS)
                ph2["world"].pop("cwd", None)
            phases = [ph, ph2]
        yield {"prop": "C07", "watch": ["result"], "slots": [], "style": mode, "phases": phases}


def figop(r, b=None):
    do = r.choice(("new", "new", "subplots", "draw", "draw", "select", "close", "closeall", "save"))
    d = {"do": do, "label": "user-%d" % r.randrange(3), "x": round(r.uniform(0, 9), 2)}
    return b.op("fig", **d) if b else d


def g_C08(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 3, swarm=False, gi=gi)
    g = r.choice(sorted(P.PLOTS))
    comp = usable(ctx, [one(r, ctx, g, swarm=False)])
    if calls and calls[0].get("obj") and r.random() < .5:      # the same picture of logs with gaps
        c = copy.deepcopy(calls[0])
        for nm in r.sample([x for x in ("Vsh", "Vp", "phi", "Vs") if c["obj"].get(x)], 1):
            v = c["obj"][nm]
            a = v["a"] if v["t"] == "ser" else v
            if a.get("t") == "arr":
                a["ed"] = [[r.randrange(99), "nan"]]
        calls += usable(ctx, [c])
    if not calls:
        return
    for k in range(runs):
        b = B()
        pool = calls + comp
        nt = r.choice((1, 2, 2, 3))
        ths = []
        for ti in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 2))):
                if r.random() < .5:
                    ops.append(figop(r, b))
                ops.append(b.call(r.choice(calls if r.random() < .7 else pool)))
            if r.random() < .4:
                ops.append(figop(r, b))
            ths.append(ops)
        if r.random() < .25:                 # a long session with many open figures
            ths[0].insert(0, b.op("fig", do="many", label="old", x=0, n=r.choice((8, 18, 19, 20, 25, 40, 70))))
        if nt > 1 and r.random() < .5:      # one pure user of pyplot
            ths[-1] = [figop(r, b) for _ in range(r.choice((2, 4, 6)))]
        add_switches(r, ctx, ths, r.choice(STYLES))
        for th in ths:                       # user actions in the middle of a plot call
            for op in th:
                if op["op"] == "call" and r.random() < .6:
                    rf = ctx.ref(op["c"], None)
                    for _ in range(r.choice((1, 2, 3))):
                        op.setdefault("ev", []).append([int(point(r, rf)), ["act", ["fig", figop(r)]]])
                    op["ev"].sort(key=lambda e: e[0])
        if r.random() < .2:
            add_faults(r, ctx, ths, KINDS)
        yield {"prop": "C08", "watch": ["fig", "result"], "slots": [], "style": "plots", "phases": [{"threads": ths}]}


LOGS = ("Vp", "phi", "Vsh", "Vs")


def g_C09(r, ctx, f, gi, runs):
    r0 = random.Random(r.random())
    logs = P.make_obj(r, n=r.choice((None, None, None, None, 48, 64, 150)), swarm=False)
    n = P._objlen(logs)
    logs2 = P.make_obj(r, n=n, swarm=False)
    cs = ctx.info.get(f, {}).get("consts")
    for lg in (logs, logs2):
        if r.random() < .5:
            SP.spice_obj(r, lg, cs)
    known = [k for k in ctx.info.get(f, {}).get("corpus", ()) if k[0].get("obj")]
    if known and r.random() < .5:        # logs known to take a rare branch of changed code
        logs = copy.deepcopy(r.choice([k for k in known if k[1]] or known)[0]["obj"])
        n = P._objlen(logs)

    def mcall(g, o):
        c = P.gen_call(r, g, swarm=False)
        if r.random() < .3:
            c = SP.spice(r, {k: v for k, v in c.items() if k != "obj"}, ctx.info.get(g, {}).get("consts"))
        c.pop("obj", None)
        for i, (name, kind, rg) in enumerate(P.PARAMS[g]):
            if kind == "VCEM":
                c["a"][i] = {"t": "arr", "g": ["rng", r.randrange(1 << 30), 0, .1], "n": n}
        c["o"] = o
        return c
    base = [mcall(f, "A") for _ in range(2)] + [mcall(r.choice(sorted(P.QI_METHODS)), "A")]
    for k in range(runs):
        b = B()
        objs = {"A": copy.deepcopy(logs), "B": copy.deepcopy(logs2 if r.random() < .6 else logs)}
        aliased = set()
        pre = [b.op("mkobj", o="A", logs=copy.deepcopy(objs["A"])), b.op("mkobj", o="B", logs=copy.deepcopy(objs["B"]))]
        mode = r.choice(("solo", "solo", "fault", "threads", "process"))
        names = ["A", "B"]

        def rnd():
            c = copy.deepcopy(r.choice(base))
            c["o"] = r.choice(names)
            return c
        hist = []
        for _ in range(r.choice((2, 3, 5))):
            g = r.random()
            if g < .25:
                o = r.choice(names)
                nm = r.choice([x for x in LOGS if x in objs[o]])
                v = slot_update(r, objs[o][nm])
                if r.random() < .25:
                    tmp = {nm: copy.deepcopy(v)}
                    SP.spice_log(r, tmp, nm, cs)
                    v = tmp[nm]
                kind = "inlog" if r.random() < .5 and o not in aliased and compatible(objs[o][nm], v) else "setlog"
                hist.append(b.op(kind, o=o, name=nm, v=v))
                objs[o][nm] = v
                hist.append(b.call(dict(copy.deepcopy(r.choice(base)), o=o)))
            elif g < .33:                    # all logs replaced by those of another well, of another length
                o = r.choice(names)
                new = P.make_obj(r, n=r.choice((n + 1, n + 7, 2 * n, max(2, n - 2), n)), swarm=False)
                for nm in LOGS:
                    if nm in objs[o] and nm in new:
                        hist.append(b.op("setlog", o=o, name=nm, v=new[nm]))
                        objs[o][nm] = new[nm]
                hist.append(b.call(dict(copy.deepcopy(r.choice(base)), o=o)))
            elif g < .48 and len(names) < 4:
                o, to = r.choice(names), "D%d" % len(names)
                how = r.choice(("pickle", "copy", "deepcopy"))
                hist.append(b.op("dup", o=o, to=to, how=how))
                objs[to] = copy.deepcopy(objs[o])
                if how == "copy":
                    aliased |= {o, to}
                names.append(to)
                hist.append(b.call(dict(copy.deepcopy(r.choice(base)), o=to)))
            else:
                c = rnd()
                if r.random() < .12:
                    c = P.bad_call(r, c)
                hist.append(b.call(c))
        watch = ["result", "input"]
        rs = lambda op: dict({k: v for k, v in op["c"].items() if k != "o"}, obj=objs[op["c"]["o"]])
        if mode in ("solo", "fault"):
            phases = [{"threads": [pre + hist + [b.call(rnd())]]}]
            if mode == "fault":
                calls = [o for o in hist if o["op"] == "call"]
                if calls:
                    o = r.choice(calls)
                    st = ctx.info.get(o["c"]["f"], {}).get("steps", 300)
                    o["ev"] = [[r.randint(1, max(2, st)), ["fault", r.choice(KINDS)]]]
        elif mode == "threads":
            nt = r.choice((2, 3))
            ths = [[b.call(rnd()) for _ in range(r.choice((1, 2)))] for _ in range(nt)]
            add_switches(r, ctx, ths, r.choice(STYLES), resolve=rs)
            phases = [{"threads": [pre + hist]}, {"threads": ths}]
        else:
            phases = [{"threads": [pre + hist]}, {"threads": [[b.call(rnd()) for _ in range(2)]]}]
        yield {"prop": "C09", "watch": watch, "slots": [], "style": mode, "phases": phases, "carry": 1}


def g_C10(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    comp = []
    for g in r.sample(sorted(P.SOLVERS), 2):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        pool = calls if r.random() < .6 else calls + comp
        nt = r.choice((1, 2, 2, 3))
        ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2) if nt > 1 else (2, 3, 4)))] for _ in range(nt)]
        if nt > 1:
            style = r.choice(("evb", "evb") + STYLES)
            if style == "evb":
                for ti, th in enumerate(ths):
                    for op in th:
                        rf = ctx.ref(op["c"], None)
                        if rf["evb"]:
                            for s in r.sample(rf["evb"], min(len(rf["evb"]), r.choice((1, 3, 8)))):
                                op.setdefault("ev", []).append(
                                    [s + r.choice((0, 0, 2, 9)), ["sw", r.choice([x for x in range(nt) if x != ti]), r.choice(("free", "op"))]])
                            op["ev"].sort(key=lambda e: e[0])
            else:
                add_switches(r, ctx, ths, style)
        if nt == 1 or r.random() < .4:
            kinds = KINDS + ("fpe", "rec")
            for th in ths:
                op = r.choice(th)
                rf = ctx.ref(op["c"], None)
                if rf["evb"] and rf["elig"] and r.random() < .7:
                    st = r.choice(rf["evb"]) + r.choice((0, 3, 20, 60))
                else:
                    st = fault_point(r, rf)
                op.setdefault("ev", []).append([int(st), ["fault", r.choice(kinds)]])
                op["ev"].sort(key=lambda e: e[0])
                if nt == 1:
                    th.append(b.call(op["c"]))
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C10", "watch": ["result", "evals"], "slots": [], "style": "solvers", "phases": [{"threads": ths}]}


def exceeds(call):
    """Does any pressure of the call exceed 100 MPa?  (None: not comparable)"""
    import numpy as np
    w, i = P.pressure_of(call)
    v = call[w][i]
    try:
        x = np.asarray(V.make(v), dtype=float)
        return bool(np.any(x > 100))
    except Exception:
        return None


def g_C12(r, ctx, f, gi, runs):
    cfg = {"wfilter": "error"} if gi % 4 == 3 else None
    cs = []
    known = ctx.info.get(f, {}).get("corpus")
    for _ in range(6):
        c = copy.deepcopy(r.choice(known)[0]) if known and r.random() < .4 else one(r, ctx, f)
        P._force_pressure(r, c)
        if r.random() < .25:
            c = SP.spice(r, c, ctx.info.get(f, {}).get("consts"))
        cs.append(c)
    cs += [P.variant(r, r.choice(cs)) for _ in range(3)]
    for g in ctx.companions(f, r, 1, sorted(P.PRESSURE)):
        c = P.gen_call(r, g)
        P._force_pressure(r, c)
        cs.append(c)
    cs = usable(ctx, cs, cfg)
    cs = [c for c in cs if exceeds(c) is not None]
    if not cs:
        return

    def mk(b, c):
        return b.call(c[0], exceeds=c[1])
    slots, raw = [], cs
    cs = list(zip(share(r, cs, slots), [exceeds(c) for c in cs]))
    rs = lambda op: res(op["c"], slots)
    for k in range(runs):
        b = B()
        mode = r.choice(("solo", "solo", "fault", "threads", "threads"))
        if mode == "threads":
            nt = r.choice((2, 3))
            ths = [[mk(b, r.choice(cs)) for _ in range(r.choice((1, 2, 3)))] for _ in range(nt)]
            add_switches(r, ctx, ths, r.choice(STYLES), cfg, rs)
        else:
            ths = [[mk(b, r.choice(cs)) for _ in range(r.choice((2, 4, 8, 20)))]]
        if mode == "fault" or r.random() < .15:
            add_faults(r, ctx, ths, KINDS, cfg=cfg, resolve=rs)
            ths[-1] += [mk(b, r.choice(cs)), mk(b, r.choice(cs))]
        ph = {"threads": ths}
        if cfg:
            ph["wfilter"] = "error"
        ths[0][:0] = preamble(r, ctx, f, raw, b)
        yield {"prop": "C12", "watch": ["warn"] + (["result"] if cfg else []), "slots": slots, "style": mode, "phases": [ph]}


def g_C13(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 4, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 2):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        nt = r.choice((1, 2, 3, 4))
        pool = calls + comp if r.random() < .6 else calls
        ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 3)))] for _ in range(nt)]
        style = r.choice(STYLES + ("stall",))
        if style == "stall" and nt > 1:
            op = ths[0][0]
            op["ev"] = [[int(point(r, ctx.ref(op["c"], None))), ["sw", 1, "free"]]]
        else:
            add_switches(r, ctx, ths, style if style != "stall" else "pct")
        if nt == 1 or r.random() < .6:
            add_faults(r, ctx, ths, KINDS)
            ths[-1].append(b.call(r.choice(calls)))
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C13", "watch": [], "slots": [], "style": style, "phases": [{"threads": ths}]}


# Known finding C14-DEM: the integrator below this model is not re-entrant on one thread (see known.py)
NOT_IN_ITSELF = {"EM.Berryman_DEM"}


def nest_ev(r, ctx, b, outer, pool, how="nest", depth=1, above=()):
    above = above + (outer["f"],)
    ok = [c for c in pool if not (c["f"] in NOT_IN_ITSELF and c["f"] in above)]
    c = r.choice(ok) if ok else {"f": "Fluid.Brie", "a": [2.2, .1, .5, 3.0]}
    o = b.call(c)
    rf = ctx.ref(c, None)
    if how == "nest" and depth and r.random() < .25:
        o["ev"] = [nest_ev(r, ctx, b, c, pool, "nest", depth - 1, above)]
    elif how == "nest" and r.random() < .12:
        o["ev"] = [[int(fault_point(r, rf)), ["fault", r.choice(KINDS)]]]
    if how == "nest" and c["f"] not in NOT_IN_ITSELF and ctx.info.get(c["f"], {}).get("score", 0) >= 3 and r.random() < .3:
        o["crowd"] = filler(r, ctx, c["f"], [c], False)(b)
    return [int(point(r, ctx.ref(outer, None))), ["act", [how, o]]]


def g_C14(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 2):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    light = [c for c in calls + comp if ctx.ref(c, None)["steps"] < 40000] or calls
    for k in range(runs):
        b = B()
        pool = calls if r.random() < .5 else calls + comp
        inner = light if r.random() < .6 else [c for c in light if c in calls] or light
        mode = r.choice(("nest", "nest", "nest", "threads", "fork"))
        nt = 1 if mode == "nest" else r.choice((2, 2, 3)) if mode == "threads" else r.choice((1, 2, 2, 3))
        ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 1, 2)))] for _ in range(nt)]
        if nt > 1:
            add_switches(r, ctx, ths, r.choice(STYLES))
        ops = [o for th in ths for o in th]
        for _ in range(r.choice((1, 1, 2, 3)) if mode != "fork" else r.choice((1, 2))):
            o = r.choice(ops)
            o.setdefault("ev", []).append(nest_ev(r, ctx, b, o["c"], inner, "fork" if mode == "fork" else "nest"))
        for o in ops:
            if o.get("ev"):
                o["ev"].sort(key=lambda e: e[0])
        if r.random() < .1:
            add_faults(r, ctx, ths, KINDS)
        if r.random() < .5:
            ths[0].append(b.call(r.choice(calls)))
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C14", "watch": ["result"], "slots": [], "style": mode, "phases": [{"threads": ths}]}


def g_C15(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 6, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 1):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    stateful = ctx.info.get(f, {}).get("score", 0) >= 3
    for k in range(runs):
        b = B()
        pool = calls if r.random() < .7 else calls + comp
        mode = r.choice(("solo", "solo", "fault", "fault", "threads"))
        if k == 0 and (stateful or r.random() < .05) and f not in P.PLOTS:
            c = r.choice(calls)
            cost = ctx.ref(c, None)["steps"] * 1.2e-6 + 80e-6
            if 6000 * cost < 12:
                o = b.op("grow", base=copy.deepcopy(c), n=6000, seed=r.randrange(1 << 30))
                yield {"prop": "C15", "watch": ["keep"], "slots": [], "style": "grow", "phases": [{"threads": [[o]]}]}
                continue
        if mode == "fault" and f not in P.PLOTS and r.random() < .25:    # the same interruption again and again
            c = r.choice(calls)
            rf = ctx.ref(c, None)
            if rf["steps"] < 40000:
                e = [int(fault_point(r, rf)), ["fault", r.choice(KINDS)]] if r.random() < .8 else None
                th = [b.call(c)] + [b.call(c, ev=[list(e)]) if e else b.call(c) for _ in range(13)]
                yield {"prop": "C15", "watch": ["keep"], "slots": [], "style": "litter",
                       "phases": [{"threads": [th], "litter": 14}]}
                continue
        if mode == "threads":
            ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2)))] for _ in range(r.choice((2, 3)))]
            add_switches(r, ctx, ths, r.choice(STYLES))
        else:
            ths = [[b.call(r.choice(pool)) for _ in range(r.choice((1, 2, 4)))]]
        if mode == "fault" or r.random() < .3:
            add_faults(r, ctx, ths, KINDS)
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C15", "watch": ["keep"], "slots": [], "style": mode, "phases": [{"threads": ths}]}


def g_C16(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 2):
        comp += usable(ctx, [one(r, ctx, g)])
    calls = [c for c in calls if ctx.ref(c, None)["steps"] < 200000]
    if not calls:
        return
    for k in range(runs):
        b = B()
        nw = r.choice((1, 2, 2, 3))
        how = ["spawn" if r.random() < .25 else "fork" for _ in range(nw)]
        pool = calls if r.random() < .5 else calls + comp
        ops, started = [], set()
        for _ in range(r.choice((2, 3, 5, 8))):
            x = r.random()
            c = r.choice(pool)
            rf = ctx.ref(c, None)
            w = r.randrange(nw)
            if x < .25:
                o = b.call(c)                                   # the coordinator works too
                v = r.randrange(nw)
                if x < .08:
                    o["ev"] = [[int(point(r, rf)), ["act", ["worker", {"w": v, "how": how[v]}]]]]
                elif x < .18:
                    q = b.call(r.choice(pool), w=v, how=how[v], fate=["ok"])
                    o["ev"] = [[int(point(r, rf)), ["act", ["ship", q]]]]
                elif r.random() < .3:
                    o["ev"] = [[int(fault_point(r, rf)), ["fault", r.choice(KINDS)]]]
            elif x < .35:
                o = b.op("worker", w=w, how=how[w])
            else:
                fate = r.choice(("ok", "ok", "ok", "crash", "crash", "fault", "dup", "lost", "late"))
                fate = [fate, int(point(r, rf))] if fate == "crash" else \
                    [fate, int(fault_point(r, rf)), r.choice(KINDS)] if fate == "fault" else [fate]
                o = b.call(c, w=w, how=how[w], fate=fate, proto=r.choice((None, None, 2, 5)))
            ops.append(o)
        ths = [ops]
        if r.random() < .25:
            ths.append([b.call(r.choice(pool)) for _ in range(r.choice((1, 2)))])
            own = [[o for o in th if o["op"] == "call" and "w" not in o] for th in ths]
            if all(own):
                add_switches(r, ctx, own, r.choice(STYLES))
                for th in own:
                    for o in th:
                        o.get("ev", []).sort(key=lambda e: e[0])
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C16", "watch": ["result"], "slots": [], "style": "pool", "phases": [{"threads": ths}]}


def places(r, ctx, c, also=()):
    """Where the call is made from (one or two nested places)."""
    rf = ctx.ref(c, None)
    ok = [p for p in WH.PLACES if not (p in WH.SLOW and rf["steps"] > WH.SMALL)
          and not (p == "in-odeint" and c["f"] in NOT_IN_ITSELF)]
    if r.random() < .15:
        return [r.choice(list(WH.CALLERS))]
    return r.sample(ok, r.choice((1, 1, 1, 2)))


def g_C17(r, ctx, f, gi, runs):
    calls = fam(r, ctx, f, 5, gi=gi)
    comp = []
    for g in ctx.companions(f, r, 1):
        comp += usable(ctx, [one(r, ctx, g)])
    if not calls:
        return
    for k in range(runs):
        b = B()
        pool = calls if r.random() < .7 else calls + comp
        mode = r.choice(("place", "place", "place", "exit", "exit", "threads", "fault"))
        nt = r.choice((2, 3)) if mode == "threads" else 1
        ths = []
        for _ in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 4) if nt == 1 else (1, 2))):
                c = r.choice(pool)
                o = b.call(c)
                if r.random() < (.85 if mode != "exit" else .3):
                    o["at"] = places(r, ctx, c)
                if nt > 1:
                    o["at"] = [p for p in o.get("at", ()) if p in THREADABLE]
                if r.random() < .15:
                    o["via"] = r.choice(("subclass", "instance"))
                ops.append(o)
            ths.append(ops)
        if mode == "threads":
            add_switches(r, ctx, ths, r.choice(STYLES))
        if mode == "fault":
            add_faults(r, ctx, ths, KINDS)
            ths[0].append(b.call(r.choice(calls)))
        if mode == "exit":
            ths[0].insert(r.choice((0, 0, 1)), b.op("exit", first=r.random() < .5))
            ths[0].append(b.call(r.choice(calls)))
        ths[0][:0] = preamble(r, ctx, f, calls, b)
        yield {"prop": "C17", "watch": ["result"], "slots": [], "style": mode, "phases": [{"threads": ths}]}


# places that mean one thread only and change nothing process-wide while the call is made
THREADABLE = ("task", "ctx", "bare", "gen", "finaliser", "weak", "handler", "leaving", "traced", "npcall", "applied", "sorting") + tuple(WH.CALLERS)


NAMES_FOR = {"C08": sorted(P.PLOTS), "C09": sorted(P.QI_METHODS), "C10": sorted(P.SOLVERS), "C12": sorted(P.PRESSURE)}
GEN = {"C01": g_C01, "C02": g_C02, "C03": g_C03, "C04": g_C04, "C05": g_C05, "C06": g_C06, "C07": g_C07, "C08": g_C08,
       "C09": g_C09, "C10": g_C10, "C12": g_C12, "C13": g_C13, "C14": g_C14, "C15": g_C15, "C16": g_C16, "C17": g_C17}


def flat(x):
    """Arguments that cross a process boundary arrive contiguous; numpy's loops over strided data may round differently."""
    if isinstance(x, dict):
        if x.get("t") == "arr" and x.get("lay") in ("str", "neg", "rostr"):
            del x["lay"]
        for v in x.values():
            flat(v)
    elif isinstance(x, list):
        for v in x:
            flat(v)


def group(prop, seed, gi, ctx, runs):
    """Yield the run specifications of group gi."""
    r = random.Random("%s/%s/%d" % (seed, prop, gi))
    f = pick(r, ctx, gi, NAMES_FOR.get(prop, P.NAMES), "%s/%s" % (seed, prop))
    for k, s in enumerate(GEN[prop](r, ctx, f, gi, runs)):
        s["id"] = [gi, k]
        s["f"] = f
        if prop in ("C09", "C16"):
            flat(s["phases"])
        rm = random.Random("%s/%s/%d/%d/main" % (seed, prop, gi, k))
        for ph in s["phases"]:           # a lone caller may be the main thread of the process
            if len(ph["threads"]) == 1 and "main" not in ph and rm.random() < .35:
                ph["main"] = True
        yield s
