"""Special values: boundaries, degenerate arrays and the constants the code under test compares with.

The constants are mined from the byte code the tree under test runs (guidance for the search only, never used to
judge): whatever threshold, size or special case a model tests for, some calls sit on it and on either side of it."""
import dis
import math
import types

from . import pool as P
from . import sched as S

GENERIC = [0, 0, 0.0, 1, 1.0, -1, .5, 2, 90, 180, 360, 45, 100, 1e-3, 1e-12, 1000, float("nan"), float("inf")]


def _resolve(name, g):
    v = g.get(name)
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def mine():
    """{code label: {"cmp": [...], "all": [...]}} for every code object of the package."""
    import gc
    out = {}
    done = set()

    def one(code, g):
        if code in done or not S.is_sut(code):
            return
        done.add(code)
        cmpc, allc = set(), set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname in ("LOAD_CONST", "RETURN_CONST"):
                allc |= nums(x.argval)
            elif x.opname == "LOAD_GLOBAL" and _resolve(x.argval, g) is not None:
                allc.add(_resolve(x.argval, g))
            if x.opname in ("COMPARE_OP", "CONTAINS_OP") or (x.opname == "CALL" and any(
                    y.argval in ("isclose", "allclose", "minimum", "maximum", "clip", "round", "where") for y in ins[max(0, i - 8):i]
                    if isinstance(y.argval, str))):
                for y in ins[max(0, i - 5):i]:
                    if y.opname == "LOAD_CONST":
                        cmpc |= nums(y.argval)
                    elif y.opname in ("LOAD_GLOBAL", "LOAD_NAME") and _resolve(y.argval, g) is not None:
                        cmpc.add(_resolve(y.argval, g))
        out["%s:%d" % (code.co_qualname, code.co_firstlineno)] = {
            "cmp": cmpc, "all": allc,
            "subs": ["%s:%d" % (k.co_qualname, k.co_firstlineno) for k in code.co_consts if isinstance(k, types.CodeType)]}
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                one(k, g)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            one(o.__code__, o.__globals__)
    return out


def nums(v):
    if isinstance(v, bool) or v is None:
        return set()
    if isinstance(v, (int, float)):
        return {v} if v == v and abs(v) <= 1e6 else set()
    if isinstance(v, (tuple, frozenset)):
        return set().union(*[nums(x) for x in v]) if v else set()
    return set()


def for_codes(mined, labels):
    cmpc, allc = set(), set()
    todo = list(labels)
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k not in mined:
            continue
        seen.add(k)
        cmpc |= mined[k]["cmp"]
        allc |= mined[k]["all"]
        todo += mined[k]["subs"]
    key = lambda x: (float(x), type(x).__name__)
    return {"cmp": sorted(cmpc, key=key), "all": sorted(allc, key=key)[:80],
            "size": sorted({int(x) for x in cmpc | allc if float(x).is_integer() and 2 <= x <= 20000})[:40]}


def value(r, cs):
    g = r.random()
    cmpc = (cs or {}).get("cmp") or []
    allc = (cs or {}).get("all") or []
    if cmpc and g < .5:
        v = r.choice(cmpc)
    elif allc and g < .6:
        v = r.choice(allc)
    else:
        return r.choice(GENERIC)
    h = r.random()
    if h < .5:
        return v
    if h < .75:
        return v * (1 + r.choice((1e-9, 1e-6, 1e-3, .05, -1e-9, -1e-6, -1e-3, -.05))) if v else r.choice((1e-9, -1e-9, 1e-3))
    return v + r.choice((1, -1, .5))


def skip(f, path):
    if path[0] == "a" and path[1] < len(P.PARAMS[f]):
        p = P.PARAMS[f][path[1]]
    elif path[0] == "k":
        p = next((q for q in P.PARAMS[f] if q[0] == path[1]), (None, None, None))
    else:
        return False
    return p[1] == "opt" or (f == "EM.Berryman_DEM" and p[0] == "phi")


def spice_arr(r, v, cs):
    """Degenerate or boundary contents of an array."""
    x = value(r, cs)
    k = r.choice(("one", "one", "one", "all", "straddle", "int", "nan", "const", "empty", "ints", "mul"))
    if v.get("lay") == "0d":
        v["ed"] = [[0, x]]
        return
    n = max(1, v.get("n", 1))
    v.pop("ed", None)
    if k == "one":
        v["ed"] = [[r.choice((0, n - 1, r.randrange(n))), x]]
        if r.random() < .3:
            v["ed"].append([r.randrange(n), value(r, cs)])
    elif k == "all" and v["g"][0] in ("lin", "rng"):
        v["g"] = ["lin", x, x]
    elif k == "const" and v["g"][0] in ("lin", "rng"):
        m = .5 * (v["g"][-1] + v["g"][-2])
        v["g"] = ["lin", m, m]
    elif k == "straddle" and v["g"][0] in ("lin", "rng") and math.isfinite(x):
        v["g"] = ["lin", x * .8 - .01, x * 1.2 + .01] if r.random() < .7 else ["lin", v["g"][-2], x]
    elif k == "int" and v["g"][0] in ("lin", "rng"):
        v["dtype"] = r.choice(("int64", "int32"))
    elif k == "ints" and v["g"][0] in ("lin", "rng"):
        v["g"] = ["lin", 0, n - 1]
        v["dtype"] = r.choice(("int64", "float64"))
    elif k == "nan":
        v["ed"] = [[r.randrange(n), "nan"]]
    elif k == "empty" and v["g"][0] in ("lin", "rng") and "shape" not in v:
        v["n"] = 0
    elif k == "mul":
        v["tr"] = v.get("tr", []) + [["mul", r.choice((100, .01, 1000, .001, -1))]]
    else:
        v["ed"] = [[r.randrange(n), x]]


def resize(call, new):
    new = min(new, P.MAXLEN.get(call["f"], 20000))
    leaves = [p for p, t in P._walk(call) if t == "arr" and p[0] != "obj"]
    ns = [P._get(call, p)["n"] for p in leaves if P._get(call, p)["g"][0] in ("lin", "rng") and "shape" not in P._get(call, p)]
    if not ns:
        return
    old = max(set(ns), key=ns.count)
    for where, keys in ((call["a"], range(len(call["a"]))), (call.get("k", {}), sorted(call.get("k", {})))):
        for k in keys:                   # a list of the same length grows into an array
            v = where[k]
            if isinstance(v, dict) and v.get("t") == "list" and len(v["v"]) == old and old >= 2 and \
                    all(isinstance(x, (int, float)) and math.isfinite(x) for x in v["v"]):
                where[k] = {"t": "arr", "g": ["rng", int(abs(v["v"][0]) * 1e6) % (1 << 30), min(v["v"]), max(v["v"])], "n": new}
    leaves = [p for p, t in P._walk(call) if t == "arr" and p[0] != "obj"]
    for p in leaves:
        v = P._get(call, p)
        if abs(v["n"] - old) <= 1 and min(old, v["n"]) >= 2 and v["g"][0] in ("lin", "rng") and "shape" not in v and v.get("lay") != "0d":
            v["n"] = max(0, new + v["n"] - old)
        elif v["n"] == old and v["g"][0] in ("lin", "rng") and "shape" not in v and v.get("lay") != "0d":
            v["n"] = new


def relog(call, new):
    """Logs of another length in the object (and in the arguments that go with them)."""
    old = P._objlen(call["obj"])
    new = max(0, min(new, 200))
    for v in call["obj"].values():
        a = v["a"] if isinstance(v, dict) and v.get("t") == "ser" else v
        if isinstance(a, dict) and a.get("t") == "arr" and a["n"] == old and a["g"][0] in ("lin", "rng"):
            a["n"] = new
            a.pop("ed", None)
    for v in call["a"]:
        if isinstance(v, dict) and v.get("t") == "arr" and v.get("n") == old and v["g"][0] in ("lin", "rng") and "shape" not in v:
            v["n"] = new
            v.pop("ed", None)


def spice(r, call, cs):
    """A copy of the call with one or two special values."""
    c = P._copy(call)
    f = c["f"]
    leaves = [(p, t) for p, t in P._walk(c) if not skip(f, p)]
    if not leaves:
        return c
    if f not in P.PLOTS and not c.get("obj") and (cs or {}).get("size") and r.random() < .12 and f not in P.SOLVERS:
        resize(c, max(0, r.choice(cs["size"]) + r.choice((-1, 0, 0, 1))))
        if r.random() < .6:
            return c
        leaves = [(p, t) for p, t in P._walk(c) if not skip(f, p)]
    if c.get("obj") and r.random() < .06:
        big = [x for x in (cs or {}).get("size") or () if x <= 190]
        relog(c, max(1, r.choice(big) + r.choice((0, 0, 1, 9))) if big and r.random() < .7 else r.choice((1, 2, 70, 110)))
        leaves = [(p, t) for p, t in P._walk(c) if not skip(f, p)]
        if r.random() < .5:
            return c
    for _ in range(r.choice((1, 1, 1, 2))):
        p, t = r.choice(leaves)
        if p[0] == "obj":
            spice_log(r, c["obj"], p[1], cs)
            continue
        v = P._get(c, p)
        if t == "arr":
            if isinstance(v, dict) and v.get("t") == "arr":
                own = [P._get(c, z) for z, tt in leaves if tt == "num" and z[0] != "obj"]
                own = [x for x in own if isinstance(x, (int, float)) and not isinstance(x, bool)]
                spice_arr(r, v, {"cmp": own, "all": []} if own and r.random() < .2 else cs)
        elif r.random() < .15:
            q = [P._get(c, z) for z, tt in leaves if tt == "num" and z != p and z[0] != "obj"]
            if q:
                P._set(c, p, r.choice(q))
        else:
            P._set(c, p, value(r, cs))
    return c


def spice_log(r, logs, name, cs=None):
    """Unusual but plausible contents of one well log."""
    v = logs[name]
    if v is None:
        return
    a = v["a"] if v["t"] == "ser" else v
    if not isinstance(a, dict) or a.get("t") != "arr":
        return
    k = r.choice(("percent", "percent", "km", "nan", "zero", "int", "one", "const", "neg", "list", "any"))
    n = a["n"]
    if k == "percent":
        a["tr"] = a.get("tr", []) + [["mul", 100.0]]
    elif k == "km":
        a["tr"] = a.get("tr", []) + [["mul", .001]]
    elif k == "nan":
        a["ed"] = [[r.randrange(n), "nan"]]
    elif k == "zero":
        a["ed"] = [[r.randrange(n), 0.0]]
    elif k == "one":
        a["ed"] = [[r.randrange(n), r.choice((1.0, 1.02, 1.5, 40.0))]]
    elif k == "neg":
        a["ed"] = [[r.randrange(n), r.choice((-.01, -999.25, -9999.0))]]
    elif k == "int" and name in ("Vp", "Vs"):
        a["dtype"] = "int64"
    elif k == "const":
        a["g"] = ["lin", a["g"][-1], a["g"][-1]]
    elif k == "list" and v["t"] == "arr" and "tr" not in a and "ed" not in a:
        from . import values
        logs[name] = {"t": "list", "v": [float(x) for x in values.base_values(a)]}
    else:
        a["ed"] = [[r.randrange(n), value(r, cs)]]


def spice_obj(r, logs, cs=None):
    for _ in range(r.choice((1, 1, 2))):
        spice_log(r, logs, r.choice(sorted(k for k in logs)), cs)
    if r.random() < .12:
        k = r.choice(("Vsh", "Vs"))
        logs.pop(k, None)
    return logs
