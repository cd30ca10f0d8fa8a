"""Coverage-guided search for calls that reach rare branches of changed code.

A defect that needs two or three conditions at once (a scheme, a size and a special value) is met by chance far too
seldom.  For models that run code unlike the calibrated tree's (focus.py), lone calls are mutated and those that take a
branch not taken before are kept; the generators then start families of calls from them.  Everything is a function of
(seed, tree under test).  Guidance only: nothing here judges, and an unchanged tree has no such code."""
import random

from . import engine as E
from . import pool as P
from . import spice as SP

STEPS = 4_000_000


def mutate(r, c, f, cs):
    g = r.random()
    c = P._copy(c)
    if g < .40:
        return SP.spice(r, c, cs)
    if g < .55 and (cs or {}).get("size") and not c.get("obj") and f not in P.PLOTS and f not in P.SOLVERS:
        SP.resize(c, max(0, r.choice(cs["size"]) + r.choice((-1, 0, 1, 1, 5))))
        return SP.spice(r, c, cs) if r.random() < .3 else c
    if g < .55 and c.get("obj") and (cs or {}).get("size"):
        SP.relog(c, max(1, r.choice(cs["size"]) + r.choice((-1, 0, 1, 1, 9))))
        return SP.spice(r, c, cs) if r.random() < .3 else c
    if g < .70:
        return P.variant(r, c, "opt") if r.random() < .5 else P.variant(r, c)
    if g < .80 and c.get("obj"):
        SP.spice_obj(r, c["obj"], cs)
        return c
    return P.variant(r, SP.spice(r, c, cs))


def explore(seed, f, d, budget):
    """-> [[call, number of new branches, rank]] in order of discovery; updates what the probe knows in `d`"""
    r = random.Random("%s/corpus/%s" % (seed, f))
    cs = d["consts"]
    cov = set()
    keep = []
    steps = n = 0
    combos = P.option_combos(f)
    freq = {}
    while n < budget and steps < STEPS:
        if n < min(12, budget // 3) or not keep:
            c = P.gen_call(r, f, opts=combos[n % len(combos)] if len(combos) > 1 else None)
        elif r.random() < .12:
            c = mutate(r, P.gen_call(r, f, opts=r.choice(combos) if len(combos) > 1 else None), f, cs)
        else:
            w = [1 + 3 * (i >= len(keep) - 3) + 4 * (k["rare"]) for i, k in enumerate(keep)]
            c = mutate(r, r.choices(keep, w)[0]["c"], f, cs)
        n += 1
        x = E.reference(c, {"probe": 1, "cov": 1})
        d["refs"] += 1
        if "stuck" in x:
            continue
        steps += x["steps"]
        d["codes"] |= set(x["codes"])
        if x["hot"]:
            d["score"] = max(d["score"], 1)
        st = x["stateful"] or any(x["reads"].values()) or x["writes"]
        if st:
            d["score"] = max(d["score"], 3)
        new = set(x["cov"]) - cov
        cov |= new
        for e in x["cov"]:
            freq[e] = freq.get(e, 0) + 1
        if new or (st and len(keep) < 40 and r.random() < .1):
            keep.append({"c": c, "cov": set(x["cov"]), "rare": 0, "ok": x["out"][0] == "ret", "n": n})
        for k in keep:
            k["rare"] = int(min([freq[e] for e in k["cov"]] or [n]) <= max(2, n // 12))
    out = [[k["c"], k["rare"], k["ok"]] for k in keep]
    return out[-40:], len(cov), n
