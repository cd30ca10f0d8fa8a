"""C07: whole interpreters started with other hash seeds, clocks, environments, hosts and working directories.

The package is imported inside the simulated surroundings, so decisions taken at import time are covered."""
import json
import os
import pickle
import random
import subprocess
import sys
import time as _t

from . import engine as E
from . import gen as G
from . import outcome as O
from . import pool as P
from . import sched as S
from . import spice as SP
from . import user as US


def boot_adverse(base, cfg):
    E.prepare_env(base)
    sys.path.insert(0, E.REPO)
    S.PKG = os.path.realpath(E.REPO) + "/rockphypy/"
    E.third_party()
    from . import world
    world.install()
    world.W.reset(cfg, E.SCRATCH)
    from .runner import apply_world
    apply_world(cfg)
    US.apply_process(cfg.get("user") or {}, E.SCRATCH)
    sc = S.Sched()
    err = []

    def body(t):
        US.apply_thread(cfg.get("user") or {})
        t.begin("import", [], 1 << 60, 1 << 60)
        try:
            E.import_sut()
        except BaseException as e:
            err.append("%s: %s" % (O.exc_name(e), str(e)[:200]))
        t.end()
    sc.run_main(body)
    if err:
        return err[0]
    E.instrument()
    return dict(world.W.reads)


def worker(job, out, base):
    d = json.load(open(job))
    reads = boot_adverse(base, d["cfg"])
    res = []
    if isinstance(reads, str):
        with open(out, "wb") as fh:
            pickle.dump({"reads": {}, "res": [("cannot import", reads)] * len(d["calls"]), "hash": 0}, fh)
        return
    for c in d["calls"]:
        try:
            r = E.reference(c, {"world": dict(d["cfg"], cwd=None, environ=None)})
            res.append(r.get("out", ("stuck", r.get("stuck"))))
        except E.Died as e:
            res.append(("died", e.status + e.note))
    with open(out, "wb") as fh:
        pickle.dump({"reads": reads, "res": res, "hash": hash("rockphypy")}, fh)


def launch(i, spec, calls, base):
    job, out = "%s/fresh%d.json" % (base, i), "%s/fresh%d.out" % (base, i)
    sub = "%s/fresh%d" % (base, i)
    os.makedirs(sub, exist_ok=True)
    with open(job, "w") as fh:
        json.dump({"cfg": spec["cfg"], "calls": calls}, fh)
    env = dict(os.environ, PYTHONHASHSEED=str(spec["hashseed"]), PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env.update(spec["env"])
    at = place_of(base, spec)
    if at:
        env["VERIF_REPO"] = at
    p = subprocess.Popen([sys.executable, "-m", "sim.fresh", job, out, sub], env=env, cwd="/", stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE)
    return p, out


def collect(p, out):
    err = p.communicate(timeout=600)[1]
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("fresh interpreter failed: %s" % err.decode()[-2000:])
    return pickle.load(open(out, "rb"))


FORMS = ("O", "OO", "zip", "pyc", "pyc+OO", "dev", "zip+OO", "copy")


def build_forms(base):
    """The package as an archive, as byte code without sources, and as a read-only copy elsewhere."""
    import compileall
    import shutil
    import zipfile
    src = os.path.join(E.REPO, "rockphypy")
    skip = shutil.ignore_patterns("__pycache__", "*.pyc")
    for form in ("copy", "pyc", "pyc+OO"):
        d = "%s/form-%s" % (base, form)
        shutil.copytree(src, d + "/rockphypy", ignore=skip)
        if form != "copy":
            compileall.compile_dir(d, quiet=2, legacy=True, optimize=2 if form == "pyc+OO" else 0)
            for root, ds, fs in os.walk(d):
                for f in fs:
                    if f.endswith(".py"):
                        os.remove(os.path.join(root, f))
    for form in ("zip", "zip+OO"):
        with zipfile.ZipFile("%s/form-%s" % (base, form), "w") as z:
            for root, ds, fs in os.walk("%s/form-copy" % base):
                for f in sorted(fs):
                    p = os.path.join(root, f)
                    z.write(p, os.path.relpath(p, "%s/form-copy" % base))


def plan_form(seed, i, base):
    r = random.Random("%s/form/%d" % (seed, i))
    form = FORMS[i % len(FORMS)]
    env = {}
    if "OO" in form:
        env["PYTHONOPTIMIZE"] = "2"
    elif form == "O":
        env["PYTHONOPTIMIZE"] = "1"
    elif form == "dev":
        env["PYTHONDEVMODE"] = "1"
    env["VERIF_FORM"] = form
    return {"hashseed": r.randrange(1 << 31), "cfg": {}, "env": env}


def place_of(base, s):
    """Folder or archive the interpreter imports the package from."""
    f = s["env"].get("VERIF_FORM")
    if f in (None, "O", "OO", "dev"):
        return None
    p = "%s/form-%s" % (base, f)
    if not os.path.exists(p):
        build_forms(base)
    return p


def plan(seed, i):
    r = random.Random("%s/fresh/%d" % (seed, i))
    cfg = G.adversary(r, False)
    cfg.pop("environ", None)
    if cfg.pop("user", None) is not None:
        cfg["user"] = US.choose(r, strict=False, plots=False)
    return {"hashseed": r.randrange(1, 1 << 31), "cfg": cfg,
            "env": {"MALLOC_PERTURB_": str(r.randrange(0, 256)), "TZ": r.choice(("UTC", "Asia/Tokyo", "America/New_York")), "LANG": r.choice(("C", "C.UTF-8", "POSIX")),
                    "COLUMNS": str(r.choice((40, 200))), "USER": r.choice(("root", "alice")), "DEBUG": r.choice(("0", "1"))}}


def calls_for(seed, tier, info):
    r = random.Random("%s/freshcalls" % seed)
    out = []
    for f in P.NAMES:
        for k in range(2 if tier == "quick" else 4):
            c = P.gen_call(r, f)
            out.append(SP.spice(r, c, info.get(f, {}).get("consts")) if k % 2 else c)
        known = info.get(f, {}).get("corpus") or []      # calls that reach rare branches of changed code
        out += [k[0] for k in known[-(6 if tier == "quick" else 20):] if k[2]]
    return out


def search(prop, seed, tier, base, info):
    from . import driver as D
    n = 8 if tier == "quick" else 48 if prop == "C07" else 24
    calls = calls_for(seed, tier, info)
    stats = {"fresh_interpreters": 0, "fresh_hash_seeds": 0, "fresh_calls_compared": 0, "fresh_import_reads": {}}
    refs = [None] * len(calls)

    def work(i, emit):
        E.enter_scratch("%s/f%d" % (base, i))
        for j in range(i, len(calls), D.NCPU):
            x = E.reference(calls[j])
            emit((j, x.get("out", ("stuck", x.get("stuck")))))
    for i, m in D.pool_run(D.NCPU, work):
        if m[0] == "crash":
            raise D.HarnessError(m[1])
        if isinstance(m[0], int):
            refs[m[0]] = m[1]
    found = []
    todo = list(range(n))
    while todo:
        batch, todo = todo[:D.NCPU], todo[D.NCPU:]
        ps = [(i, plan(seed, i) if prop == "C07" else plan_form(seed, i, base)) for i in batch]
        hs = [(i, s, launch(i, s, calls, base)) for i, s in ps]
        for i, s, (p, out) in hs:
            d = collect(p, out)
            stats["fresh_interpreters"] += 1
            stats["fresh_hash_seeds"] += 1
            for k, v in d["reads"].items():
                stats["fresh_import_reads"][k] = stats["fresh_import_reads"].get(k, 0) + v
            for c, a, b in zip(calls, d["res"], refs):
                stats["fresh_calls_compared"] += 1
                if not O.same(a, b):
                    found.append((10 ** 6 + i, {"prop": prop, "id": ["fresh", i], "f": c["f"], "fresh": s, "call": c, "phases": []},
                                  [{"kind": "result", "op": "fresh", "f": c["f"], "phase": 0,
                                    "detail": "in an interpreter started %s: %s, here: %s" % (
                                        "as " + s["env"]["VERIF_FORM"] if prop == "C17" else "in other surroundings", O.brief(a), O.brief(b))}]))
                    break
        if found:
            break
    return stats, found


def replay(d, base):
    s = d["spec"]
    p, out = launch(0, s["fresh"], [s["call"]], base)
    a = collect(p, out)["res"][0]
    x = E.reference(s["call"])
    b = x.get("out", ("stuck", x.get("stuck")))
    bad = not O.same(a, b)
    return bad, True, [dict(d["violation"])] if bad else []


if __name__ == "__main__":
    worker(*sys.argv[1:4])
    os._exit(0)
