"""Entry point: python -m sim.main <PROPERTY> | --replay FILE | --determinism PROPERTY"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time as _t

T0 = _t.monotonic()


def main(argv):
    from . import engine as E
    base = tempfile.mkdtemp(prefix="rpdst-", dir=os.environ.get("VERIF_TMP") or "/tmp")
    parent = os.getpid()
    try:
        if argv[0] == "--replay":
            return do_replay(argv[1], base)
        if argv[0] == "--digests":
            return do_digests(argv[1:], base)
        if argv[0] == "--selftest":
            return do_selftest(base)
        return do_check(argv[0], base, argv[1:])
    finally:
        if os.getpid() == parent:
            os.chdir("/")
            shutil.rmtree(base, ignore_errors=True)


def do_replay(path, base):
    from . import driver as D, engine as E
    path = os.path.abspath(path)
    d = json.load(open(path))
    if d["property"] == "C11":
        from . import importsim
        importsim.boot(base)
    else:
        E.boot(base)
    ok, exact, vs = D.replay(path, base)
    for v in vs[:3]:
        print("  %s %s %s: %s" % (v["kind"], v.get("f"), v.get("op"), v["detail"]))
    print("replay %s: reproduced=%s exact=%s" % (path, "yes" if ok else "no", "yes" if exact else "no"))
    if ok:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


def do_selftest(base):
    """The same runs twice give the same event logs and outcomes."""
    from . import driver as D, engine as E, pool as P
    E.boot(base)
    seed, _ = seed_tier()
    info = D.probe(P.NAMES, seed, base, per=1)
    bad = 0
    for prop in ("C01", "C05"):
        a, b = (D.search(prop, "quick", seed, base, info, 8, 4, _t.monotonic() + 120)[0] for _ in range(2))
        if sorted(a.digests) != sorted(b.digests) or not a.runs or a.harness or b.harness:
            bad += 1
    print("self-test: %s, %d cores, %.1f s" % ("FAILED" if bad else "ok", D.NCPU, _t.monotonic() - T0))
    return 0        # informative here; tools/determinism.sh is the strict version


def seed_tier():
    return int(os.environ.get("VERIF_SEED", "1") or 1), os.environ.get("VERIF_TIER", "quick") or "quick"


def do_digests(argv, base):
    """Print the digest of every run of the first groups of a property (determinism self-test)."""
    from . import driver as D, engine as E, gen as G, pool as P
    prop, n = argv[0], int(argv[1])
    seed, _ = seed_tier()
    if prop == "C11":
        from . import importsim
        importsim.boot(base)
        for line in importsim.digests(seed, n, base):
            print(line)
        return 0
    E.boot(base)
    info = D.probe(P.NAMES, seed, base)
    st, found = D.search(prop, "quick", seed, base, info, n, D.PLAN[prop][2], _t.monotonic() + 600)
    for i, dg in sorted(st.digests):
        print(i, dg)
    return 0


def do_check(prop, base, argv):
    from . import driver as D, engine as E, evidence as EV
    seed, tier = seed_tier()
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop == "C11":
        from . import importsim
        return importsim.check(prop, tier, seed, base, T0)
    from . import gen as G, pool as P
    E.boot(base)
    t_boot = _t.monotonic() - T0
    info = D.probe(P.NAMES, seed, base)
    q, th, runs = D.PLAN[prop]
    groups = q if tier == "quick" else th
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    groups = max(8, int(groups * scale))
    deadline = T0 + D.CAP[tier]
    st, found = D.search(prop, tier, seed, base, info, groups, runs, deadline)
    extra = {}
    if prop in ("C07", "C17") and not found:
        from . import fresh
        extra, ff = fresh.search(prop, seed, tier, base, info)
        found += ff
    if prop == "C09" and not found:
        E.enter_scratch(base + "/answers")
        found += D.never_answers(prop, seed)
    from . import known
    E.enter_scratch(base + "/known")
    known.show(prop)
    # verdict
    if st.harness:
        for h in st.harness[:3]:
            sys.stderr.write("HARNESS-ERROR %s\n" % h)
    viol = None
    if found:
        viol = settle(prop, seed, found, base)
    EV.write(prop, tier, seed, st, info, t_boot, T0, viol, extra)
    if viol:
        print("  seed %d group/run %s, model %s: %s" % (seed, viol["spec"]["id"], viol["v"].get("f"), viol["v"]["detail"][:600]))
        print("  kind %s, minimised with %d trial runs, replay in a fresh process: %s" % (
            viol["v"]["kind"], viol["trials"], viol["replayed"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["path"]))
        return 1
    if st.harness:
        return 2
    if found:
        sys.stderr.write("a violation was seen and could not be reproduced: %s\n" % (found[0][2],))
        return 2
    if st.groups < min(groups, 16):
        sys.stderr.write("only %d of %d groups within the time cap\n" % (st.groups, groups))
        return 2
    print("%s %s seed=%d: held on %d runs (%d groups, %d reference executions, %d distinct interleavings, %d switches, "
          "faults %s), %.1f s" % (prop, tier, seed, st.runs, st.groups, st.refs, len(st.il), st.switches,
                                  json.dumps(st.faults), _t.monotonic() - T0))
    return 0


def settle(prop, seed, found, base):
    """Confirm, minimise, write the replay file and replay it in a fresh process."""
    from . import driver as D, engine as E
    E.enter_scratch(base + "/min")
    best = None
    for gi, spec, vs in found[:4]:
        if "lone" in spec or "fresh" in spec:
            p = D.write_replay(prop, seed, spec, vs[0], "", {})
            ok, ex = D.replay_fresh(p)
            r = {"spec": spec, "v": vs[0], "path": p, "trials": 0,
                 "replayed": "reproduced%s" % (" exactly" if ex else "") if ok else "not reproduced"}
            if ok:
                return r
            best = best or r
            continue
        x = D.Exec()
        kinds = [v["kind"] for v in vs]
        if not D.confirm(x, spec, kinds):
            continue
        kind = kinds[0]
        try:
            mini, n = D.minimise(x, spec, kind)
        except Exception as e:
            sys.stderr.write("minimiser: %r\n" % e)
            mini, n = spec, 0
        for s in (mini, spec):
            rep = x.run(s, 120.0)
            v = [v for v in (D.violations(rep) if rep else []) if v["kind"] == kind]
            if not v:
                continue
            p = D.write_replay(prop, seed, s, v[0], D.digest_run(rep), {"original": spec["id"], "trials": n})
            ok, ex = D.replay_fresh(p)
            r = {"spec": s, "v": v[0], "path": p, "trials": n,
                 "replayed": "reproduced%s" % (" exactly" if ex else "") if ok else "not reproduced"}
            if ok:
                return r
            best = best or r
    return best


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
