"""Evidence files."""
import json
import os
import time as _t

from . import pool as P

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("A case is one simulated run: operations on the public models, arguments, thread schedule, faults and surroundings drawn "
        "from (seed, property, group, run). Non-trivial: at least one context switch, injected fault or adversarial surrounding "
        "took effect, or more than one call was made; distinct: by model, full event log (switches, blocks, faults, kills with "
        "their steps) and digest of all outcomes.")


def write(prop, tier, seed, st, info, t_boot, t0, viol, extra):
    wall = _t.monotonic() - t0
    cov = {
        "evaluations": st.runs, "distinct_nontrivial": len(st.nontrivial), "rule": RULE,
        "samples": [{"run": list(i), "outcome_digest": d} for i, d in sorted(st.digests)[:3]],
        "runs_per_hour": int(st.runs / max(wall, 1e-9) * 3600), "groups": st.groups,
        "reference_executions": st.refs, "library_calls_checked": st.ops,
        "simulated_seconds": round(st.vclock, 6), "simulated_instructions": st.steps,
        "simulated_time_rule": "one instruction of library code is 1 microsecond; sleeps and time-outs advance the clock",
        "context_switches": st.switches, "forced_fairness_switches": st.forced, "runs_with_several_threads": st.multi,
        "distinct_interleavings": len(st.il),
        "interleaving_measure": "distinct event logs: sequence of (thread, operation, step, target) switches, blocks, faults, kills",
        "inflight_observations": st.obs,
        "faults_injected": st.faults, "surroundings_varied_runs": st.world, "schedule_styles": st.styles,
        "surroundings_consulted_by_the_library": st.reads,
        "models_covered": len(st.fn), "models_total": len(P.NAMES),
        "models_keeping_state_or_consulting_surroundings": sorted(n for n, d in info.items() if d.get("score", 0) >= 3),
        "code_objects_reached": len(set().union(*[d["codes"] for d in info.values()]) if info else set()),
        "calls_that_never_end_alone": st.stuck,
        "components_real": ["rockphypy (all modules, real byte code)", "numpy", "scipy", "pandas", "matplotlib (Agg)", "kde_diffusion"],
        "components_simulated": ["thread scheduler", "locks/conditions/queues/thread start and join", "clocks and sleep",
                                  "entropy and random seeding", "environment reads", "host properties",
                                  "file system (overlay, errors, kills)"],
        "notes": st.notes[:5], "harness_errors": len(st.harness), "boot_s": round(t_boot, 2),
    }
    cov.update(extra)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": [
             "switches and faults happen at byte-code boundaries of rockphypy code and where it blocks, not inside numpy, scipy, "
             "pandas or matplotlib",
             "the reference is the same call, made first in a fresh process image of the same tree",
             "floating-point equality within relative 1e-10"],
         "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    if viol:
        d["coverage"]["violation"] = {"replay": viol["path"], "detail": viol["v"], "replayed": viol["replayed"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".t", "w") as fh:
        json.dump(d, fh, indent=1, default=str)
    os.replace(p + ".t", p)
