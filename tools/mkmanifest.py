import json
NOTE = ("Seeded search, not exhaustive: every run is an exactly repeatable execution of the real library under the simulator; a pass says "
        "the property held on all runs counted in the evidence file. Trusted: the simulator (sim/), CPython, numpy, scipy, pandas, "
        "matplotlib; switches and faults fall between byte codes of library code, not inside the dependencies. ")
L = {
 "C01": "Concurrent calls under seeded schedules are compared with the same calls made alone in fresh process images.",
 "C02": "Caller data is fingerprinted before a call and compared at every context switch, after stores and calls inside the library, at injected faults and at the end; read-only twins must give the writable answer.",
 "C03": "Histories (repeats, near-duplicates, in-place updates of reused arguments, failing calls, hundreds of fillers) are compared call by call with fresh process images.",
 "C04": "Storage overlap is measured for every result; callers overwrite results at random points and all other results, inputs and later answers are compared.",
 "C05": "MemoryError, KeyboardInterrupt and asynchronous cancellation are raised at chosen instructions inside calls; the interrupted call and all later calls are compared with fresh process images.",
 "C06": "Process-wide and per-thread settings are compared before and after calls at every quiescent point, with faults and interleavings; files are looked for in the simulated disk.",
 "C07": "Clock, entropy, environment, host, working directory, hash seed, leftover files, disk errors and process kills are chosen by the simulator; answers are compared with the reference surroundings.",
 "C08": "Signatures of returned and foreign figures are compared while simulated users create, select, draw on and close figures between any two steps of a plot method.",
 "C09": "Histories on QI objects (log updates, copies, pickles to another process, faults, threads) are compared with a fresh object holding the same logs.",
 "C10": "Solves interleaved at and inside evaluations, with failing evaluations; answers and evaluation counts are compared with lone solves.",
 "C11": "Import histories with faults in module bodies, source reads and dependency imports, then the documented interface and sample answers are compared with a clean import.",
 "C12": "Histories, schedules and faults over the fluid-property calls; an independent predicate (any pressure above 100) decides whether a warning must have been issued.",
 "C13": "A bounded number of steps per call once faults stop; deadlock, livelock and budget overruns are detected by the scheduler.",
 "C14": "Calls are nested into other calls on the same thread, and processes forked, at chosen instructions; nested, outer, child and later calls are compared with fresh process images. One known finding (nested EM.Berryman_DEM) is listed.",
 "C16": "A simulated pool of worker processes: calls and answers travel as pickles over a transport that loses, delays and duplicates them; workers die at chosen instructions and tasks are repeated; answers are compared with fresh process images.",
 "C17": "Calls are made from inside event loops, contexts, generators, finalisers, handlers, solver callbacks, imports, exit handlers and stripped processes, mixed with plain calls on several threads, and in interpreters of eight forms; answers are compared with fresh process images.",
 "C15": "Weak references to arguments, results and errors must be dead after finished, failing and interrupted calls; objects kept by the package, open files and threads are counted over thousands of calls.",
}
R = {
 "C20": "pure function of its arguments: holds or fails for an input whatever the schedule, clock, I/O or fault, so simulation has nothing to explore",
}
PURE = "A pure relation between arguments and returned values: no scheduling, time, I/O, randomness or fault can influence it (that independence is itself C01, C03, C05 and C07), so a simulator with fault injection decides nothing here that input generation alone would not; it needs another technique (algebra, property-based testing, proof)."
N = {
 "C20": "Ordering of elastic bounds over fractions and moduli. ",
 "C21": "Algebraic consistency of fluid substitution. ",
 "C22": "Limits and monotonicity of dry-frame formulas. ",
 "C23": "Symmetry of matrices built from the arguments. ",
 "C24": "Limits of reflectivity formulas over layer contrasts and angles. ",
 "C25": "Equality of array and scalar evaluation. ",
 "C26": "Round trips of unit and modulus conversions. ",
 "C27": "Sign and limits of the fluid-property regressions. ",
 "C28": "Bounds and monotonicity of an interpolation. ",
 "C29": "Sign and monotonicity of permeability and depth-trend formulas. ",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "VERIF_TIER=quick bash check.sh " + k, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + k,
                 "technique": "deterministic simulation with fault injection (seeded schedules, faults and surroundings; lone-execution reference)",
                 "level": "exploration", "level_note": NOTE + v} for k, v in sorted(L.items())],
     "not_applicable": [{"property": k, "reason": v + PURE} for k, v in sorted(N.items())],
     "notes": "No hooks were added to /repo: the seams are the interpreter's own (sys.monitoring, importlib, threading, time, os). Replay: bash check.sh --replay FILE."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
