import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if state: a["state"]=[dict(zip(("name","meaning","where"),s)) for s in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
ALL=["rockphypy/AVO.py","rockphypy/Anisotropy.py","rockphypy/BW.py","rockphypy/EM.py","rockphypy/Emp.py","rockphypy/Fluid.py","rockphypy/GM.py","rockphypy/Perm.py","rockphypy/QI.py","rockphypy/utils.py"]
SEQ="The existing tests call each model once, from one thread, with one argument set, in a fresh process; "
p("C01","Concurrent callers get the answer they would get alone",
 "When any number of threads call any of the models at the same time, with private or shared (unmodified) arguments, every call returns the same values, or raises the same kind of error, as that same call made alone in a fresh interpreter.",
 ["schedules","inputs"],"every interleaving, at bytecode granularity inside the package, of calls by 2 to 4 caller threads to any public model",
 SEQ+"no test has two threads, so no interleaving is ever run.",ALL,
 ["all models are static methods that compute in locals and keep no module, class or function-level mutable state"])
p("C02","A call never writes to the data its caller passed in",
 "The arrays, lists, tables and matrices handed to any model keep their contents, shape, type and flags at every instant during the call as seen by other threads, and afterwards, whether the call returns, raises or is interrupted. A read-only array is accepted wherever a writable one is and gives the same answer.",
 ["inputs","schedules","fault_sequences"],"every public model, every argument form (scalars, lists, arrays of any layout or dtype, series), every instant of the call, every interruption point",
 SEQ+"none compares its inputs with a copy afterwards, still less in the middle of a call or after a failure.",ALL,
 ["models rebind names instead of assigning in place; in-place masking is applied only to freshly computed arrays","aspect ratios equal to one are patched in a private copy"],
 [("alpha_","working copy of the aspect ratios in which 1 is replaced by 0.999","rockphypy/EM.py PQ_vectorize"),("vp/vs masks","NaN masking of model velocities outside their validity range","rockphypy/QI.py screening, cst_vels")])
p("C03","A call's answer never depends on the calls made before it",
 "After any history of earlier calls (successful, failing, repeated, with nearly identical arguments, or with the same argument objects whose contents the caller has since changed), a call returns the same values or raises the same kind of error as it would as the first call of a fresh interpreter.",
 ["histories","inputs"],"all sequences of calls over the whole public API, short and long (hundreds of calls), including caller-side updates of argument objects between calls",
 SEQ+"no test makes a sequence of calls whose members could influence each other.",ALL,
 ["no memoisation, no default mutable arguments, no module-level scratch storage"])
p("C04","Returned arrays belong to the caller alone",
 "Arrays returned by a call share no storage with the caller's arguments, with one another across calls, or with anything the library keeps: later calls never change an earlier result, and a caller that overwrites a result changes neither its own inputs, nor any other result, nor the answer of any later call.",
 ["histories","schedules","inputs"],"all histories and interleavings of calls, verifications and overwrites of returned arrays by up to 4 callers",
 SEQ+"none keeps a result across a second call or overwrites one.",ALL,
 ["results are freshly allocated arrays; an output equal to an input (shear modulus under Gassmann) is returned as a copy"],
 [("G_sat","saturated shear modulus, equal to the dry one","rockphypy/Fluid.py Gassmann")])
p("C05","An interrupted or failing call fails cleanly and can be retried",
 "If a call is interrupted (cancelled, or out of memory) at any point inside it, it raises, or returns the same answer as an undisturbed call, and never returns different data. Every later call, including a retry of the interrupted one, in the same or another thread, then behaves exactly as if the interrupted call had never been made.",
 ["fault_sequences","histories","inputs"],"every operation inside every public model as the failure point, failure kinds out-of-memory, keyboard interrupt, asynchronous cancellation and trapped floating-point errors, and all follow-up histories",
 SEQ+"no test makes an operation inside a model fail.",ALL,
 ["no model catches exceptions, and none holds state that would need undoing"])
p("C06","Calls leave process-wide settings as they found them",
 "When no model call is in flight, the process-wide settings a user can observe (floating-point error handling, print options, warning filters, global random streams, plotting defaults, table options, environment variables, working directory, locale, numeric contexts, library functions of the dependencies, files) are what they were before the calls, whether those calls returned, raised, were interrupted or overlapped in any interleaving.",
 ["histories","schedules","fault_sequences"],"all histories, interleavings and interruption points of model and plotting calls",
 SEQ+"none looks at process-wide state before and after.",ALL,
 ["models set no process-wide option; plotting methods create figures but change no defaults"])
p("C07","Answers do not depend on clock, randomness, environment or disk",
 "A model's answer is a function of its arguments alone: whatever the wall clock and timers read or how they jump, whatever the state of the random generators, environment variables, working directory, host properties or string-hash seed, whichever thread calls, whatever the user set up as printing, plotting, table, numerical-error and warning settings (unless they ask for errors), whatever freed memory held before, and whatever files an earlier process (possibly killed in the middle of a call) left behind or failing disks refuse, the same call gives the same answer.",
 ["configurations","fault_sequences","crash_points","inputs"],"every public model under arbitrary clock readings and jumps, random-generator states, environment contents, hash seeds, disk failures and kill points of an earlier process",
 SEQ+"they run under one clock, one environment and a fixed hash seed.",ALL,
 ["no model reads time, randomness, the environment or files; solver starting points are computed from the arguments"])
p("C08","A plot method draws on the figure it returns and on no other",
 "Each plotting method of the quantitative-interpretation class returns a figure holding exactly the axes, curves, points, colour bar, labels and limits it holds when made alone, and touches no other open figure, however other callers create, select, draw on or close figures while it runs.",
 ["schedules","histories"],"all interleavings of plotting calls with each other and with user actions on other figures",
 "No test exercises the plotting class at all; sequential tests could not see a drawing land on another caller's current figure.",["rockphypy/QI.py"],
 ["drawing goes through the axes object created by the method, not through the process-wide current figure"],
 [("current figure","process-wide selection used by pyplot drawing functions","rockphypy/QI.py screening_plot, kde_plot, cement_diag_plot, plot_rpt")])
p("C09","A QI object is a read-only view of its logs, shared safely",
 "Methods of a quantitative-interpretation object never change the logs it holds, and each call's outcome is determined by the logs the object holds at that moment and the call's arguments: not by earlier or concurrent calls on the same or another object, failed calls, or the object having been copied or restored by pickling in another process. Replacing or updating a log is honoured by the next call, and with ordinary logs every method gives an answer.",
 ["histories","schedules","fault_sequences","crash_points"],"all histories and interleavings of method calls, log replacements, in-place log updates, copies, pickling restarts and interrupted calls over several objects",
 "No test creates such an object.",["rockphypy/QI.py"],
 ["the constructor only stores references; methods keep all intermediate tables in locals"],
 [("Vp, phi, Vsh, Vs, den, eff_stress, TVD","the logs of the object","rockphypy/QI.py QI.__init__"),("df","per-call table of constant-cement velocities","rockphypy/QI.py estimate_cem")])
p("C10","Iteratively solved estimates survive interleaved and failing evaluations",
 "Estimates found by an iterative solver (self-consistent, differential effective medium, fluid-saturated cracks, contact radius) are the same whatever other solves run between any two of their internal evaluations and use the same number of evaluations as alone. A failure in any evaluation surfaces as an error of that call only, never as an unconverged number, and the next solve is unaffected.",
 ["schedules","fault_sequences","inputs"],"all interleavings of 2 to 4 solves at evaluation boundaries and inside evaluations, with any evaluation failing",
 SEQ+"three solver-based models have one sequential call each.",["rockphypy/EM.py","rockphypy/GM.py"],
 ["solver callbacks receive every parameter as an argument and keep nothing between evaluations"],
 [("args of the solver callbacks","moduli, fractions and aspect ratios of the problem being solved","rockphypy/EM.py Berryman_func, OC_R_funcs, DEM")])
p("C11","Import is order-independent, repeatable and retryable after a failure",
 "Whatever order the package and its submodules are first imported in, however often they are reloaded, and after any number of import attempts that failed or were interrupted at any point, a later import succeeds and offers the complete documented public interface (including a star import), whose models then give the same answers as after a clean import.",
 ["fault_sequences","histories","crash_points"],"all import orders, reload sequences and failure points (each operation of each module body, unreadable source, dependency temporarily unavailable)",
 "The tests import the package once, in one order, without failures.",["rockphypy/__init__.py"]+ALL,
 ["submodules import only what lies below them; module bodies only define names and have no lasting side effect outside the package"])
p("C12","The out-of-range pressure advisory is decided by each call alone",
 "Every water, brine or brine-mixture property call with any pressure above 100 MPa issues the inaccurate-estimate warning, and no call with all pressures at or below 100 MPa does, whatever calls were made before, are running concurrently or were interrupted; if the user turns warnings into errors such a call raises and leaves no other trace.",
 ["histories","schedules","inputs","fault_sequences"],"all histories and interleavings of fluid-property calls with in-range and out-of-range pressures, scalar and array, under always/error warning filters",
 SEQ+"none uses a pressure above 100 MPa or looks at warnings.",["rockphypy/BW.py"],
 ["the check is made on the call's own pressure argument on each call"])
p("C13","Every call ends, even beside stalled or aborted callers",
 "Each call returns or raises within a bounded number of its own steps: no interleaving of callers deadlocks or livelocks, a call abandoned at any point by an error holds nothing that later calls wait for, and a caller stalled between two of its steps delays nobody else's progress beyond its own resumption.",
 ["schedules","fault_sequences","histories"],"all interleavings with stalls and all interruption points, followed by further calls",
 SEQ+"there is no contention, stall or abort in them.",ALL,
 ["models take no locks, wait for nothing and loop a number of times fixed by their arguments"])
p("C14","Re-entrant calls and forked children get the answer they would get alone",
 "A call made while another call of the library is in progress on the same thread (from a signal handler, a finaliser, a warning hook or a trace function, at any instant of the outer call), or in a process forked at any instant of other calls, ends and returns the same values, or raises the same kind of error, as that call made alone in a fresh interpreter; and so does the outer call that was interrupted or forked.",
 ["schedules","histories","crash_points","inputs"],"every instant inside every public model as the point of a nested call (nested up to three deep) or of a fork, with any other call nested, and calls made afterwards",
 SEQ+"no test makes a call from inside another or forks during one.",ALL,
 ["models keep no per-thread or process-wide work areas, busy marks or locks, so nothing of an unfinished call is visible to a nested one"])
p("C15","A finished call keeps nothing of its caller alive",
 "Once a call has returned, raised or been interrupted and its caller has dropped its own references, the argument objects, quantitative-interpretation objects, figures, results and error of the call can be freed, and after any number of calls the objects kept by the library, its open files and its threads have not grown in number in proportion to the calls made.",
 ["histories","fault_sequences","inputs"],"all histories of successful, failing and interrupted calls to every public model and plotting method, short and long (thousands of distinct calls)",
 SEQ+"none drops an argument and looks whether it is freed, or makes enough calls to see growth.",ALL,
 ["no module, class, function or thread keeps references to arguments, results or errors"])
p("C16","Calls handed to worker processes give the answer they would give here",
 "Any model, with its arguments, can be handed to a worker process (forked from this one at any moment, or a new one that imports the package by itself) and its answer or error handed back, as process pools do by pickling, and the answer is the same as that of the call made alone in a fresh interpreter: whatever the worker and the sender did before or are doing meanwhile, and when the task is repeated because a worker died in the middle of it, was interrupted, or its answer was lost, late or delivered twice.",
 ["crash_points","schedules","histories","fault_sequences","inputs"],"all models and plotting methods, all placements of worker starts, deliveries, duplicates, losses, delays and worker deaths at any instant of a task",
 SEQ+"none crosses a process boundary.",ALL,
 ["models are importable by name; answers are plain arrays, numbers, tables and figures; errors are built-in exceptions; nothing is shared between processes"])
p("C17","Where a call is made from does not matter",
 "The same call gives the same answer, or raises the same kind of error, whether it is made from plain code, a coroutine of a running event loop, another context, a generator, a finaliser, an exception handler, a callback of a solver, a traced or profiled program, the body of a module being imported, an exit handler of an ending process, a process without standard streams or working directory, through a subclass or an instance of the model's class, or in an interpreter that runs the package optimised (-O, -OO), in development mode, sourceless or from an archive.",
 ["histories","schedules","inputs","fault_sequences"],"every public model from every such place and nestings of two of them, on any thread, before and after other calls, and interpreters of every such form",
 SEQ+"all of them call from the top of a test function.",ALL,
 ["models look at their arguments only: not at the caller's frame, context, loop, pending error, streams or class"])
# pure-function properties: listed, not decidable by this family
PURE="The tests pin single argument sets to stored numbers; this is a universally quantified statement over inputs."
p("C20","Elastic bounds are ordered",
 "For any mixture of phases with non-negative fractions summing to one, Reuss average <= lower Hashin-Shtrikman <= upper Hashin-Shtrikman <= Voigt average, the Hill average lies between Reuss and Voigt, and each bound reaches the end-member modulus at pure composition.",
 ["inputs"],"all fractions and positive moduli",PURE,["rockphypy/EM.py"],["closed forms in VRH and HS"])
p("C21","Fluid substitution is consistent and invertible",
 "Saturating a dry frame and substituting fluids agree: substituting fluid A by B then B by A restores the rock, substitution from A to B equals saturating the same frame directly with B, the isotropic and anisotropic formulations agree on isotropic rock, and shear modulus is unchanged.",
 ["inputs"],"all physical frames, minerals, fluids and porosities",PURE,["rockphypy/Fluid.py"],["Gassmann, Gassmann_sub, Gassmann_vels, Brown_Korringa_*"])
p("C22","Dry-frame models honour their end members",
 "Granular, cement and inclusion models equal the mineral moduli at zero porosity (or zero crack density) and their high-porosity end member at critical porosity, decrease with porosity in between, and the soft model never exceeds the stiff model.",
 ["inputs"],"all physical parameters",PURE,["rockphypy/GM.py","rockphypy/EM.py"],["softsand, stiffsand, constantcement, MUHS, pcm, vpcm, cripor, SC, Berryman_*"])
p("C23","Stiffness matrices are symmetric and keep their symmetry class",
 "Every 6x6 matrix built or returned is symmetric with the index relations of its class, inverse compliance and stiffness agree, rotation by a full turn is the identity and rotations preserve invariants.",
 ["inputs"],"all stiffnesses and angles",PURE,["rockphypy/utils.py","rockphypy/Anisotropy.py","rockphypy/EM.py"],["write_*_matrix, Bond_trans, hudson*, Backus"])
p("C24","Reflectivities agree at normal incidence and vanish without contrast",
 "All reflectivity formulas give the impedance-contrast value at normal incidence, zero across identical half-spaces, and approach the exact solution for weak contrasts and small angles.",
 ["inputs"],"all layer pairs and angles",PURE,["rockphypy/AVO.py"],["Aki_Richards, zoeppritz, AVO_abe, AVO_HTI, AVO_ortho, EI_ref"])
p("C25","Array evaluation equals element-by-element evaluation",
 "Evaluating a model on arrays gives, element by element, what evaluating it on the scalars gives.",
 ["inputs"],"all broadcastable arguments of all vectorised models",PURE,ALL,["numpy broadcasting"])
p("C26","Velocity, modulus and density conversions round-trip",
 "Converting moduli and density to velocities and back restores the moduli, and Poisson ratio and Lame constant are consistent with them in the documented units.",
 ["inputs"],"all positive moduli and densities",PURE,["rockphypy/utils.py"],["V, M_from_V, poi, lame, v_to_c_VTI"])
p("C27","Fluid properties are physical over the documented range",
 "Over the documented temperature, pressure and salinity range densities and bulk moduli are positive, brine at zero salinity equals water, mixtures equal their end members at saturations zero and one and lie between them.",
 ["inputs"],"all in-range temperatures, pressures, salinities and saturations",PURE,["rockphypy/BW.py","rockphypy/Fluid.py"],["Batzle-Wang regressions, Wood and Brie mixing"])
p("C28","Cement estimates are bounded, monotone and exact on model lines",
 "The cement estimate of a sample lies between zero and the largest seed, does not decrease with velocity at fixed porosity, and equals the seed for a sample lying on that seed's constant-cement line.",
 ["inputs"],"all logs and seeds",PURE,["rockphypy/QI.py"],["interpolation between the two nearest constant-cement velocities"])
p("C29","Permeability and trend models are positive and monotone in porosity or depth",
 "Permeability estimates are non-negative, increase with porosity and scale with the square of grain size; depth trends are continuous and return one value per input depth in input order.",
 ["inputs"],"all porosities, sizes and depths",PURE,["rockphypy/Perm.py","rockphypy/Emp.py"],["closed forms"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
