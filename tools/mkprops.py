"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ellalgo/"
SPACE = [S + "ell.py", S + "ell_stable.py", S + "ell_calc.py", S + "ell_calc_core.py"]
CP = [S + "cutting_plane.py", S + "ell_config.py", S + "ell_typing.py"]
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=()):
    assert len(title) <= 80, title
    P.append((
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": list(observe) or ["public calls and their return values"],
                "hook_needed": None,
            },
        },
        {
            "property": id,
            "quick_cmd": f"/opt/venv/bin/python run.py {id}",
            "thorough_cmd": f"/opt/venv/bin/python run.py {id} --tier thorough",
            "technique": "runtime monitoring: " + tech,
            "level": "exploration",
            "level_note": note,
        },
    ))


UPD = [("rank-one update of center, shape and scale", S + "ell.py:_update_core, " + S + "ell_stable.py:_update_core"),
       ("cut parameters", S + "ell_calc.py, " + S + "ell_calc_core.py")]
OBS = ["the space's center, reported size and status; its shape recovered from sizes reported by throw-away copies"]

prop("C01", "A cut never discards a point that satisfies it",
     "Whenever a search space accepts a cut, every point of the ellipsoid before the cut that satisfies the cut (both inequalities, when the cut is a parallel pair) lies in the ellipsoid after the cut. "
     "This holds for deep, central and shallow cuts, single cuts and parallel pairs, every update operation, both search-space implementations and every settings combination, after any history of earlier cuts, as long as the ellipsoid is representable in double precision.",
     ["inputs", "histories", "configurations"], "all ellipsoids, gradients, offsets, cut kinds and update histories",
     "tests compare a few fixed cuts of a unit ball with printed numbers; containment is a statement about all points and all histories",
     SPACE, UPD, "online containment monitor (exact support function of the retained region against the observed ellipsoid) over random, boundary-lattice and tracer-point histories",
     "Thousands of observed updates per run, each judged in every direction by the support function; trusts numpy linear algebra; sampled, not proved.", OBS)
prop("C02", "Every accepted cut shrinks the ellipsoid at the guaranteed rate",
     "An accepted cut through or beyond the center reduces the volume of an n-dimensional ellipsoid at least by the factor exp(-1/(2(n+1))). "
     "An accepted cut of any other kind never increases the volume, and a sequence of accepted central cuts therefore drives the volume to zero geometrically.",
     ["inputs", "histories", "configurations"], "all ellipsoids, cuts, dimensions and histories",
     "no test looks at volume; the rate is what every iteration bound of the method rests on",
     SPACE, UPD, "online volume monitor on the observed shape matrix, step by step and over long runs",
     "Log-determinant of the observed shape before and after each update, in double precision; sampled histories.", OBS)
prop("C03", "The new ellipsoid is the smallest one around what is kept",
     "After an accepted cut the ellipsoid is the minimum-volume ellipsoid that contains the part of the previous ellipsoid satisfying the cut (for a pair: the slab between the two planes; for a central cut: the half through the center), whenever that part is smaller than the whole and the planes meet the ellipsoid.",
     ["inputs", "histories", "configurations"], "all ellipsoids, cuts, dimensions and histories",
     "tests pin iteration counts of four problems and a few parameters; a formula can be valid yet loose, or right only for the dimensions sampled",
     SPACE, UPD, "observed center and shape compared with an independently derived minimum-volume model after every update",
     "Model derived from the S-procedure, not from the code; compared to 1e-8 in the predicted metric.", OBS)
prop("C04", "Status and reported size tell the truth about the cut",
     "An update reports 'no solution' exactly when no point of the ellipsoid satisfies the cut, 'no effect' only when the cut cannot shrink the ellipsoid, and success otherwise; unless it reports success, center and shape are unchanged. "
     "The size reported afterwards is the squared half-width along the cut's gradient of the ellipsoid the cut was applied to, and a new space is exactly the ellipsoid that was asked for.",
     ["inputs", "histories", "configurations"], "all ellipsoids, cuts (including those exactly on the decision boundaries), histories",
     "tests check one example per status; the boundaries between the three outcomes are a measure-zero set that examples do not reach",
     SPACE, [("status decisions", S + "ell_calc.py"), ("state changed only on success", S + "ell.py, " + S + "ell_stable.py")],
     "status/size oracle from exact interval geometry, with binary-exact offsets on every decision boundary",
     "Cuts that keep a zero-volume set, and single shallow cuts in the deep-cut operation (refused by assertion), are outside the property.", OBS)
prop("C05", "Both ellipsoid implementations are the same set under the same cuts",
     "The plain and the numerically stable search space, started alike and given the same sequence of cuts, report the same statuses and sizes and have the same center and the same ellipsoid after every step (up to rounding, while well conditioned).",
     ["inputs", "histories", "configurations"], "all cut sequences and settings",
     "tests compare only final iteration counts of a few problems",
     SPACE, UPD, "lock-step differential monitor over mirrored histories, including cut sequences recorded from real solver runs",
     "Comparison stops where double precision can no longer represent the ellipsoid.", OBS)
prop("C06", "Equivalent statements of a cut have the same effect",
     "The result of an update depends on the cut as a set, not on how it is written: scaling gradient and offsets by a positive factor, other number and container types (integers, lists, tuples, arrays), shifting the origin, permuting or scaling coordinates, a pair whose second plane is vacuous versus a single cut, and the deferred-scaling setting all give the corresponding result. "
     "With parallel cuts switched off, a pair acts as its first cut alone.",
     ["inputs", "configurations", "histories"], "all cuts and their equivalent forms, both spaces",
     "each test fixes one form; the law relates two runs",
     SPACE, [("dispatch on the form of the offset", S + "ell_calc.py"), ("deferred scaling", S + "ell.py, " + S + "ell_stable.py")],
     "metamorphic monitor: pairs of runs related by a symmetry, compared through observed center and shape",
     "Symmetries sampled per case; tolerance 1e-8 relative.", OBS)
prop("C07", "The feasibility solver follows its contract on every history",
     "The feasibility solver asks the oracle exactly once per iteration, always at the current center; it applies exactly the cut it was given, as a deep cut, and returns the center as soon as the oracle accepts it, with the number of iterations used. "
     "It returns no point if and only if an update did not succeed, the size fell below the tolerance, or the iteration limit was reached, and it never applies a cut after that; an exception from the oracle or the space passes through unchanged.",
     ["histories", "fault_sequences", "configurations"], "all oracle answers, statuses, sizes, limits and faults",
     "tests run complete problems; they cannot reach chosen status/size/fault sequences",
     CP, [("solver loop", S + "cutting_plane.py:cutting_plane_feas")],
     "trace-specification checker on the recorded oracle/space event log, scripted and real spaces, injected faults",
     "Reference automaton predicts the complete event sequence of each scripted history.", ["calls to oracle and space"])
prop("C08", "A feasible point is found whenever there is room for one",
     "If the feasible set contains a ball of radius r inside the initial ellipsoid of radius R, and the oracle returns valid cuts, the feasibility solver returns a point the oracle accepts within the volume bound of the ellipsoid method, on either search space. "
     "If the feasible set is empty it returns no point, and it never returns a point the oracle has not accepted.",
     ["inputs", "histories", "configurations"], "all convex feasible sets with an inner ball, all valid separation oracles",
     "tests solve a handful of fixed problems",
     SPACE + CP, [("containment plus volume reduction", S + "ell_calc_core.py"), ("solver loop", S + "cutting_plane.py:cutting_plane_feas")],
     "planted-solution monitor: random convex sets with a known inner ball, adversarial oracle orders, online tracking of the ball",
     "Iteration bound 2n(n+1)ln(R/r); runs leaving double-precision range are not judged further.", ["solver result, oracle log"])
prop("C09", "The optimizer keeps the best accepted point and value, on every history",
     "The optimizer passes the oracle the current center and the best value so far, applies improving cuts as central cuts and all others as deep cuts, and returns the center at which the last improvement was reported, the value reported there and the number of iterations. "
     "It stops exactly when an update does not succeed, the size falls below the tolerance, or the limit is reached; without any improvement it returns no point and the initial value; the returned point stays what it was when accepted, even if the space reuses its buffers.",
     ["histories", "fault_sequences", "configurations"], "all oracle answers, statuses, sizes, limits, faults and buffer reuse",
     "tests run complete problems with well-behaved spaces",
     CP, [("solver loop and copy of the best point", S + "cutting_plane.py:cutting_plane_optim")],
     "trace-specification checker on the recorded oracle/space event log, scripted and real spaces, injected faults",
     "Reference automaton predicts the complete event sequence of each scripted history.", ["calls to oracle and space"])
prop("C10", "The optimizer converges to the optimum, and is anytime-correct",
     "On a convex problem with valid cuts the value returned is attained by the returned point, is never better than the true optimum, and after k iterations its gap to the optimum is within the ellipsoid method's bound for k iterations, on both search spaces. "
     "In particular, with a sufficient limit it is optimal to the accuracy the tolerance implies.",
     ["inputs", "histories", "configurations"], "all convex problems of the sampled families, limits and starting ellipsoids",
     "tests compare final numbers of a few problems",
     SPACE + CP, [("central cut on improvement", S + "cutting_plane.py:cutting_plane_optim")],
     "planted-optimum monitor: anytime gap bound checked after every iteration of real runs",
     "Optimum known by construction or from an independent linear program / closed form.", ["solver result, oracle log"])
prop("C11", "The discrete optimizer follows its retry contract on every history",
     "The discrete optimizer keeps the discrete point that came with the last improvement and its value; after a cut without effect it asks for an alternative at the same center, gives up when none is left, and clears the retry after any successful cut. "
     "It stops at once when a cut shows that no solution is left, when the size falls below the tolerance or at the limit, returns the iterations used, and the returned point stays what it was when accepted.",
     ["histories", "fault_sequences", "configurations"], "all oracle answers, statuses, sizes, limits, faults and buffer reuse",
     "the existing discrete tests never go through most status/retry sequences",
     CP, [("solver loop", S + "cutting_plane.py:cutting_plane_optim_q")],
     "trace-specification checker on the recorded oracle/space event log, scripted and real spaces, injected faults",
     "Reference automaton predicts the complete event sequence of each scripted history.", ["calls to oracle and space"])
prop("C12", "Bisection brackets the threshold and stops in time",
     "For a monotone predicate the bisection probes only values inside the current interval, its answer is an upper end known to be acceptable (or the initial one), and the true threshold stays bracketed: on stopping by tolerance the answer is within twice the tolerance above it. "
     "It uses no more probes than halving requires, respects the iteration limit, and works for integer and other numeric types of interval ends.",
     ["inputs", "histories", "fault_sequences"], "all intervals, thresholds, tolerances, limits and numeric types",
     "tests run one threshold", CP, [("bisection loop", S + "cutting_plane.py:bsearch")],
     "probe-log checker against an exact interval model, with faults and non-monotone predicates",
     "Interval arithmetic redone in rationals where the inputs allow it.", ["probes and result"])
prop("C13", "Bisection probes are isolated; only feasible points are kept",
     "Each probe of the parametric adaptor informs the oracle of the parameter first, then runs the feasibility solver on a private copy of the space, so the adaptor's own ellipsoid shape never changes and an infeasible or failing probe leaves its point untouched. "
     "After a feasible probe its point is exactly the one the oracle accepted at that parameter, and the answer to a probe equals that of a direct feasibility run.",
     ["histories", "fault_sequences", "configurations"], "all parameter sequences, outcomes and faults",
     "tests only look at the final answer of one bisection", CP, [("copy of the space per probe", S + "cutting_plane.py:BSearchAdaptor")],
     "differential replay of every probe plus observation of the adaptor's space before and after",
     "Probe results compared with a direct run of the feasibility solver on a copy.", ["adaptor point, observed shape"])
prop("C14", "The factorization decides positive definiteness, lazily and exactly",
     "The factorization accepts a symmetric matrix exactly when it is positive definite, reading no entry of the rows after the one that decides a rejection; on acceptance the square root is upper triangular with positive diagonal and reproduces the matrix. "
     "The semidefinite variant accepts every positive semidefinite matrix and, apart from the recorded finding, rejects indefinite ones; results do not depend on what the manager factored before; a square root of a rejected matrix, or a certificate for an accepted one, is refused.",
     ["inputs", "histories"], "all symmetric matrices and reuse histories",
     "tests factor about ten fixed matrices", [S + "oracles/ldlt_mgr.py"], [("row-wise elimination", S + "oracles/ldlt_mgr.py:factor")],
     "verdicts against rational arithmetic and matrices of known inertia, with recorded entry accesses",
     "Matrices whose pivots are within rounding of zero are judged only when elimination is exact in binary.", ["verdict, square root, entries read"])
prop("C15", "A rejected matrix comes with a valid certificate",
     "After a rejection the certificate vector v and value e satisfy e >= 0 and v'Mv = -e up to rounding, v is non-zero, supported on the leading block that was examined, and the quadratic form evaluator returns v'Nv for any symmetric N restricted to that block; this holds for every reuse of the manager.",
     ["inputs", "histories"], "all non-definite matrices and reuse histories",
     "tests check two certificates", [S + "oracles/ldlt_mgr.py"], [("back substitution", S + "oracles/ldlt_mgr.py:witness, sym_quad")],
     "certificate checker on every rejection, over reuse sequences",
     "Quadratic forms evaluated independently in double or extended precision.", ["certificate vector and value"])
prop("C16", "The matrix-inequality oracles separate exactly",
     "Each linear-matrix-inequality oracle accepts a point exactly when the matrix there is positive definite, and otherwise returns a cut that removes the point and no point satisfying the inequality. "
     "The lazy and the dense variant, and the homogeneous variant on corresponding data, agree in verdict and cut, whatever was asked before.",
     ["inputs", "histories"], "all symmetric pencils, points and query sequences",
     "tests solve two fixed problems",
     [S + "oracles/lmi_oracle.py", S + "oracles/lmi_old_oracle.py", S + "oracles/lmi0_oracle.py", S + "oracles/ldlt_mgr.py"],
     [("certificate turned into a cut", S + "oracles/lmi_oracle.py, lmi_old_oracle.py, lmi0_oracle.py")],
     "verdicts against exact pivots, cuts against feasible points on rays to the boundary, cross-variant agreement",
     "Points within rounding of the boundary are not judged.", ["oracle answers"])
prop("C17", "The filter oracle enforces its whole specification",
     "The low-pass oracle accepts a design exactly when its response meets the pass-band bounds, the stop-band bound and non-negativity at every frequency of its grid (15 points per coefficient), independently of earlier queries. "
     "Otherwise its cut, including the second plane of a parallel pair, removes the design and no design meeting the specification; in optimisation the improved value is the largest stop-band response and the cut removes no better design.",
     ["inputs", "histories"], "all specifications, designs and query sequences",
     "tests run one filter and compare iteration counts; a grid point that is skipped or an edge that is off by one changes no test",
     [S + "oracles/lowpass_oracle.py"], [("round-robin scan of the three bands", S + "oracles/lowpass_oracle.py")],
     "verdicts against the full grid on points violating exactly one chosen constraint; cuts against linear programs over all admissible designs",
     "LP optimum to 3e-6; band edges exactly on grid points not judged.", ["oracle answers"])
prop("C18", "The profit oracles tell the truth about profit, limit and uncertainty",
     "The profit oracle accepts a plan for a profit level exactly when it respects the input limit and earns at least that level; the robust variant does so for the worst case over the whole uncertainty box. "
     "The improved value is the plan's (worst-case) profit, every cut removes a rejected plan, and no cut removes a plan that is feasible and better; earlier queries have no influence, and complete runs reach the optimal profit.",
     ["inputs", "histories"], "all production models, uncertainties, plans and query sequences (cuts: non-negative profit levels; verdicts: every level above minus the cost)",
     "tests run one instance of each", [S + "oracles/profit_oracle.py"], [("alternating constraints, worst-case corner", S + "oracles/profit_oracle.py:ProfitOracle, ProfitRbOracle")],
     "verdicts and values against the production model; cuts against the extreme point of the exact better-plan region",
     "Optimum in closed form (nominal) or by grid refinement (robust).", ["oracle answers, solver results"])
prop("C19", "The discrete profit oracle offers only whole plans at their true profit",
     "Whenever the discrete profit oracle reports an improvement, the plan offered is a pair of positive whole quantities, nearest to the query point, within the limit, and the value is its true profit and at least the level asked for; an improving rounded plan is never missed, and complete discrete runs return such a plan. "
     "It announces a further alternative exactly on the first attempt, and its cuts remove no better plan, apart from the recorded finding.",
     ["inputs", "histories"], "all production models, query points, levels and retry sequences",
     "the existing test runs one instance", [S + "oracles/profit_oracle.py", S + "cutting_plane.py"], [("rounding and re-evaluation", S + "oracles/profit_oracle.py:ProfitQOracle")],
     "plans, profits and cuts against the production model and enumeration of whole plans",
     "Known finding on the offset of cuts at rounded plans is recognised by its exact formula only.", ["oracle answers, solver results"])
prop("C20", "The linear solver returns a solution to tolerance or refuses",
     "For a symmetric positive definite system the conjugate-gradient solver returns a vector whose residual is below the tolerance, or raises an error if the iteration limit does not suffice; it converges within as many iterations as the system has distinct eigenvalues (up to rounding), from any initial guess, and never exceeds the limit. "
     "An initial guess that already solves the system, or a zero right-hand side, is accepted as it is.",
     ["inputs", "configurations"], "all positive definite systems, guesses (any numeric type), tolerances and limits",
     "tests solve three 2x2 systems", [S + "conjugate_gradient.py"], [("conjugate directions", S + "conjugate_gradient.py")],
     "true residual of every answer, and iteration need from an extended-precision reference run",
     "Condition numbers up to about 1e6; iteration counts judged exactly only for small well-conditioned systems.", ["solution or error"])
prop("C21", "Spectral factorization recovers the minimum-phase filter",
     "For a strictly positive autocorrelation the factor returned has exactly that autocorrelation, a positive first coefficient and all zeros inside the unit circle; the inverse operation returns the autocorrelation of any filter, so the two undo each other. "
     "Empty or non-finite input is refused with a value error and a clearly negative spectrum with a runtime error.",
     ["inputs"], "all one-dimensional autocorrelations with zeros away from the unit circle, any length",
     "the test factors one 7-tap filter", [S + "oracles/spectral_fact.py"], [("cepstral factorization", S + "oracles/spectral_fact.py")],
     "round trips of filters with chosen zeros (reflected inside/outside), winding-number test for minimum phase",
     "Accuracy allowance grows as zeros approach the unit circle.", ["factor, autocorrelation, errors"])
prop("C22", "Nothing the caller owns or was handed earlier ever changes",
     "No operation modifies the arrays, lists, tuples or options passed to it, and no center, solution, cut, square root or other value handed out earlier changes because of later operations; a copy of a search space is independent of the original.",
     ["inputs", "histories"], "all components, call sequences and input types (including read-only arrays)",
     "aliasing only shows when an earlier value is inspected after later calls", SPACE + CP + [S + "oracles", S + "conjugate_gradient.py"],
     [("new arrays instead of in-place updates", S + "ell.py, " + S + "ell_stable.py"), ("copies of best points", S + "cutting_plane.py")],
     "ledger of every value exchanged, compared bit by bit after each later call; read-only inputs",
     "Values the caller modifies himself after passing them in are outside the property.", ["all values exchanged"])
prop("C23", "Computations do not influence each other",
     "A computation on its own objects gives the same result when repeated, interleaved call by call with any others, run from inside another one's oracle, or run concurrently in threads; settings and options chosen for one object or call never affect another, and defaults stay as they are.",
     ["schedules", "histories", "configurations"], "all mixes and schedules of computations on separate objects",
     "tests run one computation at a time", SPACE + CP + [S + "oracles", S + "conjugate_gradient.py"],
     [("all state per object", "instance attributes throughout"), ("default options never written", S + "cutting_plane.py")],
     "transcripts of seeded computations compared between solo, repeated, interleaved, nested and preempted-thread schedules",
     "Schedules sampled; thread preemption forced by a microsecond switch interval.", ["transcripts of public calls"])
prop("C24", "Numerical hygiene: no overflow, invalid operation or NaN at any scale",
     "For valid input at any sensible scale of lengths, gradients and data, no operation divides by zero, overflows, takes an invalid root or logarithm or produces a non-finite result, and outcomes do not depend on the unit of measurement. "
     "A zero gradient is refused with a value error (a vanishing one may have no effect) and leaves the search space as it was.",
     ["inputs", "configurations", "histories"], "sizes and gradients over sixty decades, all cut kinds and components",
     "tests use numbers near one", SPACE + CP + [S + "oracles", S + "conjugate_gradient.py"],
     [("scale-free formulas and guards", S + "ell_calc.py, ell_calc_core.py, ell.py, ell_stable.py")],
     "floating-point traps and warnings-as-errors armed around every call, scaled twin runs",
     "Python floats and numpy traps; scalar Python arithmetic overflow is seen through results.", ["traps, results"])
prop("C25", "The cut calculators give the optimal parameters in every formula",
     "For every dimension, size and admissible offset the cut calculators return the center shift, shape and scale parameters of the minimum-volume ellipsoid around the retained part, or the truthful status when there is none. "
     "All alternative formulas for the same cut agree, and a calculator's answer depends on the question only, not on earlier ones.",
     ["inputs", "histories"], "all dimensions, sizes and offsets of the domain, every public formula",
     "tests compare a few digits at two or three points per formula", [S + "ell_calc.py", S + "ell_calc_core.py"],
     [("closed-form parameters", S + "ell_calc_core.py"), ("dispatch", S + "ell_calc.py")],
     "every formula against an independently derived minimum-volume model over all regimes and boundaries",
     "Forms that divide by the squared offset sum are not judged where it vanishes.", ["returned parameters"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p, _ in P:
            fh.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy'",
                "checks": [m for _, m in P],
                "not_applicable": [],
                "notes": "Monitors wrap the code from outside; no hooks in /repo. Known and fixed findings: known_findings.json.",
            },
            fh, indent=1,
        )
        fh.write("\n")
