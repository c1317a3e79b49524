"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
U = "src/lamberthub/universal_solvers/"
P = "src/lamberthub/p_solvers/"
SOLV = [U + f for f in ("arora.py", "der.py", "gooding.py", "izzo.py", "mcelreath.py", "negrete.py", "vallado.py")] + \
       [P + f for f in ("battin.py", "gauss.py", "jiang.py", "pan.py")] + \
       ["src/lamberthub/ecc_solvers/avanzini.py", "src/lamberthub/ecc_solvers/utils.py", "src/lamberthub/regularization/delatorre.py", "src/lamberthub/series_solvers/thorne.py"]
MULTI = [U + f for f in ("arora.py", "der.py", "gooding.py", "izzo.py", "mcelreath.py", "negrete.py")] + ["src/lamberthub/regularization/delatorre.py"]
ANG, ASS, ELE, KEP, STU = ["src/lamberthub/utils/%s.py" % x for x in ("angles", "assertions", "elements", "kepler", "stumpff")]
INIT, LIN, REP = "src/lamberthub/__init__.py", "src/lamberthub/linalg.py", "scripts/generate_benchmark_report.py"
SUITE = "the suite checks a handful of published cases per solver (one or two geometries, one unit system) to about 1e-3"

def p(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))

PROPS = [
 p("C01", "A direct transfer's velocities solve the boundary-value problem",
   "Whenever a solver answers a direct transfer, coasting along a two-body orbit from the first position with the returned initial velocity reaches the second position "
   "after exactly the time of flight, sweeping less than one revolution in the requested sense, and arrives there with the returned final velocity. This holds for every solver, geometry, "
   "conic (ellipse, parabola, hyperbola) and system of units, to the accuracy of the requested tolerance.",
   ["inputs", "configurations"], "all mu, r1, r2, tof > 0 with M = 0; all solvers; both senses; default and tight tolerances; compiled and interpreted",
   SUITE + "; parabolic, hyperbolic, long, near-180-degree and polar transfers are hardly sampled", SOLV + [ANG, STU, LIN],
   [("iteration on the time equation and reconstruction of the velocities", "every solver's main function"), ("convergence test", "every solver's loop")]),
 p("C02", "A multi-revolution answer is that boundary-value problem with M turns",
   "Whenever a solver answers a transfer of M >= 1 complete revolutions, coasting with the returned initial velocity passes the transfer angle plus exactly M full turns and is at the second position "
   "with the returned final velocity after the time of flight.",
   ["inputs", "configurations"], "all positions, times above the minimum (from 1e-8 above to 1000 times it), M up to 40, both paths and senses, all unit systems, both modes",
   "the suite has one multi-revolution geometry with M = 1 and one more for M up to 3", MULTI, [("multi-revolution time equation and its branches", "every multi-revolution solver")]),
 p("C03", "The sense flag decides the direction of motion about +Z",
   "A prograde answer moves anticlockwise and a retrograde answer clockwise when seen from +Z, for every orbital plane; both velocities lie in the plane of the positions. "
   "For planes that contain the Z axis the two senses are still opposite to each other, and their transfer angles add up to a full turn.",
   ["inputs", "configurations"], "all planes including equatorial, exactly and nearly polar; all solvers; M = 0..2; both modes",
   "tests use a few inclined planes; the polar plane, where the flag used to be ignored, is never sampled", SOLV + [ANG],
   [("transfer angle and normal by sense of motion", ANG)]),
 p("C04", "The path flag selects the two multi-revolution solutions consistently",
   "For M >= 1 the low path is the solution of higher orbital energy in the same way for every solver and the high path is the other one, so that the two flags together give both solutions of the problem. For M = 0 the flag changes nothing.",
   ["inputs", "configurations"], "all transfers with M >= 1 above the minimum time, and direct ones; all solvers; both modes",
   "the suite compares one geometry; the selection may flip with angle, sense, radius ratio or closeness to the minimum time", MULTI + SOLV, [("choice of the bracket or the initial guess by path", "every multi-revolution solver")]),
 p("C05", "A well-posed transfer is answered",
   "Every well-posed problem (positions not collinear, time of flight positive, number of revolutions that fits) gets two finite vectors of three components from every solver, at its default settings. "
   "The only refusals are the documented regions of individual methods, at no higher rate than documented.",
   ["inputs", "configurations"], "well-posed transfers of all kinds, units, senses, paths, and both modes; solver failures are identified by region",
   "tests only sample problems that the authors saw converge", SOLV, [("initial guesses, brackets and iteration limits", "every solver")]),
 p("C06", "More revolutions than fit in the time of flight are refused",
   "When M complete revolutions do not fit into the time of flight (it is under the minimum time for that M), every multi-revolution solver raises an error and never returns velocities. "
   "When they fit, the problem is not called infeasible.",
   ["inputs", "configurations"], "times from 1e-4 below up to 1e-6 above the minimum time and far from it; M up to 20000; all multi-revolution solvers; both modes",
   "one infeasible problem is tested", MULTI, [("minimum time of flight", "every multi-revolution solver")]),
 p("C07", "Nonsensical input is rejected with ValueError",
   "A non-positive or not finite gravitational parameter or time of flight, a negative number of revolutions, and position vectors that are null, equal, not finite or not of three components are rejected with ValueError by every solver. "
   "Valid input of any magnitude is not rejected as invalid.",
   ["inputs", "configurations"], "all ways of being invalid, alone and combined, in any argument, any magnitude, all solvers, both modes",
   "tests call the checkers with one bad value each, not every solver with every bad argument", [ASS] + SOLV, [("validation of the parameters", ASS), ("call of the validation", "every solver's first lines")]),
 p("C08", "Solvers of direct transfers refuse multi-revolution requests",
   "A solver that only supports direct transfers raises ValueError for any M >= 1 and never silently returns the direct solution.",
   ["inputs"], "all M >= 1 of any integer type, feasible or not, all such solvers, both modes",
   "tests do not ask these solvers for M > 0 at all or only one", [P + f for f in ("battin.py", "gauss.py", "jiang.py", "pan.py")] + [U + "vallado.py", "src/lamberthub/ecc_solvers/avanzini.py", "src/lamberthub/series_solvers/thorne.py"],
   [("refusal of M > 0", "every direct-only solver's first lines")]),
 p("C09", "Collinear positions never get a silently wrong answer",
   "For exactly parallel or antiparallel positions, whose transfer plane or orbit is undefined, every solver either raises an error or returns finite velocities that meet the boundary conditions; it never returns not-a-number or a wrong orbit.",
   ["inputs", "configurations"], "exactly collinear positions along axes, integer and arbitrary directions, all unit systems, M = 0..2, both modes",
   "tests check two hand-written collinear cases of two helper functions", [ANG, ASS] + SOLV, [("rejection of transfer angles 0 and 180 degrees", ASS), ("exactness of the angle for collinear vectors", ANG)]),
 p("C10", "Answers do not depend on the system of units",
   "Expressing the same problem in other units of length and time gives the same answer expressed in those units, to the accuracy of the solver, for any units; a problem answered in one system of units is answered in all.",
   ["inputs", "configurations"], "unit factors over 24 decades, exact powers of two and arbitrary, all solvers",
   "tests use kilometres and seconds", SOLV, [("nondimensionalization and relative tolerances", "every solver")]),
 p("C11", "Answers have the symmetries of the two-body problem",
   "Rotating the problem about the Z axis rotates the answer, reflecting it reflects the answer (with the sense flag adapted), and exchanging the positions while reversing the sense returns the velocities exchanged and negated.",
   ["inputs", "configurations"], "rotations, mirrors, point reflection, time reversal and their compositions, all solvers, M = 0..5",
   "relations between calls are not tested at all", SOLV + [ANG], [("geometry of the transfer", ANG)]),
 p("C12", "All solvers share one interface; full output only adds to the answer",
   "Every registered solver takes the same leading arguments with the same defaults and returns the two velocities as arrays of three floats; asking for the full output appends the number of iterations and the mean time per iteration and changes nothing else. "
   "The lists of solvers are complete, and the list of multi-revolution solvers is exactly those that answer M >= 1.",
   ["inputs", "configurations"], "all solvers, all kinds of transfers, truthy and falsy values of the flags, both modes",
   "tests unpack the full output for one problem; nothing compares both forms", [INIT] + SOLV, [("registries of solvers", INIT), ("return statement", "every solver")]),
 p("C13", "Solver calls are pure: no history, order, thread or side effect",
   "A call's outcome depends on its arguments only: not on earlier calls (answered or refused), their order, the process, or other threads calling at the same time. A call changes neither its arguments, nor earlier answers, nor any state of the process.",
   ["histories", "schedules", "configurations"], "sequences and interleavings of calls of all solvers, mutation of argument arrays between calls, 8 threads, several hash seeds and floating-point settings",
   "every test makes isolated calls in one thread and never looks at its arguments again", SOLV + [ANG, ELE, STU, LIN], [("functions without module state", "the whole package")]),
 p("C14", "Compiled and interpreted execution agree",
   "The same call gives the same answer, to the accuracy of the solver, and the same decision to answer or refuse, whether the package runs compiled or interpreted.",
   ["configurations", "inputs"], "all solvers and kinds of transfers, both modes of execution",
   "the suite runs in one mode only", SOLV + [ANG, STU, LIN], [("just-in-time compilation decorators", "kernels of every solver")]),
 p("C15", "Iteration limit and tolerances mean what they say",
   "An answer is never unconverged: with any iteration limit a call either meets the requested tolerance or raises, the reported number of iterations is the number the answer took and never exceeds the limit, and raising the limit never loses or changes an answer. "
   "The error follows the requested tolerances, down to 1e-12.",
   ["inputs", "configurations"], "limits 1..400 and tolerances 1e-3..1e-12 for all solvers and kinds of transfers, both modes",
   "tests always use generous limits and one tolerance", SOLV, [("convergence test and exhaustion of the loop", "every solver")]),
 p("C16", "Every call ends, whatever it is given",
   "A call of any solver with any numbers (extreme, degenerate, almost collinear or equal positions, zero or negative tolerances and limits, enormous revolutions) returns or raises after a number of steps bounded by the iteration limit; it never loops forever or kills the process.",
   ["inputs", "configurations"], "hostile and extreme inputs over the whole floating-point range, all solvers, both modes",
   "a test that hangs cannot be written down as one; only ordinary inputs are tested", SOLV, [("limits of loops, brackets, series and continued fractions", "every solver")]),
 p("C17", "Anomaly conversions are exact inverses and match the conic",
   "Conversions between true anomaly and the eccentric, parabolic and hyperbolic anomalies follow the geometry of the conic over their whole range, and converting there and back gives the same position.",
   ["inputs"], "all anomalies in both usual ranges and eccentricities of every conic", "tests check six tabulated values", [ANG], [("half-angle formulas", ANG)]),
 p("C18", "Mean anomalies are the time law of the conic",
   "The mean anomaly from the true anomaly and the eccentricity (and each conic's own equation) grows at the constant rate of the time law, so that the difference between two positions is the time of flight between them.",
   ["inputs"], "all eccentricities including near 1 and all anomalies", "tests check few tabulated values", [KEP, ANG], [("Kepler's equations", KEP)]),
 p("C19", "Orbital elements and state vectors convert to each other",
   "Converting elements to position and velocity gives the state of that conic, and converting a state to elements gives elements in their documented ranges which stand for that same state, for every conic and plane including circular, equatorial and retrograde equatorial ones. Elementary rotations are rotations about the named axis.",
   ["inputs"], "orbits of 16 kinds in several unit systems", "one round trip of one orbit is tested", [ELE], [("conversions between elements and states", ELE)]),
 p("C20", "Stumpff functions are accurate over their whole range",
   "The second and third Stumpff functions equal their defining series for every argument of either sign, without loss of accuracy around zero, and are continuous where the formula changes.",
   ["inputs"], "arguments 1e-300..1e5 of both signs", "no test at all or two values", [STU], [("switch between series and closed forms", STU)]),
 p("C21", "Transfer angle, plane, inclination and node are right for every geometry",
   "From two positions and the sense of motion, the transfer angle, the unit normal and the inclination and node of the orbit agree with the geometry, including angles tiny or close to 180 degrees, equatorial, retrograde and polar planes, exactly collinear positions and any magnitude; vector products are those of linear algebra.",
   ["inputs"], "all pairs of positions and both senses", "tests check six hand-written pairs", [ANG, LIN], [("angle and normal", ANG), ("vector products", LIN)]),
 p("C22", "The performance report accounts for every benchmark and ranks it",
   "Every benchmark of every results file (repeated measurements of one solver too) appears exactly once in the generated report with its own figures, under its own case, ordered by speed, with rank and speed-up relative to its case.",
   ["inputs", "histories"], "random sets of results files with ties, unknown groups and cases, and odd names", "the script has no tests", [REP], [("grouping, ordering and ranking", REP)]),
 p("C23", "Updating the README replaces the marked section and nothing else",
   "Writing the report into a document replaces the marked section only (or appends it once), keeps all other text byte by byte whatever it contains (line endings included), and repeating it changes nothing.",
   ["inputs", "histories"], "random documents, hostile text around and in the section, repeated updates", "the script has no tests", [REP], [("replacement of the section", REP)]),
 p("C24", "The representation of the input does not matter",
   "The same numbers give the same answer whether the vectors are integer or float, contiguous or not, writable or not, and the scalars and flags are python or numpy objects (arrays without dimensions too), passed by position, by name or by default.",
   ["inputs", "configurations"], "representations of the same numbers, all solvers, both modes", "tests only pass float arrays and python flags", SOLV + [LIN, ANG], [("arithmetic on the arrays as given", "every solver")]),
]

TECH = {
 "C01": "runtime monitor: propagation oracle over recorded calls", "C02": "runtime monitor: propagation oracle counting revolutions", "C03": "runtime monitor on pairs of calls: direction of motion",
 "C04": "runtime monitor on pairs of calls against two-branch reference", "C05": "runtime monitor: outcome of every well-posed call", "C06": "runtime monitor against reference minimum time",
 "C07": "runtime monitor: fault injection in the arguments", "C08": "runtime monitor: outcome of M > 0 requests", "C09": "runtime monitor: propagation oracle on collinear input",
 "C10": "runtime metamorphic monitor: unit scaling", "C11": "runtime metamorphic monitor: symmetries", "C12": "runtime monitor: interface and paired calls", "C13": "runtime monitor: state hooks, histories, thread stress with forced preemption",
 "C14": "runtime differential monitor: compiled against interpreted", "C15": "runtime monitor over traces of limits and tolerances", "C16": "runtime monitor: executed-line counter and CPU-time watchdog",
 "C17": "runtime monitor against reference geometry", "C18": "runtime monitor against reference time law", "C19": "runtime monitor against reference conic", "C20": "runtime monitor against 80-digit series",
 "C21": "runtime monitor against reference geometry", "C22": "conservation monitor over generated reports", "C23": "frame monitor over repeated updates", "C24": "runtime metamorphic monitor: representations"}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["id"]
            for a in x["anchors"]["files"]:
                assert os.path.exists("/repo/" + a), a
            f.write(json.dumps(x) + "\n")
    py = "/opt/venv/bin/python checks/run.py "
    checks = [dict(property=x["id"], quick_cmd=py + x["id"], thorough_cmd=py + x["id"] + " --thorough", technique=TECH[x["id"]], level="exploration",
                   level_note="An oracle watching executions of the real code on seeded, diverse workloads: finds violations that occur in what was run, proves nothing about the rest. Trusted: " +
                   ("the independent reference in lib/lhv/oracle.py and calibrated accuracy limits (lib/lhv/calib.json)." if x["id"] < "C17" or x["id"] == "C24" else "the reference formulas in the check itself."))
              for x in PROPS]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python checks/setup.py", checks=checks, not_applicable=[],
             notes="No hooks in /repo: the monitors observe calls from outside (child processes importing /repo/src, sys.monitoring, numba's own switch to interpreted mode).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
