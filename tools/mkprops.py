#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CP = "lib/include/ellcpp/cutting_plane.hpp"
prop("C01", "The feasibility search reports exactly what its oracle and search space did",
 "A feasibility search asks the oracle only about the current centre of the search space, hands every cut it receives to the space exactly once, and reports feasible exactly when the oracle accepted the last point asked about, which is then still the centre of the space. Otherwise it stops at the first cut that the space does not take, reporting the space's own verdict, or at the first cut after which the space says it has shrunk below the tolerance, or when the iteration limit is used up. It always stops within its limit, including limits 0 and 1, and reports no more iterations than that (one for a limit of 0).",
 ["histories", "configurations"],
 "Every sequence of oracle answers and space verdicts, every tolerance, and every iteration limit.",
 "The tests drive a few concrete convex problems to their normal end; no test makes the space refuse a cut at a chosen step, hit the tolerance and the limit at the same time, or use a limit of 0 or 1.",
 [CP, "lib/include/ellcpp/cut_config.hpp"], [("cutting_plane_feas loop", CP)],
 [("niter/status/feasible", "what the caller is told", CP)], ["oracle call", "space update call", "return value"])
prop("C02", "The optimizer returns the point at which the best value was last improved",
 "When the optimizing search reports success, the point it returns is the centre at which the oracle most recently declared an improvement, and the best-so-far value handed back is the one the oracle left; every query carries the current centre and the current best value. It reports failure exactly when the best-so-far value is unchanged. Every cut is applied once, the search ends at the first cut the space does not take, or at the tolerance, or at the limit, with the matching status, and never runs past the limit.",
 ["histories", "configurations"],
 "Every sequence of oracle answers (improving or not) and space verdicts, every tolerance and limit.",
 "The tests check that a result is feasible on a handful of problems, and never compare the returned point with the query at which the last improvement happened.",
 [CP], [("cutting_plane_dc loop", CP)], [("x_best, t", "best point and value so far", CP)], ["oracle call", "space update call", "return value"])
prop("C03", "The discrete optimizer asks for an alternative exactly after an ineffective cut",
 "When the space finds a cut ineffective, the discrete search asks the oracle for an alternative at once (and only then), or stops if the oracle said it has none, so a plain question is never repeated with nothing changed. The returned point is the one the oracle supplied at the latest improvement and the best value is the one the oracle left. Every cut is applied once and the search ends at a cut that leaves no solution, at the tolerance, or at the limit, with the matching status.",
 ["histories", "configurations"],
 "Every sequence of oracle answers (improving or not, alternatives left or not) and space verdicts, every tolerance and limit.",
 "One test runs one discrete problem and accepts 28 to 30 iterations; the ineffective-cut path is not asserted on (it was in fact broken).",
 [CP], [("cutting_plane_q loop", CP)], [("retry flag", "last cut had no effect", CP)], ["oracle call", "space update call", "return value"])
prop("C04", "Binary search keeps the threshold bracketed and halves the bracket",
 "For a monotone predicate, binary search keeps the lower end infeasible (or at its start) and the upper end feasible (or at its start), asks only about points inside the current bracket, and each answer moves exactly one end to the point asked about, at least halving the bracket up to rounding. It reports feasible exactly when the upper end has moved, stops as soon as half the bracket is below the tolerance, and asks at most as many questions as its limit. With integer brackets it finds the threshold exactly.",
 ["inputs", "histories", "configurations"],
 "Every bracket of floating-point or integer type, every monotone predicate, every tolerance and limit.",
 "Two tests use bisection through an adaptor on one problem each and look only at the final flag and a bound on the count.",
 [CP, "lib/include/ellcpp/half_nonnegative.hpp"], [("bsearch loop", CP), ("half_nonnegative", "lib/include/ellcpp/half_nonnegative.hpp")])
prop("C05", "The bisection adaptor tests values on a fresh copy and keeps the feasible point",
 "Each time the adaptor is asked about a value, it first gives the value to the oracle and then searches a copy of its space, so that the shape of the space it was given is never changed by a test. It answers yes exactly when that search found a feasible point, and then moves the centre of its space to that point; after a no the space is exactly as before. The best point it reports is the feasible point found for the value it last answered yes to, or the starting centre.",
 ["histories"],
 "Every sequence of values asked and outcomes of the inner search, with each kind of search space.",
 "The tests run one bisection to the end; none compares the space before and after a test, or the best point with the last success.",
 [CP, "lib/include/ellcpp/ell.hpp"], [("bsearch_adaptor::operator()", CP), ("ell::copy / set_xc", "lib/include/ellcpp/ell.hpp")])
EL = "lib/src/ell.cpp"
prop("C06", "A single cut leaves the smallest ellipsoid containing the part that is kept",
 "After an accepted cut the search space is the smallest-volume ellipsoid that contains every point of the previous ellipsoid satisfying the cut, for central, deep and shallow cuts alike; so no point that satisfies the cut is ever lost and the volume strictly decreases. The size reported with each update is the squared half-width of the previous ellipsoid in the direction of the cut.",
 ["inputs", "histories"],
 "Every dimension from 2 up, every nonsingular ellipsoid (initial or reached by a history of cuts), every nonzero gradient and offset inside the accepted range, with either storage mode.",
 "Tests only look at iteration counts of complete runs; a slightly wrong centre or shape still converges on those few problems.",
 [EL, "lib/include/ellcpp/ell.hpp"], [("_calc_cc/_calc_dc, rank-one update", EL)],
 [("xc, kappa*Q", "centre and shape of the ellipsoid", "lib/include/ellcpp/ell.hpp")])
prop("C07", "A parallel cut leaves the smallest ellipsoid containing the slab that is kept",
 "After an accepted pair of parallel cuts the search space is the smallest-volume ellipsoid that contains the part of the previous ellipsoid lying between them, including slabs that are symmetric about the centre, touch it or have no thickness; a far side lying outside the ellipsoid, or parallel cuts being switched off, gives exactly the result of the near cut alone. A pair whose far side lies before its near side is reported as having no solution.",
 ["inputs", "histories", "configurations"],
 "Every dimension from 2 up, every nonsingular ellipsoid, every nonzero gradient and every pair of offsets in the accepted range, with parallel cuts on and off.",
 "Only the filter design problem uses parallel cuts, and only its iteration count is checked (the symmetric slab in fact gave NaN).",
 [EL], [("_calc_ll_core/_calc_ll_cc", EL)])
prop("C08", "The factored ellipsoid stays equal to the plain one over any history",
 "Given the same start and the same cuts, the numerically stable form of the ellipsoid goes through the same verdicts, sizes, centres and shapes as the plain form, up to rounding, over any history, including rejected cuts in between. Its shape stays positive definite. Storing the scale separately or folding it into the matrix at every step makes no difference either.",
 ["histories", "inputs", "configurations"],
 "Every history of single and parallel cuts, accepted or rejected, in every dimension from 2 up.",
 "One test per form checks the final flag of one problem; the two are never compared with each other, and no test inserts rejected cuts.",
 ["lib/src/ell_stable.cpp", EL], [("ell_stable::update: triangular solves and rank-one update of the factors", "lib/src/ell_stable.cpp"), ("no_defer_trick", EL)])
prop("C09", "Cuts are classified by whether they can keep, change or empty the space",
 "A cut that the whole space violates is answered with no solution, a cut that cannot shrink the space with no effect, and every other cut with success; a cut that is not taken leaves the space exactly as it was. A copy goes on exactly as the original would, and independently of it: updating or moving one never changes another. Moving the centre keeps the shape.",
 ["inputs", "histories"],
 "Every ellipsoid of either form in every dimension from 2 up and every cut, single or parallel, inside and outside the accepted range, interleaved with copying and recentring.",
 "No test submits a cut that should be refused, and none compares a space with its copy afterwards.",
 [EL, "lib/src/ell_stable.cpp", "lib/include/ellcpp/ell.hpp"], [("status decisions in _calc_dc/_calc_ll_core", EL), ("copy/set_xc", "lib/include/ellcpp/ell.hpp")])
prop("C10", "The one-dimensional space is exactly the interval that satisfies the cuts",
 "After any history of accepted cuts the one-dimensional search space is the interval of all points of the initial interval that satisfy every accepted cut, up to rounding, centred at its midpoint. A cut that the whole interval violates is answered with no solution and one that the whole interval satisfies with no effect, and neither changes the interval.",
 ["inputs", "histories"],
 "Every initial interval and every history of cuts with nonzero slope of either sign.",
 "No test uses the one-dimensional space with cuts of both signs or with refused cuts.",
 ["lib/src/ell1d.cpp", "lib/include/ellcpp/ell1d.hpp"], [("ell1d::update", "lib/src/ell1d.cpp")])
NC = "lib/include/netoptim/neg_cycle.hpp"
prop("C11", "Negative-cycle search finds a negative cycle exactly when one exists",
 "Searching a weighted directed graph returns a nonempty list of edges exactly when the graph has a cycle of negative total weight, whatever the starting potentials, and the list is then a simple closed walk whose total weight is negative. When it returns nothing, the potentials left behind satisfy every edge. The search always ends, and can be repeated on the same finder after the weights or potentials change.",
 ["inputs", "histories"],
 "Every finite directed graph (with parallel edges, self-loops and unreachable parts), every weight function, every starting potential, and every sequence of searches on one finder.",
 "Three tests use three fixed five-node graphs and check only whether a cycle was found.",
 [NC, "lib/include/py2cpp/nx2bgl.hpp"], [("find_neg_cycle: relax, find_cycle, cycle_list", NC)])
prop("C12", "The minimum cycle ratio is the true minimum, attained by the returned cycle",
 "Starting from a ratio at least as large as the optimum, the minimum-cycle-ratio solver ends with the exact minimum over all cycles of cost divided by time, and the cycle it returns attains that value; if no cycle is better than the starting ratio it returns no cycle and leaves the ratio as it was. The general parametric solver behind it never lets its parameter increase and always reports the parameter of the cycle it returns. Potentials carried in from an earlier solve do not change the result.",
 ["inputs", "histories"],
 "Every directed graph with positive cycle times, every cost function, every starting ratio and potentials, in exact and floating arithmetic.",
 "Two tests solve two fixed graphs and check the ratio on one of them.",
 ["lib/include/netoptim/parametric.hpp", "lib/include/netoptim/min_cycle_ratio.hpp", NC], [("max_parametric loop", "lib/include/netoptim/parametric.hpp"), ("calc_ratio/calc_weight", "lib/include/netoptim/min_cycle_ratio.hpp")])
prop("C13", "Fractions behave as exact rational numbers in lowest terms",
 "Every arithmetic operation on fractions, in its value, compound and mixed-with-integer forms, yields the exact rational result in lowest terms with a positive denominator, and every comparison agrees with the order of the rationals. This holds for any sequence of operations as long as no intermediate value overflows.",
 ["inputs", "histories"],
 "All pairs of fractions and integers with nonzero denominators and divisors, of any sign, and all sequences of operations that do not overflow.",
 "Fractions are exercised only inside a few positive-valued solver runs; negative denominators and divisors are never tried (the sign was in fact lost).",
 ["lib/include/py2cpp/fractions.hpp"], [("normalize, operators", "lib/include/py2cpp/fractions.hpp")])
prop("C14", "Network oracles answer with valid cuts, from any state of their potentials",
 "A network oracle accepts a point exactly when no cycle has negative total weight there, and otherwise returns a cut that the point violates and that every acceptable point satisfies; an improved objective value is reported exactly when the point is acceptable and better than the best so far. The answers stay valid over any sequence of queries, although potentials are carried from one query to the next. This holds for the plain, the cycle-ratio and the optimal-scaling forms.",
 ["inputs", "histories"],
 "Every graph and weight data, every sequence of query points and best-so-far values on one oracle object.",
 "One test runs one optimal-scaling problem and checks its end result; the cycle-ratio form is not compiled by any test.",
 ["lib/include/ellcpp/oracles/network_oracle.hpp", "lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp", "lib/include/ellcpp/oracles/optscaling_oracle.hpp"],
 [("network_oracle::operator()", "lib/include/ellcpp/oracles/network_oracle.hpp")])
LD = "lib/include/ellcpp/oracles/ldlt_ext.hpp"
prop("C15", "Factorization accepts exactly positive definite matrices and proves rejections",
 "Factoring a symmetric matrix succeeds exactly when it is positive definite. On success the square root multiplied by its own transpose gives the matrix back; on failure the witness is a vector whose quadratic form on the matrix is the negative of the reported value, which is not negative, and only leading rows of the matrix were looked at. Nothing of an earlier factorization on the same object leaks into a later one, and when semidefinite matrices are allowed, a zero pivot only starts the process afresh behind it, and every rejection is still proved by its witness.",
 ["inputs", "histories"],
 "Every symmetric matrix of every size and every sequence of factorizations on one object, element access being lazy or not.",
 "Three tests factor four fixed matrices, never reuse an object after a failure, and never check the witness against the matrix.",
 [LD, "lib/src/ldlt_ext.cpp"], [("factor", LD), ("witness, sym_quad, sqrt", "lib/src/ldlt_ext.cpp")])
prop("C16", "Matrix-inequality oracles accept feasible points, cut off only infeasible ones",
 "A linear-matrix-inequality oracle accepts a point exactly when the matrix there is positive definite; otherwise its cut is violated by the point asked about and satisfied by every feasible point. All variants of the oracle for the same inequality, lazy or not, give equivalent answers. Answers depend only on the point asked about and not on earlier queries.",
 ["inputs", "histories"],
 "Every set of symmetric coefficient matrices, every point and every sequence of queries on one oracle object.",
 "Tests solve one fixed two-inequality problem to the end; a cut that is slightly wrong still converges there.",
 ["lib/src/lmi_oracle.cpp", "lib/src/lmi_old_oracle.cpp", "lib/src/lmi0_oracle.cpp", LD],
 [("operator()", "lib/src/lmi_oracle.cpp"), ("operator()", "lib/src/lmi0_oracle.cpp")])
prop("C17", "Quadratic matrix inequality cuts are valid for any matrix shape and level",
 "For a given level the quadratic-matrix-inequality oracle accepts a point exactly when the level exceeds the squared spectral norm of the residual matrix there; otherwise its cut is violated by the point and satisfied by every point acceptable at that level. This holds for square and rectangular, symmetric and unsymmetric coefficients. Changing the level between queries takes effect at the next query and nothing else is remembered.",
 ["inputs", "histories"],
 "Every coefficient set of any shape, every level, and every sequence of level changes and queries.",
 "It is used in one test only, with symmetric coefficients, checking the iteration count (the gradient was in fact wrong for unsymmetric ones).",
 ["lib/src/qmi_oracle.cpp", "lib/include/ellcpp/oracles/qmi_oracle.hpp"], [("operator()", "lib/src/qmi_oracle.cpp")])
prop("C18", "The filter oracle checks every band; its cuts are valid over any query history",
 "The filter oracle declares an improvement only at a coefficient vector that meets every passband, stopband and nonnegativity constraint, at every grid frequency, and then sets the best value to the largest stopband response there; otherwise it returns a violated constraint as a cut, with a far side whenever the constraint is two-sided. Every vector that meets the constraints with a value no worse than the best so far satisfies both sides of every cut. This is independent of where the previous queries left its internal rotation.",
 ["inputs", "histories"],
 "Every grid, every band limits and every sequence of coefficient vectors and best-so-far values on one oracle object.",
 "One filter is designed in the tests, with loose bounds on the iteration count; skipping one grid row or shifting a far side by a little is not noticed.",
 ["lib/src/lowpass_oracle.cpp", "lib/include/ellcpp/oracles/lowpass_oracle.hpp"], [("round-robin scan and cuts", "lib/src/lowpass_oracle.cpp")],
 [("round-robin positions", "where the next scan starts", "lib/include/ellcpp/oracles/lowpass_oracle.hpp")])
prop("C19", "Profit oracles improve only to attained profits and cut off no better point",
 "A profit oracle declares an improvement only at a point that meets the resource limit and whose profit exceeds the best so far, and then sets the best value to that profit; every cut it returns is satisfied by every admissible point whose profit is at least the best value. The robust form does so for the worst parameters in the given box. The discrete form returns the integer point it evaluated, asks for a retry only once, and its cut, read at the point asked about, does not exclude a better integer point.",
 ["inputs", "histories"],
 "All prices, exponents, limits and error boxes, all query points, best values from zero up (what producing nothing earns), and sequences of first and repeated queries.",
 "Four tests solve one fixed data set and check iteration counts only.",
 ["lib/src/profit_oracle.cpp", "lib/include/ellcpp/oracles/profit_oracle.hpp"], [("operator() of the three oracles", "lib/src/profit_oracle.cpp")])
prop("C20", "Signed-digit strings are canonical, accurate and convert back",
"Converting a number to signed-digit form with a given count of binary places gives a string that uses no more places than that, has no two adjacent nonzero digits, and converts back to within two thirds of a unit of the last place of the number, and exactly to the number when the places suffice. The digit-limited form uses no more than the given count of nonzero digits, agrees with the canonical form up to the last one it uses, and always ends: it stops when the number is used up. Converting a string back gives the value of its digits, ignoring characters that are neither digits nor the point.",
["inputs"],
"All numbers of any sign and of any size from 2^-900 to 2^900, all place counts from zero to more than needed (as long as the string stays below about 1000 digits), and all digit limits.",
"The tests convert five numbers (one limited conversion in fact never ended on exact inputs, and numbers just over two thirds of a power of two were not canonical).",
["lib/src/csd.cpp"], [("to_csd, to_csdfixed, to_decimal", "lib/src/csd.cpp")])
prop("C21", "Complete solves never miss a better point and never deny a feasible problem",
 "At every step of a complete solve, every point that satisfies all constraints, lies in the space the solve started from and is better than the best found so far is still inside the search space, so a solve that ends with no solution leaves no such point, and one that stops because the space is small leaves none that is better by more than the final accuracy allows. The returned point is the best of those visited, with the value it has there, and satisfies all constraints. This holds with the ellipsoid and the interval, with single and parallel cuts, for the feasibility, optimisation and discrete solves, and for each solve a binary search makes, from where the search stands then.",
 ["inputs", "histories", "configurations"],
 "Every convex problem given by valid cuts, every initial space, and each combination of search space and driver.",
 "The tests solve a handful of problems and check the flag and a range of iteration counts.",
 [CP, EL, "lib/src/ell_stable.cpp", "lib/src/ell1d.cpp"], [("drivers with the real search spaces", CP)])
prop("C22", "The correlation fits return admissible, near-optimal coefficients",
 "The least-squares fits of a correlation polynomial return coefficients such that no vector in the region searched, near them or far, gives a covariance over the sites with a smaller spectral error, and the maximum-likelihood fit likewise for its likelihood among the covariances up to twice the data, within the solver's accuracy. The covariance that the constrained fits return is positive definite, each fit reports success exactly when the region has an admissible vector, and the same data give the same fit. The generated sites are the regular grid, and the generated data a symmetric positive semidefinite matrix, the same each time, that averages the kernel.",
 ["inputs"],
 "All site layouts and covariance data of small size and all polynomial degrees from two up.",
 "Two tests fit one data set and check a range of iteration counts and the sign of one coefficient.",
 ["lib/src/lsq_corr_ell.cpp", "lib/src/qmi_oracle.cpp", "lib/src/lmi0_oracle.cpp"], [("lsq_oracle, mle_oracle, lsq_corr_poly, lsq_corr_poly2, mle_corr_poly", "lib/src/lsq_corr_ell.cpp")])
prop("C23", "The container helpers show exactly what was put into them",
 "A set or dictionary helper reports membership, size, lookups, lookups with a default, iteration and copies exactly as the mathematical set or finite map it stands for, over any sequence of constructions, insertions, overwrites, erasures, clears, copies and moves; looking something up changes nothing, and what is done to one container shows in no other. A range has exactly the integers from its start to before its stop in order, with matching size, emptiness, positions and membership, and none when the stop is not after the start. Enumerating a sequence pairs each element with its position, and writes through the pairs reach the sequence.",
 ["histories", "inputs"],
 "All sequences of operations on two sets and two dictionaries over integer and string keys, all integer ranges of several integer types, and all short sequences.",
 "The one test of these helpers is not compiled; the solvers use a small part of them.",
 ["lib/include/py2cpp/py2cpp.hpp"], [("py::set, py::dict, py::range, py::enumerate", "lib/include/py2cpp/py2cpp.hpp")])
prop("C24", "Graph adaptors and simple graphs list exactly what was added",
 "A graph adaptor lists exactly the vertices and edges that were added, each edge with its ends and out of the right vertices, and grows to hold the ends of a new edge; edge, vertex and neighbour views show later additions too. A simple graph or digraph has one edge per pair however often it is added, with the data given last, and its counts, degrees, neighbours, edge tests and edge list always agree with that. Copies and moved graphs stand alone, and clearing removes the edges and nothing else.",
 ["histories", "inputs"],
 "All sequences of additions, constructions, copies, moves and clears on two graphs, directed and undirected, over vector, list and set edge containers.",
 "The tests build a few fixed graphs with the adaptor and never use the simple graphs (which in fact read freed or foreign memory after a move or a clear).",
 ["lib/include/py2cpp/nx2bgl.hpp", "lib/include/xnetwork/classes/graph.hpp", "lib/include/xnetwork/classes/digraphs.hpp", "lib/include/xnetwork/classes/coreviews.hpp"], [("xn::grAdaptor and its views", "lib/include/py2cpp/nx2bgl.hpp"), ("xn::Graph", "lib/include/xnetwork/classes/graph.hpp"), ("xn::DiGraphS", "lib/include/xnetwork/classes/digraphs.hpp")])
prop("C25", "Monomial and posynomial arithmetic is arithmetic on the functions",
 "Every operation on monomials and posynomials (making, scaling, products, quotients by monomials, sums, square roots of monomials, copies) gives the monomial or posynomial that stands for that operation on the functions, also when both operands are the same object or one is a term of the other, and leaves all others as they were. The value shown at y is log f(exp y), however it is asked for, and the gradient shown is that function's gradient, so that its tangents lie below it, wherever f neither overflows nor underflows.",
 ["histories", "inputs"],
 "All sequences of operations on several monomials and posynomials of any number of variables and terms, with positive coefficients and any real exponents.",
 "No test uses these classes, and two of their members did not even compile.",
 ["lib/include/ellip/monomial.hpp", "lib/include/ellip/posynomial.hpp"], [("monomial", "lib/include/ellip/monomial.hpp"), ("posynomial", "lib/include/ellip/posynomial.hpp")])

prop("C26", "Classic ellipsoid searches report the best they saw and lose nothing better",
 "The searches of the classic ellipsoid method ask only about the centre, cut where and as deep as the oracle's answer says, end exactly when the region refuses the cut, its centre moves less than the tolerance, or the limit is reached, and report the first of the best feasible points asked about (nothing, and untouched results, if there was none). Each cut makes the smallest ellipsoid that holds the rest, or refuses and changes nothing: no solution when nothing is left, no effect when the cut is too shallow to help; so no feasible point of the start that is better than the result is lost. For geometric programs the answers are the objective's value and gradient in log scale where all constraints hold, and those of a violated constraint elsewhere.",
 ["histories", "inputs"],
 "All oracles and regions, limits and tolerances; all cuts of ellipsoids in two or more dimensions; all geometric programs whose gradients do not vanish identically.",
 "No test uses this part, which did not compile; what is lost depends on every earlier cut.",
 ["lib/include/ellip/ellipsoid.hpp", "lib/include/ellip/ellipsoid.cpp", "lib/include/ellip/gp_solve.hpp", "lib/include/ellip/gp_solve.cpp", "lib/include/ellip/profitmaxprob.hpp"],
 [("ellipsoid_dc", "lib/include/ellip/ellipsoid.hpp"), ("ellipsoid_dc_discrete", "lib/include/ellip/ellipsoid.hpp"), ("ellipsoid_algo", "lib/include/ellip/ellipsoid.hpp"),
  ("ellipsoid::update", "lib/include/ellip/ellipsoid.cpp"), ("gp_base", "lib/include/ellip/gp_solve.cpp")])

prop("C27", "Whole solves of the library's own problems reach the true optimum",
 "When the ellipsoid or interval search runs on one of the library's oracles (greatest cycle ratio, optimal scaling, profit and its robust form, low-pass filters, matrix inequalities with a linear objective, or the spectral norm by bisection), every point it accepts meets the constraints and attains the reported value, no cut on the way gives up a point that is better than the best so far, and the result is the best point asked about. If the iteration limit is not reached, no point of the starting region that meets the constraints with a margin is better than the result by more than the accuracy of the search. It reports failure only if there is no such point that betters the initial value.",
 ["inputs", "histories"],
 "All networks, costs and times, production data, frequency bands, and matrix problems; all starting regions and initial values. The accuracy is the square root of the tolerance, and no finer than rounding allows in a region that has become long and thin.",
 "The tests solve one instance of each problem and compare iteration counts; an optimum can only be judged against all other points.",
 ["lib/include/ellcpp/cutting_plane.hpp", "lib/src/ell.cpp", "lib/src/ell1d.cpp", "lib/include/ellcpp/oracles/network_oracle.hpp", "lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp",
  "lib/include/ellcpp/oracles/optscaling_oracle.hpp", "lib/include/ellcpp/oracles/profit_oracle.hpp", "lib/src/profit_oracle.cpp", "lib/src/lowpass_oracle.cpp", "lib/src/lmi_oracle.cpp", "lib/src/lmi_old_oracle.cpp", "lib/src/qmi_oracle.cpp"],
 [("cutting_plane_dc", "lib/include/ellcpp/cutting_plane.hpp"), ("bsearch_adaptor", "lib/include/ellcpp/cutting_plane.hpp"), ("oracles", "lib/include/ellcpp/oracles/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import re
for p in P:
    n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
