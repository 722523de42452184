#!/usr/bin/env python3
"""One source for properties.jsonl, checks.json and MANIFEST.json:  python3 meta.py"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
I = "lib/include/"
S = "lib/src/"
NOTE = ("Every choice sequence within the stated bounds is executed on the code compiled from /repo and "
        "compared step by step with an independent reference in the harness; a violation is replayed in a fresh "
        "process before it is reported. Trusts the harness's reference, g++, xtensor and OpenBLAS; says nothing "
        "outside the alphabets and depths listed in DESIGN.md and in the evidence.")
FP = "floating-point rounding is tolerated up to the bounds written in the harness"


def P(id, title, statement, over, text, why, files, mech, assume=(), technique=None, built=True, reason=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, assume=list(assume), technique=technique, built=built, reason=reason)


PROPS = [
P("C01", "A cut never removes a point it does not exclude",
  "After any history of cuts, the search ellipsoid still contains every point that lay in it and satisfies the "
  "cuts given to it: for each successful update the new ellipsoid contains the old one intersected with the cut's "
  "half-space, or with the slab of a parallel cut.  The centre and the shape stay finite.  This holds for both "
  "ellipsoid representations, for deep, central, shallow and parallel cuts, and with every option of the ellipsoid.",
  ["histories", "inputs", "configurations"],
  "all histories of cuts from the alphabet (directions x offset patterns relative to the current radius) up to the "
  "bounds in dimensions 2..9, pairs of cuts up to dimension 33, words of up to 400 (1000) cuts, three initial shapes, offsets "
  "a hair beside every limit, both representations, every option",
  "The tests only look at final iteration counts and at a found optimum; an ellipsoid that loses feasible points in "
  "rare geometries (one coordinate pair, boundary offsets, long histories) still converges on the sampled problems.",
  [S + "ell.cpp", S + "ell_stable.cpp", I + "ellcpp/ell.hpp", I + "ellcpp/ell_stable.hpp"],
  [("cut coefficients rho, sigma, delta", S + "ell.cpp calc_dc/calc_cc/calc_ll_core"),
   ("rank-one update and centre move", S + "ell.cpp ell::update, ell_stable.cpp ell_stable::update")],
  [FP, "dimension at least 2, non-zero gradients, slabs of non-zero width"]),
P("C02", "Each cut gives the smallest enclosing ellipsoid",
  "A successful single cut replaces the ellipsoid by the minimum-volume ellipsoid that contains the kept part, and a "
  "successful parallel cut by the one the parallel-cut formula prescribes, so that the volume never grows and shrinks "
  "strictly for every cut that is deeper than the no-effect threshold.  The resulting centre and shape equal the "
  "closed form to rounding accuracy, however thin, asymmetric or nearly central the cut is.",
  ["histories", "inputs", "configurations"],
  "all histories of cuts from the alphabet up to the bounds, dimensions 2..33, words of up to 400 (1000) cuts, "
  "compared with a long-double closed form",
  "Convergence speed is only sampled by iteration counts on four problems; an update that is valid but not minimal, "
  "or that loses accuracy for nearly symmetric slabs, passes them.",
  [S + "ell.cpp", S + "ell_stable.cpp"],
  [("cut coefficients", S + "ell.cpp calc_dc/calc_cc/calc_ll_core"), ("kappa and Q update", S + "ell.cpp ell::update")],
  [FP]),
P("C03", "The status of a cut is exact, and a rejected cut changes nothing",
  "An update reports 'no solution' exactly when the cut leaves nothing of the ellipsoid, 'no effect' exactly when the "
  "minimum-volume ellipsoid of the kept part is the present one, and success otherwise, together with the squared "
  "distance measure g'Pg of the ellipsoid before the cut.  When it does not report success, centre and shape are "
  "unchanged.  An ellipsoid constructed from a radius, from radii per axis or by copying is the one described.",
  ["inputs", "histories", "configurations"],
  "all cuts of the alphabet (exact tangency, the exact thresholds and values a hair beside them included) from all "
  "states reached by histories up to the bounds, dimensions 2..33",
  "The tests contain a handful of infeasible and no-effect cases and never look at the state after a rejected cut.",
  [S + "ell.cpp", S + "ell_stable.cpp", I + "ellcpp/ell.hpp", I + "ellcpp/cut_config.hpp"],
  [("status decisions", S + "ell.cpp calc_dc/calc_cc/calc_ll_core/calc_ll_cc"), ("early return", S + "ell.cpp ell::update")],
  [FP, "at the exact no-effect boundary either answer is accepted where the update would change nothing"]),
P("C04", "The two ellipsoid representations and all copies behave alike",
  "The plain and the numerically stable ellipsoid, with or without the deferred scaling, go through the same sequence "
  "of statuses, centres and distance measures under the same history of cuts.  A copy made at any point behaves as "
  "the original does from there on and neither influences the other.  Scaling a cut by a positive number changes "
  "nothing but the distance measure, and moving the centre moves the ellipsoid with it.",
  ["histories", "configurations", "inputs"],
  "all histories up to the bounds (dimensions 2..33) run side by side on six configurations, with a copy taken at "
  "every point and the centre moved by much and by very little",
  "Tests run either representation on its own problem, and compare only iteration counts with constants.",
  [S + "ell.cpp", S + "ell_stable.cpp", I + "ellcpp/ell.hpp", I + "ellcpp/ell_stable.hpp"],
  [("copy construction and copy()", I + "ellcpp/ell.hpp"), ("no_defer_trick", S + "ell.cpp ell::update")],
  [FP, "the recorded finding ell_stable-update: the stable form's wrong update is recognised by an executable model of it"]),
P("C05", "The one-dimensional search interval is exactly what the cuts leave",
  "Under any sequence of cuts the one-dimensional search space is the interval that remains of the previous one when "
  "the half-line excluded by the cut is removed, with its midpoint as the current point.  The status tells whether "
  "nothing, everything or a part of it remains, and an unsuccessful cut leaves it unchanged.",
  ["histories", "inputs"],
  "all pairs and triples (thorough: quadruples) of cuts over gradients of either sign and offsets on, inside and "
  "outside the ends",
  "No test exercises the one-dimensional space beyond a single example run.",
  [S + "ell1d.cpp", I + "ellcpp/ell1d.hpp"], [("interval update", S + "ell1d.cpp ell1d::update")], [FP]),
P("C06", "The feasibility loop reports exactly what its oracle and space answered",
  "The feasibility solver asks the oracle at the current centre and cuts with the answer until the oracle accepts, the "
  "space reports a failure, the distance measure falls below the tolerance, or the iteration limit is reached.  It "
  "claims feasibility exactly when the oracle accepted the final centre, and returns the matching status and number "
  "of iterations (a limit of m allows m-1 queries, the count then being m); with a limit of zero it does nothing.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of oracle answers x space answers, for every iteration limit up to 18 (24), tolerances from 0 to "
  "1e100 and measures on, just above and just below them; runs of up to 70000 iterations with a turn at any of "
  "a list of places; limits at the edge of the type",
  "The tests run it with real oracles only, where few of the answer sequences occur and the call protocol is invisible.",
  [I + "ellcpp/cutting_plane.hpp"], [("cutting_plane_feas", I + "ellcpp/cutting_plane.hpp")]),
P("C07", "The optimisation loop returns the best point found and its value",
  "The optimiser asks the oracle at the current centre with the best value so far and cuts with every answer, until "
  "the space reports a failure, the distance measure falls below the tolerance or the limit is reached.  It returns "
  "the centre at which the value was last improved, claims feasibility exactly when the value changed, and reports "
  "the matching status and number of iterations (a limit of m allows m-1 queries, the count then being m).",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of oracle answers x space answers, for every iteration limit up to 10 (12), several tolerances and "
  "value types, values that go up, down and by a hair; long runs as for the feasibility loop",
  "As for the feasibility loop; tests never see an improvement followed by failures at each position.",
  [I + "ellcpp/cutting_plane.hpp"], [("cutting_plane_dc", I + "ellcpp/cutting_plane.hpp")]),
P("C08", "The discrete optimiser retries with an alternative cut, and only then",
  "The discrete optimiser asks for an alternative cut exactly after a cut that had no effect on the space, and gives "
  "up exactly when such a cut comes with the announcement that no alternative is left.  Otherwise it ends on an empty "
  "space, a small enough distance measure or the iteration limit.  It returns the point at which the oracle last "
  "improved the value, feasibility exactly when the value changed, and the matching status and number of iterations "
  "(a limit of m allows m-1 queries, the count then being m).",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of oracle answers (improved or not, alternatives left or not) x space answers, iteration limits up "
  "to 7 (9); long runs as for the feasibility loop",
  "The one test with a discrete problem never reaches most of the retry paths.",
  [I + "ellcpp/cutting_plane.hpp"], [("cutting_plane_q", I + "ellcpp/cutting_plane.hpp")]),
P("C09", "Bisection keeps a valid bracket and stops when it is small",
  "Bisection probes the middle of the bracket, keeps the part that the answer leaves, and never probes outside it.  It "
  "stops when half the bracket is below the tolerance or at the iteration limit; for a monotone question the upper end "
  "is then a value answered yes (or the original one) and the lower end a value answered no (or the original one).  "
  "It claims feasibility exactly when the upper end moved, and reports the matching status and a count of one more "
  "than the probes made.",
  ["inputs", "fault_sequences", "configurations"],
  "integers, unsigned, double and exact fractions; every threshold in brackets up to 20 wide and every answer sequence, "
  "several tolerances and limits, the edges of the integer types included",
  "Tests only run it through one network and one matrix example with double values.",
  [I + "ellcpp/cutting_plane.hpp", I + "ellcpp/half_nonnegative.hpp"],
  [("bsearch", I + "ellcpp/cutting_plane.hpp"), ("half_nonnegative", I + "ellcpp/half_nonnegative.hpp")],
  ["with exact fractions the tolerance test converts the tolerance to an integer: only bracket invariants are claimed there"]),
P("C10", "A bisection probe searches a copy and keeps only successful centres",
  "Each probe tells the oracle the new parameter and then searches a fresh copy of the search space from the stored "
  "state; it answers whether a feasible point was found.  After a success the stored space has the found point as "
  "its centre and is otherwise as before; after a failure the stored space is unchanged.",
  ["fault_sequences", "histories"],
  "every sequence of oracle and update answers over 3 (4) consecutive probes, families of up to 64 probes, parameters of "
  "very different size; bisection over a real ellipsoid for 49 targets x 3 side conditions",
  "One test uses the adaptor, with one sequence of probes.",
  [I + "ellcpp/cutting_plane.hpp"], [("bsearch_adaptor::operator()", I + "ellcpp/cutting_plane.hpp")]),
P("C11", "Solvers find the optimum, or feasibility, of small convex problems",
  "With a correct oracle for a small convex problem and a plain ellipsoid (or, in one dimension, an interval) that "
  "contains the solution, the feasibility solver returns a feasible point whenever the feasible set has an interior "
  "of fair size and never claims feasibility when there is none.  The optimiser returns a feasible point with the "
  "value it reports, which is within the accuracy of the tolerance of the true optimum and never better than it.  "
  "This holds for deep, central and parallel cuts and for every option of the ellipsoid.",
  ["programs", "inputs", "configurations"],
  "all programs in 1..3 dimensions with a box and up to two constraints (linear, two-sided or disc) from a finite "
  "alphabet, and in 4, 6, 9 dimensions with one, x objectives x start points and values x cut styles x options",
  "The tests solve four fixed problems and compare iteration counts.",
  [I + "ellcpp/cutting_plane.hpp", S + "ell.cpp", S + "ell1d.cpp"],
  [("cutting_plane_feas/dc", I + "ellcpp/cutting_plane.hpp"), ("update", S + "ell.cpp, ell1d.cpp")],
  [FP, "objective gap accepted: 2e-3 (1e-3 in one dimension) at tolerance 1e-8, where 4e-4 is the largest that occurs"]),
P("C12", "The factorisation decides positive definiteness and proves its answer",
  "The LDL' factorisation accepts a symmetric matrix exactly when it is positive definite (in the semidefinite mode: "
  "every positive semidefinite matrix is accepted).  When it rejects, the witness vector is non-zero only inside the "
  "reported leading block and its quadratic form equals minus the reported value, which is not negative.  When it "
  "accepts, the square root it returns reproduces the matrix.  None of these answers depends on earlier "
  "factorisations (entries of the witness array outside the block have no meaning).",
  ["inputs", "histories", "configurations"],
  "all symmetric matrices over small integer alphabets up to 4x4, nearly singular and very large or small ones, all "
  "short sequences of factorisations up to 8x8 and structured matrices up to 130x130, in both modes, every answer asked "
  "for twice",
  "Tests factorise seven fixed matrices.",
  [S + "ldlt_ext.cpp", I + "ellcpp/oracles/ldlt_ext.hpp"],
  [("factor", I + "ellcpp/oracles/ldlt_ext.hpp"), ("witness/sqrt/sym_quad", S + "ldlt_ext.cpp")],
  [FP, "in the semidefinite mode a rejection must carry a valid certificate, and a negative pivot ahead of any zero "
       "pivot must be rejected"]),
P("C13", "Matrix-inequality oracles accept exactly the feasible points and cut the rest",
  "The three linear-matrix-inequality oracles accept a point exactly when the matrix there is positive definite (or "
  "semidefinite, for the form without constant term as documented).  Otherwise they return a cut that the point "
  "violates and that every feasible point satisfies: value and gradient, up to a common positive factor, of the "
  "violated quadratic form.  "
  "The answer does not depend on earlier queries, and the two implementations of the same inequality agree.",
  ["inputs", "histories", "programs"],
  "all small inequalities (matrices from finite alphabets, up to 5x5, up to three variables, larger "
  "structured ones up to 12x12 with 9 variables) x ordered pairs of points, nearly singular ones and data in units from "
  "2^-300 to 2^300 included",
  "Tests solve one fixed pair of inequalities.",
  [S + "lmi_oracle.cpp", S + "lmi0_oracle.cpp", S + "lmi_old_oracle.cpp", I + "ellcpp/oracles/lmi_oracle.hpp"],
  [("operator()", S + "lmi_oracle.cpp, lmi0_oracle.cpp, lmi_old_oracle.cpp")], [FP]),
P("C14", "The quadratic matrix-inequality oracle is exact after any history",
  "The oracle for  t I - F(x)'F(x)  accepts a point exactly when that matrix is positive definite at the current "
  "parameter, and otherwise returns a cut which the point violates and every feasible point satisfies, with the exact "
  "value and gradient of the violated form.  Rows evaluated lazily for an earlier point or parameter never leak into "
  "a later answer.",
  ["histories", "inputs", "programs"],
  "all small F(x) from finite alphabets and larger structured ones x all histories of up to three (parameter, point) "
  "queries, parameters a hair beside the bound and data in units from 2^-300 to 2^300 included",
  "No test looks at its cuts; the lazy row cache only matters for histories of queries.",
  [S + "qmi_oracle.cpp", I + "ellcpp/oracles/qmi_oracle.hpp"],
  [("lazy evaluation of rows", S + "qmi_oracle.cpp operator()"), ("update", I + "ellcpp/oracles/qmi_oracle.hpp")], [FP]),
P("C15", "The correlation-fitting oracles and fits do what they minimise",
  "The least-squares and maximum-likelihood oracles for correlation fitting improve the best value exactly when the "
  "point is feasible with a smaller objective, to exactly that objective, and their cuts are violated (or touched) by "
  "the point and satisfied by every feasible point at least as good.  The fitting functions return coefficients that "
  "are feasible and whose objective is at least as good as that of all reference candidates, for a basis made of the powers "
  "of the distances between the sites.",
  ["inputs", "programs", "histories"],
  "all combinations of small site sets, observations, coefficient points and auxiliary values, up to three calls, best values a hair away; "
  "fits for 1..3 coefficients x 3 site sets x 4 observations; up to 17 sites, data in units from 2^-250 to 2^250; "
  "distance matrices and their powers of up to 40 sites, distances from 1e-25 to 1e26",
  "Tests run three fits on one random field and compare iteration counts.",
  [S + "lsq_corr_ell.cpp"],
  [("lsq_oracle, mle_oracle", S + "lsq_corr_ell.cpp"), ("corr_poly fitting", S + "lsq_corr_ell.cpp")], [FP]),
P("C16", "The low-pass filter oracle separates and updates the stop-band bound exactly",
  "The filter-design oracle improves the stop-band bound exactly when the leading coefficient is non-negative, every "
  "pass-band, stop-band and remaining constraint holds and no stop-band value exceeds the current bound; the bound "
  "then becomes the largest stop-band value.  Otherwise the bound stays and its (parallel) cut is exactly that of a "
  "constraint the point violates, satisfied by every point that meets all constraints.  This holds whatever was asked "
  "before, and a complete design reaches the best bound.",
  ["histories", "inputs", "programs"],
  "1..3 pass-, stop-band and other rows from finite alphabets x sequences of 1..3 points (the oracle scans its rows "
  "round-robin) x bounds; up to 9 coefficients and 40 rows; 5^5 complete two-coefficient designs with and without parallel cuts",
  "The test designs one filter and checks an iteration count.",
  [S + "lowpass_oracle.cpp", I + "ellcpp/oracles/lowpass_oracle.hpp"],
  [("round-robin scan", S + "lowpass_oracle.cpp operator()")], ["stop-band bound not negative"]),
P("C17", "The profit oracles separate and improve exactly",
  "The profit oracle improves the best value exactly when the point respects the input limit and earns more than it, "
  "to exactly that profit; otherwise its cut is violated by the point, and it is always satisfied by every admissible "
  "point that earns at least the best value.  The robust oracle does so for the worst case over the parameter box.  "
  "The discrete oracle does so at the nearest positive integer point, which it returns and keeps for the retry.",
  ["inputs", "histories", "configurations"],
  "24..36 parameter sets x 8 best values x 64 points, best values a hair beside the profit, uncertainty boxes, and all sequences of 2 (3) calls with and "
  "without retry",
  "Tests solve three instances and check iteration counts.",
  [S + "profit_oracle.cpp", I + "ellcpp/oracles/profit_oracle.hpp"],
  [("profit_oracle::operator()", S + "profit_oracle.cpp"), ("worst-case exponents", I + "ellcpp/oracles/profit_oracle.hpp"),
   ("profit_q_oracle::operator()", S + "profit_oracle.cpp")],
  [FP, "best value not negative", "the recorded finding profit_q-sign: the discrete cut is moved to the query point with "
   "the wrong sign, recognised by that exact formula; every other part of the cut is still judged"]),
P("C18", "Network oracles accept exactly the points without a negative cycle",
  "The network feasibility oracle returns nothing exactly when no cycle has negative total at the point, and then the "
  "potentials it holds satisfy every edge; otherwise it returns the sum of value and gradient over one negative cycle, "
  "which is a cut that the point violates.  The maximum-cycle-ratio and optimal-scaling oracles do so for their "
  "problems, improve the best value exactly when the point is feasible with a better one, and lead to the true optimum.",
  ["inputs", "histories", "programs"],
  "all small digraphs (up to 4 nodes, 4 edges) x edge functions from a finite alphabet x all sequences of two calls; "
  "families of up to 48 nodes, weights shifted by potentials that cancel on every cycle, several units; ellipsoid "
  "solves against brute force over all cycles",
  "Tests solve one five-node graph.",
  [I + "ellcpp/oracles/network_oracle.hpp", I + "ellcpp/oracles/cycle_ratio_oracle.hpp",
   I + "ellcpp/oracles/optscaling_oracle.hpp"],
  [("operator()", I + "ellcpp/oracles/network_oracle.hpp"), ("worst cut choice", I + "ellcpp/oracles/optscaling_oracle.hpp")], [FP]),
P("C19", "Negative-cycle detection is complete and sound",
  "The cycle finder reports a cycle exactly when the graph has a cycle of negative total weight, and what it reports "
  "are the edges of one simple cycle, in order, whose total is negative.  When it reports none, the distances it "
  "leaves satisfy every edge.  This holds for any initial distances and when the finder is used again with other "
  "weights.",
  ["inputs", "histories", "programs"],
  "all multigraphs with up to 4 nodes and 4..5 edges, self loops and parallel edges included, weights from small "
  "alphabets, several initial distances, integer, double and fraction weights, reuse up to three times; families of "
  "rings, paths and dense graphs of up to 48 (some 200) nodes; weights shifted by potentials that cancel",
  "Tests use two fixed graphs.",
  [I + "netoptim/neg_cycle.hpp"],
  [("Bellman-Ford relaxation and policy cycle search", I + "netoptim/neg_cycle.hpp")],
  ["floating-point weights are such that sums are exact"]),
P("C20", "The minimum cycle ratio and parametric search are exact",
  "The minimum-cycle-ratio solver and the parametric network solver return the least ratio of total cost to total time "
  "over all cycles if it is below the starting value, with a cycle that attains it; otherwise the starting value and "
  "no cycle.  The distances they leave prove that no cycle is better.",
  ["inputs", "programs", "configurations"],
  "all small multigraphs (up to 4 nodes, 5 edges) x costs x times, several starting values, exact fractions and "
  "doubles with exact ratios, against enumeration of all simple cycles; families up to 48 nodes, cancelling potentials, "
  "several units",
  "Tests use two fixed graphs with one starting value.",
  [I + "netoptim/min_cycle_ratio.hpp", I + "netoptim/parametric.hpp", I + "netoptim/neg_cycle.hpp"],
  [("max_parametric", I + "netoptim/parametric.hpp"), ("cycle_ratio/zero_cancel", I + "netoptim/min_cycle_ratio.hpp")],
  ["positive total time on every cycle; ratios exactly representable (see the recorded finding cycle-ratio-rounding)"]),
P("C21", "Fractions behave as exact rational numbers",
  "Every constructor, arithmetic operation, comparison and in-place operation on fractions gives the exact rational "
  "result, in lowest terms with a positive denominator, for mixed operands with integers as well and in any sequence "
  "of operations, including an object combined with itself.  Greatest common divisors and least common multiples are "
  "the arithmetic ones.",
  ["inputs", "histories"],
  "all pairs of fractions with small terms of either sign, 32 and 64 bit, values whose products just fit, terms beside "
  "2^30, gcd and lcm of the full 64-bit range, and all "
  "sequences of 3 (4) operations out of 15",
  "Tests check a few operations on positive values.",
  [I + "py2cpp/fractions.hpp"], [("normalize and operators", I + "py2cpp/fractions.hpp")],
  ["no integer overflow, no zero denominators"]),
P("C22", "Signed-digit strings are canonical, accurate and read back exactly",
  "Conversion to canonical signed digits yields a string of digits and at most one point, without adjacent non-zero "
  "digits, with the requested number of places, off by at most two thirds of the last place and exact whenever the "
  "number fits, then with the fewest non-zero digits.  The variant with a limit on non-zero digits respects the limit, "
  "is exact when the limit suffices and otherwise off by at most a third of its last digit.  Conversion back to a "
  "number is exact for every digit string, and negation exchanges the signs.",
  ["inputs"],
  "all k/2^j and k/d with small terms, extreme magnitudes, places 0..10 (20), limits 0..8, values a hair beside every "
  "turning point 2^k/3, 2^k, 2^(k+1)/3; every digit string of up to 10 (12) digits and families up to 900 digits",
  "Tests convert three numbers.",
  [S + "csd.cpp"], [("to_csd, to_csdfixed, to_decimal", S + "csd.cpp")], ["finite numbers, places not negative"]),
P("C23", "Ranges, sets and dictionaries behave like Python's",
  "Ranges have the size, elements, membership and indexing of the integer interval; enumeration pairs every item "
  "with its index, in order.  Sets and dictionaries answer membership, lookup, default lookup, insertion, removal, "
  "copying, size and iteration as the Python containers do after every history of operations, and copies are "
  "independent.",
  ["histories", "inputs"],
  "all small ranges over three integer types, all sequences of up to 4 items, every history of up to 6 operations",
  "Tests iterate over a few containers.",
  [I + "py2cpp/py2cpp.hpp"], [("range, enumerate, set, dict", I + "py2cpp/py2cpp.hpp")]),
P("C24", "Graphs hold exactly the nodes, edges and data put into them",
  "After any history of adding edges (with or without data), moving and clearing, a graph answers node and edge "
  "membership, neighbours, successors, degrees, counts, edge data, views and iteration as the mathematical graph does, "
  "directed or undirected; adding an edge again changes nothing but its data.  A name or attribute given to it is kept "
  "until the graph is cleared.  The adaptor of Boost graphs shows their nodes, edges and neighbours likewise, parallel "
  "edges included.  Negative cycles are found on these graphs as on any other.",
  ["histories", "programs"],
  "every history of 4..5 (up to 6) operations on 2..3 nodes for four kinds of graph, then naming, moving and clearing; "
  "every sequence of 4 (5..6) edges through the adaptor on directed, undirected and bidirectional Boost graphs; all small weighted digraphs; families of up to 130 nodes",
  "Tests build one or two graphs and iterate over them.",
  [I + "xnetwork/classes/graph.hpp", I + "xnetwork/classes/digraphs.hpp", I + "xnetwork/classes/coreviews.hpp", I + "py2cpp/nx2bgl.hpp"],
  [("add_edge and friends", I + "xnetwork/classes/graph.hpp, digraphs.hpp")]),
P("C25", "Monomials and posynomials evaluate, combine and differentiate correctly",
  "Sums, products, quotients, scalings and powers of monomials and posynomials, in any sequence and including an "
  "object combined with itself, have the value that the algebra gives; the log-sum-exp form and its gradient have the "
  "values of the mathematical function at every point, however different the sizes of the terms are.",
  ["inputs", "histories"],
  "all pairs of small monomials x every operation; every history of 2 (3) operations out of 12 on posynomials with up "
  "to 3 terms and 3 variables, and sums of up to 40 terms of very different size in 6 variables, evaluated on a grid",
  "No test instantiates most of these members.",
  [I + "ellip/monomial.hpp", I + "ellip/posynomial.hpp"],
  [("operators, lse, lse_gradient", I + "ellip/monomial.hpp, posynomial.hpp")],
  [FP, "no overflow or underflow; a posynomial is not multiplied by one of its own terms by reference"]),
P("C26", "Site layouts and sample covariances are what they say",
  "The generator of sites returns every point of the even grid over the 10 by 8 field once.  The generator of sample "
  "covariances returns, for any sites and any number of samples, a symmetric positive semidefinite matrix of rank at "
  "most the number of samples, the same one on every call, and one that agrees with the exponential kernel "
  "4 exp(-0.3 d) of the distance d up to the statistical error of the number of samples.",
  ["inputs"],
  "grids of 2..9 x 2..9 sites; 1..10 (16) sites in four layouts x 1..3000 samples",
  "The tests draw two covariances and only use them as data of a fit.",
  [S + "lsq_corr_ell.cpp"],
  [("create_2d_sites, create_2d_isotropic", S + "lsq_corr_ell.cpp")],
  ["the statistical error is accepted up to six standard deviations; the sequence of draws is fixed by the seed"]),
P("C27", "No operation leaves defined behaviour",
  "On every valid input, no operation of the library reads or writes outside the objects it was given or owns, uses an "
  "object before it was written or after it was destroyed, overflows an integer, shifts or divides by an impossible "
  "amount, fails an assertion of its own or of the containers it uses, or fails to return.  This holds for every "
  "history of calls on one object and for objects that were copied, moved or used as the source of a range.",
  ["inputs", "histories", "configurations"],
  "the scenarios of C01-C26 again, each with every execution that has at most K choices other than the first "
  "alternative (K per scenario and tier in san_plan.txt; no limit where that is affordable), on a build with the address "
  "and undefined-behaviour sanitizers and checked standard containers",
  "The tests run without sanitizers on a few inputs; an index one past the end of a heap block, or a reference into a "
  "container that was moved away, usually reads a plausible value there.",
  [S + "ell.cpp", S + "ell_stable.cpp", S + "lmi_oracle.cpp", S + "lsq_corr_ell.cpp", I + "ellcpp/oracles/ldlt_ext.hpp",
   I + "netoptim/neg_cycle.hpp", I + "netoptim/parametric.hpp", I + "netoptim/min_cycle_ratio.hpp", I + "py2cpp/py2cpp.hpp",
   I + "xnetwork/classes/graph.hpp", I + "ellip/posynomial.hpp"],
  [("index arithmetic over rows, nodes, frequencies and knots", S + "*.cpp, oracles/*.hpp"),
   ("lifetimes of ranges, iterators and copied oracles", I + "py2cpp/py2cpp.hpp, xnetwork/classes/graph.hpp")],
  ["what is undefined without being caught by the sanitizers is not seen", "leaks are not reported"],
  technique="bounded exhaustive exploration (stateless model checking, deviation-bounded) of the real code under "
            "sanitizer monitors"),
]


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
            f.write(json.dumps(o) + "\n")
    tech = "bounded exhaustive exploration (stateless model checking) of the real code against a reference model"
    built = [p for p in PROPS if p["built"]]
    json.dump({p["id"]: {"assumptions": p["assume"]} for p in built}, open(HERE + "/checks.json", "w"), indent=1)
    m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py && g++ --version",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                     "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                     "technique": p["technique"] or tech, "level": "model_checking",
                     "level_note": NOTE} for p in built],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["built"]],
         "notes": "No hooks: the checks compile /repo's working tree as it is, with the harnesses in harness/."}
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")


main()
