"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
B = "blueprint/src/python/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[B + f for f in files],
            state=[dict(name=a, meaning=b, where=B + c) for a, b, c in state],
            mechanism=[dict(name=a, where=B + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Intervals behave exactly as the point sets they denote",
  "An interval built from endpoints and endpoint flags, or parsed from its textual form, contains exactly the points of the set it denotes (degenerate, reversed and unbounded ones included); its length, midpoint and emptiness agree with that set. The intersection of two intervals contains a point exactly when both operands do, and equality coincides with having the same endpoints and flags, all empty intervals being equal. Neither copying nor intersecting changes an operand.",
  ["inputs"], "every pair of intervals with rational or infinite endpoints (shared endpoints, reversed, singletons), every flag combination, every probe point",
  "test_interval samples a handful of literal intervals; the endpoint/flag/degenerate combinations of intersect and contains are not enumerated.",
  ["functions.py"], [("Interval.intersect / contains / is_empty / parse", "functions.py")],
  observe=["Interval.contains", "Interval.intersect", "Interval.parse", "Interval.is_empty"])
p("C02", "Minimum and maximum of labelled affine pieces are exact and attributed",
  "Combining two affine functions by minimum or maximum over a domain yields pieces that are pairwise disjoint, stay inside the domain and the operands' domains, and together cover every point of the domain where at least one operand is defined. At every point the value is the exact minimum (maximum) of the operands defined there. Every piece agrees, with its own label, with the operand that carries that label.",
  ["inputs"], "all pairs of rational affine functions and domains, including parallel, touching, identical, singleton-domain, disjoint-domain and open/closed endpoint cases, and repeated folding over many functions",
  "no test exercises the merge; correctness depends on ties, endpoint flags and singleton domains.",
  ["functions.py", "bound_beta.py"], [("Affine.compare_with / min_with / max_with", "functions.py"), ("compute_best_beta_bounds folding", "bound_beta.py")],
  observe=["Affine.min_with", "Affine.max_with", "Affine.at"])
p("C03", "Two-variable affine piecewise functions are minimised, cropped, scaled exactly",
  "For affine functions of two variables on polygons, the minimum of two functions, the minimum of two piecewise functions, cropping to a polygon, and simplifying each produce a piecewise function which at every interior point of its cells equals the exact pointwise result, is defined exactly where it should be (up to cell boundaries), and whose cells do not overlap in their interiors. Under these operations labels stay with the function they came from; rescaling a variable rescales the domains and keeps the coefficients. The defect check accepts exactly the functions that are single valued and defined on the whole probed window.",
  ["inputs"], "all rational affine functions of two variables on convex rational polygons and all compositions of minimum, crop, scale and simplify",
  "one smoke test at two fixed triangles; cover and overlap of arbitrary arrangements are not tested.",
  ["functions.py", "polytope.py"], [("Affine2.min_with/intersection/scale, Piecewise.crop/min_with/simplify/check", "functions.py")],
  observe=["Piecewise.at", "Affine2.at"])
p("C04", "Rational functions form an exact field with faithful evaluation and parsing",
  "Sums, differences, products, quotients (by functions or numbers) of rational functions evaluate, at every rational point that is not a pole, to exactly the corresponding operation on the operands' values, with no rounding for rational data. Equality holds exactly when two functions are the same element of the field, and parsing an expression gives the function that expression denotes, while the printed form, read as algebra, denotes the function. Operations with unsupported operands raise an error rather than return a value, and operands are never changed.",
  ["inputs"], "all rational functions over the rationals with small degree, all numbers, all expressions in one variable",
  "the single stable test prints one function; arithmetic is untested.",
  ["functions.py"], [("RationalFunction.add/subtract/mul/div/at/parse/__eq__", "functions.py"), ("SympyHelper.to_frac", "functions.py")],
  observe=["RationalFunction.at", "RationalFunction arithmetic operators"])
p("C05", "Minimum and maximum of rational functions over an interval are exact",
  "The pointwise minimum (maximum) of a collection of rational functions, each with its own domain, over an interval is returned as adjacent pieces covering every point of the interval; at every point other than the finitely many breakpoints a piece has the minimum (maximum) of the functions defined there, and a large placeholder value where none is defined. With dependency tracking, the function a piece is attributed to is defined there and attains that value. Extremum, root and intersection queries on an interval return the true extremal value and exactly the true points.",
  ["inputs"], "all finite collections of pole-free rational functions of degree at most two in numerator and denominator, all sub-interval domains, all query intervals",
  "no test; breakpoints are algebraic numbers and depend on the arrangement of all crossings.",
  ["functions.py", "zero_density_estimate.py"], [("RationalFunction._compute_optimal/min/max/intersections/roots/maximise/minimise", "functions.py")],
  observe=["RationalFunction.min", "RationalFunction.max", "RationalFunction.intersections", "RationalFunction.roots", "RationalFunction.maximise"])
p("C06", "Polynomial arithmetic is exact and printing is faithful",
  "Addition, subtraction and multiplication of polynomials evaluate to the same operation on values at every point, in canonical form (no trailing zero coefficients), so equal polynomials compare equal and the degree is that of the function. The printed form of a polynomial denotes that polynomial when read as ordinary algebra, and so does that of a quotient of two. Operands are never changed and unsupported operands are rejected with an error.",
  ["inputs"], "all polynomials with integer or rational coefficients, including zero, cancelling leading terms, interior zero coefficients and negative constants",
  "tests cover four literal polynomials.",
  ["polynomial.py"], [("Polynomial.add/subtract/multiply/to_str/degree", "polynomial.py")],
  observe=["Polynomial operators", "str(Polynomial)"])
p("C07", "Polytope queries decide membership, emptiness, inclusion and cover correctly",
  "A polytope given by linear inequalities and equalities contains exactly the points satisfying all of them; intersections (of two or many) contain exactly the common points, and rectangles and vertex hulls contain exactly the points they should. Emptiness (with or without boundary), full dimensionality, equality and inclusion in another polytope are answered according to the actual point sets, bounded or unbounded. For a non-empty family the cover query answers true exactly when the polytope minus the union of the others has no full-dimensional part.",
  ["inputs"], "all rational polytopes in up to four dimensions including unbounded, degenerate, empty, lower-dimensional and equality-constrained ones, and all finite families of them",
  "tests use a few literal boxes and polygons; decisions depend on LP status, degeneracy and pruning order.",
  ["polytope.py"], [("Polytope.contains/intersect/intersection/is_empty/is_subset_of/is_covered_by/__eq__/is_full_dim", "polytope.py")],
  observe=["Polytope.contains", "Polytope.is_empty", "Polytope.is_subset_of", "Polytope.is_covered_by"])
p("C08", "Polytope difference partitions and union succeeds exactly when convex",
  "Subtracting one polytope from another yields polytopes that lie in the first, have interiors disjoint from the second and from each other, and together with the second cover the first. The union attempt on a family of bounded full-dimensional polytopes returns their exact union when that union is convex and nothing otherwise. Neither operation changes its operands.",
  ["inputs"], "all pairs of rational polytopes for difference; all families of up to five bounded rational polytopes in two and three dimensions for union",
  "tests check a few literal unions; convexity of unions is a property of the arrangement.",
  ["polytope.py"], [("Polytope.set_minus", "polytope.py"), ("Polytope.try_union", "polytope.py")],
  observe=["Polytope.set_minus", "Polytope.try_union"])
p("C09", "Polytope transformations map the point set as specified",
  "Scaling one or all coordinates, fixing coordinates, projecting onto coordinates and lifting into a higher dimension produce polytopes whose points are exactly the image (or preimage) of the original set. Vertices and edges are exactly those of the set, a hyperplane is reported as meeting a bounded polytope exactly when it cuts it, and the centroid lies inside. Copies denote the same set with the same label and the source is unchanged.",
  ["inputs"], "all rational polytopes up to four dimensions, nonzero scale factors of either sign, all coordinate subsets and permutations, additional constraints",
  "tests cover one lift, one substitute and one scale.",
  ["polytope.py"], [("Polytope.scale/scale_all/substitute/project/lift/get_vertices/get_edges/get_centroid/intersects/__copy__", "polytope.py")],
  observe=["Polytope.scale", "Polytope.project", "Polytope.lift", "Polytope.substitute", "Polytope.get_edges"])
p("C10", "Region expressions are Boolean combinations and every rewrite preserves them",
  "Membership in a region built by union, disjoint union, intersection and complement of polytopes equals the Boolean combination of memberships. Converting to a disjoint union, simplifying, substituting, scaling, lifting and (for unions of bounded polytopes) projecting act on the denoted set exactly (up to the boundaries of cells), and the cells of a disjoint union do not overlap in their interiors. Inclusion between regions, where supported, is answered according to the point sets.",
  ["inputs", "programs"], "all region expression trees of moderate depth over rational polytopes in two and three dimensions, with repeated, nested, empty and redundant children",
  "the region tests are not among the stable ones and use a few literal polygons; simplification order and pruning depend on the arrangement.",
  ["region.py", "polytope.py"], [("Region.contains/as_disjoint_union/_as_disjoint_union_poly/simplify/substitute/scale_all/lift/project/is_subset_of/from_union_of_halfplanes", "region.py")],
  observe=["Region.contains", "Region.as_disjoint_union"])
p("C11", "Tracked dependencies of region cells suffice to derive the cell",
  "When a region is converted to disjoint cells with dependency tracking, the labels recorded on each cell name only sources that took part in the computation. When the result is not empty, discarding every source not named on any cell still yields a region contained, up to boundaries, in the computed one for intersections. Each cell is contained in the union of its named sources. A derived estimate therefore never rests on an uncited source.",
  ["inputs", "programs"], "all intersections of labelled unions of polytopes and unions of labelled polytopes, including nested, empty, redundant and identical ones",
  "no test looks at labels; soundness depends on which pieces are pruned and merged.",
  ["region.py", "zero_density_estimate.py"], [("Region._as_disjoint_union_poly track_dependencies", "region.py"), ("compute_large_value_region", "zero_density_estimate.py")],
  state=[("Polytope.label", "set of sources a cell depends on", "polytope.py")],
  observe=["Region.as_disjoint_union(track_dependencies=True)"])
p("C12", "Hypothesis collections filter, find and accumulate consistently",
  "A collection of hypotheses behaves as a set under any sequence of additions, copies and queries: adding, iterating, counting and listing agree with the set of distinct hypotheses added, and a copy evolves independently. Listing by type and year returns exactly the members of that type published no later than that year (derived and classical ones always kept, conjectures and undated ones dropped when a year is asked for), and finding by keyword, name or type returns a member satisfying the request or nothing. Repeated and nested iteration always visits every member.",
  ["histories"], "all sequences of add, add many, copy, list, find, iterate operations over hypotheses of arbitrary type, year and name",
  "no test covers the collection class.",
  ["hypotheses.py", "reference.py"], [("Hypothesis_Set add_hypothesis/add_hypotheses/list_hypotheses/find_hypothesis/__copy__/__iter__", "hypotheses.py"), ("Hypothesis.is_match", "hypotheses.py")],
  state=[("Hypothesis_Set.hypotheses", "the members", "hypotheses.py")],
  observe=["Hypothesis_Set.list_hypotheses", "Hypothesis_Set.find_hypothesis", "len / iteration"])
p("C13", "Proof bookkeeping: dependency closure, complexity and date",
  "The recursive dependencies of a hypothesis are exactly those reachable through dependency links, each once, however shared the graph is. Proof complexity and proof date follow from the dependency graph: the complexity is one plus the sum of the complexities of the direct dependencies, and the date is the latest year among everything it rests on (undated counting as -1). Textual proof listings mention every dependency.",
  ["inputs", "programs"], "all acyclic dependency graphs with shared nodes, mixed literature, derived, classical, trivial and conjectural references",
  "no test touches proofs.",
  ["hypotheses.py", "reference.py"], [("Hypothesis.recursive_dependencies/proof_complexity/proof_date", "hypotheses.py"), ("Reference.max_year", "reference.py")],
  state=[("Hypothesis.dependencies", "edges of the proof graph", "hypotheses.py")],
  observe=["Hypothesis.recursive_dependencies", "Hypothesis.proof_complexity", "Hypothesis.proof_date"])
p("C14", "Best growth-exponent bounds equal the convex envelope of what is known",
  "The best bound at a point equals the lower convex envelope of all known point bounds, the bounds obtained from exponent pairs, the trivial bounds and the reflections of all of these under the functional equation; it is valid (its proof combines only its dependencies) and exact. The piecewise form agrees with the pointwise form on the whole requested interval, its right end excluded. A proof request succeeds exactly when the claimed bound is implied, and returns a bound at the requested point no worse than the claim.",
  ["inputs", "configurations"], "all sets of rational bounds and exponent pairs, all rational points including outside the critical strip, all intervals",
  "no test covers these functions.",
  ["bound_mu.py"], [("best_mu_bound / best_mu_bound_piecewise / prove_mu_bound / apply_functional_equation / apply_mu_convexity / trivial_mu_bound", "bound_mu.py")],
  observe=["best_mu_bound", "best_mu_bound_piecewise", "prove_mu_bound"])
p("C15", "Derived answers depend only on the hypotheses, not on query history",
  "A computation over a hypothesis collection returns the same result whatever other queries were made before on it, on a copy of it or on any other collection, and after any hypothesis is added it returns what a freshly built collection with the same members would. Copies never see each other's later additions. Results do not depend on the order in which hypotheses were added.",
  ["histories"], "all interleavings of additions, copies and queries of the different families (growth exponents, exponent pairs, exponential sums, large values)",
  "caching bugs need a particular sequence of operations; no test has more than one query.",
  ["hypotheses.py", "bound_mu.py", "exponent_pair.py"], [("Hypothesis_Set.data cache and invalidation", "hypotheses.py"), ("cached convex hulls", "bound_mu.py"), ("cached convex hulls", "exponent_pair.py")],
  state=[("Hypothesis_Set.data / data_valid", "memoised derived objects", "hypotheses.py")],
  observe=["best_mu_bound", "exponent-pair hull", "compute_best_beta_bounds"])
p("C16", "Exponent pairs are generated soundly and completely",
  "Each transform maps an exponent pair to the pair given by its formula. Expanding a collection to a given depth yields all pairs reachable by at most that many transform applications from known pairs (their convex hull when pruning), and only pairs reachable from known pairs, each with a proof whose dependencies reproduce it. The convex hull of the pairs contains every pair and has only pairs as vertices, and every generated pair stays in the admissible triangle.",
  ["inputs", "configurations"], "all starting sets of rational pairs in the admissible triangle, all subsets of transforms, all search depths and pruning options",
  "the single stable test checks one application of each transform.",
  ["exponent_pair.py", "transform.py", "literature.py"], [("compute_exp_pairs / compute_convex_hull", "exponent_pair.py"), ("van der Corput A, B, Sargos C transforms", "literature.py")],
  observe=["compute_exp_pairs", "compute_convex_hull", "Transform.transform"])
p("C17", "Exponent-pair proofs exist exactly for implied pairs and cite what proves them",
  "Asking for the proof of an exponent pair returns a hypothesis for that very pair whose dependencies are known pairs having it in their convex hull, whenever the pair is implied, and nothing otherwise. Converting exponential-sum bounds to exponent pairs yields exactly the vertices of the region of pairs those bounds imply. Every optimisation mode returns a valid proof, and optimising the date returns one with the least possible proof date.",
  ["inputs", "configurations"], "all finite sets of pairs and target pairs, all optimisation modes, all piecewise exponential-sum bounds covering the needed range",
  "no test covers proofs.",
  ["exponent_pair.py"], [("construct_proof / find_best_proof / in_triangle / beta_bounds_to_exponent_pairs", "exponent_pair.py")],
  observe=["find_best_proof", "beta_bounds_to_exponent_pairs"])
p("C18", "Best exponential-sum bounds are the pointwise minimum with true provenance",
  "The best exponential-sum bounds computed from a collection form disjoint pieces covering every point of the requested range at which some bound is known, and at each point give exactly the least of the known bounds. Each piece cites a hypothesis that itself gives that value there. Exponent pairs convert to the exponential-sum bound given by their formula, together with those given by the pair-to-bound transforms of the collection, each citing the pair (and transform) it came from.",
  ["inputs", "configurations"], "all finite families of affine bounds on sub-intervals of [0,1] and of exponent pairs; all requested ranges",
  "no test covers it.",
  ["bound_beta.py", "functions.py"], [("compute_best_beta_bounds / exponent_pairs_to_beta_bounds / derived_bound_beta", "bound_beta.py")],
  observe=["compute_best_beta_bounds", "exponent_pairs_to_beta_bounds"])
p("C19", "Large value estimates denote the region their bounds describe, and its powers",
  "A large value estimate given as a maximum of affine bounds denotes exactly the points of the standing domain with the third coordinate at most one of the bounds, as disjoint cells. Raising an estimate to the k-th power yields exactly the points whose second and third coordinates divided by k lie in the original. Each derived estimate cites its parent.",
  ["inputs"], "all finite lists of rational affine bounds, all integer powers, all points of the domain",
  "no test covers these conversions.",
  ["large_values.py"], [("convert_bounds / literature_bound_LV_max / raise_to_power_hypothesis", "large_values.py")],
  observe=["Large_Value_Estimate.region", "raise_to_power_hypothesis"])
p("C20", "Zeta large value estimates follow from their sources exactly",
  "Large value estimates, exponential-sum bounds and growth-exponent bounds convert to zeta large value estimates whose region is exactly the one implied by the source at every point with the second coordinate at least two, or within the range each piece of the source covers. Points excluded by the result are really excluded by the source, and points the source excludes are excluded. Each result cites the source it came from.",
  ["inputs"], "all large value estimates, all piecewise exponential-sum bounds and all growth-exponent bounds over the rationals",
  "no test covers it.",
  ["zeta_large_values.py"], [("lv_to_zlv / beta_to_zlv / mu_to_zlv", "zeta_large_values.py")],
  observe=["lv_to_zlv", "beta_to_zlv", "mu_to_zlv"])
p("C21", "Combined large value region is the exact intersection, soundly cited",
  "The large value region computed over a domain from a collection contains a point exactly when every estimate of the collection, every estimate its transforms produce and (if requested) every zeta estimate contains it, up to cell boundaries, and its cells do not overlap. The citations suffice: intersecting only the cited estimates excludes every point the result excludes. The computation leaves the collection and its estimates unchanged and can be repeated with the same result.",
  ["inputs", "histories"], "all finite collections of estimates and domains, repeated in any order",
  "no test covers it; soundness depends on pruning and merging.",
  ["zero_density_estimate.py", "region.py", "zeta_large_values.py"], [("compute_large_value_region", "zero_density_estimate.py")],
  observe=["compute_large_value_region"])
p("C22", "Zero density bounds derived from large value regions equal the exact suprema",
  "The supremum of the ratio of the third to the second coordinate over each vertical slice of a union of polytopes is returned as pieces covering the interval where it is defined, exact at every point. The zero density bound derived from a large value region and a zeta large value region equals at every point of the interval the larger of the two suprema divided by one minus the abscissa. It is stated only on the part of the interval where the inputs determine it.",
  ["inputs"], "all finite unions of bounded rational polytopes in three dimensions away from zero second coordinate, all intervals",
  "no test covers it.",
  ["zero_density_estimate.py", "functions.py"], [("compute_sup_rho_on_tau / lv_zlv_to_zd / lv_zlv_to_zd2", "zero_density_estimate.py")],
  observe=["compute_sup_rho_on_tau", "lv_zlv_to_zd"])
p("C23", "Best zero density and energy tables are pointwise minima with true provenance",
  "The table of best zero density estimates (and of additive energy estimates) lists consecutive pieces covering the critical range, and at every point gives exactly the least of all known estimates valid there, with the estimate it cites being valid and attaining the value there. Adding an estimate never makes the table worse anywhere. Merging neighbouring pieces never changes the function or its citations.",
  ["inputs", "configurations"], "all finite collections of rational-function estimates on intervals, including overlapping, touching and equal ones",
  "no test covers it.",
  ["zero_density_estimate.py", "zero_density_energy_estimate.py"], [("best_zero_density_estimate / simplify", "zero_density_estimate.py"), ("compute_best_energy_bound / add_trivial_zero_density_energy_estimates", "zero_density_energy_estimate.py")],
  observe=["best_zero_density_estimate", "compute_best_energy_bound"])
p("C24", "Exponent pairs convert to valid zero density estimates",
  "Zero density estimates obtained from exponent pairs have the value and the range of validity given by the classical formulas for the pair they cite, and can be evaluated anywhere on their range. The estimates cite exactly the pairs they came from. No pair outside the hypotheses of the formula is used.",
  ["inputs"], "all sets of rational exponent pairs and parameters of the conversion",
  "no test covers it.",
  ["zero_density_estimate.py"], [("ivic_ep_to_zd / bourgain_ep_to_zd / ep_to_zd", "zero_density_estimate.py")],
  observe=["ivic_ep_to_zd", "bourgain_ep_to_zd"])
p("C25", "Large value energy regions transform and combine soundly",
  "Energy regions derived from exponent pairs, large value estimates, raising to a power and literature denote exactly the stated sets in the five coordinates. Combining them gives their intersection over the domain, and projecting an energy region to a large value or additive energy estimate gives exactly the shadow of the set. Each derived region cites its sources and no source is modified.",
  ["inputs", "histories"], "all exponent pairs, estimates, powers and finite families of bounded regions over the rationals",
  "no test covers it.",
  ["additive_energy.py"], [("ep_to_lver / lv_to_lver / get_raise_to_power_hypothesis / compute_best_lver / lver_to_lv / lver_to_energy / compute_LV_star", "additive_energy.py")],
  observe=["ep_to_lver", "lv_to_lver", "compute_best_lver", "lver_to_lv", "lver_to_energy"])
p("C26", "Additive energy bounds derived from energy regions equal the exact suprema",
  "The supremum of the energy ratio over each vertical slice of an energy region is returned exactly at every point where it is defined, on pieces covering that set. The zero density energy bound derived from an energy region and a zeta energy region is at every point exactly the larger supremum divided by one minus the abscissa. The trivial energy estimate added for a zero density estimate is exactly thrice that estimate on its range and cites it; besides these only 3/(1-x) on [1/2,1] is added.",
  ["inputs"], "all finite unions of bounded rational energy polytopes with positive second coordinate, all intervals",
  "no test covers it.",
  ["zero_density_energy_estimate.py"], [("compute_sup_LV_on_tau / lver_to_energy_bound / add_trivial_zero_density_energy_estimates", "zero_density_energy_estimate.py")],
  observe=["compute_sup_LV_on_tau", "lver_to_energy_bound"])
p("C27", "The prime gap exponent is the true supremum of its inputs' expression",
  "The exponent computed for the second moment of prime gaps from zero density and energy estimates equals the supremum over the critical range of the defining expression evaluated with the best estimates. It never goes below the value of the expression at any abscissa where the best energy estimate exceeds the best density estimate. The per-interval suprema reported are the true ones.",
  ["inputs", "configurations"], "all collections of zero density and energy estimates covering the range",
  "no test covers it.",
  ["prime_gap.py"], [("compute_gap2", "prime_gap.py")],
  observe=["compute_gap2"])
p("C28", "Bibliography lookups and literature records are consistent",
  "Parsing a bibliography yields for every entry its label, type and complete fields regardless of nesting of braces, line breaks, case and stray text, with year and author surnames extracted. Lookup by label, author and year returns exactly the matching entries. Every literature hypothesis carries a reference with a printable label, a well-formed domain and a statement consistent with its evaluation, agreeing with the theorem the blueprint records for that source and never claiming more than it does.",
  ["inputs", "configurations"], "all well-formed bibliography files and every recorded literature hypothesis",
  "no test covers parsing of references.",
  ["reference.py", "literature.py"], [("Reference_Manager.load/_parse/find_all/get", "reference.py"), ("literature tables", "literature.py")],
  observe=["Reference_Manager.load", "Reference_Manager.find_all", "literature hypotheses"])
p("C29", "Stated estimates evaluate to what their text says, on their range only",
  "A zero density, energy, exponential-sum or growth-exponent estimate evaluates, at every point of its range, to the value of the expression it displays, and is undefined off its range. Building an estimate from an expression, from a function or through the convenience constructors gives the same estimate, whether or not it was evaluated before. Invalid expressions, types or ranges are rejected with an error.",
  ["inputs"], "all rational expressions and intervals, all constructors, every recorded estimate",
  "no test covers estimates.",
  ["zero_density_estimate.py", "zero_density_energy_estimate.py", "bound_beta.py", "bound_mu.py"], [("Zero_Density_Estimate / Zero_Density_Energy_Estimate construction and at", "zero_density_estimate.py"), ("lazy evaluation", "zero_density_energy_estimate.py")],
  observe=["Zero_Density_Estimate.at", "str of estimates"])
p("C30", "Queries never modify their inputs",
  "No query, conversion or derivation changes the sets, values, texts, citations or labels denoted by the polytopes, regions, functions, hypotheses or collections it is given; only operations documented to add to a collection do so, and then they only add. Running the same derivation twice in one process on the same inputs gives equal results. Copies and newly derived objects (operands returned as they are excepted) can be changed without affecting the objects they came from.",
  ["histories", "programs"], "all sequences of public operations on shared operands",
  "aliasing shows only when operands are shared across several operations; tests build fresh operands each time.",
  ["polytope.py", "region.py", "functions.py", "hypotheses.py", "zero_density_estimate.py", "additive_energy.py"], [("copying of polytopes and regions", "region.py"), ("labels", "polytope.py")],
  observe=["fingerprints of operands before and after each public operation"])
p("C31", "The recorded derivations reproduce the published theorems",
  "Running each shipped derivation end to end yields the bound on the range stated by the theorem it claims to prove. The result's recursive dependencies include the literature estimates the theorem rests on and nothing published later. While they run, every intermediate polytope, region and piecewise operation satisfies its own specification.",
  ["programs", "configurations"], "every shipped derivation script that finishes within the budget, in any order in one process",
  "no test runs a derivation.",
  ["derived.py"], [("prove_* functions", "derived.py")],
  observe=["return values of derivations", "online monitors on all piecewise and polyhedral operations"])
p("C32", "Printed constraints, polytopes and estimates denote the objects they describe",
  "The textual form of a linear constraint, hyperplane, polytope, affine function or large value estimate, read as ordinary algebra, denotes exactly that object: same variables, signs, coefficients and relation. No term is dropped, and a zero or constant expression is still printed. Printing never fails for a constructible object and never changes it.",
  ["inputs"], "all rational coefficient vectors including zeros, units and negatives, and all region trees",
  "tests compare two literal strings.",
  ["polytope.py", "functions.py", "region.py", "helpers/str_helper.py"], [("Constraint.__repr__, Polytope.to_str, Affine.to_str, Affine2.to_string, Region.to_str", "polytope.py"), ("Str_Helper.format", "helpers/str_helper.py")],
  observe=["str() of public objects"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
