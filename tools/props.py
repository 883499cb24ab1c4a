#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: `python3 tools/props.py` rewrites it."""
import json, os

P = []

def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "Boolean algebra of sets and relations is exact",
  "For all sets and binary relations of integer points described by affine constraints with parameters and integer divisions, the results of intersection, union, disjoint union, difference, complement, domain/range/parameter intersection and subtraction, and their basic-set, union-set and union-map counterparts contain exactly the points that the pointwise Boolean definition requires. This holds whatever sequence of operations produced the operands.",
  ["inputs", "histories"],
  "every operand description and every sequence of Boolean operations over them",
  "isl_test checks a few hand-written intersections, unions and differences; exactness has to hold for every combination of constraints, existentially quantified variables and disjuncts, and for operands with any internal state left by earlier operations.",
  ["isl_map.c", "isl_map_subtract.c", "isl_union_map.c", "isl_map_simplify.c", "isl_tab.c"],
  [("isl_map_intersect / isl_basic_map_intersect / isl_map_union / isl_map_union_disjoint", "isl_map.c"),
   ("isl_map_subtract via incremental tableau and backtracking", "isl_map_subtract.c:map_subtract"),
   ("per-space hash table dispatch of union operations", "isl_union_map.c:match_bin_op / gen_bin_op")],
  [("basic map constraints/divs", "conjunction of equalities and inequalities over params, in, out and integer divisions", "isl_map_private.h:struct isl_basic_map"),
   ("flags ISL_BASIC_MAP_*, ISL_MAP_DISJOINT, ISL_MAP_NORMALIZED", "cached facts about the representation", "isl_map_private.h")],
  ["isl_set_foreach_basic_set + constraint matrices", "isl_map_foreach_basic_map"])

prop("C02", "Relational operators compute exact integer images",
  "For all relations and sets, projection, elimination, domain, range, reversal, application (to domain, range or set), products and their factors, currying, zipping, wrapping, flattening, deltas, lifting, dimension insertion/moving/fixing/equating/ordering, identity and lexicographic-order relations, and preimages denote exactly the integer tuples that the relational definition gives, including integer (not merely rational) existential quantification.",
  ["inputs", "histories"],
  "every relation/set and every composition of the relational operators",
  "Tests sample a handful of relations; integer-exact projection in particular depends on the interplay of divisions, equalities and bounds, whose combinations are unbounded.",
  ["isl_map.c", "isl_union_map.c", "isl_space.c", "isl_map_simplify.c", "isl_affine_hull.c"],
  [("isl_basic_map_apply_range / isl_basic_map_project_out / isl_basic_map_product / isl_map_deltas / isl_map_move_dims", "isl_map.c"),
   ("isl_basic_map_drop_redundant_divs (integer exactness of dropped existentials)", "isl_map_simplify.c"),
   ("isl_union_map_apply_range and friends", "isl_union_map.c")],
  None, ["isl_map_foreach_basic_map"])

prop("C03", "Queries about sets and relations are answered exactly",
  "For all sets and relations, emptiness, universality, equality, (strict) subset, disjointness, single-valuedness, injectivity, bijectivity, identity, at-most-one-element, and boundedness queries return true exactly when the mathematical statement about integer points is true, and never fail on well-formed input. The cheap variants are one-sided: when a plain query claims a fact (equal, empty, universe, disjoint, single-valued, injective, fixed value) that fact is true, and a dimension that has a bound is never reported as having none.",
  ["inputs", "histories"],
  "every pair of operands, in every internal representation reachable by earlier operations",
  "A wrong answer needs a specific shape (an integer-empty but rationally non-empty set, a cached flag or sample that has become stale); tests check fixed examples once.",
  ["isl_map.c", "isl_map_subtract.c", "isl_sample.c", "isl_tab.c", "isl_union_map.c", "isl_convex_hull.c"],
  [("isl_basic_map_is_empty with cached sample point", "isl_map.c"),
   ("isl_map_is_subset / isl_basic_map_is_subset", "isl_map_subtract.c, isl_map.c"),
   ("isl_map_is_single_valued, isl_map_is_injective", "isl_map.c"),
   ("isl_basic_set_sample_vec (generalised basis reduction)", "isl_sample.c")],
  [("bmap->sample", "cached point used to answer emptiness", "isl_map_private.h")],
  ["return values of the query functions"])

prop("C04", "Changing the representation of a set never changes the set",
  "For all sets and relations, coalescing, detecting equalities, removing redundancies, computing or aligning integer divisions, making the disjuncts disjoint, gathering into or splitting from basic sets, dropping or resetting names, and parameter alignment yield an object with exactly the same integer points. Coalescing never increases the number of disjuncts and disjunct-disjointness is really achieved.",
  ["inputs", "histories"],
  "every set or relation (any number of disjuncts, integer divisions, equalities) and every order in which the transformations are applied",
  "Coalescing alone has about a dozen cases depending on the relative position of two polyhedra; tests list known past bugs, not the space of configurations.",
  ["isl_coalesce.c", "isl_map_simplify.c", "isl_affine_hull.c", "isl_convex_hull.c", "isl_map.c", "isl_local_space.c"],
  [("isl_map_coalesce (fuse, wrap, adjacent, contained, separating cases)", "isl_coalesce.c:coalesce_local_pair"),
   ("isl_basic_map_simplify / normalize / gauss / drop_redundant_divs", "isl_map_simplify.c"),
   ("isl_basic_map_detect_equalities", "isl_affine_hull.c"), ("isl_map_remove_redundancies", "isl_convex_hull.c"),
   ("isl_map_make_disjoint", "isl_map_subtract.c"), ("isl_map_compute_divs", "isl_map.c")],
  None, ["isl_set_foreach_basic_set", "isl_set_n_basic_set"])

prop("C05", "Gist keeps exactly the meaning inside the context",
  "For every set, relation and (piecewise) expression and every context, the gist operations return an object that agrees with the original on every point of the context (result intersected with the context equals the original intersected with the context; an expression keeps its value and definedness there). The parameter, domain and range variants behave the same with respect to their lifted context.",
  ["inputs"],
  "every (object, context) pair, including contexts with integer divisions, several disjuncts and empty contexts",
  "Gist drops or weakens constraints using tableau reasoning on pairs; the pairs that expose an unsound drop are specific and tests hold a finite list.",
  ["isl_map_simplify.c", "isl_map.c", "isl_aff.c", "isl_pw_templ.c", "isl_polynomial.c", "isl_fold.c", "isl_union_map.c"],
  [("isl_basic_map_gist / uset_gist / isl_map_gist_basic_map / isl_basic_set_drop_constraint-based simplification", "isl_map_simplify.c"),
   ("isl_pw_*_gist", "isl_pw_templ.c"), ("isl_aff_gist / isl_qpolynomial_gist", "isl_aff.c, isl_polynomial.c")],
  None, ["evaluation of the result on the context"])

prop("C06", "Hulls contain the set and are as tight as documented",
  "For every set or relation, the simple, unshifted-simple, plain-unshifted-simple, bounded-simple, from-given-constraints, polyhedral, convex and affine hulls and the fixed-size/lattice box hulls contain every integer point of the input. The convex hull of disjuncts without integer-redundant facets contains no integer point outside the rational convex hull of the disjuncts, the affine hull is the smallest affine (lattice) space, constraint-set-based hulls are conjunctions of shifts of given constraints, and the hull of an empty set is empty.",
  ["inputs"],
  "every union of basic sets, bounded or unbounded, with equalities, parameters and integer divisions",
  "Only a dozen polyhedra are hulled in the tests; wrapping of facets and shared-constraint search depend on exact geometry.",
  ["isl_convex_hull.c", "isl_affine_hull.c", "isl_box.c", "isl_stride.c", "isl_map.c", "isl_farkas.c"],
  [("uset_convex_hull / uset_convex_hull_wrap / convex_hull_pair", "isl_convex_hull.c"), ("uset_simple_hull / isl_map_unshifted_simple_hull", "isl_convex_hull.c"),
   ("isl_basic_set_affine_hull / uset_affine_hull_bounded", "isl_affine_hull.c"), ("isl_map_get_range_simple_fixed_box_hull", "isl_box.c")],
  None, ["constraints of the returned basic set"])

prop("C07", "Parametric lexicographic optimisation is exact",
  "For every set or relation, the lexicographic minimum/maximum (as set/map or as piecewise multi-expression, full or partial over a given domain with the empty part returned separately, per basic or general, and the per-dimension minimum/maximum expressions) associate with each parameter/domain value exactly the lexicographically extreme feasible integer tuple, are defined exactly where the input is non-empty, and report exactly the domain part without a solution.",
  ["inputs"],
  "every parametric integer set/relation and every domain, including unions, integer divisions and symmetric constraint pairs",
  "pip_test runs 18 fixed problems; splits, cuts and the parametric context tableau depend on the coefficients of each input.",
  ["isl_tab_pip.c", "isl_tab_lexopt_templ.c", "isl_map.c", "isl_map_lexopt_templ.c", "isl_aff.c", "isl_pw_union_opt.c"],
  [("tab_partial_lexopt / find_solutions / context_lex / context_gbr", "isl_tab_pip.c"), ("isl_map_partial_lexopt with symmetry detection", "isl_tab_lexopt_templ.c"),
   ("isl_set_dim_min/max", "isl_map.c, isl_aff.c"), ("foreach_lexopt", "isl_tab_pip.c")],
  None, ["returned map/pw_multi_aff evaluated per domain point"])

prop("C08", "Integer and rational optimisation, sampling and counting are exact",
  "For every set, the minimum/maximum of an affine objective (integer, via dimension bounds, or rational) is the true optimum, or is reported as unbounded or empty exactly when it is; a sampled point belongs to the set and exists iff the set is non-empty; lexicographic sampling and bounded-domain scanning enumerate each integer point exactly once and counting returns their number. Vertices and boxes of points behave likewise.",
  ["inputs"],
  "every set and every affine objective",
  "Branch-and-bound, cuts, basis reduction and factorisation are chosen by input geometry; tests exercise a few dozen inputs.",
  ["isl_ilp.c", "isl_lp.c", "isl_sample.c", "isl_scan.c", "isl_point.c", "isl_tab.c", "basis_reduction_templ.c", "isl_factorization.c", "isl_equalities.c"],
  [("isl_basic_set_solve_ilp / isl_set_min_val / isl_set_opt_val", "isl_ilp.c"), ("isl_tab_min, isl_basic_map_solve_lp", "isl_tab.c, isl_lp.c"),
   ("isl_tab_sample / basis reduction", "isl_sample.c, basis_reduction_templ.c"), ("isl_basic_set_scan / isl_set_count_val / isl_set_foreach_point", "isl_scan.c, isl_point.c")],
  None, ["isl_val results, callback points"])

prop("C09", "Quasi-affine expression operations are pointwise exact",
  "For all quasi-affine and piecewise quasi-affine expressions, addition, subtraction, negation, scaling, products with constants, floor, ceil, modulo, integer division and remainder (truncating and flooring), minimum, maximum, conditional selection, composition/pullback, domain restriction, and the equal/less/greater/zero/positive sets give at every integer point the value (or membership) that exact rational arithmetic gives, and are defined exactly where the operands are.",
  ["inputs", "histories"],
  "every expression (with nested integer divisions and rational coefficients), every sequence of operations, every evaluation point",
  "Expression simplification (normalising and merging integer divisions, absorbing constants) is value-dependent; tests compare a few expressions structurally.",
  ["isl_aff.c", "isl_local_space.c", "isl_pw_templ.c", "isl_pw_eval.c", "isl_aff_map.c"],
  [("isl_aff_floor / isl_aff_mod_val / isl_aff_add with div merging", "isl_aff.c"), ("isl_pw_aff_* via piece-wise intersection", "isl_pw_templ.c"),
   ("isl_aff_*_set / isl_pw_aff_*_set", "isl_aff.c"), ("isl_aff_eval / isl_pw_aff_eval", "isl_aff.c, isl_pw_eval.c")],
  None, ["coefficients, pieces, isl_*_eval"])

prop("C10", "Tuples and unions of expressions behave as the functions they denote",
  "For all multi-, piecewise-multi-, multi-piecewise- and union-piecewise expressions: composition, products, range/domain factors, union-add, lexicographic and pointwise min/max, intersection and subtraction of domains, sums and scaling are pointwise exact, and conversion to and from relations is lossless (the relation of a function is its graph, a single-valued relation converts to a function with that graph). Explicit domains of zero-dimensional tuples are preserved.",
  ["inputs", "histories"],
  "every tuple of expressions and domain, every sequence of operations",
  "Instantiations of the same template for many types, each with different explicit-domain and space rules; tests hit selected combinations.",
  ["isl_aff.c", "isl_aff_map.c", "isl_multi_templ.c", "isl_pw_templ.c", "isl_pw_union_opt.c", "isl_union_templ.c", "isl_union_multi.c", "isl_multi_union_pw_aff_explicit_domain.c", "isl_multi_explicit_domain.c"],
  [("isl_pw_multi_aff_from_map", "isl_aff.c"), ("isl_multi_pw_aff_* with explicit domain", "isl_multi_explicit_domain.c"), ("isl_union_pw_multi_aff_*", "isl_union_multi.c, isl_union_templ.c"),
   ("isl_pw_*_union_opt", "isl_pw_union_opt.c")],
  None, ["pieces and coefficients"])

prop("C11", "Quasi-polynomial operations are pointwise exact",
  "For all (piecewise, union) quasi-polynomials, sum, difference, product, power, scaling, substitution, dimension moves, restriction, gist, conversion from expressions and evaluation return at every integer point of the domain the exact rational value (zero outside the domain for piecewise sums), and structural queries (degree, constancy, coefficients, terms) agree with that function.",
  ["inputs", "histories"],
  "every quasi-polynomial with integer divisions, every sequence of operations, every point",
  "Recursive polynomial representation is normalised by many local rules; tests contain few algebraic identities.",
  ["isl_polynomial.c", "isl_pw_templ.c", "isl_union_templ.c", "isl_fold.c"],
  [("isl_poly_sum/mul/pow/subs/eval", "isl_polynomial.c"), ("isl_qpolynomial sort/merge of divs (reduce_divs, sort_divs)", "isl_polynomial.c")],
  None, ["isl_pw_qpolynomial_eval, foreach_term"])

prop("C12", "Polynomial bounds are sound, and attained when claimed tight",
  "For every piecewise quasi-polynomial over a bounded domain, the computed upper (lower) bound as a function of the parameters is at least (at most) every value taken on the domain, and when the bound is reported as tight it equals the extreme value. Folds (max/min of polynomials) evaluate to the extreme of their members.",
  ["inputs"],
  "every quasi-polynomial, every bounded domain, every parameter value, both bounding methods",
  "bound_test samples some 25 inputs and checks a bound on limited points.",
  ["isl_bound.c", "isl_range.c", "isl_bernstein.c", "isl_fold.c", "isl_vertices.c"],
  [("isl_pw_qpolynomial_bound / guarded_poly_bound", "isl_bound.c"), ("isl_qpolynomial_bound_on_domain_range", "isl_range.c"), ("Bernstein coefficients over chambers", "isl_bernstein.c")],
  None, ["isl_pw_qpolynomial_fold_eval"])

prop("C13", "Value arithmetic is exact over rationals, infinities and NaN",
  "Every arithmetic, rounding, comparison, gcd/modulo and conversion operation on values yields the mathematically exact, normalised result for all integers and rationals of any size, follows the documented rules for infinity and NaN, and rejects non-integer arguments where integers are required. Reading and printing a value, importing/exporting chunks and doubles are lossless.",
  ["inputs", "histories"],
  "every pair of values, including those straddling machine-word boundaries and special values",
  "isl_test samples a small table of operand pairs.",
  ["isl_val.c", "isl_val_gmp.c", "isl_int_gmp.h", "isl_gmp.c", "isl_multi_templ.c"],
  [("isl_val_add/mul/div/... with special cases", "isl_val.c"), ("isl_val_normalize", "isl_val.c"), ("chunks", "isl_val_gmp.c")],
  None, ["isl_val_get_*, isl_printer_print_val"])

prop("C14", "Text output read back denotes the same object",
  "For every object with a textual form (values, ids, points, spaces, sets, relations, expressions, quasi-polynomials, folds, unions, schedules, schedule constraints, access information, AST-independent YAML), parsing its printed form in the native format yields an object with the same meaning and space including names, and printing is stable under that cycle. The PolyLib, extended PolyLib and constraint formats denote the same set, and C/Omega/LaTeX output of expressions denotes the same value.",
  ["inputs"],
  "every object of every printable type, with and without names, nested tuples, divisions and parameters",
  "Round-tripping is checked in tests for a handful of strings per type.",
  ["isl_output.c", "isl_input.c", "isl_stream.c", "isl_printer.c", "isl_obj.c", "isl_schedule_read.c", "isl_schedule_constraints.c", "isl_flow.c", "print.c"],
  [("isl_printer_print_*", "isl_output.c, isl_printer.c"), ("obj_read / isl_stream_read_*", "isl_input.c"), ("YAML mapping/sequence state machine", "isl_printer.c, isl_stream.c")],
  [("stream token stack, yaml state/indent stack", "pushed-back tokens and YAML nesting", "isl_stream.c")],
  ["isl_*_to_str, isl_*_read_from_str"])

prop("C15", "Any text input is either rejected cleanly or read as documented",
  "For every byte string offered to a reader, the reader either returns the object the documented grammar assigns to it or reports failure; it never crashes, hangs, reads out of bounds, or leaks objects, and the context remains usable afterwards. Operator precedence, chained comparisons, implications, quantifiers, arrays of modulo/floor forms and tuple syntax have their documented meaning.",
  ["inputs"],
  "every token sequence",
  "Tests contain a few malformed strings; error paths in the parser are otherwise unexercised.",
  ["isl_input.c", "isl_stream.c", "isl_schedule_read.c", "isl_obj.c"],
  [("isl_stream_next_token / push_token", "isl_stream.c"), ("accept_affine, read_formula, read_tuple", "isl_input.c")],
  None, ["return value of readers, isl_ctx references at free"])

prop("C16", "Dependence analysis is exact per element",
  "For all sets of sinks, may/must sources, kills and a schedule, the computed must/may dependences relate each sink access instance exactly to its last preceding must source (and to the may sources not killed by a later must source), the no-source relations contain exactly the sinks without such a source, and the full variants expose the accessed element consistently; results are the same through the union and low-level interfaces.",
  ["inputs", "schedules"],
  "every access pattern, schedule (map or tree) and combination of may/must/kill accesses",
  "flow_test compares 36 inputs with stored output.",
  ["isl_flow.c", "isl_union_map.c", "isl_schedule.c"],
  [("isl_access_info_compute_flow / compute_val_based_dependences / last_source lexmax per level", "isl_flow.c"), ("isl_union_access_info_compute_flow (schedule tree and map)", "isl_flow.c")],
  None, ["isl_union_flow_get_must/may_dependence etc."])

prop("C17", "Computed schedules respect every dependence and cover every instance",
  "For every set of schedule constraints and every combination of scheduler options, the computed schedule assigns an execution time to every domain instance, every validity dependence's source executes strictly before (or is mapped together only where allowed with) its target, bands marked permutable keep validity distances non-negative in every member, members marked coincident have zero distance over coincidence constraints, and filters partition the domain.",
  ["inputs", "configurations"],
  "every domain/dependence structure and scheduler option setting",
  "schedule_test checks a few dozen stored inputs with default options.",
  ["isl_scheduler.c", "isl_scheduler_clustering.c", "isl_scheduler_scc.c", "isl_schedule_constraints.c", "isl_tarjan.c", "isl_farkas.c", "isl_schedule_node.c"],
  [("Feautrier and Pluto-style LP set-up, carry dependences", "isl_scheduler.c"), ("clustering", "isl_scheduler_clustering.c"), ("SCC handling", "isl_scheduler_scc.c, isl_tarjan.c")],
  None, ["isl_schedule_get_map, schedule nodes"])

prop("C18", "Schedule tree operations preserve instances and documented order",
  "For every schedule tree and node position, inserting, deleting, tiling, scaling, splitting, sinking, grafting, ordering, grouping, expanding, contracting, sequence/set splicing and navigation keep the tree valid, keep the set of domain instances, and produce exactly the documented relative order and prefix/suffix schedules. Traversal visits each node once and positions reported by navigation are consistent.",
  ["inputs", "histories"],
  "every tree shape and every sequence of node operations",
  "Tests apply individual operations to single trees.",
  ["isl_schedule_tree.c", "isl_schedule_node.c", "isl_schedule_band.c", "isl_schedule.c"],
  [("isl_schedule_node_band_tile/scale/mod/shift/split/sink", "isl_schedule_node.c, isl_schedule_band.c"), ("isl_schedule_tree_* structural edits", "isl_schedule_tree.c"), ("isl_schedule_get_map", "isl_schedule_tree.c")],
  None, ["isl_schedule_get_map, isl_schedule_node_get_*"])

prop("C19", "Generated code executes exactly the scheduled instances in order",
  "For every schedule (map or tree), context and combination of AST generation options (separate, atomic, unroll, isolate, component, strides, guard placement, minimum/maximum bounds, shadowing), executing the generated AST for any parameter values in the context performs each scheduled domain instance exactly once, performs nothing else, and in an order compatible with the schedule.",
  ["inputs", "programs", "configurations"],
  "every schedule, parameter value and option setting",
  "codegen_test compares text for 345 stored inputs; any new shape is unchecked.",
  ["isl_ast_codegen.c", "isl_ast_build.c", "isl_ast_build_expr.c", "isl_ast_graft.c", "isl_ast.c", "isl_schedule_node.c"],
  [("generate_code / create_for / guard hoisting / separation classes", "isl_ast_codegen.c, isl_ast_graft.c"), ("isl_ast_build domain/generated/pending state", "isl_ast_build.c"), ("isl_ast_build_node_from_schedule", "isl_ast_codegen.c")],
  [("isl_ast_build", "known constraints and generated domain at the current loop level", "isl_ast_build_private.h")],
  ["walk of isl_ast_node with an interpreter"])

prop("C20", "AST expressions and printed C compute the described values",
  "For every (piecewise) affine expression, set or multi-expression and every point of the build's context, the generated AST expression evaluates, with C semantics for the operators it uses, to the exact value (or truth) described, and the printed C text parses back to the same operator tree so that executing the printed program performs the same instances in the same order.",
  ["inputs", "programs"],
  "every expression, domain context and printer option",
  "Tests compare printed strings for fixed expressions.",
  ["isl_ast_build_expr.c", "isl_ast.c", "isl_ast_build.c"],
  [("isl_ast_expr_from_aff / div-mod recognition (pdiv_q, zdiv_r, fdiv_q)", "isl_ast_build_expr.c"), ("operator precedence when printing", "isl_ast.c")],
  None, ["isl_ast_expr tree; isl_ast_node_to_C_str"])

prop("C21", "Operations have value semantics and do not leak",
  "No operation changes the value of any object the caller still holds, whether passed as a kept argument or as an extra copy of a consumed one, and after any sequence of operations in which every given object is consumed exactly once, no object remains referenced, no memory is left allocated and no freed or uninitialised memory was accessed.",
  ["histories"],
  "every sequence of operations on shared objects",
  "Unit tests rarely hold extra copies and compare them afterwards; sharing-dependent copy-on-write mistakes need a reference count above one at a particular point.",
  ["isl_map.c", "isl_aff.c", "isl_space.c", "isl_ctx.c", "isl_polynomial.c", "isl_multi_templ.c", "isl_pw_templ.c", "isl_list_templ.c", "isl_schedule_tree.c", "isl_blk.c"],
  [("*_cow / *_copy / *_free reference counting", "all object types"), ("isl_ctx reference count", "isl_ctx.c")],
  [("ref", "reference count of each object", "*_private.h")],
  ["printed form of held copies before and after; allocator balance"])

prop("C22", "Hitting the operation limit aborts cleanly at every point",
  "For every computation and every bound on the number of low-level operations, the computation either finishes with the same result as without the bound or fails with the quota error; a failure leaks nothing, corrupts no object still held by the caller and leaves the context usable so that the same computation succeeds after the bound is lifted.",
  ["fault_sequences", "inputs"],
  "every abort point of every computation",
  "Tests set one bound for one computation; each abort point runs different error-path code.",
  ["isl_ctx.c", "isl_tab.c", "isl_tab_pip.c", "isl_map.c", "isl_scheduler.c", "isl_coalesce.c", "isl_ast_codegen.c", "isl_flow.c"],
  [("isl_ctx_next_operation / max_operations", "isl_ctx.c"), ("error paths of every operation", "all files")],
  [("ctx->operations / max_operations", "operation counter and bound", "isl_ctx_private.h")],
  ["NULL results, isl_ctx_last_error, allocator balance"])

prop("C23", "Running out of memory at any allocation fails cleanly",
  "For every computation and every single allocation request of the library that fails (integer limbs excepted), the computation reports failure or completes with the correct result; it does not crash, leak, double free, or damage objects the caller still holds, and the context stays usable.",
  ["fault_sequences", "inputs"],
  "every allocation point of every computation",
  "No test injects allocation failures.",
  ["isl_ctx.c", "isl_map.c", "isl_blk.c", "isl_tab.c", "isl_space.c", "isl_list_templ.c", "isl_pw_templ.c", "isl_hash.c", "isl_stream.c", "isl_printer.c"],
  [("isl_malloc_or_die / isl_calloc / isl_realloc checks", "include/isl/ctx.h"), ("error labels releasing all arguments", "all files")],
  None, ["NULL results, allocator balance"])

prop("C24", "A NULL object argument propagates as an error and releases the rest",
  "For every documented function and every choice of object arguments that are NULL, the call neither crashes nor reports success: it returns NULL or the error value of its type and still releases every other consumed argument.",
  ["inputs", "fault_sequences"],
  "every exported function and every subset of NULL arguments",
  "Tests never pass NULL; the guarantee is what makes chained error handling safe.",
  ["isl_map.c", "isl_aff.c", "isl_space.c", "isl_polynomial.c", "isl_val.c", "isl_schedule_node.c", "isl_ast.c", "isl_union_map.c", "include/isl/*.h"],
  [("NULL checks at function entry", "all exported functions")],
  None, ["return values, allocator balance"])

prop("C25", "Independent contexts do not influence each other",
  "Computations in different contexts can be interleaved arbitrarily, at any instruction and from different threads, and each yields the same result, errors and option settings as when it runs alone.",
  ["schedules"],
  "every interleaving of threads that each own a context",
  "No test uses more than one context, let alone threads; hidden shared state is only visible under particular interleavings.",
  ["isl_ctx.c", "isl_id.c", "isl_space.c", "isl_options.c", "isl_sort.c", "isl_tab.c", "isl_hash.c", "isl_arg.c", "isl_coalesce.c", "isl_gmp.c"],
  [("all state hangs off isl_ctx; no mutable globals", "isl_ctx_private.h")],
  None, ["printed results per thread; races"])

prop("C26", "Results do not depend on what was computed before",
  "The outcome of an operation is a function of the values of its arguments and the options: repeating it in the same context after any other operations, in a fresh context, or on copies sharing cached data gives the same result, and error states of earlier operations do not affect later ones.",
  ["histories"],
  "every history of earlier operations in the context",
  "Cached samples, flags, free lists and id tables make history observable only after specific sequences.",
  ["isl_ctx.c", "isl_blk.c", "isl_id.c", "isl_map.c", "isl_map_simplify.c", "isl_hash.c"],
  [("isl_blk cache, id hash table, per-object caches (sample, flags, hashes)", "isl_blk.c, isl_id.c, isl_map.c")],
  [("ctx->cache, ctx->id_table, ctx->error", "per-context mutable state", "isl_ctx_private.h")],
  ["printed results"])

prop("C27", "Lists, hash maps and identifiers behave as their abstract types",
  "Every sequence of list operations (add, insert, drop, set, swap, reverse, concat, sort, map, strongly-connected-component iteration) and associative-array operations (set, lookup, drop, iterate, compare) behaves like the mathematical sequence or finite map, with out-of-range positions rejected; an identifier is determined by its name and user pointer, compares equal iff both agree, and its user callback runs exactly once when the last reference goes.",
  ["histories"],
  "every operation sequence, including hash collisions, growth and shared copies",
  "Tests touch each container once.",
  ["isl_list_templ.c", "isl_hash.c", "isl_id.c", "isl_tarjan.c", "isl_sort.c", "include/isl/hmap_templ.c", "isl_id_to_ast_expr.c", "isl_id_to_id.c", "isl_id_to_pw_aff.c", "isl_map_to_basic_set.c"],
  [("copy-on-write list template", "isl_list_templ.c"), ("open-addressing table with backward-shift deletion", "isl_hash.c:isl_hash_table_remove"), ("id hash-consing", "isl_id.c")],
  None, ["list/hmap accessors, free_user callback"])

prop("C28", "Exact integer matrix and vector algebra",
  "Every exported vector and matrix operation (products, concatenation, row/column edits, Hermite and normal forms, rank, inverse, right inverse, kernel/row bases, unimodular completion, row-space comparison, lcm/gcd normalisation, sorting) returns the mathematically exact result for all integer matrices, and constraint matrices extracted from and used to rebuild a basic set describe the same set.",
  ["inputs"],
  "every small integer matrix",
  "Only matrices arising in other tests are exercised.",
  ["isl_mat.c", "isl_vec.c", "isl_seq.c", "isl_equalities.c", "isl_map.c"],
  [("isl_mat_left_hermite / isl_mat_right_inverse / isl_mat_unimodular_complete / isl_mat_row_basis_extension", "isl_mat.c"), ("isl_seq_*", "isl_seq.c")],
  None, ["isl_mat_get_element_val"])

prop("C29", "Spaces and parameters: names decide identity",
  "Objects with the same parameters in different order or with different parameter subsets combine as if aligned by name; tuple structure operations (product, factor, curry, zip, wrap, reverse, move, drop, rename) act on spaces as on the objects living in them and are mutually inverse where documented; operands whose spaces do not match are rejected with an error instead of being combined.",
  ["inputs", "histories"],
  "every pair of spaces (nested tuples, names, parameter lists) and every operation on them",
  "Parameter orders and nested names multiply combinations; tests mostly use identical parameter lists.",
  ["isl_space.c", "isl_reordering.c", "isl_local_space.c", "isl_id.c", "isl_map.c", "isl_aff.c"],
  [("isl_space_align_params / isl_parameter_alignment_reordering", "isl_space.c, isl_reordering.c"), ("isl_space_is_equal / has_equal_tuples / check_*", "isl_space.c")],
  None, ["isl_space_* accessors, printed spaces"])

prop("C30", "Transitive closures and powers over-approximate and know when exact",
  "For every relation, the computed transitive closure, power, reaching path lengths and closure of a union contain every pair connected by a path (of each length), and when the result is flagged exact it contains nothing else.",
  ["inputs"],
  "every relation on a small domain, including unions over several tuples",
  "Tests cover about twenty relations from the literature.",
  ["isl_transitive_closure.c", "isl_power_templ.c", "isl_map.c", "isl_tarjan.c"],
  [("construct_power / construct_projected_component / Floyd-Warshall / box closure", "isl_transitive_closure.c"), ("exactness check", "isl_transitive_closure.c:check_exactness")],
  None, ["isl_map_transitive_closure result and exact flag"])

prop("C31", "Parametric vertices and chambers describe the polytope",
  "For every parametric polytope, evaluating the listed vertices at any parameter value in the interior of a chamber gives exactly the vertices of the polytope at that value, each vertex is feasible on its validity domain, and the chambers cover the parameters with non-empty polytope with disjoint interiors.",
  ["inputs"],
  "every parametric polytope and parameter value",
  "Tests enumerate vertices of a few fixed sets.",
  ["isl_vertices.c", "isl_morph.c", "isl_tab.c"],
  [("isl_basic_set_compute_vertices / compute_chambers", "isl_vertices.c")],
  None, ["isl_vertices_foreach_vertex / foreach_cell"])

prop("C32", "Structural comparison, ordering and hashing are consistent",
  "For every type with plain equality, comparison or hash functions: plain-equal objects have equal value and hash alike, objects that compare as equal denote the same value (apart from empty sets of different spaces and equality versus inequality constraints); the comparison functions are total preorders (antisymmetric, transitive, reflexive); a copy is always plain-equal to the original; and sorting or de-duplicating by them is deterministic.",
  ["inputs"],
  "every pair and triple of objects",
  "Order axioms quantify over triples; tests never check them.",
  ["isl_map.c", "isl_aff.c", "isl_val.c", "isl_multi_cmp.c", "isl_constraint.c", "isl_space.c", "isl_local_space.c", "isl_polynomial.c", "isl_ast.c", "isl_seq.c"],
  [("*_plain_cmp, *_plain_is_equal, *_get_hash", "isl_map.c, isl_aff.c, isl_val.c, isl_space.c, isl_polynomial.c"), ("isl_basic_map_plain_cmp, isl_map_normalize", "isl_map.c")],
  None, ["return values"])

prop("C33", "Farkas duals and hidden strides/bounds information are sound",
  "The coefficient set of a set contains every affine constraint valid for its rational points and only constraints valid for all its integer points, and the solution set inverts it (it contains the set and no point outside its rational relaxation); reported strides, residues, fixed values, lattice tiles and implied equalities of a set or relation really hold for every element.",
  ["inputs"],
  "every set/relation and every candidate constraint",
  "The dual must be right for every candidate constraint vector; tests check two examples.",
  ["isl_farkas.c", "isl_stride.c", "isl_map.c", "isl_box.c", "isl_affine_hull.c"],
  [("isl_basic_set_coefficients / isl_basic_set_solutions", "isl_farkas.c"), ("isl_map_get_range_stride_info / isl_set_get_stride_info", "isl_stride.c"), ("isl_set_dim_residue_class", "isl_map.c, isl_affine_hull.c")],
  None, ["membership in the returned set, accessor values"])

prop("C34", "Command-line option parsing follows its declaration",
  "For every argument vector, the option parser sets exactly the declared fields (including defaults, choices, flags, nested groups, aliases, negations, optional and versioned options), consumes recognised arguments in order, leaves or rejects the others as documented, and frees what it allocated.",
  ["inputs", "histories"],
  "every argument sequence over a declared option table",
  "No test exercises the parser beyond defaults.",
  ["isl_arg.c", "include/isl/arg.h", "isl_options.c"],
  [("isl_args_parse / parse_option / set_default_*", "isl_arg.c")],
  None, ["resulting option struct, argv"])

prop("C35", "The incremental simplex tableau is a faithful undoable constraint system",
  "For every sequence of adding constraints, relaxing, cutting, selecting facets, detecting implied equalities and redundancies, taking snapshots and rolling back, the tableau's emptiness, sample value, sign, min/max and redundancy answers equal those of the current constraint system, and a rollback restores exactly the state at the snapshot.",
  ["histories"],
  "every operation sequence with nested snapshots",
  "The tableau is only tested indirectly; an undo record that is not restored shows up only after particular sequences.",
  ["isl_tab.c", "isl_tab.h", "isl_map_subtract.c", "isl_coalesce.c"],
  [("isl_tab_push / isl_tab_snap / isl_tab_rollback / perform_undo", "isl_tab.c"), ("isl_tab_add_ineq/add_eq/relax/unrelax/select_facet/min", "isl_tab.c")],
  [("undo list", "stack of reversible modifications", "isl_tab.h:struct isl_tab_undo")],
  ["isl_tab_min, isl_tab_is_redundant, tab->empty, isl_tab_get_sample_value"])

prop("C36", "The C++ and Python bindings mirror the C library",
  "For every method exposed by the generated bindings, calling it gives the same result as the C function, leaves its operands unchanged and usable, converts errors to the documented exception/bool form without leaking, and releases every object exactly once.",
  ["histories", "inputs"],
  "every binding method and every sequence of method calls",
  "Binding tests call a small fraction of the generated methods.",
  ["interface/generator.cc", "interface/cpp.cc", "interface/plain_cpp.cc", "interface/python.cc", "interface/extract_interface.cc", "python/isl.py.top", "cpp/cpp.h.top"],
  [("generated wrappers: ownership (release/copy), callbacks, exceptions", "interface/plain_cpp.cc, interface/python.cc")],
  None, ["binding method results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
