// Executes entries of the API call table on objects from a fixed pool (C21-C26).
#pragma once
#include "common.hpp"
#include "api.h"
#include <isl/space.h>
#include <isl/id.h>
#include <isl/local_space.h>
#include <isl/aff.h>
#include <isl/point.h>
#include <isl/val.h>
#include <isl/mat.h>
#include <isl/vec.h>
#include <isl/constraint.h>
#include <isl/polynomial.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/flow.h>
#include <isl/ast.h>
#include <isl/ast_build.h>
#include <isl/vertices.h>
#include <isl/stride_info.h>
#include <isl/fixed_box.h>
#include <isl/id_to_id.h>
#include <isl/id_to_pw_aff.h>
#include <isl/id_to_ast_expr.h>
#include <isl/map_to_basic_set.h>
#include <isl/printer.h>
extern "C" { extern long aw_live, aw_count, aw_fail, aw_failed; extern int aw_fill; void aw_init(void); }
namespace api {
typedef std::function<void *(isl_ctx *)> Maker;
inline std::map<string, vector<Maker>> &pool() {
	static std::map<string, vector<Maker>> P; if (!P.empty()) return P;
#define R(T, ...) for (const char *t : {__VA_ARGS__}) P["isl_" #T].push_back([t](isl_ctx *c) -> void * { return isl_##T##_read_from_str(c, t); });
#define M(T, ...) P["isl_" #T].push_back([](isl_ctx *c) -> void * { return __VA_ARGS__; });
	R(basic_set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] : i <= j and 2i + j <= 5 and i >= -1 and (i + j) mod 2 = 0 }", "[n] -> { A[i, j] : i = 2j and 0 <= j <= 4 }", "{ A[i, j] : exists (e : 3e <= i + j <= 3e + 1) and 0 <= i, j <= 3 }", "[n] -> { : n >= 2 }", "{ B[k] : 0 <= k <= 3 }", "{ A[i, j] : false }", "{ A[i, j] }")
	R(set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] : 0 <= i <= 2 and j = i; A[i, j] : i = 4 and 0 <= j <= n and j mod 2 = 0 }", "{ A[i, j] : exists (e : 3e <= i + j <= 3e + 1) and 0 <= i, j <= 3 }", "[n] -> { : n >= 2 }", "{ A[i, j] : false }", "{ B[k] : 0 <= k <= 3 }", "{ [A[i, j] -> B[k]] : 0 <= i <= j <= 3 and k = i }", "{ A[i, j] : 0 <= i <= 1 and j = 0; A[i, j] : i >= 1 and 2 <= j <= 3 and i <= 2; A[i, j] : 0 <= i <= 2 and 0 <= j <= 1 }")
	R(basic_map, "[n] -> { A[i, j] -> A[k, l] : k = i + 1 and 0 <= l <= j and 0 <= i <= n and j <= 3 }", "[n] -> { A[i, j] -> A[j, i] : 0 <= i, j <= 3 and (i + j) mod 2 = 0 }", "{ A[i, j] -> B[k] : i <= k <= j and 0 <= i and j <= 3 }", "{ B[k] -> A[k, l] : 0 <= l <= k <= 2 }", "{ A[i, j] -> A[k, l] : false }", "{ [i] -> [j] : 2j <= i <= 2j + 1 and 0 <= i <= 6 }")
	R(map, "[n] -> { A[i, j] -> A[k, l] : k = i + 1 and 0 <= l <= j and 0 <= i <= n and j <= 3 }", "[n] -> { A[i, j] -> A[j, i] : 0 <= i, j <= 3 and (i + j) mod 2 = 0; A[i, j] -> A[i, j] : i = 4 and 0 <= j <= n }", "{ A[i, j] -> B[k] : i <= k <= j and 0 <= i and j <= 3 }", "{ B[k] -> A[k, l] : 0 <= l <= k <= 2 }", "{ A[i, j] -> A[k, l] : false }", "{ [A[i, j] -> B[k]] -> [C[l] -> D[m]] : l = i and m = k and 0 <= i, j, k <= 2 }", "{ [i] -> [j] : j = i + 1 and 0 <= i <= 3; [i] -> [j] : j = i + 2 and 0 <= i <= 3 }")
	R(union_set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= 3; B[k] : 0 <= k <= n }", "{ A[i, j] : 0 <= i <= 2 and j = i; C[] }", "{ B[k] : k mod 2 = 0 and 0 <= k <= 4 }", "{ }", "{ A[i, j] : 0 <= i <= 1 and 0 <= j <= 2 }", "{ [A[i, j] -> B[k]] : 0 <= i <= j <= 2 and k = i }")
	R(union_map, "[n] -> { A[i, j] -> A[k, l] : k = i + 1 and l = j and 0 <= i <= n and 0 <= j <= 3; A[i, j] -> B[k] : k = i and 0 <= i, j <= 2 }", "{ A[i, j] -> [i, j]; B[k] -> [k, 0] }", "{ B[k] -> A[k, l] : 0 <= l <= k <= 2; B[k] -> B[k + 1] : 0 <= k <= 2 }", "{ }", "{ A[i, j] -> A[i, j + 1] : 0 <= i <= 2 and 0 <= j <= 2 }", "{ [A[i, j] -> B[k]] -> C[i] : 0 <= i, j, k <= 1 }")
	R(aff, "[n] -> { A[i, j] -> [(i + 2j + n)] }", "[n] -> { A[i, j] -> [(floor((i + j)/2) - 1)] }", "[n] -> { A[i, j] -> [(3)] }", "[n] -> { A[i, j] -> [((i + n)/3)] }", "{ B[k] -> [(k + 1)] }", "[n] -> { [(n)] }", "{ A[i, j] -> [NaN] }")
	R(multi_aff, "[n] -> { A[i, j] -> A[i + n, j - 1] }", "[n] -> { A[i, j] -> A[j, i + floor(i/2)] }", "[n] -> { A[i, j] -> B[i + j] }", "{ B[k] -> A[k, 2k] }", "{ A[i, j] -> C[] }", "[n] -> { A[n, n + 1] }")
	R(pw_aff, "[n] -> { A[i, j] -> [(i + j)] : 0 <= i <= n; A[i, j] -> [(n)] : i < 0 }", "[n] -> { A[i, j] -> [(floor(i/2))] : j >= 0 }", "[n] -> { A[i, j] -> [(2)] }", "{ B[k] -> [(k)] : k >= 0 }", "[n] -> { [(n + 1)] : n >= 0 }", "{ A[i, j] -> [NaN] }")
	R(pw_multi_aff, "[n] -> { A[i, j] -> A[i + 1, j] : 0 <= i <= n; A[i, j] -> A[0, n] : i < 0 }", "[n] -> { A[i, j] -> A[j, floor(i/2)] : j >= 0 }", "[n] -> { A[i, j] -> B[i + j] : i >= 0 }", "{ B[k] -> A[k, 2k] : k >= 0 }", "{ A[i, j] -> C[] : i >= 0 }", "[n] -> { A[n, n + 1] : n >= 0 }")
	R(multi_pw_aff, "[n] -> { A[i, j] -> A[(i + 1 : i >= 0; n : i < 0), (j)] }", "[n] -> { A[i, j] -> A[(floor(j/2)), (i : i >= 0)] }", "[n] -> { A[i, j] -> B[(i + j : i >= 0)] }", "{ B[k] -> A[(k : k >= 0), (2k)] }", "{ A[i, j] -> C[] : i >= 0 }")
	R(union_pw_aff, "[n] -> { A[i, j] -> [(i + j)] : 0 <= i <= n; B[k] -> [(k)] }", "[n] -> { A[i, j] -> [(floor(i/2))] : j >= 0 }", "{ B[k] -> [(2k)] : k >= 0 }") M(union_pw_aff, isl_union_pw_aff_empty_space(isl_space_read_from_str(c, "[n] -> { : }")))
	R(union_pw_multi_aff, "[n] -> { A[i, j] -> A[i + 1, j] : 0 <= i <= n; B[k] -> C[k, k] }", "[n] -> { A[i, j] -> A[j, floor(i/2)] : j >= 0 }", "{ B[k] -> A[k, 2k] : k >= 0 }", "{ }")
	R(multi_union_pw_aff, "[n] -> L[{ A[i, j] -> [(i)]; B[k] -> [(k)] }, { A[i, j] -> [(j)]; B[k] -> [(0)] }]", "L[{ A[i, j] -> [(floor(j/2))] : j >= 0 }, { A[i, j] -> [(i)] }]", "L[{ A[i, j] -> [(i + j)] }]", "(L[] : { A[i, j] : i >= 0 })")
	R(val, "3", "-2", "7/2", "0", "infty", "NaN")
	R(multi_val, "{ A[3, 2] }", "{ A[-1, 2] }", "{ B[4] }", "{ L[2, 3] }", "{ C[] }")
	R(multi_id, "{ A[x, y] }", "{ B[z] }", "{ A[u, v] }")
	R(pw_qpolynomial, "[n] -> { A[i, j] -> (i * j + n) : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] -> (1/2 * i^2 + floor(j/2)) : 0 <= i, j <= 3 }", "[n] -> { A[i, j] -> 3 : 0 <= i, j <= 2 }", "{ B[k] -> (k + 1) : 0 <= k <= 3 }", "{ A[i, j] -> 0 }")
	R(union_pw_qpolynomial, "[n] -> { A[i, j] -> (i * j + n) : 0 <= i <= n and 0 <= j <= 3; B[k] -> k : 0 <= k <= 3 }", "{ A[i, j] -> (1/2 * i^2 + floor(j/2)) : 0 <= i, j <= 3 }", "{ B[k] -> (k + 1) : 0 <= k <= 3 }")
	R(pw_qpolynomial_fold, "[n] -> { A[i, j] -> max(i * j, n) : 0 <= i <= n and 0 <= j <= 3 }", "[n] -> { A[i, j] -> max(i, j) : 0 <= i, j <= 3 }", "{ B[k] -> max(k, 2) : 0 <= k <= 3 }")
	M(union_pw_qpolynomial_fold, isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(isl_pw_qpolynomial_fold_read_from_str(c, "[n] -> { A[i, j] -> max(i * j, n) : 0 <= i <= n and 0 <= j <= 3 }")))
	M(union_pw_qpolynomial_fold, isl_union_pw_qpolynomial_fold_from_pw_qpolynomial_fold(isl_pw_qpolynomial_fold_read_from_str(c, "{ A[i, j] -> max(i, 2j) : 0 <= i, j <= 3 }")))
	M(union_pw_qpolynomial_fold, isl_union_pw_qpolynomial_bound(isl_union_pw_qpolynomial_read_from_str(c, "{ [B[k] -> D[x]] -> (k + x) : 0 <= k, x <= 3 }"), isl_fold_max, NULL))
#define QP(t) isl_qpolynomial_from_aff(isl_aff_read_from_str(c, t))
	M(qpolynomial, isl_qpolynomial_mul(QP("[n] -> { A[i, j] -> [(i + n)] }"), QP("[n] -> { A[i, j] -> [(j - 1)] }"))) M(qpolynomial, QP("[n] -> { A[i, j] -> [(floor((i + j)/2))] }")) M(qpolynomial, QP("[n] -> { A[i, j] -> [(3)] }")) M(qpolynomial, QP("{ B[k] -> [(k)] }"))
	M(qpolynomial_fold, isl_qpolynomial_fold_alloc(isl_fold_max, QP("[n] -> { A[i, j] -> [(i + n)] }"))) M(qpolynomial_fold, isl_qpolynomial_fold_fold(isl_qpolynomial_fold_alloc(isl_fold_max, QP("[n] -> { A[i, j] -> [(floor((i + j)/2))] }")), isl_qpolynomial_fold_alloc(isl_fold_max, QP("[n] -> { A[i, j] -> [(3)] }"))))
	R(space, "[n] -> { A[i, j] }", "[n] -> { A[i, j] -> B[k] }", "{ B[k] }", "[n] -> { A[i, j] -> A[k, l] }", "[n] -> { : }", "{ [A[i, j] -> B[k]] }")
	R(id, "A", "B", "n", "x")
	M(local_space, isl_local_space_from_space(isl_space_read_from_str(c, "[n] -> { A[i, j] }"))) M(local_space, ([](isl_ctx *c) { isl_aff *a = isl_aff_read_from_str(c, "[n] -> { A[i, j] -> [(floor((i + j)/2))] }"); isl_local_space *l = isl_aff_get_domain_local_space(a); isl_aff_free(a); return l; })(c)) M(local_space, isl_local_space_from_space(isl_space_read_from_str(c, "[n] -> { A[i, j] -> B[k] }")))
#define GET(T, tx, U, ...) ([](isl_ctx *c) { isl_##T *t = isl_##T##_read_from_str(c, tx); U *r = __VA_ARGS__; isl_##T##_free(t); return r; })(c)
	M(constraint, isl_inequality_from_aff(isl_aff_read_from_str(c, "[n] -> { A[i, j] -> [(i + 2j + n)] }"))) M(constraint, isl_equality_from_aff(isl_aff_read_from_str(c, "[n] -> { A[i, j] -> [(i - 2 * floor(j/2))] }"))) M(constraint, isl_inequality_from_aff(isl_aff_read_from_str(c, "{ B[k] -> [(k + 1)] }")))
	M(point, isl_set_sample_point(isl_set_read_from_str(c, "[n] -> { A[1, 2] : n = 2 }"))) M(point, isl_set_sample_point(isl_set_read_from_str(c, "[n] -> { A[3, 0] : n = 2 }"))) M(point, isl_set_sample_point(isl_set_read_from_str(c, "{ B[2] }"))) M(point, isl_point_void(isl_space_read_from_str(c, "[n] -> { A[i, j] }")))
	M(mat, ([](isl_ctx *c) { isl_mat *m = isl_mat_alloc(c, 2, 2); for (int i = 0; i < 4; ++i) m = isl_mat_set_element_si(m, i / 2, i % 2, (int[]){2, 1, 0, 3}[i]); return m; })(c)) M(mat, ([](isl_ctx *c) { isl_mat *m = isl_mat_alloc(c, 2, 3); for (int i = 0; i < 6; ++i) m = isl_mat_set_element_si(m, i / 3, i % 3, (int[]){1, -2, 0, 3, 1, 1}[i]); return m; })(c)) M(mat, isl_mat_identity(c, 3)) M(mat, isl_mat_alloc(c, 0, 2))
	M(vec, ([](isl_ctx *c) { isl_vec *v = isl_vec_alloc(c, 2); v = isl_vec_set_element_si(v, 0, 4); return isl_vec_set_element_si(v, 1, -6); })(c)) M(vec, isl_vec_zero(c, 2)) M(vec, ([](isl_ctx *c) { isl_vec *v = isl_vec_alloc(c, 3); return isl_vec_set_si(v, 1); })(c))
	const char *S0 = "domain: \"[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= 3; B[k] : 0 <= k <= n }\"\nchild:\n  sequence:\n  - filter: \"{ A[i, j] }\"\n    child:\n      schedule: \"[{ A[i, j] -> [(i)] }, { A[i, j] -> [(j)] }]\"\n      permutable: 1\n      coincident: [ 1, 0 ]\n  - filter: \"{ B[k] }\"\n    child:\n      mark: m\n      child:\n        schedule: \"[{ B[k] -> [(k)] }]\"\n";
	const char *S1 = "domain: \"{ A[i, j] : 0 <= i, j <= 2 }\"\nchild:\n  schedule: \"[{ A[i, j] -> [(i + j)] }, { A[i, j] -> [(j)] }]\"\n  permutable: 1\n  options: \"{ separate[0]; unroll[1] }\"\n";
	const char *S2 = "domain: \"{ C[] ; D[x] : 0 <= x <= 1 }\"\nchild:\n  set:\n  - filter: \"{ C[] }\"\n  - filter: \"{ D[x] }\"\n";
	const char *S3 = "domain: \"{ }\"\n";
	for (auto s : {S0, S1, S2, S3}) P["isl_schedule"].push_back([s](isl_ctx *c) -> void * { return isl_schedule_read_from_str(c, s); });
	auto node = [&](const char *s, vector<int> path) { P["isl_schedule_node"].push_back([=](isl_ctx *c) -> void * { isl_schedule *h = isl_schedule_read_from_str(c, s); isl_schedule_node *n = isl_schedule_get_root(h); isl_schedule_free(h); for (int k : path) n = isl_schedule_node_child(n, k); return n; }); };
	node(S0, {0, 0, 0}); node(S0, {0}); node(S0, {0, 1}); node(S0, {}); node(S0, {0, 1, 0}); node(S0, {0, 0, 0, 0}); node(S1, {0}); node(S2, {0, 0, 0}); node(S2, {0});
	R(schedule_constraints, "{ domain: \"{ A[i, j] : 0 <= i, j <= 2; B[k] : 0 <= k <= 2 }\", validity: \"{ A[i, j] -> B[i] : 0 <= i <= 2 }\", proximity: \"{ A[i, j] -> B[i] }\" }", "{ domain: \"{ A[i, j] : 0 <= i, j <= 2 }\", coincidence: \"{ A[i, j] -> A[i + 1, j] : 0 <= i <= 1 }\", validity: \"{ A[i, j] -> A[i + 1, j] : 0 <= i <= 1 }\" }")
#define UAI isl_union_access_info_set_schedule_map(isl_union_access_info_set_must_source(isl_union_access_info_from_sink(isl_union_map_read_from_str(c, "{ A[i, j] -> X[i] : 0 <= i, j <= 2 }")), isl_union_map_read_from_str(c, "{ A[i, j] -> X[i + 1] : 0 <= i, j <= 2 }")), isl_union_map_read_from_str(c, "{ A[i, j] -> [i, j] }"))
	M(union_access_info, UAI) M(union_access_info, isl_union_access_info_set_kill(isl_union_access_info_set_may_source(UAI, isl_union_map_read_from_str(c, "{ B[k] -> X[k] : 0 <= k <= 2 }")), isl_union_map_read_from_str(c, "{ B[k] -> X[0] : k = 1 }"))) M(union_flow, isl_union_access_info_compute_flow(UAI))
#define AI isl_access_info_add_source(isl_access_info_alloc(isl_map_read_from_str(c, "{ [i] -> [i] : 0 <= i <= 3 }"), (void *) 1, [](void *a, void *b) { return a == b ? 2 : a < b ? 3 : 2; }, 3), isl_map_read_from_str(c, "{ [i] -> [i + 1] : 0 <= i <= 3 }"), 1, (void *) 2)
	M(access_info, AI) M(flow, isl_access_info_compute_flow(AI))
	M(restriction, isl_restriction_output(isl_set_read_from_str(c, "{ A[i, j] : i >= 1 }")))
#define AB isl_ast_build_from_context(isl_set_read_from_str(c, "[n] -> { : n >= 1 }"))
#define BLD(call) ([](isl_ctx *c) { isl_ast_build *b = AB; auto r = call; isl_ast_build_free(b); return r; })(c)
	M(ast_build, AB) M(ast_build, isl_ast_build_alloc(c))
	M(ast_expr, BLD(isl_ast_build_expr_from_pw_aff(b, isl_pw_aff_read_from_str(c, "[n] -> { [(n + 1)] : n >= 3; [(2n)] : n < 3 }")))) M(ast_expr, BLD(isl_ast_build_expr_from_set(b, isl_set_read_from_str(c, "[n] -> { : n >= 4 and n mod 2 = 0 }")))) M(ast_expr, isl_ast_expr_from_id(isl_id_alloc(c, "n", 0))) M(ast_expr, isl_ast_expr_from_val(isl_val_int_from_si(c, 5))) M(ast_expr, BLD(isl_ast_build_access_from_multi_pw_aff(b, isl_multi_pw_aff_read_from_str(c, "[n] -> { X[(n), (n + 2)] }"))))
	M(ast_node, BLD(isl_ast_build_node_from_schedule_map(b, isl_union_map_read_from_str(c, "[n] -> { A[i, j] -> [i, j] : 0 <= i <= n and 0 <= j <= 3; B[k] -> [k, 1] : 0 <= k <= n }")))) M(ast_node, BLD(isl_ast_build_node_from_schedule_map(b, isl_union_map_read_from_str(c, "[n] -> { A[i, j] -> [i] : i = n and j = 0 }")))) M(ast_node, isl_ast_node_alloc_user(isl_ast_expr_from_id(isl_id_alloc(c, "n", 0)))) M(ast_node, ([](isl_ctx *c) { isl_ast_build *b = isl_ast_build_from_context(isl_set_read_from_str(c, "[n] -> { : }")); auto r = isl_ast_build_node_from_schedule_map(b, isl_union_map_read_from_str(c, "[n] -> { A[i, j] -> [i] : n >= 5 and i = n and j = 0; B[k] -> [k] : k = 0 }")); isl_ast_build_free(b); return r; })(c))
	M(ast_print_options, isl_ast_print_options_alloc(c))
	M(printer, isl_printer_to_str(c)) M(printer, isl_printer_set_output_format(isl_printer_to_str(c), ISL_FORMAT_C)) M(printer, isl_printer_set_yaml_style(isl_printer_to_str(c), ISL_YAML_STYLE_BLOCK))
	M(id_to_id, isl_id_to_id_set(isl_id_to_id_alloc(c, 2), isl_id_alloc(c, "A", 0), isl_id_alloc(c, "B", 0))) M(id_to_id, isl_id_to_id_alloc(c, 0))
	M(id_to_pw_aff, isl_id_to_pw_aff_set(isl_id_to_pw_aff_alloc(c, 2), isl_id_alloc(c, "A", 0), isl_pw_aff_read_from_str(c, "[n] -> { [(n)] }")))
	M(id_to_ast_expr, isl_id_to_ast_expr_set(isl_id_to_ast_expr_alloc(c, 2), isl_id_alloc(c, "n", 0), isl_ast_expr_from_val(isl_val_int_from_si(c, 5))))
	M(map_to_basic_set, isl_map_to_basic_set_set(isl_map_to_basic_set_alloc(c, 2), isl_map_read_from_str(c, "{ A[i, j] -> B[k] : i <= k <= j and 0 <= i and j <= 3 }"), isl_basic_set_read_from_str(c, "{ B[k] : 0 <= k <= 3 }")))
	M(vertices, GET(basic_set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= i }", isl_vertices, isl_basic_set_compute_vertices(t)))
	M(vertex, GET(basic_set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= i }", isl_vertex, ([&]() { isl_vertices *v = isl_basic_set_compute_vertices(t); isl_vertex *r = 0; isl_vertices_foreach_vertex(v, [](isl_vertex *x, void *u) { if (*(isl_vertex **) u) isl_vertex_free(x); else *(isl_vertex **) u = x; return isl_stat_ok; }, &r); isl_vertices_free(v); return r; })()))
	M(cell, GET(basic_set, "[n] -> { A[i, j] : 0 <= i <= n and 0 <= j <= i }", isl_cell, ([&]() { isl_vertices *v = isl_basic_set_compute_vertices(t); isl_cell *r = 0; isl_vertices_foreach_cell(v, [](isl_cell *x, void *u) { if (*(isl_cell **) u) isl_cell_free(x); else *(isl_cell **) u = x; return isl_stat_ok; }, &r); isl_vertices_free(v); return r; })()))
	M(term, ([](isl_ctx *c) { isl_qpolynomial *q = isl_qpolynomial_mul(QP("[n] -> { A[i, j] -> [(i + n)] }"), QP("[n] -> { A[i, j] -> [(floor(j/2))] }")); isl_term *r = 0; isl_qpolynomial_foreach_term(q, [](isl_term *x, void *u) { if (*(isl_term **) u) isl_term_free(x); else *(isl_term **) u = x; return isl_stat_ok; }, &r); isl_qpolynomial_free(q); return r; })(c))
	M(stride_info, GET(map, "{ A[i, j] -> B[k] : (i + k) mod 3 = 1 }", isl_stride_info, isl_map_get_range_stride_info(t, 0)))
	M(fixed_box, GET(map, "[n] -> { A[i, j] -> A[k, l] : i <= k <= i + 2 and n + j <= l <= n + j + 3 }", isl_fixed_box, isl_map_get_range_simple_fixed_box_hull(t))) M(fixed_box, GET(map, "{ A[i, j] -> A[k, l] : i <= k <= i + 2 }", isl_fixed_box, isl_map_get_range_simple_fixed_box_hull(t)))
#undef R
#undef M
	return P;
}
inline vector<vector<Maker>> &makers() {
	static vector<vector<Maker>> V; if (!V.empty()) return V; V.resize(api_n_types);
	for (int t = 0; t < api_n_types; ++t) { auto it = pool().find(api_types[t].name); if (it != pool().end()) V[t] = it->second; }
	for (int t = 0; t < api_n_types; ++t) { auto &T = api_types[t]; if (!T.lalloc || V[T.elt].empty()) continue; int e = T.elt;
		V[t].push_back([=](isl_ctx *c) { return api_types[t].ladd(api_types[t].ladd(api_types[t].lalloc(c), V[e][0](c)), V[e][1 % V[e].size()](c)); });
		V[t].push_back([=](isl_ctx *c) { return api_types[t].ladd(api_types[t].lalloc(c), V[e][0](c)); });
		V[t].push_back([=](isl_ctx *c) { return api_types[t].lalloc(c); }); }
	return V;
}
extern int cb_fail_at, cb_count; extern string cblog; extern bool logging;
// choices available for argument a of function f
inline const vector<long> &ints(int kind) {
	static const vector<long> I{1, 0, 2, 5}, D{isl_dim_set, isl_dim_param, isl_dim_in, isl_dim_div}, F{isl_fold_max, isl_fold_min}, O{isl_ast_expr_op_max, isl_ast_expr_op_fdiv_q, isl_ast_expr_op_call}, L{isl_ast_loop_unroll, isl_ast_loop_atomic, isl_ast_loop_separate};
	return kind == API_INT ? I : kind == API_DIM ? D : kind == API_FOLD ? F : kind == API_OPTYPE ? O : L;
}
inline int choices(const api_fn &f, int a, int scale) {
	int nobj = 0, nsc = 0; for (int k = 0; k < f.n; ++k) { if (f.arg[k].kind == API_OBJ) ++nobj; if (f.arg[k].kind >= API_INT) ++nsc; }
	auto &x = f.arg[a];
	switch (x.kind) {
	case API_OBJ: { int n = makers()[x.type].size(), cap = nobj <= 1 ? (nsc <= 2 ? 8 : 3) : nobj == 2 ? (nsc <= 2 ? 5 : 2) : 2; if (scale > 1) cap = nobj == 2 ? 6 : cap + 1; if (nobj == 2 && nsc <= 1 && scale == 1) cap = 4; return std::min(n, cap); }
	case API_STR: return 2;
	case API_INT: return nsc <= 2 ? 3 : nsc <= 4 ? 2 : 1;
	case API_DIM: return nsc <= 2 ? 4 : nsc <= 4 ? 3 : 2;
	case API_FOLD: case API_OPTYPE: case API_LOOP: return ints(x.kind).size();
	default: return 1;
	}
}
struct Call { int fn; vector<int> ch; };
struct Table {
	vector<uint64_t> off; vector<int> fns; vector<vector<uint64_t>> rad; uint64_t n = 0;
	std::function<bool(const api_fn &)> keep;
	explicit Table(int scale, std::function<bool(const api_fn &)> keep = nullptr) {
		for (int f = 0; f < api_n_fns; ++f) { auto &F = api_fns[f]; if (!F.defined || (keep && !keep(F))) continue; vector<uint64_t> r; uint64_t m = 1; for (int a = 0; a < F.n; ++a) { r.push_back(choices(F, a, scale)); m *= r.back(); } if (!m) continue; off.push_back(n); fns.push_back(f); rad.push_back(r); n += m; }
		off.push_back(n);
	}
	Call at(uint64_t i) const { size_t k = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1; Call c; c.fn = fns[k]; i -= off[k]; c.ch.resize(rad[k].size()); for (size_t j = rad[k].size(); j-- > 0;) { c.ch[j] = i % rad[k][j]; i /= rad[k][j]; } return c; }
};
inline string show(const Call &c) { auto &F = api_fns[c.fn]; string s = string(F.name) + "("; for (int a = 0; a < F.n; ++a) { s += a ? ", " : ""; auto &x = F.arg[a]; s += x.kind == API_OBJ ? cat(api_types[x.type].name, "#", c.ch[a]) : x.kind >= API_INT ? cat(ints(x.kind)[c.ch[a]]) : x.kind == API_STR ? cat("str#", c.ch[a]) : "_"; } return s + ")"; }
inline string text(int type, void *p) { if (!p) return "(null)"; auto &T = api_types[type]; if (!strcmp(T.name, "isl_mat")) { isl_mat *m = (isl_mat *) p; string s = "["; for (int i = 0; i < (int) isl_mat_rows(m); ++i) { s += i ? "; " : ""; for (int j = 0; j < (int) isl_mat_cols(m); ++j) { isl_val *v = isl_mat_get_element_val(m, i, j); char *t = isl_val_to_str(v); s += cat(j ? "," : "", t ? t : "?"); free(t); isl_val_free(v); } } return s + "]"; }
	auto tx = [](char *t) { string r = t ? t : "?"; free(t); return r; };
	if (!strcmp(T.name, "isl_stride_info")) { isl_val *v = isl_stride_info_get_stride((isl_stride_info *) p); isl_aff *a = isl_stride_info_get_offset((isl_stride_info *) p); string s = tx(isl_val_to_str(v)) + " " + tx(isl_aff_to_str(a)); isl_val_free(v); isl_aff_free(a); return s; }
	if (!strcmp(T.name, "isl_term")) { isl_term *t = (isl_term *) p; isl_val *v = isl_term_get_coefficient_val(t); string s = tx(isl_val_to_str(v)); isl_val_free(v); for (isl_dim_type d : {isl_dim_param, isl_dim_set}) for (int i = 0; i < (int) isl_term_dim(t, d); ++i) s += cat(" ", (int) isl_term_get_exp(t, d, i)); return s; }
	if (!strcmp(T.name, "isl_vertex")) { isl_multi_aff *a = isl_vertex_get_expr((isl_vertex *) p); string s = tx(isl_multi_aff_to_str(a)); isl_multi_aff_free(a); return s; }
	if (!strcmp(T.name, "isl_cell")) { isl_basic_set *a = isl_cell_get_domain((isl_cell *) p); string s = tx(isl_basic_set_to_str(a)); isl_basic_set_free(a); return s; }
	if (!strcmp(T.name, "isl_vertices")) { string s; isl_vertices_foreach_vertex((isl_vertices *) p, [](isl_vertex *v, void *q) { isl_multi_aff *a = isl_vertex_get_expr(v); char *t = isl_multi_aff_to_str(a); *(string *) q += string(t ? t : "?") + "; "; free(t); isl_multi_aff_free(a); isl_vertex_free(v); return isl_stat_ok; }, &s); return s; }
	if (!T.str) return "(obj)"; char *s = T.str(p); if (!s) return "(unprintable)"; string r = s; free(s); return r; }
// Calls outside the documented contract of a function: positions and sizes that the caller has to keep in
// range, matrix layouts that are not a permutation of the dimension types, spaces that must agree.
inline bool outside_contract(const Call &k) {
	auto &F = api_fns[k.fn]; string n = F.name;
	auto iv = [&](int a) { return ints(F.arg[a].kind)[k.ch[a]]; };
	if (n == "isl_point_add_ui" || n == "isl_point_sub_ui") return k.ch[0] == 2 ? iv(2) > 0 || iv(1) == isl_dim_param : iv(2) > (iv(1) == isl_dim_param ? 0 : 1);   // pool: 2+1 dims, 2+1, 1+0
	if (n.find("_matrix") != string::npos) { vector<long> t; for (int a = 0; a < F.n; ++a) if (F.arg[a].kind == API_DIM) { if (std::count(t.begin(), t.end(), iv(a))) return true; t.push_back(iv(a)); } if (!t.empty()) { int need = n.find("basic_map") != string::npos ? 5 : 4; return (int) t.size() != need || std::count(t.begin(), t.end(), (long) isl_dim_div) == 0; } }
	if (n == "isl_val_int_from_chunks") return iv(1) > 0; if (n == "isl_val_n_abs_num_chunks") return iv(1) == 0; if (n == "isl_val_get_abs_num_chunks") return true;
	if (n == "isl_basic_map_equal" || n == "isl_basic_map_less_at" || n == "isl_basic_map_more_at") return iv(1) > 0 || k.ch[0] == 4;                // number of dimensions to compare
	if (n.rfind("isl_map_lex_", 0) == 0 && n.find("_first") != string::npos) { static const int od[] = {2, 1, 1, 2, 0, 2}; return k.ch[0] < 6 && iv(1) > od[k.ch[0]]; }   // number of dimensions to compare
	if (n == "isl_set_dim_residue_class_val") return iv(1) > 0 || k.ch[0] == 3;
	if (n == "isl_mat_col_add") return true;                                   // documented to change the matrix in place
	if (n == "isl_mat_normalize_row") return iv(1) > 1 || F.n > 2 && iv(2) > 1 || k.ch[0] == 3;
	if (n == "isl_vec_ceil") return true;                                      // meaningful on homogeneous vectors with a positive denominator only
	if (n == "isl_mat_right_inverse") return k.ch[0] == 3;                     // requires linearly independent rows
	if (n.find("reset_space") != string::npos || n.find("reset_domain_space") != string::npos || n.find("reset_tuple_space") != string::npos) return true;    // internal: space of the same dimension
	if (n == "isl_basic_set_compare_at") return true;                          // order of two sets in one space with the earlier dimensions fixed
	return false;
}
// one execution
struct Exec {
	isl_ctx *c; const Call &call; const api_fn &F; vector<api_slot> a; vector<void *> held; vector<string> before; api_slot r; bool failed = false;
	Exec(isl_ctx *c, const Call &k) : c(c), call(k), F(api_fns[k.fn]), a(F.n), held(F.n) { for (auto &s : a) memset(&s, 0, sizeof s); memset(&r, 0, sizeof r); }
	// shared: keep an extra reference to every consumed argument; alias: equal choices denote the same object
	void make(bool shared, bool alias) {
		static const char *strs[] = {"n", "x"};
		for (int k = 0; k < F.n; ++k) { auto &x = F.arg[k]; switch (x.kind) {
			case API_OBJ: {
				void *o = nullptr; if (alias) for (int j = 0; j < k; ++j) if (F.arg[j].kind == API_OBJ && F.arg[j].type == x.type && call.ch[j] == call.ch[k] && api_types[x.type].copy) { o = api_types[x.type].copy(a[j].p); break; }
				if (!o) o = makers()[x.type][call.ch[k]](c);
				a[k].p = o; if (shared && x.take && api_types[x.type].copy) held[k] = api_types[x.type].copy(o);
				break; }
			case API_CTX: a[k].p = c; break;
			case API_STR: a[k].s = (char *) strs[call.ch[k]]; break;
			case API_DBL: a[k].d = 2.5; break;
			case API_INT: case API_DIM: case API_FOLD: case API_OPTYPE: case API_LOOP: a[k].i = ints(x.kind)[call.ch[k]]; break;
			} }
	}
	void *obj(int k) { return F.arg[k].kind != API_OBJ ? nullptr : F.arg[k].take ? held[k] : a[k].p; }   // what the caller still holds
	void snapshot() { before.assign(F.n, ""); for (int k = 0; k < F.n; ++k) if (obj(k)) before[k] = text(F.arg[k].type, obj(k)); }
	void run() { cb_count = 0; cblog.clear(); F.call(a.data(), &r); failed = isl_ctx_last_error(c) != isl_error_none; }
	bool null_result() const { switch (F.ret) { case API_ROBJ: return !r.p; case API_RSTR: case API_RCSTR: return !r.s; case API_RBOOL: case API_RSTAT: case API_RSIZE: return (int) r.i < 0; case API_RMAYBE: return r.i2 != 0 && r.i2 != 1; default: return false; } }
	string result() {
		string s;
		switch (F.ret) {
		case API_ROBJ: case API_RPEEK: s = text(F.rtype, r.p); break;
		case API_RSTR: case API_RCSTR: s = r.s ? cat("\"", r.s, "\"") : "(null)"; break;
		case API_RDBL: s = cat(r.d); break;
		case API_RMAYBE: s = cat((int) r.i2, r.p ? text(F.rtype, r.p) : ""); break;
		case API_RBOOL: case API_RSTAT: case API_RSIZE: case API_RINT: s = cat((int) r.i); break;
		}
		for (int k = 0; k < F.n; ++k) { if (F.arg[k].kind == API_OUT) s += " | " + (a[k].p ? text(F.arg[k].type, a[k].p) : "(null)"); if (F.arg[k].kind == API_OUTI) s += cat(" | ", a[k].buf[0]); }
		if (!cblog.empty()) s += " cb: " + cblog;
		return s;
	}
	void drop() {   // release everything
		if (F.ret == API_ROBJ && r.p) api_types[F.rtype].free(r.p);
		if (F.ret == API_RMAYBE && r.p) api_types[F.rtype].free(r.p);
		if (F.ret == API_RSTR && r.s) free(r.s);
		for (int k = 0; k < F.n; ++k) { auto &x = F.arg[k]; if (x.kind == API_OBJ) { if (!x.take && a[k].p) api_types[x.type].free(a[k].p); if (held[k]) api_types[x.type].free(held[k]); } if (x.kind == API_OUT && a[k].p) api_types[x.type].free(a[k].p); a[k].p = held[k] = nullptr; }
		r.p = nullptr; r.s = nullptr;
	}
};
inline isl_ctx *new_ctx() { isl_ctx *c = isl_ctx_alloc(); isl_options_set_on_error(c, ISL_ON_ERROR_CONTINUE); return c; }
} // namespace api
