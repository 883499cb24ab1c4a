/* Option tables for C34 and a controlled environment for isl_args_parse (exit is intercepted, output captured). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <setjmp.h>
#include <isl/arg.h>
#include <isl/ctx.h>
#include <isl/options.h>
#include <isl/schedule.h>
#include <isl/schedule_node.h>
#include <isl/ast_build.h>
#include "argtab.h"
void __real_free(void *p);
extern long aw_live;
static int set_log[8]; static int versions; static jmp_buf env; static int armed;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int s) { if (armed) { armed = 0; longjmp(env, 1 + (s & 255)); } __real_exit(s); }
struct deep { char *dstr; int dint; unsigned dbool; };
struct sub { unsigned flag; long num; struct deep *deep; unsigned mode; char *name; };
struct top {
	unsigned choice, ochoice, uchoice, flags, b1, b0, ba, alias; int i, sd; long l, ol, ul_; unsigned long u; char *s, *s0; int nl; char **list; struct sub *sub; unsigned gopt; int gint; char *uo; char *in, *out; unsigned hidden;
};
static struct isl_arg_choice cc[] = {{"one", 1}, {"two", 2}, {"three", 3}, {"tw", 4}, {0}};
static struct isl_arg_flags ff[] = {{"none", 7, 0}, {"aa", 1, 1}, {"bb", 2, 2}, {"cd", 4, 4}, {"xy", 24, 16}, {"xz", 24, 8}, {0}};
static int set_u(void *o, unsigned v) { set_log[0]++; set_log[1] = v; return 0; }
static int set_pb(void *o, unsigned v) { set_log[2]++; set_log[3] = v; return 0; }
static int set_pc(void *o, unsigned v) { set_log[4]++; set_log[5] = v; return 0; }
static int set_ul(void *o, long v) { set_log[6]++; set_log[7] = v; return 0; }
static void pv1(void) { versions = versions * 10 + 1; }
static void pv2(void) { versions = versions * 10 + 2; }
static int uinit(void *p) { *(char **)p = strdup("init"); return 0; }
static void uclear(void *p) { free(*(char **)p); }
ISL_ARGS_START(struct deep, deep_args)
ISL_ARG_STR(struct deep, dstr, 'D', "dstr", "string", NULL, "nested string")
ISL_ARG_INT(struct deep, dint, 0, "dint", "number", 11, "nested number")
ISL_ARG_BOOL(struct deep, dbool, 0, "dbool", 1, "nested flag")
ISL_ARGS_END
ISL_ARGS_START(struct sub, sub_args)
ISL_ARG_BOOL(struct sub, flag, 'F', "flag", 0, "flag of the child")
ISL_ARG_ALIAS("banner")
ISL_ARG_LONG(struct sub, num, 'N', "num", -4, "number of the child")
ISL_ARG_CHILD(struct sub, deep, "deep", &deep_args, "grandchild")
ISL_ARG_CHOICE(struct sub, mode, 0, "mode", cc, 2, "mode")
ISL_ARG_STR(struct sub, name, 0, "name", NULL, "child", "name")
ISL_ARG_VERSION(&pv2)
ISL_ARGS_END
ISL_ARGS_START(struct top, group_args)
ISL_ARG_BOOL(struct top, gopt, 'G', "gopt", 0, "group flag")
ISL_ARG_INT(struct top, gint, 0, "gint", "number", 3, NULL)
ISL_ARGS_END
#define BODY(X) \
ISL_ARG_CHOICE(struct top, choice, 'c', "choice", cc, 1, "choice") \
ISL_ARG_OPT_CHOICE(struct top, ochoice, 'O', "ochoice", cc, 1, 3, "optional choice") \
ISL_ARG_USER_OPT_CHOICE(struct top, uchoice, 0, "uchoice", cc, &set_u, 2, 4, "user choice") \
ISL_ARG_PHANTOM_USER_CHOICE_F(0, "pchoice", cc, &set_pc, 2, "phantom choice", X) \
ISL_ARG_FLAGS(struct top, flags, 'f', "flags", ff, 17, "flags") \
ISL_ARG_BOOL(struct top, b1, 'b', "bee", 1, "on") \
ISL_ARG_ALIAS("buzz") \
ISL_ARG_ALIAS("no-op") \
ISL_ARG_BOOL(struct top, b0, 'z', NULL, 0, "off") \
ISL_ARG_BOOL_F(struct top, ba, 0, "ba", 0, "with argument", ISL_ARG_BOOL_ARG) \
ISL_ARG_PHANTOM_BOOL("p"[0], "phantom", &set_pb, "phantom") \
ISL_ARG_BOOL_F(struct top, hidden, 0, "hidden", 0, "hidden", ISL_ARG_HIDDEN) \
ISL_ARG_INT(struct top, i, 'i', "int", "number", 5, "integer") \
ISL_ARG_INT_F(struct top, sd, 0, "wide", "number", 6, "single dash", ISL_ARG_SINGLE_DASH) \
ISL_ARG_LONG(struct top, l, 'l', "long", 7, "long") \
ISL_ARG_OPT_LONG(struct top, ol, 0, "olong", 1, 99, "optional long") \
ISL_ARG_USER_LONG(struct top, ul_, 0, "ulo", &set_ul, 2, "user long") \
ISL_ARG_ULONG(struct top, u, 'u', "ulong", 8, "unsigned") \
ISL_ARG_STR(struct top, s, 's', "str", "string", "def", "string") \
ISL_ARG_STR(struct top, s0, 0, "nul", NULL, NULL, "null string") \
ISL_ARG_STR_LIST(struct top, nl, list, 'L', "list", "item", "list") \
ISL_ARG_USER(struct top, uo, &uinit, &uclear) \
ISL_ARG_CHILD(struct top, sub, "sub", &sub_args, "child options") \
ISL_ARG_GROUP("grp", &group_args, "grouped options") \
ISL_ARG_FOOTER("the footer")
ISL_ARGS_START(struct top, t0_args)
BODY(0)
ISL_ARGS_END
ISL_ARGS_START(struct top, t1_args)
ISL_ARG_ARG(struct top, in, "input", NULL)
ISL_ARG_VERSION(&pv1)
BODY(ISL_ARG_HIDDEN)
ISL_ARG_ARG(struct top, out, "output", "a.out")
ISL_ARGS_END
ISL_ARG_DEF(t0, struct top, t0_args)
ISL_ARG_DEF(t1, struct top, t1_args)
static void q(char **p, const char *k, const char *v) { *p += v ? sprintf(*p, "%s=\"%s\" ", k, v) : sprintf(*p, "%s=null ", k); }
#define N(f) p += sprintf(p, #f "=%ld ", (long)o->f)
static void dump(struct top *o, char *p)
{
	int k;
	N(choice); N(ochoice); N(uchoice); N(flags); N(b1); N(b0); N(ba); N(i); N(sd); N(l); N(ol); N(ul_); N(u); q(&p, "s", o->s); q(&p, "s0", o->s0);
	p += sprintf(p, "list=["); for (k = 0; k < o->nl; ++k) p += sprintf(p, "%s,", o->list[k]); p += sprintf(p, "] ");
	N(sub->flag); N(sub->num); N(sub->mode); q(&p, "sub->name", o->sub->name); q(&p, "sub->deep->dstr", o->sub->deep->dstr); N(sub->deep->dint); N(sub->deep->dbool);
	N(gopt); N(gint); N(hidden); q(&p, "uo", o->uo); q(&p, "in", o->in); q(&p, "out", o->out);
	p += sprintf(p, "setters=%d:%d,%d:%d,%d:%d,%d:%d", set_log[0], set_log[1], set_log[2], set_log[3], set_log[4], set_log[5], set_log[6], set_log[7]);
}
void arg_run(int table, int argc, char **argv, unsigned flags, struct arg_result *r)
{
	static FILE *null; volatile long live; struct top *volatile o; int e; FILE *so = stdout, *se = stderr; FILE *volatile cap = NULL; static char *buf; static size_t len;
	if (!null) null = fopen("/dev/null", "w");
	memset(set_log, 0, sizeof(set_log)); versions = 0; live = aw_live;
	o = table ? t1_new_with_defaults() : t0_new_with_defaults(); dump(o, r->before);
	buf = NULL; if (r->want_output) cap = open_memstream(&buf, &len);
	stdout = cap ? cap : null; stderr = null; r->ret = -1; r->exited = 0; r->status = 0; armed = 1; e = setjmp(env);
	if (!e) r->ret = table ? t1_parse(o, argc, argv, flags) : t0_parse(o, argc, argv, flags); else { r->exited = 1; r->status = e - 1; }
	armed = 0; stdout = so; stderr = se; if (cap) { fclose(cap); snprintf(r->output, sizeof(r->output), "%s", buf); __real_free(buf); }
	dump(o, r->after); r->versions = versions; table ? t1_free(o) : t0_free(o); r->leaked = aw_live - live;
}
#define OPTS(X) X(ast_always_print_block) X(ast_build_allow_else) X(ast_build_allow_or) X(ast_build_atomic_upper_bound) X(ast_build_detect_min_max) X(ast_build_exploit_nested_bounds) X(ast_build_group_coscheduled) X(ast_build_prefer_pdiv) X(ast_build_scale_strides) X(ast_build_separation_bounds) X(ast_print_macro_once) X(ast_print_outermost_block) X(bound) X(coalesce_bounded_wrapping) X(coalesce_preserve_locals) X(gbr_only_first) X(on_error) X(pip_symmetry) X(schedule_algorithm) X(schedule_carry_self_first) X(schedule_max_coefficient) X(schedule_max_constant_term) X(schedule_maximize_band_depth) X(schedule_maximize_coincidence) X(schedule_outer_coincidence) X(schedule_separate_components) X(schedule_serialize_sccs) X(schedule_split_scaled) X(schedule_treat_coalescing) X(schedule_whole_component) X(tile_scale_tile_loops) X(tile_shift_point_loops)
#define G(n) isl_options_get_##n,
#define S(n) isl_options_set_##n,
#define NM(n) #n,
int (*opt_get[])(isl_ctx *) = { OPTS(G) }; isl_stat (*opt_set[])(isl_ctx *, int) = { OPTS(S) }; const char *opt_name[] = { OPTS(NM) }; int opt_n = sizeof(opt_get) / sizeof(*opt_get);
/* isl options nested in those of a user */
struct user_opt { int mine; struct isl_options *isl; };
extern struct isl_args isl_options_args;
ISL_ARGS_START(struct user_opt, user_args)
ISL_ARG_INT(struct user_opt, mine, 'm', "mine", "number", 1, "mine")
ISL_ARG_CHILD(struct user_opt, isl, "isl", &isl_options_args, "isl options")
ISL_ARGS_END
ISL_ARG_DEF(user_opt, struct user_opt, user_args)
isl_ctx *user_ctx(int **mine) { struct user_opt *o = user_opt_new_with_defaults(); *mine = &o->mine; return isl_ctx_alloc_with_options(&user_args, o); }
