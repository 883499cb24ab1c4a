#include <isl/ctx.h>
#ifdef __cplusplus
extern "C" {
#endif
struct arg_result { int ret, exited, status, versions, want_output; long leaked; char before[1200], after[1200], output[12000]; };
void arg_run(int table, int argc, char **argv, unsigned flags, struct arg_result *r);
extern int (*opt_get[])(isl_ctx *); extern isl_stat (*opt_set[])(isl_ctx *, int); extern const char *opt_name[]; extern int opt_n;
isl_ctx *user_ctx(int **mine);
#ifdef __cplusplus
}
#endif
