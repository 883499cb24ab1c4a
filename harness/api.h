/* Call table over the public API, see tools/apigen.py */
#ifndef API_H
#define API_H
#include <stdio.h>
#include <isl/ctx.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { API_NONE, API_OBJ, API_CTX, API_CB, API_USER, API_FILE, API_STR, API_DBL, API_OUT, API_OUTI, API_INT, API_DIM, API_FOLD, API_OPTYPE, API_LOOP };
enum { API_RVOID, API_ROBJ, API_RPEEK, API_RCTX, API_RUSER, API_RSTR, API_RCSTR, API_RDBL, API_RMAYBE, API_RBOOL, API_RSTAT, API_RSIZE, API_RHASH, API_RINT };
struct api_slot { void *p; char *s; double d; long i, i2; int buf[16]; };
struct api_arg { int kind, type, take; };
struct api_fn { const char *name; void (*call)(struct api_slot *a, struct api_slot *r); int ret, rtype, n; const struct api_arg *arg; void *defined; };
struct api_type { const char *name; void *(*copy)(void *); void *(*free)(void *); char *(*str)(void *); int (*eq)(void *, void *); void *(*lalloc)(isl_ctx *); void *(*ladd)(void *, void *); int elt; };
extern const struct api_fn api_fns[]; extern const int api_n_fns;
extern const struct api_type api_types[]; extern const int api_n_types;
int api_cb_fail(void);      /* decides whether a callback reports failure */
FILE *api_devnull(void);
void api_log(int type, void *obj);   /* records an object passed to a callback */
#ifdef __cplusplus
}
#endif
#endif
