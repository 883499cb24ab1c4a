#include "api.hpp"
namespace api { int cb_fail_at = -1, cb_count; string cblog; bool logging = true; }
extern "C" {
#ifdef __clang__
__attribute__((no_sanitize("thread")))
#endif
int api_cb_fail(void) { return api::cb_count++ == api::cb_fail_at; }
FILE *api_devnull(void) { static FILE *f; if (!f) f = fopen("/dev/null", "w"); return f; }
void api_log(int type, void *obj) { if (api::logging && type >= 0) api::cblog += api::text(type, obj) + "; "; }
}
