#!/usr/bin/env python3
"""Turns the prototypes in /repo/include/isl/*.h into a call table.

Output: _work/gen/api_table.c, a C file with one trampoline per public function and a table describing
its arguments (type, whether it is taken or kept), plus one record per object type.  Everything that the
drivers of C21-C26 call goes through this table, so a function added to or removed from the headers is
picked up when the table is regenerated.
"""
import hashlib, os, re, subprocess, sys, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GEN = os.path.join(VERIF, "_work", "gen")

SKIP_HEADERS = {"val_gmp.h", "hmap.h", "maybe_templ.h", "multi.h", "maybe.h", "arg.h", "hash.h", "stream.h", "obj.h", "list.h"}
# functions that are not operations on isl objects, or that hand out raw memory
SKIP = re.compile(r"isl_(ctx_(alloc.*|free|ref|deref|parse_options|peek_options|options|abort|resume|set_error|reset_error|last_error.*|set_max_operations|get_max_operations|reset_operations)|handle_error|.*_or_die|printer_get_file|printer_to_file|.*_read_from_file|options_.*|version|arg_.*|args_.*|ast_op_type_.*|ast_expr_op_type_set.*)$")
HOLES = re.compile(r"_get_user$|_set_free_user$")
ENUMS = {"isl_dim_type": "DIM", "isl_fold": "FOLD", "isl_ast_expr_op_type": "OPTYPE", "isl_ast_loop_type": "LOOP", "isl_error": None, "isl_schedule_node_type": None}


def prototypes():
    inc = os.path.join(REPO, "include", "isl")
    hs = sorted(h for h in os.listdir(inc) if h.endswith(".h") and h not in SKIP_HEADERS)
    src = "".join(f"#include <isl/{h}>\n" for h in hs)
    r = subprocess.run(["gcc", "-E", "-P", "-D__isl_take=ISLTAKE", "-D__isl_keep=ISLKEEP", "-D__isl_give=ISLGIVE", "-D__isl_null=ISLNULL",
                        "-D__isl_export=", "-D__isl_constructor=", "-D__isl_overload=", "-I" + os.path.join(VERIF, "config"), "-I" + os.path.join(VERIF, "config", "include"), "-I" + os.path.join(REPO, "include"), "-x", "c", "-"],
                       input=src, capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr[-2000:])
    t = re.sub(r"__attribute__\s*\(\(.*?\)\)", "", re.sub(r"\s+", " ", r.stdout))
    # drop bodies of inline functions
    while True:
        u = re.sub(r"\{[^{}]*\}", ";", t)
        if u == t: break
        t = u
    for d in t.split(";"):
        d = d.strip()
        m = re.match(r"^(?!typedef|return)([\w\s\*]+?)\b(isl_\w+)\s*\((.*)\)$", d)
        if m and "static" not in m.group(1): yield hs, m.group(1).strip(), m.group(2), m.group(3)


def split(args):
    dep, cur, out = 0, "", []
    for ch in args:
        if ch == "," and not dep: out.append(cur.strip()); cur = ""; continue
        dep += ch == "("; dep -= ch == ")"; cur += ch
    return out + [cur.strip()]


def clean(s): return re.sub(r"\s+", " ", re.sub(r"\b(ISLTAKE|ISLKEEP|ISLGIVE|ISLNULL|struct|const)\b", "", s)).strip()


class Gen:
    def __init__(self):
        self.cbs, self.cbdef = {}, []
        self.types = set()

    def callback(self, a):
        """Static C callback for a function pointer parameter; frees what it is given."""
        m = re.match(r"(.*?)\(\s*\*\s*\w+\s*\)\s*\((.*)\)$", a)
        ret, args = m.group(1).strip(), split(m.group(2))
        key = clean(ret) + "|" + ",".join(re.sub(r"\w+$", "", x) for x in args)
        if key in self.cbs: return self.cbs[key]
        n = f"cb{len(self.cbs)}"
        rt, body, ps, first = clean(ret), [], [], None
        for i, x in enumerate(args):
            c = clean(x); mm = re.match(r"^(isl_\w+)\s*\*\s*\w*$", c)
            if c in ("void *user",) or c.startswith("void *") or c.startswith("enum") or c.startswith("int "):
                ps.append(re.sub(r"\w+$", "", c.replace("*", "* ")) + f" x{i}"); continue
            if not mm: return None
            ps.append(f"{mm.group(1)} *x{i}")
            body.append(f"api_log(@{mm.group(1)}@, x{i});")
            if "ISLTAKE" in x or rt == "isl_pw_qpolynomial *":
                if rt == mm.group(1) + " *" and first is None: first = f"x{i}"
                else: body.append(f"isl_{mm.group(1)[4:]}_free(x{i});")
            self.types.add(mm.group(1))
        if rt == "isl_stat": fin = "return api_cb_fail() ? isl_stat_error : isl_stat_ok;"
        elif rt == "isl_bool": fin = "return api_cb_fail() ? isl_bool_error : isl_bool_true;"
        elif rt == "int": fin = "return api_cb_fail() ? 1 : 0;"
        elif rt == "void": fin = ""
        elif rt.endswith("*"):
            T = rt[:-1].strip()
            if first: fin = f"if (api_cb_fail()) {{ {T}_free({first}); return 0; }} return {first};"
            elif T == "isl_id" : fin = "return api_cb_fail() ? 0 : isl_id_alloc(isl_ast_build_get_ctx(x0), \"cb\", 0);"
            elif T == "isl_ast_node": fin = "return 0;"; return None
            elif T == "isl_pw_qpolynomial": fin = "return 0;"; return None
            else: return None
        else: return None
        self.cbdef.append(f"static {rt} {n}({', '.join(ps)}) {{ {' '.join(body)} {fin} }}")
        self.cbs[key] = n
        return n

    def arg(self, a):
        if "(*" in a or "( *" in a:
            c = self.callback(a)
            return ("CB", c, False) if c else None
        take = "ISLTAKE" in a
        c = clean(a)
        if c in ("", "void"): return ("NONE", None, False)
        m = re.match(r"^(isl_\w+)\s*\*\s*\w*$", c)
        if m:
            if m.group(1) == "isl_ctx": return ("CTX", None, False)
            if m.group(1) == "isl_bool": return ("OUTI", None, False)
            return ("OBJ", m.group(1), take)
        m = re.match(r"^(isl_\w+)\s*\*\s*\*\s*\w*$", c)
        if m and "ISLGIVE" in a: return ("OUT", m.group(1), False)
        m = re.match(r"^enum (isl_\w+)( \w+)?$", c)
        if m and ENUMS.get(m.group(1)): return (ENUMS[m.group(1)], None, False)
        if re.match(r"^(unsigned( long| int)?|int|long|size_t|isl_bool)( \w+)?$", c): return ("INT", None, False)
        if re.match(r"^int \*\s*\w+$", c): return ("OUTI", None, False)
        if re.match(r"^double( \w+)?$", c): return ("DBL", None, False)
        if re.match(r"^char \*\s*\w*$", c): return ("STR", None, False)
        if re.match(r"^void \*\s*\w*$", c): return ("USER", None, False)
        if re.match(r"^FILE \*\s*\w*$", c): return ("FILE", None, False)
        return None

    def ret(self, r):
        c = clean(r); c = re.sub(r"^extern ", "", c)
        if c == "void": return ("VOID", None)
        m = re.match(r"^(isl_\w+)\s*\*$", c)
        if m: return ("CTX", None) if m.group(1) == "isl_ctx" else ("OBJ" if "ISLGIVE" in r or "ISLNULL" in r else "PEEK", m.group(1))
        if c == "char *": return ("CSTR", None) if "const" in r else ("STR", None)
        if c == "isl_bool": return ("BOOL", None)
        if c == "isl_stat": return ("STAT", None)
        if c == "isl_size": return ("SIZE", None)
        if c == "uint32_t": return ("HASH", None)
        m = re.match(r"^isl_maybe_(isl_\w+)$", c)
        if m: return ("MAYBE", m.group(1))
        if c == "double": return ("DBL", None)
        if c in ("int", "long", "unsigned", "unsigned long") or c.startswith("enum"): return ("INT", None)
        if c == "void *": return ("USER", None)
        return None


def main():
    g = Gen(); fns, seen, skipped = [], set(), []
    hs = None
    protos = list(prototypes())
    names = {p[2] for p in protos}
    for hs, r, name, args in protos:
        if name in seen: continue
        seen.add(name)
        if SKIP.match(name) or HOLES.search(name): skipped.append(name); continue
        ret = g.ret(r)
        A = [g.arg(x) for x in split(args)]
        if A == [("NONE", None, False)]: A = []
        if ret is None or any(x is None for x in A) or not any(x[0] in ("OBJ", "CTX") for x in A): skipped.append(name); continue
        fns.append((name, ret, A))
        for x in A:
            if x[1] and x[0] in ("OBJ", "OUT"): g.types.add(x[1])
        if ret[1]: g.types.add(ret[1])
    types = sorted(t for t in g.types if f"{t}_free" in names)
    bad = {t for t in g.types if t not in types}
    fns = [f for f in fns if f[1][1] not in bad and not any(a[1] in bad and a[0] in ("OBJ", "OUT") for a in f[2])]
    # functions whose only object type has no _free are dropped (borrowed structures)
    ti = {t: i for i, t in enumerate(types)}
    o = ["/* generated by tools/apigen.py */", "#define _GNU_SOURCE", "#include <stdio.h>", "#include <stdlib.h>"] + [f"#include <isl/{h}>" for h in hs] + ['#include "api.h"']
    decl = set()
    def weak(n):
        if n in names and n not in decl: decl.add(n); o.append(f"extern __typeof__({n}) {n} __attribute__((weak));")
    for f in fns: weak(f[0])
    for t in types:
        for s in ("copy", "free", "to_str", "is_equal", "plain_is_equal", "get_ctx", "n_%s" % t[4:]): weak(f"{t}_{s}")
        weak(f"isl_printer_print_{t[4:]}")
    o += [re.sub(r"@(\w+)@", lambda m: str(ti.get(m.group(1), -1)), c) for c in g.cbdef]
    for i, (name, ret, A) in enumerate(fns):
        call, pre, post = [], [], []
        for k, (kind, t, take) in enumerate(A):
            if kind == "OBJ": call.append(f"({t} *) a[{k}].p")
            elif kind == "CTX": call.append(f"(isl_ctx *) a[{k}].p")
            elif kind == "CB": call.append(t)
            elif kind in ("USER",): call.append("0")
            elif kind == "FILE": call.append("api_devnull()")
            elif kind == "STR": call.append(f"(char *) a[{k}].s")
            elif kind == "DBL": call.append(f"a[{k}].d")
            elif kind == "OUT": call.append(f"({t} **) &a[{k}].p")
            elif kind == "OUTI": call.append(f"(void *) a[{k}].buf")
            else: call.append(f"a[{k}].i")
        e = f"{name}({', '.join(call)})"
        if ret[0] == "VOID": b = f"{e};"
        elif ret[0] in ("OBJ", "PEEK", "CTX", "USER"): b = f"r->p = (void *) {e};"
        elif ret[0] in ("STR", "CSTR"): b = f"r->s = (char *) {e};"
        elif ret[0] == "DBL": b = f"r->d = {e};"
        elif ret[0] == "MAYBE": b = f"__typeof__({e}) v = {e}; r->p = v.value; r->i2 = v.valid;"
        else: b = f"r->i = (long) {e};"
        if ret[0] == "MAYBE": b = f"isl_maybe_{ret[1]} v = {e}; r->p = v.value; r->i2 = v.valid;"
        o.append(f"static void f{i}(struct api_slot *a, struct api_slot *r) {{ {b} }}")
        if A: o.append(f"static const struct api_arg A{i}[] = {{ " + ", ".join(f"{{ API_{kind}, {ti[t] if kind in ('OBJ','OUT') else -1}, {int(take)} }}" for kind, t, take in A) + " };")
    o.append("const struct api_fn api_fns[] = {")
    for i, (name, ret, A) in enumerate(fns):
        o.append(f'{{ "{name}", f{i}, API_R{ret[0]}, {ti[ret[1]] if ret[1] else -1}, {len(A)}, {f"A{i}" if A else 0}, {name} != 0 }},' if False else
                 f'{{ "{name}", f{i}, API_R{ret[0]}, {ti[ret[1]] if ret[1] else -1}, {len(A)}, {f"A{i}" if A else 0}, (void *) {name} }},')
    o.append(f"}};\nconst int api_n_fns = {len(fns)};")
    for i, t in enumerate(types):
        n = t[4:]
        c = f"{t}_copy" if f"{t}_copy" in names else None
        s = "isl_printer_get_str" if t == "isl_printer" else f"{t}_to_str" if f"{t}_to_str" in names else None
        p = f"isl_printer_print_{n}" if f"isl_printer_print_{n}" in names else None
        gc = f"{t}_get_ctx" if f"{t}_get_ctx" in names else None
        if s: o.append(f"static char *ts{i}(void *p) {{ return {s} ? {s}(p) : 0; }}")
        elif p and gc: o.append(f"static char *ts{i}(void *x) {{ isl_printer *p; char *r; if (!{p} || !{gc}) return 0; p = isl_printer_to_str({gc}(x)); p = {p}(p, x); r = isl_printer_get_str(p); isl_printer_free(p); return r; }}")
        else: o.append(f"#define ts{i} 0")
        eq = [f"{t}_{e}" for e in ("is_equal", "plain_is_equal") if f"{t}_{e}" in names]
        if eq: o.append(f"static int eq{i}(void *x, void *y) {{ return {eq[0]}(x, y); }}")
        else: o.append(f"#define eq{i} 0")
        if t == "isl_printer": s = None
        o.append(f"static void *fr{i}(void *x) {{ {t}_free(x); return 0; }}")
        if c: o.append(f"static void *cp{i}(void *x) {{ return {c}(x); }}")
        else: o.append(f"#define cp{i} 0")
        m = re.match(r"^isl_(\w+)_list$", t)
        if m and f"isl_{m.group(1)}" in ti and f"{t}_alloc" in names:
            o.append(f"static void *la{i}(isl_ctx *c) {{ return {t}_alloc(c, 0); }} static void *ld{i}(void *l, void *e) {{ return {t}_add(l, e); }}")
        else: o.append(f"#define la{i} 0\n#define ld{i} 0")
    o.append("const struct api_type api_types[] = {")
    for i, t in enumerate(types):
        m = re.match(r"^isl_(\w+)_list$", t)
        o.append(f'{{ "{t}", cp{i}, fr{i}, ts{i}, eq{i}, la{i}, ld{i}, {ti.get("isl_" + m.group(1), -1) if m else -1} }},')
    o.append(f"}};\nconst int api_n_types = {len(types)};")
    text = "\n".join(o) + "\n"
    os.makedirs(GEN, exist_ok=True)
    path = os.path.join(GEN, "api_table.c")
    if not os.path.exists(path) or open(path).read() != text:
        open(path + ".tmp%d" % os.getpid(), "w").write(text); os.rename(path + ".tmp%d" % os.getpid(), path)
    if __name__ == "__main__": print(len(fns), "functions", len(types), "types", len(skipped), "skipped:", " ".join(skipped))
    return path


if __name__ == "__main__": main()
