#!/usr/bin/env python3
"""Content-addressed incremental build of libisl (from /repo) and the harnesses.

Objects are cached under /verif/_work/<variant>, keyed by the content of the
source and of every header/template it includes, so that a check always
reflects /repo's current tree whatever the file times are.
"""
import hashlib, json, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "_work")

VARIANTS = {
    "opt":  {"cc": "gcc",   "cxx": "g++",     "flags": ["-O2", "-g0"], "ld": []},
    "asan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
             "-fsanitize=address"], "ld": ["-fsanitize=address"]},
    "tsan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-gline-tables-only", "-fsanitize=thread"], "ld": ["-fsanitize=thread"]},
    "cov":  {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g0", "-fprofile-instr-generate", "-fcoverage-mapping"],
             "ld": ["-fprofile-instr-generate"]},
    "pc":   {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g0", "-fsanitize-coverage=trace-pc"], "ld": []},
}


def sources():
    """The C files of libisl as listed in Makefile.am (GMP configuration)."""
    text = open(f"{REPO}/Makefile.am").read()
    m = re.search(r"^libisl_la_SOURCES = \\\n((?:.*\\\n)*.*\n)", text, re.M)
    names = re.findall(r"[\w./-]+\.c\b", m.group(1))
    gmp = text[re.search(r"^if GMP_FOR_MP$", text, re.M).start():]
    m = re.search(r"^MP_SRC = \\\n((?:.*\\\n)*.*\n)", gmp, re.M)
    names += [n for n in re.findall(r"[\w./-]+\.c\b", m.group(1))]
    names = [n for n in names if n != "mp_get_memory_functions.c"]
    if "isl_ffs.c" in names: pass
    return sorted(set(names))


def includes():
    return ["-I" + os.path.join(VERIF, "config"), "-I" + REPO, "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(VERIF, "config", "include")]


_hash = {}
def fhash(path):
    if path not in _hash:
        try:
            with open(path, "rb") as f:
                _hash[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash[path] = None
    return _hash[path]


def compile_one(cc, flags, src, obj):
    """Compile src to obj unless the recorded dependencies are unchanged."""
    key_file = obj + ".key"
    cmd = [cc] + flags + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    cmdh = hashlib.sha1("\0".join(cmd).encode()).hexdigest()
    try:
        k = json.load(open(key_file))
        if k["cmd"] == cmdh and os.path.exists(obj) and all(fhash(p) == h for p, h in k["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("compilation failed: %s\n%s" % (src, r.stderr[-4000:]))
    text = open(obj + ".d").read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    deps = [d for d in deps if not d.startswith("/usr/")]
    json.dump({"cmd": cmdh, "deps": {d: fhash(d) for d in deps}}, open(key_file, "w"))
    return True


def build_lib(variant, pool, extra=(), tag=None):
    v = VARIANTS[variant]
    d = os.path.join(WORK, tag or variant, "isl")
    flags = v["flags"] + ["-w", "-fPIC"] + list(extra) + includes()
    objs, futs = [], []
    for s in sources():
        o = os.path.join(d, s.replace("/", "_")[:-2] + ".o")
        objs.append(o)
        futs.append(pool.submit(compile_one, v["cc"], flags, os.path.join(REPO, s), o))
    return objs, futs


def build(harness, variant="opt", extra_src=(), ld=(), cxxflags=(), tag=None, out=None):
    """Build harness/<harness>.cc (plus C shims) against libisl; returns the binary."""
    v = VARIANTS[variant]
    if any(e == "@api_table.c" for e in extra_src):
        import apigen
        apigen.main()
    os.makedirs(os.path.join(WORK, tag or variant), exist_ok=True)
    lock = open(os.path.join(WORK, (tag or variant) + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    with ThreadPoolExecutor(8) as pool:
        base = os.path.join(WORK, tag or variant, "h")
        inc = ["-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")] + includes()
        hobjs, hf = [], []
        srcs = [os.path.join(VERIF, "mc", "mc.cc"), os.path.join(VERIF, "mc", "model.cc")] + \
               ([os.path.join(VERIF, "harness", harness + ".cc")]) + [os.path.join(WORK, "gen", e[1:]) if e.startswith("@") else os.path.join(VERIF, "harness", e) for e in extra_src]
        for s in srcs:
            o = os.path.join(base, os.path.basename(s).replace(".", "_") + ".o")
            hobjs.append(o)
            if s.endswith(".c"):
                hf.append(pool.submit(compile_one, v["cc"], (["-O0"] if "/gen/" in s else v["flags"]) + ["-w"] + inc, s, o))
            else:
                hf.append(pool.submit(compile_one, v["cxx"], v["flags"] + ["-std=c++17", "-w"] + list(cxxflags) + inc, s, o))
        objs, futs = build_lib(variant, pool, tag=tag)
        changed = any([f.result() for f in futs])
        changed |= any([f.result() for f in hf])
    exe = os.path.join(WORK, tag or variant, "bin", out or harness)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    keyf = exe + ".key"
    key = hashlib.sha1("\0".join([fhash(o) or "" for o in sorted(hobjs + objs)] + list(ld)).encode()).hexdigest()
    # object hashes were possibly cached before recompilation: recompute
    key = hashlib.sha1()
    for o in hobjs + objs:
        key.update(open(o, "rb").read())
    key.update("\0".join(ld).encode())
    key = key.hexdigest()
    if not (os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key):
        r = subprocess.run([v["cxx"]] + v["flags"] + ["-o", exe] + hobjs + objs + v["ld"] + list(ld) + ["-lgmp", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed:\n" + r.stderr[-4000:])
        open(keyf, "w").write(key)
    return exe


if __name__ == "__main__":
    for variant in sys.argv[1:]:
        with ThreadPoolExecutor(8) as pool:
            objs, futs = build_lib(variant, pool)
            print(variant, sum(f.result() for f in futs), "compiled")
