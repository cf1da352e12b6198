"""Builds instrumented variants of the library from /repo's working tree, and the monitors linked against them."""
import hashlib, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
PARTS = ["configure", "dist_info", "LICENSE", "README.md", "doxyrefs.bib", "examples", "include", "src", "templates"]

class BuildError(Exception):
    pass

UB = "undefined"
# pointer-overflow: NULL + 0 is formed (never dereferenced) by design for absent index arrays.
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all"
VARIANTS = {
    # name: (compiler family, flags for library and monitors, configure flags, defines for the library)
    "asan":   ("clang", ASAN, [], ""),
    "dbg":    ("clang", ASAN, ["--enable-assert", "--enable-digraph-debug"], ""),
    "msan":   ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all", [], ""),
    "tsan":   ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread", [], ""),
    "plain":  ("gcc", "-O2 -g", [], ""),
    "o3":     ("clang", "-O3 -g", [], ""),
    "stable": ("clang", ASAN, [], "-DSCC_STABLE_FINDSEED"),
    # the library alone reports every executed edge to the monitor (see mode_steps.cpp)
    "steps":  ("clang", "-O1 -g", [], "-fsanitize-coverage=trace-pc-guard"),
    "cov":    ("gcc", "-O0 -g --coverage", [], ""),
}
# Other integer type configurations: configure flags and what the built library must then report (see mode_cfg.cpp).
_I = "--with-clabel=int"
CFGS = {
    "cfg_wide":    (["--with-clabel=uint64_t", "--with-clabel-na=max", "--with-pointindex=uint64_t", "--with-arcindex=uint64_t"],
                    "clabel=8u na=18446744073709551615 typelabel=8u pointindex=8u arcmax=18446744073709551615 pimax=18446744073709551615"),
    "cfg_int_max": ([_I, "--with-clabel-na=max", "--with-typelabel=int", "--with-pointindex=int", "--with-arcindex=uint32_t"],
                    "clabel=4s na=2147483647 typelabel=4s pointindex=4s arcmax=4294967295 pimax=2147483647"),
    "cfg_int_min": ([_I, "--with-clabel-na=min", "--with-typelabel=int", "--with-pointindex=int", "--with-arcindex=uint64_t"],
                    "clabel=4s na=-2147483648 typelabel=4s pointindex=4s arcmax=18446744073709551615 pimax=2147483647"),
    "cfg_neg1":    ([_I, "--with-clabel-na=-1", "--with-pointindex=uint32_t"],
                    "clabel=4s na=-1 typelabel=8u pointindex=4u arcmax=4294967295 pimax=4294967295"),
    "cfg_mix":     (["--with-clabel=uint32_t", "--with-clabel-na=max", "--with-pointindex=int", "--with-arcindex=uint64_t", "--with-typelabel=int"],
                    "clabel=4u na=4294967295 typelabel=4s pointindex=4s arcmax=18446744073709551615 pimax=2147483647"),
    "cfg_neg7":    ([_I, "--with-clabel-na=-7", "--with-pointindex=uint64_t", "--with-arcindex=uint32_t"],
                    "clabel=4s na=-7 typelabel=8u pointindex=8u arcmax=4294967295 pimax=18446744073709551615"),
}
CFG_DEFAULT = "clabel=4u na=4294967295 typelabel=8u pointindex=4u arcmax=4294967295 pimax=4294967295"
for _k, _v in CFGS.items():
    VARIANTS[_k] = ("clang", ASAN, _v[0], "")

def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def tree_hash():
    h = hashlib.sha256()
    for part in PARTS:
        p = os.path.join(REPO, part)
        files = []
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(".o")]
        elif os.path.exists(p):
            files = [p]
        for f in files:
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]

def harness_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        with open(f, "rb") as fh:
            h.update(f.encode() + fh.read())
    return h.hexdigest()[:16]

_slots = threading.Semaphore(max(2, os.cpu_count() or 4))
def compile_one(cmd, cwd=None):
    with _slots:
        return sh(cmd, cwd=cwd)

COMMON = ["core.cpp", "oracles.cpp", "shim.c", "alloc_hook.c"]
HEADERS = ["core.hpp", "line.hpp", "shim.h", "alloc_hook.h", "vh_alloc.h"]

def compilers(fam):
    return ("clang", "clang++") if fam == "clang" else ("gcc", "g++")

def build_lib(variant, th):
    fam, flags, conf, defs = VARIANTS[variant]
    cc, _ = compilers(fam)
    key = hashlib.sha256(("%s|%s|%s|%s|%s|" % (th, fam, flags, conf, defs) + harness_hash([os.path.join(H, "alloc_hook.h")])).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    if os.path.exists(os.path.join(d, "OK")):
        return d
    tmp = "%s.tmp%d" % (d, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    st = os.path.join(tmp, "src_tree"); out = os.path.join(tmp, "out")
    os.makedirs(st); os.makedirs(out)
    for part in PARTS:
        p = os.path.join(REPO, part)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(st, part), symlinks=True, ignore=shutil.ignore_patterns("*.o", "*.a"))
        elif os.path.exists(p):
            shutil.copy2(p, os.path.join(st, part))
    for f in ("include/scclust.h", "src/scclust_types.h"):
        p = os.path.join(st, f)
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ, LC_ALL="C.UTF-8", PATH=os.path.join(VERIF, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
    for v in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "XTRA_FLAGS", "CC"):
        env.pop(v, None)
    with _slots:
        sh([os.path.join(st, "configure")] + conf, cwd=out, env=env)
        sh(["make", "-j8", "CC=" + cc, "CFLAGS=-std=c99 -pedantic -fPIC %s %s -include %s" % (flags, defs, os.path.join(H, "alloc_hook.h"))], cwd=out, env=env)
    lib = find_lib(out)
    if not lib:
        raise BuildError("no static library produced in %s" % out)
    with open(os.path.join(tmp, "OK"), "w") as f:
        f.write(os.path.relpath(lib, tmp))
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    return d

def find_lib(out):
    for d, ds, fs in os.walk(out):
        for f in fs:
            if f.endswith(".a"):
                return os.path.join(d, f)
    return None

def inc_dirs(d):
    """the generated public header lives in out/include; internal headers in src_tree/src (or generated next to it)"""
    out = []
    for base in ("out/include", "out/src", "src_tree/include", "src_tree/src"):
        p = os.path.join(d, base)
        if os.path.isdir(p):
            out.append("-I" + p)
    return out

def build_ann(d, cc, cxx, flags, defs):
    """the bundled ANN wrapper and the example programs (their main() renamed), and the installed ANN library"""
    ex = os.path.join(d, "out", "examples"); out = []
    inc = os.path.join(d, "ann_inc%d" % os.getpid()); os.makedirs(os.path.join(inc, "include"), exist_ok=True)
    link = os.path.join(inc, "include", "ANN")
    if not os.path.islink(link):
        os.symlink("/usr/include/ANN", link)
    for f, comp in (("ann/ann_wrapper.cpp", [cxx, "-std=c++11", "-w", "-I" + os.path.join(d, "out"), "-I" + inc]),
                    ("ann/ann_example.c", [cc, "-std=c99", "-w", "-Dmain=vh_example_ann", "-I" + os.path.join(d, "out", "include")]),
                    ("simple/simple_example.c", [cc, "-std=c99", "-w", "-Dmain=vh_example_simple", "-I" + os.path.join(d, "out", "include")])):
        o = os.path.join(inc, os.path.basename(f) + ".o")
        compile_one(comp + flags.split() + defs.split() + ["-c", os.path.join(ex, f), "-o", o]); out.append(o)
    return out + ["/usr/lib/x86_64-linux-gnu/libann.a"]

def build_bin(variant, modefiles, th):
    """modefiles: list of mode_*.cpp names; returns the path of the monitor binary"""
    fam, flags, conf, defs = VARIANTS[variant]
    cc, cxx = compilers(fam)
    d = build_lib(variant, th)
    lib = os.path.join(d, open(os.path.join(d, "OK")).read())
    files = [os.path.join(H, f) for f in HEADERS + COMMON + modefiles]
    key = harness_hash(files)
    binp = os.path.join(d, "mon-%s-%s" % ("_".join(m.replace("mode_", "").replace(".cpp", "") for m in modefiles)[:60], key))
    if os.path.exists(binp):
        return binp
    inc = inc_dirs(d) + ["-I" + H]
    objs = []
    def one(f):
        o = os.path.join(d, "%s-%s.o" % (f.replace(".", "_"), harness_hash([os.path.join(H, f)] + [os.path.join(H, x) for x in HEADERS])))
        if os.path.exists(o):
            return o
        t = o + ".tmp%d" % os.getpid()
        if f.endswith(".c"):
            compile_one([cc, "-std=gnu11", "-w"] + flags.split() + inc + ["-c", os.path.join(H, f), "-o", t])
        else:
            compile_one([cxx, "-std=c++17", "-w"] + flags.split() + inc + ["-c", os.path.join(H, f), "-o", t])
        os.rename(t, o)
        return o
    with ThreadPoolExecutor(16) as ex:
        objs = list(ex.map(one, COMMON + modefiles))
    xtra = build_ann(d, cc, cxx, flags, defs) if "mode_ann.cpp" in modefiles else []
    t = binp + ".tmp%d" % os.getpid()
    compile_one([cxx] + flags.split() + objs + xtra[:-1] + [lib] + xtra[-1:] + ["-o", t, "-lm", "-lpthread"])
    os.rename(t, binp)
    return binp

def prune(keep_th_dirs):
    """drop variants of other trees, to bound disk use"""
    if not os.path.isdir(BUILD):
        return
    ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD))
    now = time.time()
    for m, e in ents[:-40]:
        if now - m > 600:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
