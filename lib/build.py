"""Builds what the checks analyse: the analysis tool, and LLVM IR of the library and a harness.

Everything is rebuilt from the current tree: artifacts are keyed by a hash of every input
(library sources, harness, flags, tool sources), so a stale one is never picked up."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PAP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
LLVM = "/usr/lib/llvm-18"
IRFLAGS = ["-std=c++20", "-DNDEBUG", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fvisibility=hidden",
           "-flto", "-fwhole-program-vtables", "-emit-llvm", "-c", "-w"]

class AnalysisBroken(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise AnalysisBroken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd[:12]) + " ...", p.stderr.decode(errors="replace")[:4000]))
    return p.stdout

def repo_files():
    r = []
    for d in ("include", "src"):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(base, f) for f in fs]
    return sorted(r)

def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()

def hash_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update((p if isinstance(p, bytes) else str(p).encode()) + b"\1")
    return h.hexdigest()[:24]

def lib_sources():
    return [f for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if not f.endswith("winapi.cpp")]

def _publish(tmp, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.replace(tmp, dst)

def _prune(d, keep=12):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep]:
        try: os.remove(f)
        except OSError: pass

def tool():
    srcs = sorted(glob.glob(VERIF + "/tool/*.cpp"))
    key = hash_of(*[open(f, "rb").read() for f in srcs + sorted(glob.glob(VERIF + "/tool/*.h") + glob.glob(VERIF + "/tool/*.inc"))])
    out = os.path.join(BUILD, "tool", "papan-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        flags = ["-O1", "-std=c++17", "-fno-rtti", "-Wno-everything", "-I" + LLVM + "/include", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18",
                 "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
        objs = [os.path.join(td, os.path.basename(s) + ".o") for s in srcs]
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda so: run([CXX, *flags, "-c", so[0], "-o", so[1]]), zip(srcs, objs)))
        t = os.path.join(td, "papan")
        run([CXX, *objs, "-o", t, "-L" + LLVM + "/lib", "-lLLVM-18"])
        _publish(t, out)
    _prune(os.path.dirname(out), 3)
    return out

def module(harness, extra=(), with_lib=True, passes="sroa,mem2reg", defs=(), keep=None):
    """IR module of /verif/harness/<harness>, linked with the library's own sources."""
    hs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    deps = sorted(glob.glob(VERIF + "/harness/*.hpp"))
    key = hash_of(repo_hash(), REPO, *[open(h, "rb").read() for h in hs + deps], *hs, *IRFLAGS, *extra, *defs, with_lib, passes, keep)
    out = os.path.join(BUILD, "ir", os.path.basename(hs[0]).replace(".cpp", "") + "-" + key + ".bc")
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        srcs = hs + (lib_sources() if with_lib else [])
        def comp(i):
            o = os.path.join(td, "%d.bc" % i)
            run([CXX, *IRFLAGS, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness", *extra, *["-D" + d for d in defs], srcs[i], "-o", o])
            if passes:
                run(["opt-18", "-passes=" + passes, o, "-o", o + ".o"]); os.replace(o + ".o", o)
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, range(len(srcs))))
        t = os.path.join(td, "all.bc")
        run(["llvm-link-18", *objs, "-o", t])
        if keep:   # only what the roots can reach
            run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep, t, "-o", t + ".k"]); os.replace(t + ".k", t)
        _publish(t, out)
    _prune(os.path.dirname(out))
    return out
