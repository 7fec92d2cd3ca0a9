"""Runs the abstract interpreter on harness roots."""
import json, os, re, subprocess, tempfile, resource, concurrent.futures as cf
import build

TRAPS = ["-fsanitize=unreachable,return,signed-integer-overflow,integer-divide-by-zero,shift,bounds", "-fsanitize-trap=all", "-fno-sanitize-recover=all"]

def run(harness, roots, extra=(), rules=(), traps=True, asserts=False, with_lib=True, jobs=8, chunk=0, timeout=600, defs=(), **cfg):
    """root -> result; roots are names.  One process per chunk of roots."""
    tool = build.tool()
    ex = list(extra) + (TRAPS if traps else []) + (["-UNDEBUG"] if asserts else [])
    bc = build.module(harness, extra=ex, with_lib=with_lib, defs=defs, keep="r_*")
    roots = list(roots)
    if not roots:
        out = build.run(["llvm-nm-18", "--defined-only", bc]).decode()
        roots = sorted(set(m.group(1) for m in re.finditer(r" T (r_\w+)$", out, re.M)))
    n = chunk or max(1, min(8, (len(roots) + 4 * jobs - 1) // (4 * jobs)))
    parts = [roots[i::(len(roots) + n - 1) // n] for i in range((len(roots) + n - 1) // n)]
    def one(rs):
        c = {"roots": ["^(%s)$" % "|".join(rs)], "rules": [list(r) for r in rules]}; c.update(cfg)
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(c, f)
        try:
            p = subprocess.run([tool, "ai", bc, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_lim, timeout=timeout * len(rs))
            if p.returncode:
                if len(rs) > 1: return [x for r in rs for x in one([r])]
                return [broken(rs[0], "analysis ended with status %d" % p.returncode)]
            return json.loads(p.stdout)["results"]
        except subprocess.TimeoutExpired:
            if len(rs) > 1: return [x for r in rs for x in one([r])]
            return [broken(rs[0], "time limit")]
        finally:
            os.unlink(f.name)
    with cf.ThreadPoolExecutor(jobs) as exr:
        return {r["root"]: r for part in exr.map(one, parts) for r in part}

def broken(root, why):
    return dict(root=root, outcomes=[], alarms=[], opaque={}, steps=0, states=0, joins=0, functions=0, lib_functions=0, lib_list=[], blocks=0, mixed=0, ms=0, budget_exceeded=True, why=why)

def _lim():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
