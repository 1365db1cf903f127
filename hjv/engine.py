"""Parallel verification of a set of (type, operation, variant) jobs, triage of failures, conformance runs."""
import collections
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import time
import traceback
from . import contracts as C
from . import ir, numeric, replay, smt, sx, triage
from . import terms as T
from .specs import OPS

NPROC = int(os.environ.get("HJV_PROCS", "8"))
_mods = {}
JOB_LIMIT = 150
SOFT_LIMIT = 25


class JobTimeout(Exception):
    pass


def _alarm(*a):
    raise JobTimeout()


class Failed:
    """a failed obligation, in picklable form"""

    def __init__(self, o, cex=None):
        self.kind, self.where, self.why = o.kind, o.where, o.why
        self.goal = T.show(o.goal)[:1500]
        self.pc = [T.show(p)[:300] for p in (o.pc or [])][:60]
        self.cex = cex


class Job:
    def __init__(self, key, tag, opname, variant, **opts):
        self.key, self.tag, self.opname, self.variant, self.opts = key, tag, opname, variant, opts

    kinds = None

    def label(self):
        o = "".join(" %s=%s" % kv for kv in sorted(self.opts.items()))
        return "%s:%s[%s]%s" % (self.tag, self.opname, self.variant, o)


class Result:
    def __init__(self, job):
        self.job = job
        self.nobl = 0
        self.backends = {}
        self.kinds = {}
        self.failed = []
        self.unsupported = None
        self.t = 0.0
        self.used = {}
        self.assumed = {}
        self.contracts = {}
        self.steps = self.loops_sum = self.loops_unr = 0
        self.sample = None
        self.solver = 0.0


TYPES = {}


def types_by_tag():
    if not TYPES:
        for o in (1, 2):
            for n in [None] + list(range(0, 33)):
                t = C.Type(o, n)
                TYPES[t.tag] = t
        t = C.Type(sparse=True)
        TYPES[t.tag] = t
    return TYPES


def module(path):
    if path not in _mods:
        with open(path) as f:
            _mods[path] = ir.Module(f.read())
    return _mods[path]


def run_job(a):
    job, path, memkinds, triage_s = a
    memkinds = memkinds or job.kinds
    r = Result(job)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_LIMIT)
    st0 = sum(smt.STATS.t.values())
    run = None
    soft = [False]

    def on_bad(kind):
        # after a failed obligation the rest of the job gets little time: the failure is reported either way
        if not soft[0] and (memkinds is None or kind in memkinds):
            soft[0] = True
            signal.alarm(max(1, min(SOFT_LIMIT, int(JOB_LIMIT - (time.time() - t0)))))
    sx.Exec.on_bad_hook, sx.Exec.current = on_bad, None
    try:
        ty = types_by_tag()[job.tag]
        op = OPS[job.opname]
        m = module(path)
        ver = getattr(op, "verify", None) or C.verify_op
        try:
            run = ver(m, ty, job.opname, job.variant, **job.opts)
            ex = run.ex
        except JobTimeout:
            ex = sx.Exec.current
            if not soft[0] or ex is None:
                raise
            r.unsupported = "time limit after a failed obligation"
            signal.alarm(60)
        r.nobl = len(ex.obls)
        for o in ex.obls:
            r.kinds[o.kind] = r.kinds.get(o.kind, 0) + 1
            if o.ok:
                r.backends[o.backend or "?"] = r.backends.get(o.backend or "?", 0) + 1
        bad = [o for o in ex.obls if not o.ok and (memkinds is None or o.kind in memkinds)]
        posts = [o for o in ex.obls if o.kind in ("post", "wf", "frame")]
        if posts:
            o = posts[len(posts) // 2]
            r.sample = {"obligation": "%s %s" % (job.label(), o.where), "goal": T.show(o.goal)[:300], "discharged_by": o.backend}
        signal.alarm(0)
        signal.alarm(60 if r.unsupported else JOB_LIMIT)
        seen = set()
        for o in bad:
            k = (o.kind, o.where)
            if k in seen:
                continue
            seen.add(k)
            cex = None
            if len(r.failed) < 4:
                try:
                    cex = triage.vccex(o, budget=triage_s, fp=ex.fp)
                except JobTimeout:
                    raise
                except Exception:
                    cex = None
            f = Failed(o, cex)
            r.failed.append(f)
            if len(r.failed) >= 12:
                break
        r.used = {ex.dm.get(k, k): v for k, v in ex.used.items()}
        r.assumed = dict(ex.uassumed)
        r.contracts = {ex.dm.get(k, k): v for k, v in ex.ucontracts.items()}
        r.steps, r.loops_sum, r.loops_unr = ex.steps, ex.loops_sum, ex.loops_unr
    except ir.Unsupported as e:
        r.unsupported = "unsupported: " + str(e)[:400]
    except JobTimeout:
        r.unsupported = r.unsupported or "time limit"
    except RecursionError:
        r.unsupported = "recursion limit"
    except MemoryError:
        r.unsupported = "memory limit"
    except Exception as e:
        r.unsupported = "internal: " + traceback.format_exc()[-900:]
    finally:
        signal.alarm(0)
    r.t = time.time() - t0
    r.solver = sum(smt.STATS.t.values()) - st0
    return r


def compile_all(dirn, units, defs=(), procs=NPROC, failed=None):
    """units: {name: source text} -> {name: path of the IR}; parallel; units that do not compile are collected in `failed`"""
    import subprocess
    todo = list(units.items())
    out, running = {}, []
    while todo or running:
        while todo and len(running) < procs:
            n, txt = todo.pop(0)
            src = os.path.join(dirn, n + ".cpp")
            with open(src, "w") as f:
                f.write(txt)
            o = os.path.join(dirn, n + ".ll")
            p = subprocess.Popen(["clang++"] + C.IRFLAGS + list(defs) + ["-I" + C.REPO + "/include", "-I/usr/include/eigen3", src, "-o", o], stderr=subprocess.PIPE, text=True)
            running.append((n, o, p))
        n, o, p = running.pop(0)
        _, err = p.communicate()
        if p.returncode:
            if failed is None:
                for _, _, q in running:
                    q.kill()
                raise C.BuildError(err[-4000:])
            failed[n] = err[-3000:]
            continue
        out[n] = o
    return out


PYDEFS = ["-DHYPERJET_EXCEPTIONS", '-DHYPERJET_VERSION="0"', "-DEIGEN_DONT_VECTORIZE=1"]
PYMAIN = """#include <pybind11/pybind11.h>
#include <hyperjet/hyperjet.h>
extern "C" { pybind11::module_ *hjv_py_module = nullptr; }
#include "hjvpy.h"
extern "C" void hjv_warm() { hjvpy::mod(); }
"""


def py_sources():
    d = C.REPO + "/python/src"
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def py_dirs():
    return [os.path.join(C.HERE, "pymock"), C.HERE, C.REPO + "/python/src"]


def py_incs():
    return ["-I" + i for i in py_dirs() + [C.REPO + "/include", "/usr/include/eigen3"]]


def py_objects(dirn, cmd, suffix, files):
    """compile files ([(name, path)]) in parallel"""
    import subprocess
    todo, running, out = list(files), [], []
    while todo or running:
        while todo and len(running) < NPROC:
            n, src = todo.pop(0)
            o = os.path.join(dirn, n + suffix)
            running.append((n, o, subprocess.Popen(cmd + [src, "-o", o], stderr=subprocess.PIPE, text=True)))
        n, o, p = running.pop(0)
        _, err = p.communicate()
        if p.returncode:
            for _, _, q in running:
                q.kill()
            raise C.BuildError(n + ": " + err[-3000:])
        out.append(o)
    return out


def compile_py(dirn, units):
    """the sources of the Python module and the entry points, linked into one module; units: {name: source text}"""
    import subprocess
    files = [("py_" + os.path.basename(f)[:-4], f) for f in py_sources()]
    for n, txt in list(units.items()) + [("py_main_hjv", PYMAIN)]:
        src = os.path.join(dirn, n + ".cpp")
        with open(src, "w") as f:
            f.write(txt)
        files.append((n, src))
    flags = [x for x in C.IRFLAGS if x != "-S"] + ["-c"]
    objs = py_objects(dirn, ["clang++"] + flags + PYDEFS + py_incs(), ".bc", files)
    out = os.path.join(dirn, "pymodule.ll")
    link = "llvm-link" if shutil.which("llvm-link") else "/usr/lib/llvm-18/bin/llvm-link"
    p = subprocess.run([link, "-S", "-o", out] + objs, capture_output=True, text=True)
    if p.returncode:
        raise C.BuildError("llvm-link: " + p.stderr[-3000:])
    for o in objs:
        os.unlink(o)
    return out


def load_py(path):
    """parse the module and run its initialisation; the jobs inherit the result"""
    import gc
    sys.setrecursionlimit(20000)
    m = module(path)
    C.warm(m, "hjv_warm")
    gc.collect()
    gc.freeze()
    return m


def run_jobs(jobs, paths, memkinds=None, triage_s=4.0, deadline=None, stop=None):
    """jobs: [Job]; paths: {(tag, key): ir path}; stop(result) -> True ends the run early; jobs without a module or without a result
    at the deadline are reported as not decided"""
    # heavy jobs first
    def weight(j):
        t = types_by_tag()[j.tag]
        if t.dyn:
            return 400 * (t.order or 1)
        return 5 if t.sparse else C.dlen(t.order, t.size)
    js = sorted(jobs, key=weight, reverse=True)
    res, done = [], set()
    for k, j in enumerate(js):
        if (j.key, j.tag) not in paths or j.opname in paths.get("skip", {}).get((j.key, j.tag), ()):
            r = Result(j)
            r.unsupported = "the contract's entry point does not compile against the current tree"
            res.append(r)
            done.add(k)
    args = [(k, (j, paths[(j.key, j.tag)], memkinds, triage_s)) for k, j in enumerate(js) if k not in done]
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=400) as pool:
        it = pool.imap_unordered(_run, args, chunksize=1)
        early = False
        for _ in args:
            try:
                k, r = it.next(timeout=max(0.1, deadline - time.time()) if deadline else None)
            except mp.TimeoutError:
                break
            res.append(r)
            done.add(k)
            if stop and stop(r):
                early = True
                break
        pool.terminate()
    for k, j in enumerate(js):
        if k not in done:
            r = Result(j)
            r.unsupported = "not run: a violation was found before" if early else "not run: time limit of the check"
            res.append(r)
    return res


def _run(a):
    return a[0], run_job(a[1])


# ------------------------------------------------------------------ conformance of the real code with the specification
def sampler(op):
    return getattr(op, "sample", None) or (lambda rng, ty, variant, n, special, hints: replay.sample_case(rng, ty, op, variant, n, special, hints))


def judge(ty, op, case, res, exp, tol=replay.TIGHT):
    j = getattr(op, "judge", None)
    return j(ty, case, res, exp, tol) if j else replay.judge(ty, op, case, res, exp, tol)


def conf_worker(a):
    """run a number of random cases for a list of (tag, op, variant, n) on a driver library"""
    so, asan, items, seed, per, hints, deadline = a
    rn = replay.Runner(so, asan)
    out, n, distinct = [], 0, 0
    sample = None
    try:
        for tag, opname, variant, size in items:
            ty, op = types_by_tag()[tag], OPS[opname]
            rng = random.Random("%s %s %s %s %s" % (seed, tag, opname, variant, size))
            seen = set()
            for k in range(per):
                if deadline and time.time() > deadline:
                    break
                case, exp = sampler(op)(rng, ty, variant, size, k % 3 == 2, hints)
                if case is None:
                    continue
                res = rn.run(case)
                n += 1
                key = repr([a_["data"][:4] for a_ in case["args"]]) + repr((case.get("s"), case.get("i"), case.get("vec")))
                if key not in seen:
                    seen.add(key)
                    distinct += 1
                # the contracts speak about exact arithmetic; rounding is not judged here
                bad = judge(ty, op, case, res, exp, replay.LOOSE)
                if sample is None:
                    sample = {"fn": case["fn"], "args": [{"size": x["size"], "data": x["data"][:6]} for x in case["args"]], "verdict": bad or "conforms"}
                if bad:
                    out.append((tag, opname, variant, case, bad))
                    break
    finally:
        rn.close()
    return out, n, distinct, sample
