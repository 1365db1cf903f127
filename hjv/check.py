"""check of one property:  python3-vt -m hjv.check <property> [quick|thorough]"""
import collections
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
from . import contracts as C
from . import engine as E
from . import replay as R
from . import smt
from .specs import OPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
OBSERVABLE = {"post", "wf", "dom", "div"}
TRUSTED = [
    "clang 18 front end (C++ -> LLVM IR at -O0, no passes) and the LLVM IR semantics implemented by /verif/hjv/sx.py",
    "the verification-condition generator /verif/hjv (sx.py, models.py, terms.py, ring.py) itself",
    "z3 5.x as the deciding solver of non-algebraic obligations",
]
ASSUME = [
    "double arithmetic and libm calls are treated as exact real arithmetic / the exact mathematical functions (rounding, overflow, "
    "underflow, NaN and infinities are outside these contracts, except in C13 where comparisons are decided in IEEE arithmetic)",
    "number of variables of a dynamic jet at most 2^29, so that index arithmetic does not wrap",
    "operator new succeeds; std::string, std::unordered_map, std::exception classes and libm obey their documented contracts",
]
PYBIND = ["pybind11 obeys its documented 2.11 contract (hjv/pymock stands in for its headers; the bindings themselves are compiled unchanged)"]


class Plan:
    """what a property check verifies"""

    def __init__(self):
        self.jobs = []          # engine.Job
        self.units = {}         # (key, tag) -> (ops, head, defs)
        self.conf = []          # (key, tag, opname, variant, n)
        self.conf_per = 3
        self.memkinds = None
        self.conf_mode = "assert"
        self.extra = []         # further callables(plan, ctx) -> list of (label, ok, detail)
        self.notes = []
        self.search_mode = None


def hexs(x):
    return {k: (v.hex() if isinstance(v, float) else v) for k, v in x.items()}


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="hjv_%s_" % pid)
        self.libs = {}
        self.pyobjs = {}
        self.nrep = 0
        self.violations = []    # (replay path, confirmed)
        self.log = []

    def left(self, total=780):
        return total - (time.time() - self.t0)

    def say(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)


def known():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def build_libs(ctx, plan, need, mode):
    """driver libraries {(key, tag, mode): so}; built in parallel"""
    todo = [k for k in need if (k[0], k[1], mode) not in ctx.libs]
    running = []
    while todo or running:
        while todo and len(running) < E.NPROC:
            key, tag = todo.pop(0)
            ops, head, defs = plan.units[(key, tag)]
            ty = E.types_by_tag()[tag]
            txt = R.gen_driver([ty], ops, head)
            more = {}
            if key == "py":
                if mode not in ctx.pyobjs:
                    ctx.pyobjs[mode] = R.py_objects(ctx.dir, mode)
                more = {"incs": E.py_dirs(), "objs": ctx.pyobjs[mode]}
            running.append(((key, tag), R.start_build(ctx.dir, "%s_%s" % (key, tag), txt, mode, defs, **more)))
        (key, tag), b = running.pop(0)
        ctx.libs[(key, tag, mode)] = R.finish_build(b)


def conformance(ctx, plan, items, per, mode="assert", hints=None, limit=None, salt=0):
    """items: [(key, tag, op, variant, n)]"""
    need = []
    for it in items:
        if (it[0], it[1]) not in need:
            need.append((it[0], it[1]))
    build_libs(ctx, plan, need, mode)
    groups = collections.defaultdict(list)
    for key, tag, op, var, n in items:
        groups[(key, tag)].append((tag, op, var, n))
    work = []
    dl = time.time() + limit if limit else None
    for (key, tag), its in groups.items():
        chunk = max(1, (len(its) + 7) // 8) if len(groups) < 8 else len(its)
        for k in range(0, len(its), chunk):
            work.append((ctx.libs[(key, tag, mode)], mode == "asan", its[k:k + chunk], "%d.%d" % (ctx.seed, salt), per, hints, dl))
    bad, n, d, sample = [], 0, 0, None
    with mp.get_context("fork").Pool(E.NPROC) as pool:
        for (o, k, dd, s), w in zip(pool.imap(E.conf_worker, work), work):
            bad += o
            n += k
            d += dd
            sample = sample or s
    return bad, n, d, sample


def mode_ok(opname, mode):
    """operations that must be stopped by an assertion are run in the build that has assertions"""
    return mode == "assert" or getattr(OPS[opname], "reject", "throw") != "abort"


def write_replay(ctx, data):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    ctx.nrep += 1
    p = os.path.join(EVID, "replay", "%s-%d.json" % (ctx.pid, ctx.nrep))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def case_json(case):
    return {"fn": case["fn"], "same": case["same"], "s": case.get("s"), "t": case.get("t"), "i": case.get("i"), "j": case.get("j"),
            "vec": case.get("vec"), "args": [{"size": a["size"], "data": a["data"][:500], "keys": a.get("keys")} for a in case["args"]]}


def from_cex(ty, op, variant, cex, rng):
    """turn a counterexample of a verification condition into an input of the real code"""
    f = getattr(op, "from_cex", None)
    if f:
        return f(ty, variant, cex, rng)
    if not hasattr(op, "spec") or op.spec is None:
        return None, None
    iv, leaf = cex.iv, cex.leaf
    names = list(variant)
    idx = {}
    same = []
    for k, ch in enumerate(names):
        idx.setdefault(ch, k)
        same.append(idx[ch])
    args = []
    if ty.sparse:
        keys = sorted({k[1] for k in leaf if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int)} | {v for k, v in iv.items() if k.startswith("name?")})
        for k, ch in enumerate(names):
            if same[k] != k:
                args.append(args[same[k]])
                continue
            ks = [x for x in keys if leaf.get((ch + ".dom", x), False)]
            args.append({"size": len(ks), "keys": ks, "data": [float(leaf.get(ch + ".f", 1.5))] + [float(leaf.get((ch + ".val", x), rng.uniform(-2, 2))) for x in ks]})
    else:
        n = ty.size if not ty.dyn else iv.get("s", 2)
        if n < 0 or n > 3000:
            return None, None
        L = C.dlen(ty.order, n)
        for k, ch in enumerate(names):
            if same[k] != k:
                args.append(args[same[k]])
                continue
            d = [rng.uniform(-2, 2) for _ in range(L)]
            for q in range(L):
                if (ch, q) in leaf:
                    d[q] = float(leaf[(ch, q)])
            args.append({"size": n, "data": d})
    case = {"fn": "%s_%s" % (ty.tag, op.name), "args": args, "same": same, "s": float(leaf.get("s", 1.25)), "t": float(leaf.get("t", 0.75)),
            "i": iv.get("p", 0), "j": iv.get("q", 0)}
    case["cap"] = 4000 if ty.sparse else max(400, L)
    if abs(case["i"]) > 2 ** 62:
        return None, None
    exp = R.eval_spec(op, case)
    return (case, exp) if exp is not None else (None, None)


def confirm(ctx, plan, job, failed, hints):
    """search an input of the real code that shows the violation; returns (case, description, mode) or None; also reports whether
    the counterexamples were faithfully replayable but conform"""
    ty, op = E.types_by_tag()[job.tag], OPS[job.opname]
    rng = random.Random(ctx.seed)
    mem = any(f.kind not in ("post", "vacuity") for f in failed) or not failed
    spurious = replayed = 0
    modes = ["assert", "asan"] if mem and mode_ok(job.opname, "asan") else ["assert"]
    cx = [f.cex for f in failed if f.cex is not None]
    tol = R.TIGHT if cx else R.LOOSE
    sizes = []
    for c in cx:
        if "s" in c.iv and 0 <= c.iv["s"] <= 2000:
            sizes.append(c.iv["s"])
    for mode in modes:
        try:
            build_libs(ctx, plan, [(job.key, job.tag)], mode)
        except C.BuildError as e:
            ctx.say("driver build failed", str(e)[-300:])
            continue
        rn = R.Runner(ctx.libs[(job.key, job.tag, mode)], mode == "asan")
        try:
            for c in cx:
                try:
                    case, exp = from_cex(ty, op, job.variant, c, rng)
                except Exception as e:      # a counterexample that is no input of the driver is left to the search
                    ctx.say("counterexample not replayable", repr(e)[:200])
                    continue
                if case is None:
                    continue
                replayed += 1
                bad = E.judge(ty, op, case, rn.run(case), exp, tol)
                if bad and R.stable(op, case, exp):
                    return (case, bad, mode), replayed
            ns = sizes + ([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33] if ty.dyn else [ty.size])
            budget = min(10, ctx.left() / 8)
            t1 = time.time()
            k = 0
            while time.time() - t1 < budget and k < 3000:
                n = ns[k % len(ns)] if ns else 0
                k += 1
                case, exp = E.sampler(op)(rng, ty, job.variant, n, k % 2 == 0, hints if k % 3 else None)
                if case is None:
                    continue
                bad = E.judge(ty, op, case, rn.run(case), exp, tol)
                if bad and R.stable(op, case, exp):
                    return (case, bad, mode), replayed
        finally:
            rn.close()
    return None, replayed


def harvest(paths):
    """floating-point constants in the verified text: candidate inputs for the replay search"""
    vals = set()
    for p in paths:
        with open(p) as f:
            for m in re.finditer(r"double (-?\d\.\d+e[+-]\d+|0x[0-9A-F]{16})", f.read()):
                s = m.group(1)
                try:
                    import struct
                    v = struct.unpack(">d", bytes.fromhex(s[2:]))[0] if s.startswith("0x") else float(s)
                except ValueError:
                    continue
                if math.isfinite(v) and 1e-30 < abs(v) < 1e30:
                    vals |= {v, v * 1.5, v * 0.5, -v, math.nextafter(v, math.inf), v + 1}
    return sorted(vals)[:400]


def salvage(ctx, plan, failed, defs, paths):
    """units that do not compile as a whole: keep the entry points that do (for instance after an overload was renamed)"""
    single, where = {}, {}
    for (key, tag), (ops, head, d) in plan.units.items():
        n = "ir_%s_%s" % (key, tag)
        if n in failed:
            single[n] = C.gen_harness([E.types_by_tag()[tag]], [], head)
            where[n] = None
            for o in ops:
                m = "%s_%s" % (n, o.name)
                single[m] = C.gen_harness([E.types_by_tag()[tag]], [o], head)
                where[m] = ((key, tag), o)
    bad = {}
    E.compile_all(ctx.dir, single, defs, failed=bad)
    for n in failed:
        if n in bad:
            raise C.BuildError(bad[n])
    drop = collections.defaultdict(list)
    for m in bad:
        (key, tag), o = where[m]
        drop[(key, tag)].append(o.name)
    units = {}
    for (key, tag), names in drop.items():
        ops, head, d = plan.units[(key, tag)]
        keep = [o for o in ops if o.name not in names]
        paths["skip"][(key, tag)] = set(names)
        ctx.say("does not compile against the current tree: %s %s" % (tag, " ".join(names)))
        plan.units[(key, tag)] = (keep, head, d)
        if keep:
            units["ir_%s_%s" % (key, tag)] = C.gen_harness([E.types_by_tag()[tag]], keep, head)
    p = E.compile_all(ctx.dir, units, defs)
    for (key, tag) in plan.units:
        n = "ir_%s_%s" % (key, tag)
        if n in p:
            paths[(key, tag)] = p[n]


def main(pid, tier):
    from . import props
    ctx = Ctx(pid, tier)
    code = 2
    try:
        code = check(ctx, props)
    except C.BuildError as e:
        print("ERROR: the harness does not compile against the current tree:\n" + str(e))
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    return code


def check(ctx, props):
    pid, tier = ctx.pid, ctx.tier
    plan = props.plan(pid, tier)
    # ---- extraction: compile the real header to IR
    groups = collections.defaultdict(dict)
    used_units = {(j.key, j.tag) for j in plan.jobs}
    pyunits = {}
    for (key, tag), (ops, head, defs) in plan.units.items():
        if key == "py":
            pyunits["ir_py_" + tag] = C.gen_harness([E.types_by_tag()[tag]], ops, head)
            continue
        groups[tuple(defs)]["ir_%s_%s" % (key, tag)] = C.gen_harness([E.types_by_tag()[tag]], ops, head)
    paths = {"skip": {}}
    if pyunits:
        try:
            p = E.compile_py(ctx.dir, pyunits)
            E.load_py(p)
            for (key, tag) in plan.units:
                if key == "py":
                    paths[(key, tag)] = p
        except Exception as e:
            plan.undecided = str(e)[:600]
            print("NOTE: the sources of the Python module are not decided against the contract of pybind11: " + plan.undecided)
    for defs, units in groups.items():
        units = {n: t for n, t in units.items() if any(n == "ir_%s_%s" % k for k in used_units)}
        failed = {}
        p = E.compile_all(ctx.dir, units, list(defs), failed=failed)
        for (key, tag) in plan.units:
            n = "ir_%s_%s" % (key, tag)
            if n in p:
                paths[(key, tag)] = p[n]
        if failed:
            salvage(ctx, plan, failed, list(defs), paths)
    ctx.say("extracted", len(paths) - 1, "translation units")
    # ---- obligations; a violation confirmed on the real code ends the run early
    hints = harvest({v for k, v in paths.items() if k != "skip"})
    early, tries = [], [0, 0]

    def stop(r):
        if ctx.left(500) < 0 or is_known(r.job.label()):
            return False
        if r.failed and any(f.cex is not None for f in r.failed):
            if tries[0] >= 6:
                return False
            tries[0] += 1
        elif (r.unsupported or "").startswith("time limit"):
            if tries[1] >= 3:
                return False
            tries[1] += 1
        else:
            return False
        got, replayed = confirm(ctx, plan, r.job, r.failed, hints)
        r.replayed = (got, replayed)
        if got:
            early.append((r.job.label(), got[0], got[1] + (" (%s build)" % got[2] if got[2] != "assert" else ""), r))
        return bool(got)
    kf = known()

    def is_known(label):
        for k in kf:
            if k.get("status") == "finding" and k.get("property") == pid and re.fullmatch(k["match"], label):
                return k
        return None
    res = E.run_jobs(plan.jobs, paths, plan.memkinds, deadline=ctx.t0 + 560, stop=stop)
    nobl = sum(r.nobl for r in res)
    ctx.say("jobs %d, obligations %d, job time %.1f s" % (len(res), nobl, sum(r.t for r in res)))
    bad = [r for r in res if r.failed or r.unsupported]
    # ---- conformance of the specification with the real code (vacuity guard)
    cbad, cn, cd, csample = [], 0, 0, None
    if plan.conf and not early:
        skip = {(k[0], k[1], o) for k, os_ in paths["skip"].items() for o in os_}
        plan.conf = [it for it in plan.conf if (it[0], it[1]) in paths and (it[0], it[1], it[2]) not in skip]
        parts = collections.defaultdict(list)
        for it in plan.conf:
            parts[plan.conf_mode if mode_ok(it[2], plan.conf_mode) else "assert"].append(it)
        for mode, its in parts.items():
            x = conformance(ctx, plan, its, plan.conf_per, mode)
            cbad, cn, cd, csample = cbad + x[0], cn + x[1], cd + x[2], csample or x[3]
        ctx.say("conformance: %d runs of the real code, %d bad" % (cn, len(cbad)))
    extra_ev, extra_bad = [], []
    for fnx in ([] if early else plan.extra):
        ev, b = fnx(ctx, plan)
        extra_ev.append(ev)
        extra_bad += b
    keyof = {}
    for key, tag, op, var, n in plan.conf:
        keyof[(tag, op, var)] = key
    confirmed, nfif, bounded, listed = [], [], [], []
    confirmed += early
    for tag, op, var, case, why in cbad[:5]:
        confirmed.append(("%s:%s[%s]" % (tag, op, var), case, why, None))
    for lab, detail, why, conf in extra_bad:
        (confirmed if conf else nfif).append((lab, detail, why, None))
    if bad and not early:
        for r in bad:
            ctx.say("not discharged:", r.job.label(), r.unsupported or [(f.kind, f.where[:100], f.cex is not None) for f in r.failed[:2]])
    todo = sorted(bad, key=lambda r: (not any(f.cex for f in r.failed), r.unsupported is not None, r.job.tag != "D2x", r.t))
    again = []
    for r in todo:
        if early:
            continue
        if len(confirmed) >= 3 or ctx.left(660) < 0 or (r.unsupported or "").startswith("the contract's entry point"):
            again.append((r, 0))
            continue
        got, replayed = getattr(r, "replayed", None) or confirm(ctx, plan, r.job, r.failed, hints)
        if got:
            confirmed.append((r.job.label(), got[0], got[1] + (" (%s build)" % got[2] if got[2] != "assert" else ""), r))
        else:
            again.append((r, replayed))
    # ---- not confirmed on the real code: refuted, or merely not proved?
    if not confirmed:
        for r, replayed in again:
            # a refuted obligation about a value whose counterexample was run on the real code without effect is not a violation
            hard = [f for f in r.failed if f.cex is not None and not (f.kind in OBSERVABLE and replayed)]
            memr = [f for f in r.failed if f.kind not in OBSERVABLE and f.kind != "vacuity" and f.cex is not None]
            if hard or memr:
                nfif.append((r.job.label(), None, "; ".join("%s: %s" % (f.kind, f.where) for f in (hard or memr)[:3]), r))
                continue
            # bounded stand-in
            ty = E.types_by_tag()[r.job.tag]
            std = None
            if ty.dyn and "size" not in r.job.opts and ctx.left(600) > 0:
                js = [E.Job(r.job.key, r.job.tag, r.job.opname, r.job.variant, size=n, **r.job.opts) for n in range(0, 7)]
                std = E.run_jobs(js, paths, plan.memkinds, deadline=ctx.t0 + 780)
                rest = [x for x in std if x.failed or x.unsupported]
                ref = [f for x in rest for f in x.failed if f.cex is not None]
                if ref:
                    x = [x for x in rest if any(f.cex is not None for f in x.failed)][0]
                    got, _ = confirm(ctx, plan, x.job, x.failed, hints)
                    if got:
                        confirmed.append((x.job.label(), got[0], got[1], x))
                        continue
                    nfif.append((x.job.label(), None, ref[0].where, x))
                    continue
                bounded.append({"function": r.job.label(), "reason": r.unsupported or r.failed[0].where,
                                "stand_in": "all inputs for sizes 0..6" if not rest else "conformance runs only (tool limit)",
                                "obligations": sum(x.nobl for x in std)})
            else:
                bounded.append({"function": r.job.label(), "reason": r.unsupported or r.failed[0].where, "stand_in": "conformance runs only (tool limit)"})
    # ---- known findings
    def split(xs):
        keep = []
        for x in xs:
            k = is_known(x[0])
            if k:
                listed.append(k)
            else:
                keep.append(x)
        return keep
    confirmed, nfif = split(confirmed), split(nfif)
    lines = []
    for lab, case, why, r in confirmed[:4]:
        d = {"property": pid, "function": lab, "violation": why, "input": case_json(case) if isinstance(case, dict) and "fn" in case else case}
        if r is not None:
            d["failed_obligations"] = [{"kind": f.kind, "obligation": f.where, "goal": f.goal, "path_condition": f.pc,
                                        "counterexample": f.cex.as_dict() if f.cex else None, "solver": f.why} for f in r.failed[:4]]
            d["unsupported"] = r.unsupported
        lines.append("VIOLATION property=%s replay=%s" % (pid, write_replay(ctx, d)))
        ctx.say("violated:", lab, why[:300])
    if not confirmed:
        for lab, case, why, r in nfif[:4]:
            d = {"property": pid, "function": lab, "violation": why}
            if r is not None:
                d["failed_obligations"] = [{"kind": f.kind, "obligation": f.where, "goal": f.goal, "path_condition": f.pc,
                                            "counterexample": f.cex.as_dict() if f.cex else None, "solver": f.why} for f in r.failed[:6]]
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, write_replay(ctx, d)))
            ctx.say("refuted, not replayed:", lab, why[:300])
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---- evidence
    be, kinds, used, assumed, uc = [collections.Counter() for _ in range(5)]
    for r in res:
        be.update(r.backends)
        kinds.update(r.kinds)
        used.update(r.used)
        assumed.update(r.assumed)
        uc.update(r.contracts)
    disch = sum(be.values())
    inlined = sorted({short(u) for u in used if "hyperjet::" in u})
    ev = {"property": pid, "tier": tier, "seed": ctx.seed, "level": "proof",
          "coverage": {
              "obligations": nobl, "discharged": disch,
              "checker_cmd": "cd /verif && python3-vt -m hjv.check %s %s" % (pid, tier),
              "trusted_base": TRUSTED + ["assumed contracts of dependencies used in this run: " + ", ".join("%s (%d)" % kv for kv in sorted(assumed.items()))],
              "functions_under_contract": len(plan.jobs), "types": sorted({j.tag for j in plan.jobs}),
              "contracts_discharged": sum(1 for r in res if not r.failed and not r.unsupported),
              "back_ends": dict(be), "solver_time_s": round(sum(r.solver for r in res), 2), "obligation_kinds": dict(kinds),
              "verified_real_functions": inlined[:400], "verified_real_functions_count": len(inlined),
              "loops_with_inferred_invariant": sum(r.loops_sum for r in res), "loops_unrolled_completely": sum(r.loops_unr for r in res),
              "executed_ir_instructions": sum(r.steps for r in res),
              "bounded": bounded, "failed_jobs": [r.job.label() for r in bad][:50],
              "conformance_runs_of_the_real_code": cn, "conformance_distinct": cd, "conformance_sample": csample,
              "samples": [r.sample for r in res if r.sample][:6], "extra": extra_ev, "notes": plan.notes},
          "assumptions": ASSUME + (PYBIND if ctx.pid in ("C16", "C17", "C18") else []) + plan.notes, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(lines)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if nobl == 0 and not extra_ev and not lines:
        if not plan.jobs:
            print("ERROR: no obligation was generated")
            return 2
        print("NOTE: no obligation could be generated (see the evidence); the conformance runs show no violation")
    for l in lines:
        print(l)
    ctx.say("obligations %d discharged %d, bounded %d, violations %d" % (nobl, disch, len(bounded), len(lines)))
    return 1 if lines else 0


def short(d):
    d = d.replace("hyperjet::", "").replace("std::unordered_map<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "unordered_map<string")
    return d[:160]


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
