"""python3-vt -m hjv.dbg TAG OP [VARIANT] [size=N]   -- verify one operation and print the failed obligations"""
import os
import sys
import tempfile
import time
from . import contracts as C, engine as E, ir, ops2, smt, sx, triage
from . import terms as T
from .specs import OPS


def main():
    tag, opn = sys.argv[1:3]
    rest = [a for a in sys.argv[3:] if "=" not in a or a.startswith("a;") or ";" in a]
    opts = dict((k, int(v)) for k, v in (a.split("=") for a in sys.argv[3:] if "=" in a and ";" not in a))
    ty, op = E.types_by_tag()[tag], OPS[opn]
    d = tempfile.mkdtemp()
    defs = ["-DHYPERJET_NO_EXCEPTIONS"] if opn.endswith("_nx") else []
    head = ops2.HELPERS if not getattr(op, "eigen", False) else ops2.EIGEN + ops2.HELPERS
    p = E.compile_all(d, {"u": C.gen_harness([ty], [op], head)}, defs)["u"]
    m = ir.Module(open(p).read())
    print(p)
    vs = rest or (op.variants(ty) if hasattr(op, "variants") else C.alias_patterns(op.jets))
    for v in vs:
        t0 = time.time()
        try:
            ver = getattr(op, "verify", None) or C.verify_op
            r = ver(m, ty, opn, v, **opts)
        except ir.Unsupported as e:
            print(v, "UNSUPPORTED", e)
            if os.environ.get("TB"):
                raise
            continue
        bad = [o for o in r.ex.obls if not o.ok]
        print(v, "obligations", len(r.ex.obls), "failed", len(bad), "sum", r.ex.loops_sum, "unr", r.ex.loops_unr, "%.2fs" % (time.time() - t0))
        seen = set()
        for o in bad:
            if (o.kind, o.where) in seen:
                continue
            seen.add((o.kind, o.where))
            print("   ", o.kind, o.where, "| GOAL", T.show(o.goal)[:600])
            if os.environ.get("PC"):
                for c in o.pc:
                    print("         ", T.show(c)[:300])
            if os.environ.get("CEX"):
                c = triage.vccex(o)
                print("      cex:", c and c.as_dict())
            if len(seen) > 6:
                break


main()
