"""executes cases on the real code (shared library built from /repo's headers); reads pickled cases, writes pickled results"""
import ctypes
import pickle
import struct
import sys


class Case(ctypes.Structure):
    _fields_ = [("size", ctypes.c_long * 3), ("data", ctypes.POINTER(ctypes.c_double) * 3), ("keys", ctypes.POINTER(ctypes.c_long) * 3),
                ("same", ctypes.c_long * 3), ("s", ctypes.c_double), ("t", ctypes.c_double), ("i", ctypes.c_long), ("j", ctypes.c_long), ("vlen", ctypes.c_long), ("vec", ctypes.POINTER(ctypes.c_double)),
                ("status", ctypes.c_long), ("what", ctypes.c_char * 200), ("rd", ctypes.c_double), ("ri", ctypes.c_long),
                ("rsize", ctypes.c_long), ("rlen", ctypes.c_long), ("rout", ctypes.POINTER(ctypes.c_double)), ("rkeys", ctypes.POINTER(ctypes.c_long)),
                ("asize", ctypes.c_long * 3), ("alen", ctypes.c_long * 3), ("aout", ctypes.POINTER(ctypes.c_double) * 3),
                ("akeys", ctypes.POINTER(ctypes.c_long) * 3), ("cap", ctypes.c_long), ("shared", ctypes.c_long)]


def main():
    lib = ctypes.CDLL(sys.argv[1])
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        cs = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
        c = Case()
        hold = []
        n = len(cs["args"])
        cap = cs.get("cap", 400)
        DA, LA = ctypes.c_double * cap, ctypes.c_long * cap
        c.cap = cap
        for k, a in enumerate(cs["args"]):
            c.size[k] = a["size"]
            d = (ctypes.c_double * max(1, len(a["data"])))(*a["data"])
            ks = (ctypes.c_long * max(1, len(a.get("keys", []))))(*a.get("keys", []))
            o, ok = DA(), LA()
            hold += [d, ks, o, ok]
            c.data[k] = ctypes.cast(d, ctypes.POINTER(ctypes.c_double))
            c.keys[k] = ctypes.cast(ks, ctypes.POINTER(ctypes.c_long))
            c.aout[k] = ctypes.cast(o, ctypes.POINTER(ctypes.c_double))
            c.akeys[k] = ctypes.cast(ok, ctypes.POINTER(ctypes.c_long))
            c.same[k] = cs["same"][k]
        ro, rk = DA(), LA()
        c.rout = ctypes.cast(ro, ctypes.POINTER(ctypes.c_double))
        c.rkeys = ctypes.cast(rk, ctypes.POINTER(ctypes.c_long))
        c.s, c.t, c.i, c.j = cs.get("s", 0.0), cs.get("t", 0.0), cs.get("i", 0), cs.get("j", 0)
        v = cs.get("vec", [])
        va = (ctypes.c_double * max(1, len(v)))(*v)
        c.vlen = len(v)
        c.vec = ctypes.cast(va, ctypes.POINTER(ctypes.c_double))
        getattr(lib, "run_" + cs["fn"])(ctypes.byref(c))
        r = {"status": c.status, "what": c.what.decode(errors="replace"), "rd": c.rd, "ri": c.ri, "rsize": c.rsize, "rlen": c.rlen, "shared": c.shared}
        if c.rlen >= 0:
            m = min(c.rlen, cap)
            r["rout"] = list(ro[:m])
            r["rkeys"] = list(rk[:max(0, m - 1)])
        r["args"] = []
        for k in range(n):
            m = max(0, min(c.alen[k], cap))
            r["args"].append({"size": c.asize[k], "len": c.alen[k], "data": list(c.aout[k][:m]), "keys": list(c.akeys[k][:max(0, m - 1)])})
        b = pickle.dumps(r)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()


main()
