"""Parser for the textual LLVM IR that clang emits for /repo's header.

Only the subset clang -O0 produces is accepted; anything else raises Unsupported, which the
checks report as an obligation they could not generate (never as success).
"""
import re
from fractions import Fraction
import struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_size", "_align", "_offs")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = self._align = self._offs = None

    def __repr__(self):
        return "%s(%s,%s)" % (self.k, self.a, self.b)


VOID = Ty("void")
PTR = Ty("ptr")
DBL = Ty("fp", 8)
FLT = Ty("fp", 4)
X87 = Ty("fp", 16)
LABEL = Ty("label")
META = Ty("metadata")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


class Fn:
    __slots__ = ("name", "ret", "params", "blocks", "order", "attrs", "varargs", "loops", "demangled", "sret", "line",
                 "raw", "mod")

    def __init__(self, name):
        self.name = name
        self.blocks = {}
        self.order = []
        self.loops = None
        self.raw = None
        self.demangled = None


class Ins:
    __slots__ = ("op", "res", "ty", "args", "x", "txt")

    def __init__(self, op, res, ty, args, x=None, txt=""):
        self.op, self.res, self.ty, self.args, self.x, self.txt = op, res, ty, args, x, txt


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<comment>;[^\n]*)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|[0-9]+))
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("...", i):
            out.append(("dots", "..."))
            i += 3
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("cannot tokenize IR near: " + s[i:i + 60])
        k = m.lastgroup
        if k not in ("ws", "comment"):
            out.append((k, m.group()))
        i = m.end()
    return out


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "writable", "dead_on_unwind", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "signext", "zeroext", "inreg", "immarg", "nofree", "noreturn", "allocptr",
               "allocalign", "swiftself", "nest", "noext", "captures", "initializes"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "preallocated",
                   "inalloca", "byref", "range", "nofpclass"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
CC = {"fastcc", "ccc", "coldcc", "tail", "musttail", "notail"}


class Cursor:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] not in ("cstr", "str")

    def acc(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("IR parse: expected %r got %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)[:300]))

    # types
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "void":
                t = VOID
            elif v == "ptr":
                t = PTR
                if self.at("addrspace"):
                    self.next(); self.exp("("); self.next(); self.exp(")")
            elif v == "double":
                t = DBL
            elif v == "float":
                t = FLT
            elif v == "x86_fp80":
                t = X87
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "opaque":
                t = Ty("opaque")
            elif re.fullmatch(r"i[0-9]+", v):
                t = INT(int(v[1:]))
            else:
                raise Unsupported("IR type " + v)
        elif k == "name" and v[0] == "%":
            t = Ty("named", unq(v)[1:])
        elif v == "{":
            fs = []
            if not self.at("}"):
                fs.append(self.type())
                while self.acc(","):
                    fs.append(self.type())
            self.exp("}")
            t = Ty("struct", fs, False)
        elif v == "<":
            if self.at("{"):
                self.next()
                fs = []
                if not self.at("}"):
                    fs.append(self.type())
                    while self.acc(","):
                        fs.append(self.type())
                self.exp("}")
                self.exp(">")
                t = Ty("struct", fs, True)
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        else:
            raise Unsupported("IR type token %r" % v)
        while self.at("("):      # function type
            depth = 0
            while True:
                w = self.next()[1]
                if w == "(":
                    depth += 1
                elif w == ")":
                    depth -= 1
                    if depth == 0:
                        break
            t = Ty("func", t)
        while self.acc("*"):
            t = PTR
        return t

    def skip_paren(self):
        self.exp("(")
        d = 1
        while d:
            w = self.next()
            if w[0] == "eof":
                raise Unsupported("unbalanced")
            if w[1] == "(" and w[0] == "p":
                d += 1
            elif w[1] == ")" and w[0] == "p":
                d -= 1

    def pattrs(self):
        sret = None
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.next()
                if self.at("("):
                    self.skip_paren()
            elif k == "word" and v in PARAM_ATTRS_ARG:
                self.next()
                if v == "align" and not self.at("("):
                    self.next()
                elif v in ("sret", "byval"):
                    self.exp("(")
                    sret = (v, self.type())
                    self.exp(")")
                else:
                    self.skip_paren()
            elif k == "str":
                self.next()
                if self.acc("="):
                    self.next()
            else:
                return sret

    # constants / operands
    def value(self, ty):
        k, v = self.next()
        if k == "name":
            if v[0] == "%":
                return ("loc", unq(v)[1:])
            return ("glob", unq(v)[1:])
        if k == "num":
            if ty.k == "fp":
                return ("flt", parse_fp(v))
            return ("int", int(v, 0))
        if k == "cstr":
            return ("cstr", decode_cstr(v))
        if k == "word":
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "getelementptr":
                self.acc("inbounds")
                self.exp("(")
                bt = self.type()
                self.exp(",")
                ops = []
                while True:
                    self.acc("inrange")
                    if self.at("("):
                        pass
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.acc(","):
                        break
                self.exp(")")
                return ("cgep", bt, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext", "sext"):
                self.exp("(")
                t = self.type()
                x = self.value(t)
                self.exp("to")
                t2 = self.type()
                self.exp(")")
                return ("ccast", v, t, x, t2)
            if v in ("sub", "add", "icmp", "select", "mul"):
                self.i -= 1
                depth0 = self.i
                self.next()
                while not self.at("("):
                    self.next()
                self.skip_paren()
                return ("copaque", " ".join(x[1] for x in self.t[depth0:self.i]))
            if v == "blockaddress":
                self.skip_paren()
                return ("copaque", v)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.value(ty)
        if v == "{" or v == "[" or (v == "<"):
            if v == "<" and self.at("{"):
                self.next()
                close = "}"
                extra = True
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
                extra = False
            vals = []
            if not self.at(close):
                while True:
                    t = self.type()
                    vals.append((t, self.value(t)))
                    if not self.acc(","):
                        break
            self.exp(close)
            if extra:
                self.exp(">")
            return ("agg", vals)
        raise Unsupported("IR operand %r %r" % (k, v))

    def tv(self):
        t = self.type()
        return t, self.value(t)


def parse_fp(v):
    neg = v.startswith("-")
    if neg:
        v = v[1:]
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            if v[2] == "K":
                h = int(v[3:], 16)
                se, man = h >> 64, h & ((1 << 64) - 1)
                s, e = se >> 15, se & 0x7fff
                r = Fraction(man) * Fraction(2) ** (e - 16383 - 63) if man else Fraction(0)
                return -r if s else r
            raise Unsupported("fp constant " + v)
        d = struct.unpack(">d", int(v[2:], 16).to_bytes(8, "big"))[0]
        if d != d or d in (float("inf"), float("-inf")):
            r = ("special", repr(d))
            return r
        r = Fraction(d)
    else:
        r = Fraction(float(v))
    return -r if neg else r


def decode_cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text, demangle=None):
        self.text = text
        self.types = {}
        self.fns = {}
        self.globals = {}
        self.decls = {}
        self.aliases = {}
        self._parse(text)

    # ------- layout
    def resolve(self, ty):
        while ty.k == "named":
            if ty.a not in self.types:
                raise Unsupported("type " + ty.a)
            ty = self.types[ty.a]
        return ty

    def align(self, ty):
        if ty._align is None:
            t = self.resolve(ty)
            if t.k == "int":
                r = min(8, max(1, 1 << (((t.a + 7) // 8) - 1).bit_length())) if t.a <= 64 else 16
            elif t.k == "fp":
                r = t.a
            elif t.k == "ptr":
                r = 8
            elif t.k == "arr":
                r = self.align(t.b)
            elif t.k == "vec":
                r = self.size(t)
            elif t.k == "struct":
                r = 1 if t.b else max([1] + [self.align(f) for f in t.a])
            elif t.k == "opaque":
                r = 1
            else:
                raise Unsupported("align of " + repr(t))
            ty._align = r
        return ty._align

    def size(self, ty):
        if ty._size is None:
            t = self.resolve(ty)
            if t.k == "int":
                r = (t.a + 7) // 8
                r = r if t.a > 64 else (1 << (r - 1).bit_length() if r > 1 else 1)
            elif t.k == "fp":
                r = t.a
            elif t.k == "ptr":
                r = 8
            elif t.k == "arr":
                r = t.a * self.size(t.b)
            elif t.k == "vec":
                r = t.a * self.size(t.b)
            elif t.k == "struct":
                offs, r = self._layout(t)
            else:
                raise Unsupported("size of " + repr(t))
            ty._size = r
        return ty._size

    def _layout(self, t):
        off = 0
        offs = []
        al = 1
        for f in t.a:
            a = 1 if t.b else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        t._offs = offs
        return offs, off

    def field_off(self, ty, i):
        t = self.resolve(ty)
        if t._offs is None:
            self._layout(t)
        return t._offs[i]

    # ------- parsing
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ";" or ln.startswith(("source_filename", "target", "attributes", "!", "$", "module")):
                i += 1
                continue
            if ln.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                fn = self._header(ln)
                fn.raw = lines[i + 1:j]
                fn.line = i
                fn.mod = self
                self.fns[fn.name] = fn
                i = j + 1
                continue
            if ln.startswith("declare"):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
                self.decls[unq(m.group(1))[1:]] = ln
                i += 1
                continue
            if ln[0] == "%":
                name, _, rhs = ln.partition(" = type ")
                c = Cursor(tokenize(rhs), self)
                self.types[unq(name.strip())[1:]] = c.type()
                i += 1
                continue
            if ln[0] == "@":
                self._global(ln)
                i += 1
                continue
            i += 1

    def _global(self, ln):
        c = Cursor(tokenize(ln), self)
        name = unq(c.next()[1])[1:]
        c.exp("=")
        kind = None
        while True:
            k, v = c.peek()
            if v in ("global", "constant"):
                kind = v
                c.next()
                break
            if v == "alias":
                c.next()
                c.type()
                c.exp(",")
                t = c.type()
                x = c.value(t)
                self.aliases[name] = x[1] if x[0] == "glob" else None
                return
            if v == "(":
                c.skip_paren()
                continue
            if k == "eof":
                return
            c.next()
        ty = c.type()
        init = None
        external = " external " in ln.split(" constant ")[0].split(" global ")[0] + " "
        if not external and c.peek()[0] != "eof" and not c.at(","):
            try:
                init = c.value(ty)
            except Unsupported:
                init = ("copaque", ln)
        self.globals[name] = (kind, ty, init)

    def _header(self, ln):
        c = Cursor(tokenize(ln.rstrip("{ ")), self)
        c.exp("define")
        while True:   # skip linkage etc
            k, v = c.peek()
            if k == "word" and v in {"dso_local", "linkonce_odr", "internal", "private", "weak_odr", "hidden", "weak",
                                     "available_externally", "linkonce", "external", "protected", "default",
                                     "unnamed_addr", "local_unnamed_addr"} | CC:
                c.next()
            elif k == "word" and v in PARAM_ATTRS | PARAM_ATTRS_ARG:
                c.pattrs()
            else:
                break
        ret = c.type()
        name = unq(c.next()[1])[1:]
        fn = Fn(name)
        fn.ret = ret
        fn.params = []
        fn.varargs = False
        fn.sret = None
        c.exp("(")
        while not c.at(")"):
            if c.peek()[0] == "dots":
                c.next()
                fn.varargs = True
                break
            t = c.type()
            sr = c.pattrs()
            nm = unq(c.next()[1])[1:]
            if sr and sr[0] == "sret":
                fn.sret = sr[1]
            fn.params.append((t, nm, sr))
            c.acc(",")
        return fn

    def body(self, fn):
        """parse a function body on demand"""
        if fn.order:
            return fn
        lines = fn.raw
        cur = None
        buf = None
        first = True
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                lab = m.group(1)
                if lab[0] == '"':
                    lab = lab[1:-1]
                cur = lab
                fn.blocks[cur] = []
                fn.order.append(cur)
                continue
            if cur is None:
                cur = "entry" if "entry" not in fn.blocks else "0"
                # unnamed entry block gets number = #params; name irrelevant
                cur = "%entry%"
                fn.blocks[cur] = []
                fn.order.append(cur)
            # multi-line instructions: invoke / landingpad / switch
            if re.search(r'(^|= )invoke ', s):
                s += " " + lines[i].strip()
                i += 1
            elif " = landingpad " in s or s.startswith("landingpad"):
                while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            elif s.startswith("switch "):
                while not s.endswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                    if re.search(r'\](,.*)?$', s):
                        break
            fn.blocks[cur].append(self._ins(s))
        return fn

    def _ins(self, s):
        c = Cursor(tokenize(s), self)
        res = None
        if c.peek()[0] == "name" and c.peek(1)[1] == "=":
            res = unq(c.next()[1])[1:]
            c.next()
        op = c.next()[1]
        if op in CC:
            op = c.next()[1]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fl = set()
            while c.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
                fl.add(c.next()[1])
            t = c.type()
            a = c.value(t)
            c.exp(",")
            b = c.value(t)
            return Ins(op, res, t, [a, b], fl, s)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while c.peek()[1] in FMF:
                c.next()
            t = c.type()
            a = c.value(t)
            c.exp(",")
            b = c.value(t)
            return Ins(op, res, t, [a, b], None, s)
        if op == "fneg":
            while c.peek()[1] in FMF:
                c.next()
            t = c.type()
            return Ins(op, res, t, [c.value(t)], None, s)
        if op in ("icmp", "fcmp"):
            while c.peek()[1] in FMF:
                c.next()
            p = c.next()[1]
            t = c.type()
            a = c.value(t)
            c.exp(",")
            b = c.value(t)
            return Ins(op, res, t, [a, b], p, s)
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint",
                  "inttoptr", "bitcast"):
            while c.peek()[1] in ("nneg", "nuw", "nsw"):
                c.next()
            t = c.type()
            a = c.value(t)
            c.exp("to")
            t2 = c.type()
            return Ins(op, res, t2, [a], t, s)
        if op == "alloca":
            t = c.type()
            cnt = None
            if c.acc(","):
                if not c.at("align"):
                    tt = c.type()
                    cnt = (tt, c.value(tt))
            return Ins(op, res, t, [], cnt, s)
        if op == "load":
            c.acc("volatile")
            c.acc("atomic")
            t = c.type()
            c.exp(",")
            _, a = c.tv()
            return Ins(op, res, t, [a], None, s)
        if op == "store":
            c.acc("volatile")
            c.acc("atomic")
            t, v = c.tv()
            c.exp(",")
            _, a = c.tv()
            return Ins(op, res, t, [v, a], None, s)
        if op == "getelementptr":
            c.acc("inbounds")
            bt = c.type()
            c.exp(",")
            _, p = c.tv()
            idx = []
            while c.acc(","):
                if c.peek()[0] == "meta":
                    break
                idx.append(c.tv())
            return Ins(op, res, bt, [p], idx, s)
        if op in ("call", "invoke"):
            while c.peek()[1] in FMF | CC:
                c.next()
            c.pattrs()
            t = c.type()
            if t.k == "func":
                t = t.a
            callee = c.value(PTR)
            c.exp("(")
            args = []
            while not c.at(")"):
                at = c.type()
                if at.k == "metadata":
                    while not (c.at(",") or c.at(")")):
                        c.next()
                    args.append((at, ("undef",), None))
                else:
                    pa = c.pattrs()
                    args.append((at, c.value(at), pa))
                c.acc(",")
            c.exp(")")
            x = None
            if op == "invoke":
                while not c.at("to"):
                    c.next()
                c.exp("to")
                c.exp("label")
                a = unq(c.next()[1])[1:]
                c.exp("unwind")
                c.exp("label")
                b = unq(c.next()[1])[1:]
                x = (a, b)
            return Ins(op, res, t, args, (callee, x), s)
        if op == "br":
            if c.acc("label"):
                return Ins("jmp", None, None, [], unq(c.next()[1])[1:], s)
            t = c.type()
            cond = c.value(t)
            c.exp(",")
            c.exp("label")
            a = unq(c.next()[1])[1:]
            c.exp(",")
            c.exp("label")
            b = unq(c.next()[1])[1:]
            return Ins("br", None, None, [cond], (a, b), s)
        if op == "switch":
            t, v = c.tv()
            c.exp(",")
            c.exp("label")
            d = unq(c.next()[1])[1:]
            c.exp("[")
            cases = []
            while not c.at("]"):
                tt = c.type()
                cv = c.value(tt)
                c.exp(",")
                c.exp("label")
                cases.append((cv[1], unq(c.next()[1])[1:]))
            return Ins("switch", None, t, [v], (d, cases), s)
        if op == "ret":
            if c.at("void"):
                return Ins("ret", None, VOID, [], None, s)
            t, v = c.tv()
            return Ins("ret", None, t, [v], None, s)
        if op == "unreachable":
            return Ins(op, None, None, [], None, s)
        if op == "resume":
            return Ins(op, None, None, [], None, s)
        if op == "phi":
            while c.peek()[1] in FMF:
                c.next()
            t = c.type()
            inc = []
            while True:
                c.exp("[")
                v = c.value(t)
                c.exp(",")
                lb = unq(c.next()[1])[1:]
                c.exp("]")
                inc.append((v, lb))
                if not c.acc(","):
                    break
            return Ins(op, res, t, [], inc, s)
        if op == "select":
            while c.peek()[1] in FMF:
                c.next()
            tc, cv = c.tv()
            c.exp(",")
            t, a = c.tv()
            c.exp(",")
            _, b = c.tv()
            return Ins(op, res, t, [cv, a, b], None, s)
        if op == "extractvalue":
            t, v = c.tv()
            ix = []
            while c.acc(","):
                ix.append(int(c.next()[1]))
            return Ins(op, res, t, [v], ix, s)
        if op == "insertvalue":
            t, v = c.tv()
            c.exp(",")
            t2, v2 = c.tv()
            ix = []
            while c.acc(","):
                ix.append(int(c.next()[1]))
            return Ins(op, res, t, [v, v2], ix, s)
        if op == "landingpad":
            t = c.type()
            return Ins(op, res, t, [], s, s)
        if op == "freeze":
            t, v = c.tv()
            return Ins(op, res, t, [v], None, s)
        raise Unsupported("IR instruction: " + s)


def succs(block):
    t = block[-1]
    if t.op == "jmp":
        return [t.x]
    if t.op == "br":
        return list(t.x)
    if t.op == "switch":
        return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == "invoke":
        return list(t.x[1])
    return []


def find_loops(fn):
    """header -> set of blocks (natural loops, merged by header)"""
    if fn.loops is not None:
        return fn.loops
    order = fn.order
    preds = {b: [] for b in order}
    sc = {}
    for b in order:
        sc[b] = [x for x in succs(fn.blocks[b]) if x in fn.blocks]
        for x in sc[b]:
            preds[x].append(b)
    entry = order[0]
    # reachable rpo
    seen = set()
    post = []
    st = [(entry, iter(sc[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(sc[x])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for h in sc[b]:
            if h in idx and dom(h, b):
                body = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in preds[x] if p in idx)
    fn.loops = loops
    return loops
