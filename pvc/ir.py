"""Reader for the textual LLVM IR (clang 18, opaque pointers) of the code under verification.

Functions are located by a single scan of the file and decoded only when executed.
"""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "els", "packed", "name", "_size", "_align", "_offs")
    def __init__(s, k, w=0, n=0, el=None, els=None, packed=False, name=None):
        s.k, s.w, s.n, s.el, s.els, s.packed, s.name = k, w, n, el, els, packed, name
        s._size = s._align = s._offs = None
    def __repr__(s):
        return {"int": "i%d" % s.w}.get(s.k) or (s.k if not s.el else "<%s %d x %r>" % (s.k, s.n, s.el))

VOID, PTR, F32, F64, LABEL, META, F80 = Ty("void"), Ty("ptr"), Ty("f32"), Ty("f64"), Ty("label"), Ty("metadata"), Ty("f80")
_ints = {}
def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty("int", w)
    return t
I1, I8, I32, I64 = INT(1), INT(8), INT(32), INT(64)

class Module:
    def __init__(self, text):
        self.types, self.tcache = {}, {}
        self.globals = {}     # name -> (Ty, init text or None, const, align)
        self.decls = set()
        self.ftext = {}       # name -> (start, end) line indices
        self.funcs = {}
        self.aliases = {}
        self.diloc = {}
        self.lines = lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                name = _gname(l[l.index("@"):])
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.ftext[name] = (i, j)
                i = j
            elif l.startswith("%"):
                nm, _, rest = l.partition(" = type ")
                self.types[nm] = rest
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("!"):
                k = l.find(" = !DILocation(")
                if k > 0:
                    self.diloc[int(l[1:k])] = l
            elif l.startswith("declare "):
                self.decls.add(_gname(l[l.index("@"):]))
            i += 1

    _noise = re.compile(r"(, )?!(dbg|srcloc|llvm\.loop|tbaa) !\d+| #\d+")
    _ref = re.compile(r'@(?:"[^"]+"|[\w.$-]+)')
    _tref = re.compile(r'%(?:"[^"]+"|[\w.$-]+)')
    def spell(self, nm):
        """a named type by its structure"""
        d = self.types.get(nm)
        if d is None: return nm
        c = self.__dict__.setdefault("_sp", {})
        if nm not in c: c[nm] = self._tref.sub(lambda m: self.spell(m.group()), d)
        return c[nm]
    def closure(self, fn):
        """text of everything a function can reach by name, independent of the numbering in this file"""
        out, todo = {}, [fn]
        while todo:
            f = todo.pop()
            if f in out: continue
            if f in self.ftext:
                i, j = self.ftext[f]
                ls = self.lines[i:j + 1]
                ls[0] = ls[0][ls[0].index("@"):]
                t = self._noise.sub("", "\n".join(ls))
                def sub(m):
                    n = _gname(m.group())
                    g = self.globals.get(n)
                    if g is not None and g[2] and n.startswith((".", "__const", "constinit")): return "{%s}" % g[1]
                    todo.append(n)
                    return m.group()
                out[f] = self._tref.sub(lambda m: self.spell(m.group()), self._ref.sub(sub, t))
            elif f in self.globals:
                g = self.globals[f]
                out[f] = repr(g[1:])
                todo += [_gname(m.group()) for m in self._ref.finditer(g[1] or "")]
            else: out[f] = self.aliases.get(f, "")
            if f in self.aliases: todo.append(self.aliases[f])
        return out

    def _global(self, l):
        name = _gname(l)
        rest = l[l.index(" = ") + 3:]
        m = re.match(r"(.*?)\b(constant|global|alias)\b (.*)$", rest)
        if not m:
            return
        if m.group(2) == "alias":
            self.aliases[name] = _gname(m.group(3)[m.group(3).index("@"):])
            return
        ext = "external" in m.group(1)
        ty, pos = self.parse_type(m.group(3), 0)
        init = None if ext else m.group(3)[pos:].strip()
        self.globals[name] = [ty, init, m.group(2) == "constant", "thread_local" in m.group(1)]

    # ------------------------------------------------------------ types
    def parse_type(self, s, p):
        """parse a type in s at p -> (Ty, next position)"""
        c = s[p]
        if c == " ":
            return self.parse_type(s, p + 1)
        if c == "i" and s[p + 1].isdigit():
            m = re.compile(r"\d+").match(s, p + 1)
            return INT(int(m.group())), m.end()
        for nm, t in (("ptr", PTR), ("float", F32), ("double", F64), ("void", VOID), ("label", LABEL), ("metadata", META), ("x86_fp80", F80)):
            if s.startswith(nm, p):
                return t, p + len(nm)
        if c == "%":
            if s[p + 1] == '"':
                e = s.index('"', p + 2) + 1
            else:
                m = re.compile(r"[\w.$-]+").match(s, p + 1)
                e = m.end()
            return self.named(s[p:e]), e
        if c == "<" and s[p + 1] == "{":
            t, e = self.parse_struct(s, p + 1, True)
            return t, e + 1
        if c == "{":
            return self.parse_struct(s, p, False)
        if c in "<[":
            m = re.compile(r"\s*(\d+) x ").match(s, p + 1)
            el, e = self.parse_type(s, m.end())
            while s[e] == " ":
                e += 1
            return Ty("vec" if c == "<" else "arr", n=int(m.group(1)), el=el), e + 1
        raise IRError("type: " + s[p:p + 60])

    def parse_struct(self, s, p, packed):
        p += 1
        els = []
        while True:
            while s[p] in " ,":
                p += 1
            if s[p] == "}":
                return Ty("struct", els=els, packed=packed), p + 1
            t, p = self.parse_type(s, p)
            els.append(t)

    def named(self, nm):
        t = self.tcache.get(nm)
        if t is None:
            d = self.types.get(nm)
            if d is None:
                raise IRError("unknown type " + nm)
            if d.startswith("opaque"):
                t = Ty("struct", els=[], name=nm)
            else:
                t, _ = self.parse_type(d, 0)
                t.name = nm
            self.tcache[nm] = t
        return t

    def size(self, t):
        if t._size is None:
            k = t.k
            if k == "int":
                b = max(1, (t.w + 7) // 8); a = 1
                while a < b: a *= 2
                t._size, t._align = a, min(a, 16)
            elif k in ("ptr", "f64"): t._size = t._align = 8
            elif k == "f32": t._size = t._align = 4
            elif k == "f80": t._size = t._align = 16
            elif k == "vec":
                t._size = self.size(t.el) * t.n
                a = 1
                while a < t._size: a *= 2
                t._size = t._align = a
            elif k == "arr":
                t._size, t._align = self.size(t.el) * t.n, self.align(t.el)
            elif k == "struct":
                off, al, offs = 0, 1, []
                for e in t.els:
                    sz = self.size(e)
                    a = 1 if t.packed else e._align
                    off = (off + a - 1) // a * a
                    offs.append(off)
                    off += sz
                    al = max(al, a)
                t._offs = offs
                t._size, t._align = (off + al - 1) // al * al, al
            else:
                raise IRError("size of " + k)
        return t._size

    def align(self, t):
        self.size(t)
        return t._align

    def offsets(self, t):
        self.size(t)
        return t._offs

    def line(self, dbg):
        l = self.diloc.get(dbg)
        m = l and re.search(r"line: (\d+)", l)
        return int(m.group(1)) if m else 0

    # -------------------------------------------------------- functions
    def has(self, name):
        return name in self.ftext

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = Func(self, name)
        return f

def _gname(s):
    """name of the global that s starts with"""
    if s[1] == '"':
        return s[2:s.index('"', 2)]
    return re.match(r"[\w.$-]+", s[1:]).group()

# constants as they appear in operands -----------------------------------
class GRef:
    __slots__ = ("name", "off")
    def __init__(s, name, off=0): s.name, s.off = name, off
class Const:       # ('zero', ty) / ('undef', ty)
    __slots__ = ("k", "ty")
    def __init__(s, k, ty): s.k, s.ty = k, ty
class AggC:
    __slots__ = ("items", "ty")
    def __init__(s, items, ty): s.items, s.ty = items, ty
class FloatC:
    __slots__ = ("v", "ty")
    def __init__(s, v, ty): s.v, s.ty = v, ty

_attr = re.compile(r"\s*(noundef|nonnull|noalias|nocapture|readonly|writeonly|readnone|returned|signext|zeroext|inreg|immarg|nofree|nest|"
                   r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|dead_on_unwind|writable|swiftself|allocptr|allocalign|noundef|"
                   r"sret\([^()]*(?:\([^()]*\))*[^()]*\)|byval\([^()]*\)|range\([^()]*\))(?=[\s,)])")
_reg = re.compile(r'%(?:"[^"]*"|[\w.$-]+)')
_num = re.compile(r"-?\d+")

class Func:
    """A decoded function: blocks of instructions (op, dst, fields...)."""
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        a, b = mod.ftext[name]
        L = mod.lines
        hdr = L[a]
        self.params = []
        p = hdr.index("@")
        p = hdr.index("(", p + (len(name) + 2 if hdr[p + 1] == '"' else len(name)))
        p += 1
        while hdr[p] != ")":
            if hdr.startswith("...", p):
                p += 3; continue
            t, p = mod.parse_type(hdr, p)
            p = self._skip_attrs(hdr, p)
            m = _reg.match(hdr, p + 1) if hdr[p] == " " else _reg.match(hdr, p)
            if m:
                nm = m.group(); p = m.end()
            else:
                nm = "%%%d" % len(self.params)
            self.params.append((nm, t))
            while hdr[p] in ", ":
                p += 1
        self.blocks, self.order = {}, []
        self.dbg = {}
        cur, lab = None, None
        i = a + 1
        while i < b:
            s = L[i]
            i += 1
            if not s:
                continue
            if s[0] != " ":
                lab = s[:s.rindex(":", 0, (s.index(";") if ";" in s else len(s)))].strip().strip('"')
                cur = self.blocks[lab] = []
                self.order.append(lab)
                continue
            if cur is None:
                lab = "entry"
                cur = self.blocks[lab] = []
                self.order.append(lab)
            s = s.strip()
            if s.startswith("switch") and not s.endswith("]"):
                while not L[i].strip().startswith("]"):
                    s += " " + L[i].strip(); i += 1
                s += " ]"; i += 1
            elif s.startswith(("invoke", "%")) and " invoke " in " " + s and " unwind label" not in s:
                s += " " + L[i].strip(); i += 1
            elif "landingpad" in s:
                while L[i].startswith("          "):
                    i += 1
            k = s.rfind("!dbg !")
            self.dbg.setdefault(lab, []).append(int(re.match(r"\d+", s[k + 6:]).group()) if k > 0 else 0)
            cur.append(self.decode(s))
        self.entry = self.order[0]
        self._promote()
        self._loops()

    def _skip_attrs(self, s, p):
        while True:
            m = _attr.match(s, p)
            if not m:
                return p
            p = m.end()

    # ---- operands
    def operand(self, s, p, ty):
        """-> (operand, pos).  registers are returned as str"""
        while s[p] == " ":
            p += 1
        c = s[p]
        if c == "%":
            m = _reg.match(s, p)
            return m.group(), m.end()
        return self.const(s, p, ty)

    def const(self, s, p, ty):
        while s[p] == " ":
            p += 1
        c = s[p]
        mod = self.mod
        if c == "@":
            nm = _gname(s[p:])
            return GRef(nm), p + (len(nm) + 3 if s[p + 1] == '"' else len(nm) + 1)
        k = ty.k
        if k in ("f32", "f64"):
            if s.startswith(("undef", "poison"), p):
                return Const("undef", ty), p + (5 if s[p] == "u" else 6)
            if s.startswith("0x", p):
                m = re.compile(r"0x[0-9A-Fa-f]+").match(s, p)
                v = struct.unpack(">d", int(m.group(), 16).to_bytes(8, "big"))[0]
            else:
                m = re.compile(r"[-+\d.eE]+").match(s, p)
                v = float(m.group())
            return FloatC(v, ty), m.end()
        m = _num.match(s, p)
        if m:
            return int(m.group()) & ((1 << ty.w) - 1), m.end()
        for w, v in (("true", 1), ("false", 0)):
            if s.startswith(w, p):
                return v, p + len(w)
        if s.startswith("null", p):
            return GRef(None), p + 4
        if s.startswith("zeroinitializer", p):
            return Const("zero", ty), p + 15
        for w in ("undef", "poison"):
            if s.startswith(w, p):
                return Const("undef", ty), p + len(w)
        if s.startswith('c"', p):
            e = p + 2
            bs = []
            while s[e] != '"':
                if s[e] == "\\":
                    bs.append(int(s[e + 1:e + 3], 16)); e += 3
                else:
                    bs.append(ord(s[e])); e += 1
            return AggC(bs, ty), e + 1
        if c in "<[{":
            close = {"<": ">", "[": "]", "{": "}"}[c]
            p += 1
            packed = False
            if c == "<" and s[p] == "{":
                p += 1; packed = True; close = "}"
            items = []
            while True:
                while s[p] in " ,":
                    p += 1
                if s[p] == close:
                    p += 2 if packed else 1
                    return AggC(items, ty), p
                t, p = mod.parse_type(s, p)
                v, p = self.const(s, p, t)
                items.append(v)
        m = re.compile(r"getelementptr (inbounds )?(nuw )?(inrange\([^)]*\) )?\(").match(s, p)
        if m:
            p = m.end()
            t, p = mod.parse_type(s, p)
            p += 1
            _, p = mod.parse_type(s, p)
            base, p = self.const(s, p, PTR)
            off, cur, first = 0, t, True
            while s[p] != ")":
                while s[p] in ", ":
                    p += 1
                if s.startswith("inrange ", p):
                    p += 8
                it, p = mod.parse_type(s, p)
                iv, p = self.const(s, p, it)
                iv = iv - (1 << it.w) if iv >> (it.w - 1) else iv
                if first:
                    off += iv * mod.size(cur); first = False
                elif cur.k == "struct":
                    off += mod.offsets(cur)[iv]; cur = cur.els[iv]
                else:
                    cur = cur.el; off += iv * mod.size(cur)
            return GRef(base.name, base.off + off), p + 1
        raise IRError("constant: " + s[p:p + 80])

    def typed(self, s, p):
        t, p = self.mod.parse_type(s, p)
        p = self._skip_attrs(s, p)
        v, p = self.operand(s, p, t)
        return t, v, p

    # ---- instructions
    def decode(self, s):
        mod = self.mod
        k = s.find(", !")
        if k > 0 and not "metadata" in s:
            s = s[:k]
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = ', s)
        if m:
            dst = m.group(1); s = s[m.end():]
        try:
            return self._decode(s, dst)
        except (IndexError, ValueError, AttributeError) as e:
            raise IRError("cannot decode: %s (%s)" % (s[:120], e))

    def _decode(self, s, dst):
        mod = self.mod
        s = s + "  "
        op = s.split(None, 1)[0]
        if op in ("tail", "notail", "musttail"):
            s = s[len(op) + 1:]; op = "call"
        p = len(op) + 1
        if op == "alloca":
            t, p = mod.parse_type(s, p)
            cnt = 1
            m = re.compile(r", (i\d+) ").match(s, p)
            if m:
                ct, cnt, p = self.typed(s, p + 2)
            m = re.search(r"align (\d+)", s[p:])
            return ("alloca", dst, t, cnt, int(m.group(1)) if m else mod.align(t))
        if op == "load":
            while s.startswith(("volatile ", "atomic "), p):
                p = s.index(" ", p) + 1
            t, p = mod.parse_type(s, p)
            _, v, p = self.typed(s, p + 1)
            m = re.search(r"align (\d+)", s[p:])
            return ("load", dst, t, v, int(m.group(1)) if m else mod.align(t))
        if op == "store":
            while s.startswith(("volatile ", "atomic "), p):
                p = s.index(" ", p) + 1
            t, v, p = self.typed(s, p)
            _, a, p = self.typed(s, p + 1)
            m = re.search(r"align (\d+)", s[p:])
            return ("store", None, t, v, a, int(m.group(1)) if m else mod.align(t))
        if op == "getelementptr":
            while s.startswith(("inbounds ", "nuw ", "nusw "), p):
                p = s.index(" ", p) + 1
            t, p = mod.parse_type(s, p)
            _, base, p = self.typed(s, p + 1)
            coff, dyn, cur, first = 0, [], t, True
            while s[p] == ",":
                it, iv, p = self.typed(s, p + 1)
                if first:
                    sz = mod.size(cur); first = False
                elif cur.k == "struct":
                    coff += mod.offsets(cur)[iv]; cur = cur.els[iv]
                    continue
                else:
                    cur = cur.el; sz = mod.size(cur)
                if isinstance(iv, int):
                    coff += (iv - (1 << it.w) if iv >> (it.w - 1) else iv) * sz
                else:
                    dyn.append((iv, it.w, sz))
            return ("gep", dst, base, coff, dyn)
        if op == "br":
            if s.startswith("label", p):
                return ("br", None, self._label(s, p)[0])
            _, c, p = self.typed(s, p)
            a, p = self._label(s, p + 1)
            b, p = self._label(s, p + 1)
            return ("cbr", None, c, a, b)
        if op == "switch":
            t, v, p = self.typed(s, p)
            d, p = self._label(s, p + 1)
            cases = []
            p = s.index("[", p) + 1
            while True:
                while s[p] == " ":
                    p += 1
                if s[p] == "]":
                    break
                _, cv, p = self.typed(s, p)
                lb, p = self._label(s, p + 1)
                cases.append((cv, lb))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            if s.startswith("void", p):
                return ("ret", None, None, None)
            t, v, p = self.typed(s, p)
            return ("ret", None, t, v)
        if op in ("call", "invoke"):
            return self._call(s, p, dst, op)
        if op in ("zext", "sext", "trunc", "uitofp", "sitofp", "fptrunc", "fpext", "fptoui", "fptosi", "ptrtoint", "inttoptr", "bitcast"):
            while s.startswith(("nneg ", "nuw ", "nsw "), p):
                p = s.index(" ", p) + 1
            t, v, p = self.typed(s, p)
            t2, p = mod.parse_type(s, s.index(" to ", p) + 4)
            return ("cast", dst, op, t, v, t2)
        if op == "freeze":
            t, v, p = self.typed(s, p)
            return ("mov", dst, t, v)
        if op in ("icmp", "fcmp"):
            while s.startswith(("fast ", "nnan ", "ninf ", "nsz ", "arcp ", "contract ", "afn ", "reassoc ", "samesign "), p):
                p = s.index(" ", p) + 1
            e = s.index(" ", p)
            pred = s[p:e]
            t, a, p = self.typed(s, e + 1)
            b, p = self.operand(s, p + 1, t)
            return (op, dst, pred, t, a, b)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = ""
            while True:
                m = re.compile(r"(nuw|nsw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ").match(s, p)
                if not m:
                    break
                fl += m.group(1) + " "; p = m.end()
            t, a, p = self.typed(s, p)
            b, p = self.operand(s, p + 1, t)
            return ("fop" if op[0] == "f" else "iop", dst, op, t, a, b, fl)
        if op == "fneg":
            t, a, p = self.typed(s, p)
            return ("fneg", dst, t, a)
        if op == "phi":
            t, p = mod.parse_type(s, p)
            inc = []
            while True:
                p = s.find("[", p)
                if p < 0:
                    break
                v, p = self.operand(s, p + 1, t)
                while s[p] in ", ":
                    p += 1
                m = _reg.match(s, p)
                inc.append((m.group()[1:].strip('"'), v)); p = m.end()
            return ("phi", dst, t, dict(inc))
        if op == "select":
            ct, c, p = self.typed(s, p)
            t, a, p = self.typed(s, p + 1)
            _, b, p = self.typed(s, p + 1)
            return ("select", dst, c, t, a, b)
        if op == "extractvalue":
            t, v, p = self.typed(s, p)
            return ("extractvalue", dst, v, [int(x) for x in re.findall(r"\d+", s[p:])])
        if op == "insertvalue":
            t, v, p = self.typed(s, p)
            t2, e, p = self.typed(s, p + 1)
            return ("insertvalue", dst, t, v, e, [int(x) for x in re.findall(r"\d+", s[p:])])
        if op == "extractelement":
            t, v, p = self.typed(s, p)
            _, i, p = self.typed(s, p + 1)
            return ("extractelement", dst, t, v, i)
        if op == "insertelement":
            t, v, p = self.typed(s, p)
            _, e, p = self.typed(s, p + 1)
            _, i, p = self.typed(s, p + 1)
            return ("insertelement", dst, t, v, e, i)
        if op == "shufflevector":
            t, a, p = self.typed(s, p)
            _, b, p = self.typed(s, p + 1)
            t3, mk, p = self.typed(s, p + 1)
            if isinstance(mk, Const):
                idx = [0] * t3.n
            else:
                idx = [x if isinstance(x, int) else None for x in mk.items]
            return ("shuffle", dst, t, a, b, idx)
        if op in ("unreachable", "resume", "landingpad"):
            return (op, dst)
        return ("unsupported", dst, s.strip())

    def _label(self, s, p):
        p = s.index("label ", p) + 6
        m = _reg.match(s, p)
        return m.group()[1:].strip('"'), m.end()

    def _call(self, s, p, dst, op):
        mod = self.mod
        while s.startswith(("fast ", "nnan ", "ninf ", "nsz ", "contract ", "reassoc ", "arcp ", "afn ", "fastcc ", "ccc "), p):
            p = s.index(" ", p) + 1
        p = self._skip_attrs(s, p - 1)
        t, p = mod.parse_type(s, p)
        while s[p] == " ":
            p += 1
        if s[p] == "(":        # function type
            d = 0
            while True:
                if s[p] == "(": d += 1
                if s[p] == ")":
                    d -= 1
                    if d == 0: break
                p += 1
            p += 2
        if s.startswith("asm ", p):
            return ("unsupported", dst, s.strip())
        callee, p = self.operand(s, p, PTR)
        args = []
        assert s[p] == "("
        p += 1
        while True:
            while s[p] in " ,":
                p += 1
            if s[p] == ")":
                break
            at, p = mod.parse_type(s, p)
            p = self._skip_attrs(s, p)
            if at is META:
                d = 0
                while not (s[p] in ",)" and d == 0):
                    d += (s[p] in "([") - (s[p] in ")]"); p += 1
                args.append((at, 0)); continue
            v, p = self.operand(s, p, at)
            args.append((at, v))
        nxt = None
        if op == "invoke":
            nxt, p = self._label(s, p)
        return ("call", dst, t, callee, args, nxt)

    # ---- promotion of allocas that are only loaded/stored with one type
    def _promote(self):
        cand = {}
        for ins in self.blocks[self.entry]:
            if ins[0] == "alloca" and ins[3] == 1:
                cand[ins[1]] = ins[2]
        bad = set()
        def use(v):
            if type(v) is str and v in cand:
                bad.add(v)
        for b in self.order:
            for ins in self.blocks[b]:
                op = ins[0]
                if op == "load":
                    v = ins[3]
                    if type(v) is str and v in cand and not _same(cand[v], ins[2]):
                        bad.add(v)
                elif op == "store":
                    use(ins[3])
                    v = ins[4]
                    if type(v) is str and v in cand and not _same(cand[v], ins[2]):
                        bad.add(v)
                elif op == "alloca":
                    use(ins[3])
                else:
                    for x in ins[2:]:
                        if type(x) is str: use(x)
                        elif type(x) in (list, tuple):
                            for y in x:
                                if type(y) is str: use(y)
                                elif type(y) is tuple:
                                    for z in y:
                                        if type(z) is str: use(z)
                        elif type(x) is dict:
                            for y in x.values(): use(y)
        prom = {v for v in cand if v not in bad and cand[v].k in ("int", "ptr", "f32", "f64", "vec")}
        self.promoted = prom
        for b in self.order:
            bl = self.blocks[b]
            for i, ins in enumerate(bl):
                if ins[0] == "load" and type(ins[3]) is str and ins[3] in prom:
                    bl[i] = ("getl", ins[1], "&" + ins[3])
                elif ins[0] == "store" and type(ins[4]) is str and ins[4] in prom:
                    bl[i] = ("setl", "&" + ins[4], ins[2], ins[3])
                elif ins[0] == "alloca" and ins[1] in prom:
                    bl[i] = ("nop", None)

    # ---- natural loops
    def succs(self, b):
        t = self.blocks[b][-1]
        k = t[0]
        if k == "br": return [t[2]]
        if k == "cbr": return [t[3], t[4]]
        if k == "switch": return [t[4]] + [c[1] for c in t[5]]
        if k == "call" and t[5]: return [t[5]]
        return []

    def _loops(self):
        """header -> set of blocks (natural loops merged per header); irreducible graphs get loops=None"""
        color, back, post = {}, [], []
        st = [(self.entry, iter(self.succs(self.entry)))]
        color[self.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    st.append((s, iter(self.succs(s))))
                    break
                if c == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                post.append(b)
                st.pop()
        preds = {}
        for b in color:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        self.loops = {}
        for t, h in back:
            body = {h, t}
            wl = [t] if t != h else []
            while wl:
                x = wl.pop()
                for q in preds.get(x, []):
                    if q not in body:
                        body.add(q); wl.append(q)
            self.loops.setdefault(h, set()).update(body)
        self.reach = set(color)

def _same(a, b):
    if a is b: return True
    if a.k != b.k: return False
    if a.k == "int": return a.w == b.w
    if a.k == "vec": return a.n == b.n and _same(a.el, b.el)
    return True
