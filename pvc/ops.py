"""Instruction semantics."""
import math, struct
from .vals import *
from . import ex as E
from .ex import Ex, Fork, Killed, signed, rname
from .ir import GRef, Const, AggC, FloatC
from .logic import USED

H = Ex.H
def op(name):
    def d(f):
        H[name] = f
        return f
    return d

def setr(fr, ins, v):
    fr.regs[ins[1]] = v

@op("nop")
def _(x, st, fr, ins): pass

@op("mov")
def _(x, st, fr, ins): setr(fr, ins, x.val(st, fr, ins[3]))

@op("unsupported")
def _(x, st, fr, ins): raise Unsupported(ins[2])

@op("unreachable")
def _(x, st, fr, ins):
    raise Killed()            # only reached after a no-return call, which has been judged already

@op("landingpad")
def _(x, st, fr, ins): raise Unsupported("landingpad")
@op("resume")
def _(x, st, fr, ins): raise Unsupported("resume")
@op("phi")
def _(x, st, fr, ins): raise Unsupported("phi out of place")

# ------------------------------------------------------------ memory
@op("alloca")
def _(x, st, fr, ins):
    cnt = x.val(st, fr, ins[3])
    sz = x.mod.size(ins[2])
    if type(cnt) is not int: cnt = x.uval(st, cnt, 64)
    if type(cnt) is not int:
        x.effects.add(("alloca-var", E.short(fr.fn.name)))
        if not x.allow_vla: x.fail(st, "stack", "stack allocation of %r bytes depends on the block length" % lmul(cnt, sz), False)
    size = lmul(cnt, sz)
    p = x.region(st, size, "stack", layers=[{}], align=max(16, ins[4]), name=E.short(fr.fn.name) + ":" + ins[1])
    fr.allocas.append(p.r)
    if type(size) is int:
        b = sum(x.regions[a].size for f in st.frames for a in f.allocas if type(x.regions[a].size) is int)
        x.stackbytes = max(x.stackbytes, b)
        for r in x.recs: r.peak = max(r.peak, b - r.base)
    setr(fr, ins, p)

@op("load")
def _(x, st, fr, ins):
    setr(fr, ins, x.load(st, ins[2], x.val(st, fr, ins[3]), ins[4]))

@op("store")
def _(x, st, fr, ins):
    x.store(st, ins[2], x.val(st, fr, ins[4]), x.val(st, fr, ins[3]), ins[5])

@op("gep")
def _(x, st, fr, ins):
    p = x.val(st, fr, ins[2])
    off = ins[3]
    for r, w, sz in ins[4]:
        i = x.sval(st, x.val(st, fr, r), w)
        off = ladd(off, lmul(i, sz))
    if type(p) is Ptr: setr(fr, ins, Ptr(p.r, ladd(p.o, off)))
    elif type(p) is Undef: setr(fr, ins, p)
    elif type(p) is FPtr: raise Unsupported("arithmetic on a function pointer")
    else: raise Unsupported("gep on %r" % (p,))

# ------------------------------------------------------------ integers
def toint(x, st, v):
    """integer-like operand -> int or Lin (pointers become addresses)"""
    t = type(v)
    if t is int or t is Lin: return v
    if t is Ptr: return x.addr(st, v)
    if t is Bool: raise Fork([v.e, b_not(v.e)])
    if t is Undef: return v
    if t is Packed: raise Unsupported("arithmetic on packed floats")
    raise Unsupported("integer operation on %r" % (v,))

def norm(v, w):
    return v & ((1 << w) - 1) if type(v) is int else v

def forkbool(st, v):
    """resolve a Bool to 0/1 by path splitting"""
    if v.e is True: return 1
    if v.e is False: return 0
    if st.pc.prove(v.e): return 1
    if st.pc.prove(b_not(v.e)): return 0
    raise Fork([v.e, b_not(v.e)])

def iop(x, st, o, w, a, b, fl=""):
    if type(a) is Bool or type(b) is Bool:
        if w == 1 and o in ("and", "or", "xor") or o == "xor" and b == 1 and type(a) is Bool:
            if o == "xor" and b == 1: return Bool(b_not(a.e))
            ea, eb = be(a), be(b)
            if o == "and": return mkb(b_and([ea, eb]))
            if o == "or": return mkb(b_or([ea, eb]))
            return mkb(b_or([b_and([ea, b_not(eb)]), b_and([b_not(ea), eb])]))
        if type(a) is Bool: a = forkbool(st, a)
        if type(b) is Bool: b = forkbool(st, b)
    if type(a) is Ptr and type(b) is Ptr and o == "sub":
        if a.r == b.r: return norm(lsub(a.o, b.o), w)
    a, b = toint(x, st, a), toint(x, st, b)
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    M = (1 << w) - 1
    if type(a) is int and type(b) is int:
        a &= M; b &= M
        if o == "add": return a + b & M
        if o == "sub": return a - b & M
        if o == "mul": return a * b & M
        if o == "and": return a & b
        if o == "or": return a | b
        if o == "xor": return a ^ b
        if o in ("shl", "lshr", "ashr"):
            if b >= w: raise Unsupported("oversized shift")
            return a << b & M if o == "shl" else a >> b if o == "lshr" else signed(a, w) >> b & M
        if o in ("udiv", "urem", "sdiv", "srem"):
            if b == 0:
                x.fail(st, "arithmetic", "division by zero", False); raise Killed()
            if o == "udiv": return a // b
            if o == "urem": return a % b
            p, q = signed(a, w), signed(b, w)
            d = abs(p) // abs(q)
            if (p < 0) != (q < 0): d = -d
            return d & M if o == "sdiv" else p - d * q & M
    if type(a) is int: a = signed(a, w)
    if type(b) is int: b = signed(b, w)
    if o in ("add", "sub", "mul"):
        if o == "add": r = ladd(a, b)
        elif o == "sub": r = lsub(a, b)
        elif type(b) is int: r = lmul(a, b)
        elif type(a) is int: r = lmul(b, a)
        else:
            a1, b1 = pin(x, st, a, w), pin(x, st, b, w)
            if type(a1) is int or type(b1) is int: return iop(x, st, o, w, a1, b1, fl)
            raise Unsupported("product of two variables")
        if "nsw" in fl:
            h = 1 << (w - 1)
            sa, sb = x.sval(st, a, w), x.sval(st, b, w)
            t = ladd(sa, sb) if o == "add" else lsub(sa, sb) if o == "sub" else lmul(sa, sb) if type(sb) is int else lmul(sb, sa)
            x.oblige(st, "overflow", b_and([b_ge(t, -h), b_le(t, h - 1)]), lambda: "signed integer overflow")
            r = t
        if type(r) is Lin and big(r): r = reduce_mod(r, w)
        return norm(r, w)
    if o == "shl" and type(b) is int and b < w:
        return iop(x, st, "mul", w, a, 1 << b, "" if "nsw" not in fl else "nsw")
    if o in ("lshr", "udiv"):
        ua = x.uval(st, a, w)
        k = (1 << b if type(b) is int and 0 <= b < w else None) if o == "lshr" else (b & M if type(b) is int else None)
        if k is None and o == "udiv":
            b1 = pin(x, st, x.uval(st, b, w), w)
            k = b1 if type(b1) is int else None
        if not k: raise Unsupported("division by a variable")
        return x.divk(st, ua, k)
    if o in ("ashr", "sdiv", "srem"):
        sa = x.sval(st, a, w)
        k = 1 << b if o == "ashr" else b
        if type(k) is not int or k == 0: raise Unsupported("division by a variable")
        if o == "ashr": return norm(x.divk(st, sa, k), w)
        if k < 0: raise Unsupported("negative divisor")
        if st.pc.prove(b_ge(sa, 0)):
            return x.divk(st, sa, k) if o == "sdiv" else x.modk(st, sa, k)
        if not st.pc.feasible(b_ge(sa, 0)):
            n = lmul(sa, -1)
            return norm(lmul(x.divk(st, n, k), -1) if o == "sdiv" else lmul(x.modk(st, n, k), -1), w)
        raise Fork([b_ge(sa, 0), b_lt(sa, 0)])
    if o == "urem":
        ua = x.uval(st, a, w)
        k = b & M if type(b) is int else pin(x, st, x.uval(st, b, w), w)
        if type(k) is not int: raise Unsupported("remainder by a variable")
        if k == 0:
            x.fail(st, "arithmetic", "division by zero", False); raise Killed()
        return x.modk(st, ua, k)
    if o == "and":
        if type(a) is int: a, b = b, a
        if type(b) is int:
            m = b & M
            if m == 0: return 0
            if m == M: return a
            if m & (m + 1) == 0: return x.modk(st, x.uval(st, a, w) if (m + 1) > (1 << w) else a, m + 1)     # low mask (two's complement is congruent)
            inv = M ^ m
            if inv & (inv + 1) == 0:
                ua = x.uval(st, a, w)
                return lsub(ua, x.modk(st, ua, inv + 1))
            tz = (m & -m).bit_length() - 1
            t = m >> tz
            if t & (t + 1) == 0:                # contiguous mask
                ua = x.uval(st, a, w)
                return lmul(x.modk(st, x.divk(st, ua, 1 << tz), t + 1), 1 << tz)
        raise Unsupported("bitwise and")
    if o == "or":
        if type(a) is int: a, b = b, a
        if type(b) is int:
            m = b & M
            if m == 0: return a
            if "disjoint" in fl: return ladd(a, b)
            if m & (m + 1) == 0:
                ua = x.uval(st, a, w)
                return ladd(lsub(ua, x.modk(st, ua, m + 1)), m)
        elif "disjoint" in fl: return ladd(a, b)
        raise Unsupported("bitwise or")
    if o == "xor":
        if type(a) is int: a, b = b, a
        if type(b) is int:
            if b == -1: return lsub(-1, a)
            if b == 0: return a
            m = b & M
            if m & (m - 1) == 0:      # one bit
                ua = x.uval(st, a, w)
                bit = x.modk(st, x.divk(st, ua, m), 2)
                return ladd(ua, lsub(m, lmul(bit, 2 * m)))
        raise Unsupported("bitwise xor")
    raise Unsupported("integer %s" % o)

def big(l):
    return abs(l.c) >> 62 or any(abs(v) >> 40 for v in l.t.values())
def reduce_mod(l, w):
    M, h = 1 << w, 1 << (w - 1)
    f = lambda v: (v + h) % M - h
    return mk({s: f(v) for s, v in l.t.items() if f(v)}, f(l.c))

def pin(x, st, v, w):
    """the concrete value of v if the path condition forces one"""
    if type(v) is not Lin: return v
    m = st.pc.model()
    if m is None: raise Killed()
    c = v.c + sum(k * m.get(s, 0) for s, k in v.t.items())
    return c if st.pc.prove(b_eq(v, c)) else v

def be(v):
    if type(v) is Bool: return v.e
    if type(v) is int: return bool(v & 1)
    if type(v) is Lin: raise Unsupported("i1 from integer")
    raise Unsupported("boolean %r" % (v,))
def mkb(e):
    if e is True: return 1
    if e is False: return 0
    return Bool(e)

@op("iop")
def _(x, st, fr, ins):
    _, d, o, ty, a, b, fl = ins
    a, b = x.val(st, fr, a), x.val(st, fr, b)
    if ty.k == "vec":
        if type(a) is not tuple: a = (a,) * ty.n
        if type(b) is not tuple: b = (b,) * ty.n
        fr.regs[d] = tuple(vbit(x, st, o, ty.el.w, p, q, fl) for p, q in zip(a, b))
        return
    fr.regs[d] = iop(x, st, o, ty.w, a, b, fl)

def vbit(x, st, o, w, p, q, fl):
    """lane-wise integer operation on possibly float lanes (sign masks etc.)"""
    for s, t in ((p, q), (q, p)):
        if type(s) is int and type(t) is N:
            M = (1 << w) - 1
            if o == "xor" and s == 1 << (w - 1): return fun("neg", t, t.ty)
            if o == "and" and s == M or o in ("or", "xor") and s == 0: return t
            if o == "and" and s == 0: return 0
            raise Unsupported("bit operation on a float")
    if type(p) is Undef: return p
    if type(q) is Undef: return q
    return iop(x, st, o, w, p, q, fl)

@op("icmp")
def _(x, st, fr, ins):
    _, d, pred, ty, a, b = ins
    a, b = x.val(st, fr, a), x.val(st, fr, b)
    if ty.k == "vec": raise Unsupported("vector compare")
    fr.regs[d] = icmp(x, st, pred, ty, a, b)

def icmp(x, st, pred, ty, a, b):
    if type(a) is Undef: x.undef(st, a)
    if type(b) is Undef: x.undef(st, b)
    if ty.k == "ptr":
        return pcmp(x, st, pred, a, b)
    w = ty.w
    if type(a) is Bool or type(b) is Bool:
        if type(b) is Bool: a, b = b, a
        if type(b) is int and pred in ("ne", "eq"):
            if b == 0: return mkb(a.e if pred == "ne" else b_not(a.e))
            if b == 1: return mkb(a.e if pred == "eq" else b_not(a.e))
            return int(pred == "ne")
        if type(b) is Bool: b = forkbool(st, b)
        a = forkbool(st, a)
    a, b = toint(x, st, a), toint(x, st, b)
    if pred in ("eq", "ne"):
        if type(a) is int and type(b) is int:
            r = (a - b) % (1 << w) == 0
        else:
            # prefer whichever interpretation is known to be exact
            d = lsub(a if type(a) is Lin else signed(a, w), b if type(b) is Lin else signed(b, w))
            if type(d) is int: r = d % (1 << w) == 0
            else:
                M = 1 << w
                if st.pc.prove(b_and([b_ge(d, 1 - M), b_le(d, M - 1)])): r = b_eq(d, 0)
                else: r = b_eq(x.wrap(st, d, w, -(M >> 1)), 0)
        if pred == "ne": r = b_not(r)
        return mkb(r)
    if pred[0] == "u": a, b = x.uval(st, a, w), x.uval(st, b, w)
    else: a, b = x.sval(st, a, w), x.sval(st, b, w)
    f = {"lt": b_lt, "le": b_le, "gt": b_gt, "ge": b_ge}[pred[1:]]
    return mkb(f(a, b))

def pcmp(x, st, pred, a, b):
    if type(a) is int: a = Ptr(None, a)
    if type(b) is int: b = Ptr(None, b)
    if type(a) is FPtr or type(b) is FPtr:
        eq = a == b
        if pred in ("eq", "ne"): return int(eq == (pred == "eq"))
        raise Unsupported("ordering of function pointers")
    if type(a) is not Ptr or type(b) is not Ptr: raise Unsupported("pointer compare %r %r" % (a, b))
    if a.r == b.r:
        d0, d1 = a.o, b.o
        if pred in ("eq", "ne"):
            r = b_eq(d0, d1)
            return mkb(r if pred == "eq" else b_not(r))
        f = {"lt": b_lt, "le": b_le, "gt": b_gt, "ge": b_ge}[pred[1:]]
        return mkb(f(d0, d1))
    if a.r is None or b.r is None:
        p = b if a.r is None else a
        q = a if a.r is None else b
        if q.o == 0:                      # comparison with null: objects never start at address 0
            if pred == "eq": return 0
            if pred == "ne": return 1
            nz = pred[1:] in ("gt", "ge")
            return int(nz if b.r is None else not nz)
        raise Unsupported("comparison with an integer address")
    if pred in ("eq", "ne") :
        # different objects: distinct unless one is one-past-the-end
        ra, rb = x.regions[a.r], x.regions[b.r]
        ina = st.pc.prove(b_and([b_ge(a.o, 0), b_lt(a.o, ra.size)]))
        inb = st.pc.prove(b_and([b_ge(b.o, 0), b_lt(b.o, rb.size)]))
        if ina and inb: return int(pred == "ne")
    x.disjoint(st, a.r, b.r)
    d0, d1 = x.addr(st, a, False), x.addr(st, b, False)
    if pred in ("eq", "ne"):
        r = b_eq(d0, d1)
        return mkb(r if pred == "eq" else b_not(r))
    f = {"lt": b_lt, "le": b_le, "gt": b_gt, "ge": b_ge}[pred[1:]]
    return mkb(f(d0, d1))

@op("select")
def _(x, st, fr, ins):
    _, d, c, ty, a, b = ins
    c, a, b = x.val(st, fr, c), x.val(st, fr, a), x.val(st, fr, b)
    if type(c) is tuple: raise Unsupported("vector select")
    if type(c) is Undef: x.undef(st, c)
    if type(c) is Bool:
        if type(a) is type(b) and a == b: fr.regs[d] = a; return
        c = forkbool(st, c)
    fr.regs[d] = a if c & 1 else b

@op("cast")
def _(x, st, fr, ins):
    _, d, o, ty, v, ty2 = ins
    v = x.val(st, fr, v)
    if type(v) is Undef: fr.regs[d] = v; return
    fr.regs[d] = cast(x, st, o, ty, v, ty2)

def cast(x, st, o, ty, v, ty2):
    if o == "bitcast":
        return bitcast(x, st, ty, v, ty2)
    if ty.k == "vec":
        return tuple(cast(x, st, o, ty.el, e, ty2.el) if type(e) is not Undef else e for e in v)
    if o == "zext":
        if type(v) is Bool: return v
        return x.uval(st, v, ty.w)
    if o == "sext":
        if type(v) is Bool: v = forkbool(st, v)
        if ty.w == 1 and type(v) is int: return (1 << ty2.w) - 1 if v & 1 else 0
        r = x.sval(st, v, ty.w)
        return r & ((1 << ty2.w) - 1) if type(r) is int else r
    if o == "trunc":
        if type(v) is Bool: return v
        if type(v) is int: return v & ((1 << ty2.w) - 1)
        if type(v) is Ptr: v = x.addr(st, v)
        if ty2.w == 1:
            return mkb(b_eq(x.modk(st, v, 2), 1))
        return v
    if o == "ptrtoint":
        if type(v) is Ptr and v.r is None: return v.o
        return v           # stays a pointer; integer operations turn it into an address when needed
    if o == "inttoptr":
        if type(v) is Ptr or type(v) is FPtr: return v
        if type(v) is int: return Ptr(None, v)
        return x.unaddr(st, v)
    if o in ("sitofp", "uitofp"):
        if type(v) is Bool: v = forkbool(st, v)
        i = x.sval(st, v, ty.w) if o == "sitofp" else x.uval(st, v, ty.w)
        if type(i) is not int: raise Unsupported("symbolic integer to float")
        return fconst(float(np.float32(i)) if ty2.k == "f32" else float(i), ty2.k)
    if o == "fptrunc": return fun("trunc", v, ty2.k)
    if o == "fpext": return fun("ext", v, ty2.k)
    if o in ("fptosi", "fptoui"):
        if v.op == "c": return int(v.a[0]) & ((1 << ty2.w) - 1)
        raise Unsupported("sample value to integer")
    raise Unsupported(o)

def bits(n):
    return int.from_bytes(struct.pack("<f" if n.ty == "f32" else "<d", n.a[0]), "little")
def unbits(v, k):
    return fconst(struct.unpack("<f" if k == "f32" else "<d", v.to_bytes(4 if k == "f32" else 8, "little"))[0], k)

def flat(x, ty, v):
    """list of (bytes, scalar)"""
    if ty.k in ("vec", "arr"):
        es = x.mod.size(ty.el)
        if type(v) is Undef: v = (v,) * ty.n
        return [z for e in v for z in flat(x, ty.el, e)]
    if type(v) is Packed: return [(4, p) for p in v.parts]
    return [(x.mod.size(ty), v)]

def bitcast(x, st, ty, v, ty2):
    if ty.k == ty2.k and ty.k not in ("vec", "arr"): return v
    fl = flat(x, ty, v)
    def take(t):
        if t.k in ("vec", "arr"): return tuple(take(t.el) for _ in range(t.n))
        sz = x.mod.size(t)
        if fl and fl[0][0] == sz:
            e = fl.pop(0)[1]
            return conv(x, e, t)
        if sz == 8 and len(fl) >= 2 and fl[0][0] == fl[1][0] == 4:
            a, b = fl.pop(0)[1], fl.pop(0)[1]
            if type(a) is int and type(b) is int: return a & 0xffffffff | (b & 0xffffffff) << 32
            if type(a) is Undef and type(b) is Undef: return a
            if t.k == "f64":
                a2 = bits(a) if type(a) is N and a.op == "c" else a
                b2 = bits(b) if type(b) is N and b.op == "c" else b
                if type(a2) is int and type(b2) is int: return unbits(a2 | b2 << 32, "f64")
            return Packed((a, b))
        if sz == 4 and fl and fl[0][0] == 8:
            e = fl.pop(0)[1]
            if type(e) is Undef: lo = hi = e
            elif type(e) is N and e.op == "c": e = bits(e); lo, hi = e & 0xffffffff, e >> 32
            elif type(e) is int: lo, hi = e & 0xffffffff, e >> 32
            else: raise Unsupported("bitcast splits a value")
            fl.insert(0, (4, hi))
            return conv(x, lo, t)
        raise Unsupported("bitcast")
    return take(ty2)

def conv(x, e, t):
    if t.k in ("f32", "f64") and type(e) is int: return unbits(e & ((1 << (32 if t.k == "f32" else 64)) - 1), t.k)
    if t.k == "int" and type(e) is N and e.op == "c": return bits(e)
    return e          # float lanes may travel through integer lanes untouched

# ------------------------------------------------------------ floats
def fbin(x, st, o, a, b, fl=""):
    if type(a) is Undef: return a
    if type(b) is Undef: return b
    if type(a) is int: a = unbits(a, b.ty if type(b) is N else "f32")
    if type(b) is int: b = unbits(b, a.ty)
    if type(a) is not N or type(b) is not N: raise Unsupported("float operation on %r, %r" % (a, b))
    if "fast" in fl or "reassoc" in fl or "contract" in fl: raise Unsupported("fast-math arithmetic")
    if o == "frem": raise Unsupported("frem")
    x.nflops += 1
    return fop(o[1:], a, b)

@op("fop")
def _(x, st, fr, ins):
    _, d, o, ty, a, b, fl = ins
    a, b = x.val(st, fr, a), x.val(st, fr, b)
    if ty.k == "vec":
        if type(a) is Undef: a = (a,) * ty.n
        if type(b) is Undef: b = (b,) * ty.n
        fr.regs[d] = tuple(fbin(x, st, o, p, q, fl) for p, q in zip(a, b))
    else:
        fr.regs[d] = fbin(x, st, o, a, b, fl)

@op("fneg")
def _(x, st, fr, ins):
    v = x.val(st, fr, ins[3])
    f = lambda e: e if type(e) is Undef else fun("neg", e, e.ty)
    fr.regs[ins[1]] = tuple(f(e) for e in v) if type(v) is tuple else f(v)

@op("fcmp")
def _(x, st, fr, ins):
    _, d, pred, ty, a, b = ins
    a, b = x.val(st, fr, a), x.val(st, fr, b)
    if ty.k == "vec": raise Unsupported("vector float compare")
    if type(a) is Undef: x.undef(st, a)
    if type(b) is Undef: x.undef(st, b)
    if a.op == "c" and b.op == "c":
        p, q = a.a[0], b.a[0]
        nan = p != p or q != q
        r = {"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q, "ord": not nan, "uno": nan}
        k = pred
        if pred in ("true", "false"): res = pred == "true"
        elif pred in ("ord", "uno"): res = r[pred]
        elif pred[0] == "o": res = not nan and r[pred[1:]]
        else: res = nan or r[pred[1:]]
        fr.regs[d] = int(res)
        return
    x.effects.add(("data-branch", x.where(st)))
    fr.regs[d] = Bool(("op", "%s:%d:%d" % (pred, a.id, b.id)))

# ------------------------------------------------------------ vectors and aggregates
def lane(x, st, i):
    if type(i) is not int: raise Unsupported("symbolic lane")
    return i
@op("extractelement")
def _(x, st, fr, ins):
    v = x.val(st, fr, ins[3])
    fr.regs[ins[1]] = v if type(v) is Undef else v[lane(x, st, x.val(st, fr, ins[4]))]
@op("insertelement")
def _(x, st, fr, ins):
    v = x.val(st, fr, ins[3])
    v = [v] * ins[2].n if type(v) is Undef else list(v)
    v[lane(x, st, x.val(st, fr, ins[5]))] = x.val(st, fr, ins[4])
    fr.regs[ins[1]] = tuple(v)
@op("shuffle")
def _(x, st, fr, ins):
    _, d, ty, a, b, idx = ins
    a, b = x.val(st, fr, a), x.val(st, fr, b)
    n = ty.n
    if type(a) is Undef: a = (a,) * n
    if type(b) is Undef: b = (b,) * n
    ab = a + b
    fr.regs[d] = tuple(UNDEF if i is None else ab[i] for i in idx)
@op("extractvalue")
def _(x, st, fr, ins):
    v = x.val(st, fr, ins[2])
    for i in ins[3]: v = v if type(v) is Undef else v[i]
    fr.regs[ins[1]] = v
@op("insertvalue")
def _(x, st, fr, ins):
    _, d, ty, v, e, idx = ins
    v, e = x.val(st, fr, v), x.val(st, fr, e)
    def put(ty, v, idx):
        if not idx: return e
        n = len(ty.els) if ty.k == "struct" else ty.n
        v = [v] * n if type(v) is Undef else list(v)
        v[idx[0]] = put(ty.els[idx[0]] if ty.k == "struct" else ty.el, v[idx[0]], idx[1:])
        return tuple(v)
    fr.regs[d] = put(ty, v, idx)

# ------------------------------------------------------------ calls
@op("call")
def _(x, st, fr, ins):
    _, d, rty, callee, args, nxt = ins
    if type(callee) is str:
        f = fr.regs[callee]
        if type(f) is Undef: x.undef(st, f)
        if type(f) is Ptr and f.r is None:
            x.fail(st, "memory", "call through a null pointer", False); raise Killed()
        if type(f) is not FPtr: raise Unsupported("indirect call of %r" % (f,))
        name, ind = f.name, True
    else:
        name, ind = callee.name, False
    name = x.mod.aliases.get(name, name)
    vals = [x.val(st, fr, v) if ty.k != "meta" else None for ty, v in args]
    if ind and x.on_indirect is not None:
        USED[0] += 1
        x.on_indirect(st, name, vals)
    if x.hook is not None:
        r = x.hook(x, st, fr, ins, name, vals)
        if r is not None:
            USED[0] += 1
            if r is True: r = (None,)
            return done(fr, d, r[0], nxt)
    m = x.models.get(name)
    if m is None and name.startswith("llvm."):
        m = x.intrinsic(name)
    if m is not None:
        if name not in PURE: USED[0] += 1
        return done(fr, d, m(x, st, fr, vals, ins), nxt)
    if name in x.mod.ftext:
        for q in x.recs: q.funcs.append(name)
        rec = None
        if x.mod.func(name).loops:
            new = []
            r = x.rec_begin(st, new, name, vals)
            if r is not None:
                x.rec_repeat(st, r, None)
                return done(fr, d, r.cnt, nxt)
            if new: rec = new[0]
        x.push_frame(st, name, vals, d, nxt).rec = rec
        return
    if name.startswith("llvm.") and not any(w in name for w in ("mxcsr", "fpenv", "fpmode", "rounding")) or name in LIBM: raise Unsupported("call of " + name)     # no effect, no contract
    x.effects.add(("extern", name))
    if x.extern_policy == "fail":
        x.fail(st, "effects", "calls the external function %s" % E.short(name), None, True)
    raise Unsupported("call of external function " + name)

LIBM = {n + s for n in "sin cos tan asin acos atan atan2 sinh cosh tanh exp exp2 expm1 log log2 log10 log1p pow sqrt cbrt hypot fmod remainder fma fmin fmax fdim copysign ldexp frexp modf scalbn ilogb logb".split() for s in ("", "f", "l")}
PURE = ("llvm.fmuladd.f32", "llvm.fabs.f32", "llvm.sqrt.f32", "llvm.assume", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0")
def done(fr, d, v, nxt):
    if d is not None: fr.regs[d] = v
    if nxt is not None: fr.cont = "invoke-done"
    else: fr.ip += 1
