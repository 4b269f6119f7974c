"""Assumed contracts of external functions (C/C++ runtime) and LLVM intrinsics."""
import math
import numpy as np
from .vals import *
from . import ex as E
from .ex import Ex, Fork, Killed, Rng, Content, rname, short

def _alloc(x, st, size, kind, align=None):
    if type(size) is not int: size = x.uval(st, size, 64)
    x.effects.add(("alloc", x.where(st)))
    res = x.malloc_res
    if align is not None: al, rs = max(align, 16), 0
    elif res is None: al, rs = 16, 0
    else: al, rs = 64, res
    p = x.region(st, size, "heap", layers=[{}], align=al, res=rs, name=kind)
    st.live[p.r] = kind
    return p
def _free(x, st, p, kinds):
    x.effects.add(("free", x.where(st)))
    if type(p) is Undef: x.undef(st, p)
    if type(p) is not Ptr: raise Unsupported("free of %r" % (p,))
    if p.r is None and p.o == 0: return
    if p.r not in st.live:
        r = x.regions.get(p.r)
        x.fail(st, "memory", ("double free" if r is not None and r.kind == "heap" else "free of something that was not allocated"), False)
        raise Killed()
    x.oblige(st, "memory", b_eq(p.o, 0), lambda: "free of a pointer %r bytes into an allocation" % p.o)
    if st.live[p.r] not in kinds:
        x.fail(st, "memory", "%s memory released by the wrong function" % st.live[p.r], False)
    else:
        x.ok("memory")
    st.mem.pop(p.r, None)
    del st.live[p.r]

def _io(x, st, fr, a, ins):
    x.effects.add(("io", x.where(st)))
    if x.io_policy == "fail":
        x.fail(st, "effects", "prints a diagnostic", None, True)
    return 0

def _noreturn(what):
    def f(x, st, fr, a, ins):
        x.effects.add((what, x.where(st)))
        x.fail(st, "assertion" if what == "assert" else "exception", "reaches %s" % what, True if st.pc.infeasible else False)
        raise Killed()
    return f

def _posix_memalign(x, st, fr, a, ins):
    al, n = a[1], a[2]
    if type(al) is not int: raise Unsupported("posix_memalign")
    p = _alloc(x, st, n, "malloc", al)
    from .ir import PTR
    x.store(st, PTR, a[0], p, 8)
    return 0

def install(x):
    M = x.models
    def reg(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d
    @reg("malloc")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "malloc")
    @reg("calloc")
    def _(x, st, fr, a, ins):
        if type(a[0]) is int and type(a[1]) is int: n = a[0] * a[1]
        elif type(a[1]) is int: n = lmul(x.uval(st, a[0], 64), a[1])
        elif type(a[0]) is int: n = lmul(x.uval(st, a[1], 64), a[0])
        else: raise Unsupported("calloc")
        p = _alloc(x, st, n, "malloc")
        st.content(p.r).layers.insert(0, Rng(0, n, 1, "z"))
        return p
    @reg("aligned_alloc", "memalign")
    def _(x, st, fr, a, ins):
        if type(a[0]) is not int: raise Unsupported("aligned_alloc")
        return _alloc(x, st, a[1], "malloc", a[0])
    M["posix_memalign"] = _posix_memalign
    @reg("_mm_malloc")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "mm", a[1])
    @reg("_mm_free")
    def _(x, st, fr, a, ins): _free(x, st, a[0], ("mm",))
    @reg("free")
    def _(x, st, fr, a, ins): _free(x, st, a[0], ("malloc",))
    @reg("_Znwm", "_ZnwmRKSt9nothrow_t")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "new")
    @reg("_Znam", "_ZnamRKSt9nothrow_t")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "new[]")
    @reg("_ZnwmSt11align_val_t")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "new", a[1])
    @reg("_ZnamSt11align_val_t")
    def _(x, st, fr, a, ins): return _alloc(x, st, a[0], "new[]", a[1])
    @reg("_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
    def _(x, st, fr, a, ins): _free(x, st, a[0], ("new",))
    @reg("_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t")
    def _(x, st, fr, a, ins): _free(x, st, a[0], ("new[]",))
    for n in ("fprintf", "printf", "puts", "fputs", "putchar", "fwrite", "fputc", "fflush", "perror", "vfprintf"): M[n] = _io
    M["__assert_fail"] = _noreturn("assert")
    for n in ("abort", "exit", "_Exit", "_ZSt9terminatev", "llvm.trap", "__clang_call_terminate"): M[n] = _noreturn("abort")
    for n in ("_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc",
              "_ZSt24__throw_out_of_range_fmtPKcz", "__cxa_throw", "__cxa_rethrow", "__cxa_bad_cast", "_ZSt19__throw_logic_errorPKc"):
        M[n] = _noreturn("throw")
    @reg("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
    def _(x, st, fr, a, ins):
        x.copy(st, a[0], a[1], a[2]); return a[0]
    @reg("memset")
    def _(x, st, fr, a, ins):
        x.fill(st, a[0], a[1] & 255 if type(a[1]) is int else a[1], a[2]); return a[0]
    @reg("strlen")
    def _(x, st, fr, a, ins):
        from .ir import INT
        p, n = a[0], 0
        while True:
            v = x.load(st, INT(8), Ptr(p.r, ladd(p.o, n)), 1)
            if type(v) is not int: raise Unsupported("strlen")
            if v == 0: return n
            n += 1
    @reg("rand")
    def _(x, st, fr, a, ins):
        x.effects.add(("global-write", "rand state"))
        return x.fresh(st, "rand", 0, 2**31 - 1)

    for n, f in _ROUND.items():
        for suf in ("", "f"): M[n + suf] = _v(lambda x, st, v, f=f: _each(f, v))
    for n, f in (("lround", _roundaway), ("llround", _roundaway), ("lrint", np.rint), ("llrint", np.rint)):
        for suf in ("", "f"): M[n + suf] = _v(lambda x, st, v, f=f: int(_each(f, v).a[0]) & ((1 << 64) - 1))

    Ex.intrinsic = intrinsic

def _v(f):
    return lambda x, st, fr, a, ins: f(x, st, *a)

def _minmax(pred):
    def f(x, st, a, b, ins):
        from . import ops
        c = ops.icmp(x, st, pred, ins[4][0][0], a, b)
        if type(c) is Bool: c = ops.forkbool(st, c)
        return a if c else b
    return f

def _fabs(x, st, fr, a, ins):
    def f(v):
        if type(v) is Undef: return v
        if v.op == "c": return fconst(abs(v.a[0]), v.ty)
        return fun("abs", v, v.ty)
    return tuple(f(e) for e in a[0]) if type(a[0]) is tuple else f(a[0])

def _roundaway(v):
    t = np.trunc(v)
    return t + np.copysign(1.0, v) if abs(v - t) >= 0.5 else t
_ROUND = {"floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint, "nearbyint": np.rint, "roundeven": np.rint, "round": _roundaway}
def _each(f, v):
    if type(v) is tuple: return tuple(_each(f, e) for e in v)
    if type(v) is Undef: return v
    if v.op != "c" or not math.isfinite(v.a[0]): raise Unsupported("rounding of a sample value")
    return fconst(float(f(v.a[0])), v.ty)
def _iabs(x, st, fr, a, ins):
    w = ins[4][0][0].w
    v = x.sval(st, a[0], w)
    if type(v) is int: return abs(v) & ((1 << w) - 1)
    if st.pc.prove(b_ge(v, 0)): return v
    if st.pc.prove(b_le(v, 0)): return lsub(0, v)
    raise Fork([b_ge(v, 0), b_le(v, -1)])
_BITS = {"ctpop", "ctlz", "cttz", "bswap"}
def _bits(x, st, r, w, v):
    from . import ops
    if type(v) is not int: v = ops.pin(x, st, v, w)
    if type(v) is not int: raise Unsupported(r + " of a variable")
    v &= (1 << w) - 1
    if r == "ctpop": return bin(v).count("1")
    if r == "ctlz": return w - v.bit_length()
    if r == "cttz": return (v & -v).bit_length() - 1 if v else w
    return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
def _overflow(x, st, sg, o, w, p, q):
    f = x.sval if sg else x.uval
    p, q = f(st, p, w), f(st, q, w)
    if o == "add": r = ladd(p, q)
    elif o == "sub": r = lsub(p, q)
    elif type(p) is int and type(q) is int: r = p * q
    elif type(q) is int: r = lmul(p, q)
    elif type(p) is int: r = lmul(q, p)
    else: raise Unsupported("product of two variables")
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
    if type(r) is int: return (r & ((1 << w) - 1), 0 if lo <= r <= hi else 1)
    fits = b_and([b_ge(r, lo), b_le(r, hi)])
    if st.pc.prove(fits): return (r, 0)
    if st.pc.prove(b_not(fits)): return (r, 1)     # the value wraps: reduced where it is used
    raise Fork([fits, b_not(fits)])
def _usubsat(x, st, ty, p, q):
    from . import ops
    c = ops.icmp(x, st, "ugt", ty, p, q)
    if type(c) is Bool: c = ops.forkbool(st, c)
    return ops.iop(x, st, "sub", ty.w, p, q, ()) if c else 0

def intrinsic(x, name):
    b = name[5:]
    if b.startswith(("lifetime", "dbg", "invariant", "prefetch", "donothing", "experimental.noalias", "assume")): return lambda x, st, fr, a, ins: None
    if b.startswith("stacksave"): return lambda x, st, fr, a, ins: NULL
    if b.startswith("stackrestore"): return lambda x, st, fr, a, ins: None
    if b.startswith(("memcpy", "memmove")):
        return lambda x, st, fr, a, ins: x.copy(st, a[0], a[1], a[2])
    if b.startswith("memset"):
        return lambda x, st, fr, a, ins: x.fill(st, a[0], a[1], a[2])
    if b.startswith("fabs"): return _fabs
    if b.startswith(("umin", "umax", "smin", "smax")):
        pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[b[:4]]
        return lambda x, st, fr, a, ins: _minmax(pred)(x, st, a[0], a[1], ins)
    if b.startswith("is.constant"):
        # the optimiser may answer either way and the program has to be right for both: answer as an unoptimised build does
        return lambda x, st, fr, a, ins: 1 if type(a[0]) is int else 0
    if b.startswith("abs."): return _iabs
    r = b.split(".")[0]
    if r in _ROUND: return _v(lambda x, st, v: _each(_ROUND[r], v))
    if r in _BITS: return lambda x, st, fr, a, ins: _bits(x, st, r, ins[4][0][0].w, a[0])
    if ".with.overflow." in b: return lambda x, st, fr, a, ins: _overflow(x, st, b[0] == "s", b[1:4], ins[4][0][0].w, a[0], a[1])
    if b.startswith("usub.sat"):
        return lambda x, st, fr, a, ins: _usubsat(x, st, ins[4][0][0], a[0], a[1])
    if b.startswith("fmuladd") or b.startswith("fma"):
        return None
    if b.startswith("expect"): return lambda x, st, fr, a, ins: a[0]
    if b.startswith("objectsize"): return lambda x, st, fr, a, ins: (1 << 64) - 1
    if b.startswith("trap"): return _noreturn("abort")
    return None
