"""Values of the symbolic executor: linear integers, booleans, pointers, float expression DAGs."""
import struct
from fractions import Fraction
from math import gcd
import numpy as np
np.seterr(all="ignore")

class Unsupported(Exception):
    """the construct is outside the verifier's reach (never a verdict on the code)"""

# ------------------------------------------------------------------ linear integer expressions
class Lin:
    """c0 + sum ci*si over mathematical integers (coefficients may be Fractions in templates only)"""
    __slots__ = ("t", "c", "_k")
    def __init__(s, t, c):
        s.t, s.c, s._k = t, c, None
    @property
    def key(s):
        k = s._k
        if k is None:
            k = s._k = (tuple(sorted(s.t.items())), s.c)
        return k
    def __eq__(s, o):
        return type(o) is Lin and s.key == o.key
    def __ne__(s, o):
        return not (s == o)
    def __hash__(s):
        return hash(s.key)
    def __repr__(s):
        r = " + ".join(("%s*%s" % (v, k) if v != 1 else k) for k, v in sorted(s.t.items()))
        return r + (" + %s" % s.c if s.c else "")

def sym(name):
    return Lin({name: 1}, 0)

def mk(t, c):
    if not t:
        return c
    return Lin(t, c)

def ladd(a, b):
    if type(a) is Lin:
        if type(b) is Lin:
            t = dict(a.t)
            for k, v in b.t.items():
                w = t.get(k, 0) + v
                if w: t[k] = w
                else: t.pop(k, None)
            return mk(t, a.c + b.c)
        return Lin(a.t, a.c + b) if b else a
    if type(b) is Lin:
        return Lin(b.t, a + b.c) if a else b
    return a + b

def lmul(a, k):
    if type(a) is not Lin:
        return a * k
    if k == 1: return a
    if k == 0: return 0
    return Lin({s: v * k for s, v in a.t.items()}, a.c * k)

def lsub(a, b):
    return ladd(a, lmul(b, -1))

def _norm(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x

def lscale(a, fr):
    """a * Fraction"""
    if type(a) is not Lin:
        return _norm(Fraction(a) * fr)
    return mk({s: _norm(Fraction(v) * fr) for s, v in a.t.items()}, _norm(Fraction(a.c) * fr))

def ldivx(a, k):
    """exact division of every coefficient, or None"""
    if type(a) is not Lin:
        return a // k if a % k == 0 else None
    if a.c % k: return None
    for v in a.t.values():
        if v % k: return None
    return Lin({s: v // k for s, v in a.t.items()}, a.c // k)

def lsubst(a, m):
    """substitute symbols by Lin/int"""
    if type(a) is not Lin:
        return a
    hit = False
    for s in a.t:
        if s in m:
            hit = True; break
    if not hit:
        return a
    r = a.c
    rest = {}
    for s, v in a.t.items():
        if s in m:
            r = ladd(r, lscale(m[s], v) if type(v) is Fraction else lmul(m[s], v))
        else:
            rest[s] = v
    r = ladd(r, mk(rest, 0))
    if type(r) is Lin:
        return mk({s: _norm(v) for s, v in r.t.items() if v}, _norm(r.c))
    return _norm(r)

def is_int_lin(a):
    if type(a) is not Lin: return type(a) is int
    return type(a.c) is int and all(type(v) is int for v in a.t.values())

# ------------------------------------------------------------------ booleans
# BE: ('ge', lin) lin>=0 | ('eq', lin) | ('ne', lin) | ('and', [..]) | ('or', [..]) | ('op', name) opaque | ('nop', name) | True | False
def b_ge(a, b):
    d = lsub(a, b)
    return d >= 0 if type(d) is not Lin else ("ge", d)
def b_le(a, b): return b_ge(b, a)
def b_lt(a, b): return b_ge(lsub(b, 1), a)
def b_gt(a, b): return b_ge(lsub(a, 1), b)
def b_eq(a, b):
    d = lsub(a, b)
    if type(d) is not Lin: return d == 0
    g = 0
    for v in d.t.values(): g = gcd(g, v)
    if d.c % g: return False
    return ("eq", d)
def b_not(x):
    if x is True: return False
    if x is False: return True
    k = x[0]
    if k == "ge": return ("ge", lsub(-1, x[1]))
    if k == "eq": return ("ne", x[1])
    if k == "ne": return ("eq", x[1])
    if k == "and": return b_or([b_not(y) for y in x[1]])
    if k == "or": return b_and([b_not(y) for y in x[1]])
    if k == "op": return ("nop", x[1])
    if k == "nop": return ("op", x[1])
    raise Unsupported("not " + k)
def b_and(l):
    r = []
    for x in l:
        if x is False: return False
        if x is True: continue
        if x[0] == "and": r.extend(x[1])
        else: r.append(x)
    return True if not r else r[0] if len(r) == 1 else ("and", r)
def b_or(l):
    r = []
    for x in l:
        if x is True: return True
        if x is False: continue
        if x[0] == "or": r.extend(x[1])
        else: r.append(x)
    return False if not r else r[0] if len(r) == 1 else ("or", r)
def b_subst(x, m):
    if x is True or x is False: return x
    k = x[0]
    if k in ("ge", "eq", "ne"):
        d = lsubst(x[1], m)
        if type(d) is not Lin:
            return {"ge": d >= 0, "eq": d == 0, "ne": d != 0}[k]
        return (k, d)
    if k == "and": return b_and([b_subst(y, m) for y in x[1]])
    if k == "or": return b_or([b_subst(y, m) for y in x[1]])
    return x

class Bool:
    """symbolic i1"""
    __slots__ = ("e",)
    def __init__(s, e): s.e = e

# ------------------------------------------------------------------ pointers and undefined values
class Ptr:
    __slots__ = ("r", "o")
    def __init__(s, r, o): s.r, s.o = r, o
    def __repr__(s): return "&%s+%r" % (s.r, s.o)
    def __eq__(s, o): return type(o) is Ptr and s.r == o.r and s.o == o.o
    def __ne__(s, o): return not (s == o)
    def __hash__(s): return hash((s.r, s.o if type(s.o) is int else s.o.key))
NULL = Ptr(None, 0)

class FPtr:
    """pointer to a function"""
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
    def __repr__(s): return "@" + s.name
    def __eq__(s, o): return type(o) is FPtr and s.name == o.name
    def __ne__(s, o): return not (s == o)
    def __hash__(s): return hash(s.name)

class Undef:
    """uninitialised or stale (havocked) value; using it for anything but copying is an error"""
    __slots__ = ("why",)
    def __init__(s, why="uninitialised"): s.why = why
    def __repr__(s): return "<%s>" % s.why
UNDEF = Undef()
STALE = Undef("unspecified")

class Packed:
    """8-byte integer made of two float cells (vector moves through i64)"""
    __slots__ = ("parts",)
    def __init__(s, parts): s.parts = parts

# ------------------------------------------------------------------ float DAG
class N:
    __slots__ = ("op", "a", "ty", "id", "_lin", "_syms", "__weakref__")
    def __repr__(s): return show(s, 4)

_tab = {}
_cnt = [0]
def _node(op, a, ty, key):
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op, n.a, n.ty = op, a, ty
        _cnt[0] += 1
        n.id = _cnt[0]
        n._lin = n._syms = None
        _tab[key] = n
    return n

def fconst(v, ty):
    """v: python float holding exactly an f32/f64 value"""
    return _node("c", (v,), ty, ("c", struct.pack(">d", v), ty))
def atom(stream, idx, ty="f32"):
    """element idx (int or Lin) of a ghost stream"""
    return _node("x", (stream, idx), ty, ("x", stream, idx if type(idx) is not Lin else idx.key))
_comm = {"add", "mul"}
def fop(op, a, b):
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        if a.ty == "f32":
            x, y = np.float32(x), np.float32(y)
        else:
            x, y = np.float64(x), np.float64(y)
        r = x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x / y
        return fconst(float(r), a.ty)
    if op in _comm and a.id > b.id:
        a, b = b, a
    return _node(op, (a, b), a.ty, (op, a.id, b.id))
def fun(op, a, ty):
    if a.op == "c":
        v = a.a[0]
        if op == "neg": return fconst(-v, ty)
        if op == "trunc": return fconst(float(np.float32(v)), ty)
        if op == "ext": return fconst(v, ty)
    return _node(op, (a,), ty, (op, a.id, ty))

F0 = {"f32": fconst(0.0, "f32"), "f64": fconst(0.0, "f64")}

def show(n, d=6):
    if type(n) is not N: return repr(n)
    if n.op == "c": return "%.9g" % n.a[0]
    if n.op == "x": return "%s[%r]" % n.a
    if d == 0: return ".."
    return "%s(%s)" % (n.op, ", ".join(show(x, d - 1) for x in n.a))

def nsyms(n):
    """symbols occurring in the indices of a DAG (frozenset)"""
    if n._syms is None:
        st = [n]
        while st:
            x = st[-1]
            if x._syms is not None:
                st.pop(); continue
            if x.op == "x":
                i = x.a[1]
                x._syms = frozenset(i.t) if type(i) is Lin else frozenset()
                st.pop(); continue
            if x.op == "c":
                x._syms = frozenset(); st.pop(); continue
            todo = [y for y in x.a if type(y) is N and y._syms is None]
            if todo:
                st.extend(todo); continue
            r = frozenset()
            for y in x.a:
                if type(y) is N: r |= y._syms
            x._syms = r
            st.pop()
    return n._syms

def nmap(n, leaf, memo=None):
    """rebuild a DAG, replacing atoms by leaf(atom) (None = keep)"""
    memo = {} if memo is None else memo
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop(); continue
        if x.op == "x":
            r = leaf(x)
            memo[x.id] = x if r is None else r
            st.pop(); continue
        if x.op == "c":
            memo[x.id] = x; st.pop(); continue
        todo = [y for y in x.a if type(y) is N and y.id not in memo]
        if todo:
            st.extend(todo); continue
        args = [memo[y.id] for y in x.a]
        if all(p is q for p, q in zip(args, x.a)): r = x
        elif len(args) == 2: r = fop(x.op, args[0], args[1])
        else: r = fun(x.op, args[0], x.ty)
        memo[x.id] = r
        st.pop()
    return memo[n.id]

def nsubst(n, m, memo=None):
    """substitute index symbols"""
    if type(n) is not N: return n
    if not (nsyms(n) & m.keys()):
        return n
    def leaf(x):
        i = x.a[1]
        if type(i) is Lin:
            j = lsubst(i, m)
            if j is not i: return atom(x.a[0], j, x.ty)
    return nmap(n, leaf, memo)

def atoms(n, seen=None):
    """set of atoms of a DAG"""
    out, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "x": out.append(x)
        elif x.op != "c":
            st.extend(y for y in x.a if type(y) is N)
    return out

def linear(n):
    """exact linear form over atoms: ({atom id: (atom, Fraction)}, const, depth) or None.
    depth bounds the number of float roundings on any path from an atom to the root."""
    if n._lin is None:
        st = [n]
        while st:
            x = st[-1]
            if x._lin is not None:
                st.pop(); continue
            if x.op == "c":
                v = x.a[0]
                x._lin = ({}, Fraction(v), 0) if v == v and abs(v) != float("inf") else False
                st.pop(); continue
            if x.op == "x":
                x._lin = ({x.id: (x, Fraction(1))}, Fraction(0), 0); st.pop(); continue
            todo = [y for y in x.a if y._lin is None]
            if todo:
                st.extend(todo); continue
            ls = [y._lin for y in x.a]
            if any(l is False for l in ls): x._lin = False
            elif x.op in ("add", "sub"):
                sg = 1 if x.op == "add" else -1
                (da, ca, pa), (db, cb, pb) = ls
                d = dict(da)
                for k, (at, v) in db.items():
                    w = (d[k][1] if k in d else 0) + sg * v
                    if w: d[k] = (at, w)
                    else: d.pop(k, None)
                if not da and ca == 0: x._lin = (d, sg * cb, pb)          # 0 +- y is exact
                elif not db and cb == 0: x._lin = (d, ca, pa)
                else: x._lin = (d, ca + sg * cb, max(pa, pb) + 1)
            elif x.op == "mul":
                (da, ca, pa), (db, cb, pb) = ls
                if not da: k, (d, c, p) = ca, ls[1]
                elif not db: k, (d, c, p) = cb, ls[0]
                else: k = None
                if k is None: x._lin = False
                elif k == 0: x._lin = ({}, Fraction(0), 0)
                else:
                    ex = abs(k).numerator & (abs(k).numerator - 1) == 0 and abs(k).denominator & (abs(k).denominator - 1) == 0
                    x._lin = ({i: (at, v * k) for i, (at, v) in d.items()}, c * k, p if ex else p + 1)
            elif x.op == "div":
                (da, ca, pa), (db, cb, pb) = ls
                if db or cb == 0: x._lin = False
                else: x._lin = ({i: (at, v / cb) for i, (at, v) in da.items()}, ca / cb, pa + 1)
            elif x.op == "neg":
                d, c, p = ls[0]
                x._lin = ({i: (at, -v) for i, (at, v) in d.items()}, -c, p)
            elif x.op == "ext": x._lin = ls[0]
            elif x.op == "trunc":
                d, c, p = ls[0]
                x._lin = (d, c, p + 1)
            else: x._lin = False
            st.pop()
    return n._lin or None

def depth_ops(n):
    """number of nodes"""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        st.extend(y for y in x.a if type(y) is N)
    return len(seen)
