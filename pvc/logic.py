"""Path conditions and the arithmetic back end (z3, linear integer arithmetic)."""
import time
import z3
from .vals import *

_z3c = {}
def z3sym(s):
    v = _z3c.get(s)
    if v is None:
        v = _z3c[s] = z3.Int(s)
    return v
_z3lin = {}
def z3lin(l):
    if type(l) is not Lin:
        return z3.IntVal(l)
    r = _z3lin.get(l.key)
    if r is None:
        parts = [z3sym(s) if v == 1 else z3.IntVal(v) * z3sym(s) for s, v in l.key[0]]
        if l.c: parts.append(z3.IntVal(l.c))
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        _z3lin[l.key] = r
    return r
def z3be(b):
    if b is True or b is False: return z3.BoolVal(b)
    k = b[0]
    if k == "ge": return z3lin(b[1]) >= 0
    if k == "eq": return z3lin(b[1]) == 0
    if k == "ne": return z3lin(b[1]) != 0
    if k == "and": return z3.And([z3be(x) for x in b[1]])
    if k == "or": return z3.Or([z3be(x) for x in b[1]])
    if k == "op": return z3.Bool("op!" + b[1])
    if k == "nop": return z3.Not(z3.Bool("op!" + b[1]))
    raise Unsupported(k)

class Stats:
    def __init__(s):
        s.z3_queries = s.z3_time = s.unknown = 0
        s.by = {}
    def add(s, o):
        s.z3_queries += o.z3_queries; s.z3_time += o.z3_time; s.unknown += o.unknown
        for k, v in o.by.items():
            a = s.by.setdefault(k, [0, 0])
            a[0] += v[0]; a[1] += v[1]
STATS = Stats()
USED = [0]                    # counts every use of a path condition (a result that used none depends on its inputs alone)
TIMEOUT = 20000

class PC:
    __slots__ = ("cons", "bnd", "sv", "nsv", "infeasible")
    def __init__(s):
        s.cons, s.bnd, s.sv, s.nsv, s.infeasible = [], {}, None, 0, False
    def fork(s):
        n = PC()
        n.cons = list(s.cons)
        n.bnd = {k: list(v) for k, v in s.bnd.items()}
        n.infeasible = s.infeasible
        return n
    # ---- facts
    def assume(s, be):
        if be is True: return
        USED[0] += 1
        if be is False:
            s.infeasible = True; s.cons.append(False); return
        if be[0] == "and":
            for x in be[1]: s.assume(x)
            return
        s.cons.append(be)
        if be[0] == "ge": s._learn(be[1])
        elif be[0] == "eq":
            s._learn(be[1]); s._learn(lmul(be[1], -1))
    def _learn(s, l):
        """l >= 0"""
        f = tuple(sorted(l.t.items()))
        nf = tuple((k, -v) for k, v in f)
        b = s.bnd.get(f)
        if b is None: b = s.bnd[f] = [None, None]
        if b[0] is None or -l.c > b[0]: b[0] = -l.c
        b = s.bnd.get(nf)
        if b is None: b = s.bnd[nf] = [None, None]
        if b[1] is None or l.c < b[1]: b[1] = l.c
    def _iv(s, l):
        """cheap lower bound of a Lin (or None)"""
        r = l.c
        for k, v in l.t.items():
            b = s.bnd.get(((k, 1),))
            if b is None: return None
            x = b[0] if v > 0 else b[1]
            if x is None: return None
            r += v * x
        return r
    def _solver(s):
        if s.sv is None:
            s.sv = z3.SimpleSolver()
            s.sv.set("timeout", TIMEOUT)
            s.nsv = 0
        while s.nsv < len(s.cons):
            s.sv.add(z3be(s.cons[s.nsv])); s.nsv += 1
        return s.sv
    def _check(s, e):
        sv = s._solver()
        t = time.time()
        sv.push()
        sv.add(e)
        r = sv.check()
        sv.pop()
        STATS.z3_queries += 1
        STATS.z3_time += time.time() - t
        if r == z3.unknown: STATS.unknown += 1
        return r
    def quick(s, be):
        """True if be follows by cheap reasoning, else None"""
        if be is True: return True
        if be is False: return None
        if be[0] == "ge":
            l = be[1]
            f = tuple(sorted(l.t.items()))
            b = s.bnd.get(f)
            if b is not None and b[0] is not None and b[0] >= -l.c: return True
            x = s._iv(l)
            if x is not None and x >= 0: return True
        elif be[0] == "and":
            if all(s.quick(x) for x in be[1]): return True
        return None
    def prove(s, be):
        """True: entailed; False: not entailed (or unknown)"""
        USED[0] += 1
        if be is True or s.infeasible: return True
        if s.quick(be): return True
        if be is False:
            return s._check(z3.BoolVal(True)) == z3.unsat
        if be[0] == "and":
            return all(s.prove(x) for x in be[1])
        # cheap refutation: the negation is known
        if be[0] == "ge" and s.quick(b_not(be)):
            return False
        r = s._check(z3be(b_not(be)))
        if r == z3.unsat:
            if be[0] == "ge": s._learn(be[1])
            elif be[0] == "eq":
                s._learn(be[1]); s._learn(lmul(be[1], -1))
            return True
        return False
    def feasible(s, be=True):
        USED[0] += 1
        if be is False or s.infeasible: return False
        if be is not True and s.quick(b_not(be)): return False
        return s._check(z3be(be)) != z3.unsat
    def model(s, be=True, small=()):
        """a model of the path condition and be, as {symbol: int}; tries to keep the given symbols small"""
        USED[0] += 1
        sv = s._solver()
        for bound in (16, 64, 300, 3000, 20000, None):
            sv.push()
            sv.add(z3be(be))
            if bound is not None:
                for v in small: sv.add(z3sym(v) <= bound)
            r = sv.check()
            m = None
            if r == z3.sat:
                mm = sv.model()
                m = {str(d): mm[d].as_long() for d in mm.decls() if z3.is_int_value(mm[d])}
            sv.pop()
            if m is not None: return m
        return None
