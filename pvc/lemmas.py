"""Lemmas over the contracts of the factor-2 steps: what the templates F, G (which the verifier has shown to describe
every call) mean as filters.  Every lemma is decided in exact rational arithmetic on the constants found in the code."""
from fractions import Fraction
from .vals import *
from . import freq
from .stage import T
from .units import deser

LOOSE = "loose"

class Tmpl:
    """the filter realised by a step"""
    def __init__(s, r, up):
        s.up = up
        s.fir = r["fir"]
        s.G, s.F, s.s0 = deser(r["G"]), deser(r["F"]), deser(r["s0"])
        s.name = r["name"]

class Lemma:
    """outcome: ok True (proved), False (refuted), None (not decided)"""
    def __init__(s, name, ok, text="", conf=None, **kw):
        s.name, s.ok, s.text, s.conf = name, ok, text, conf
        s.kw = kw
    def __repr__(s): return "%s: %s %s" % (s.name, {True: "proved", False: "refuted", None: "undecided"}[s.ok], s.text)

def lin(n):
    """{(stream, index relative to T as (coefficient of T, constant)): Fraction}, const, depth"""
    l = linear(n)
    if l is None: return None
    d = {}
    for at, v in l[0].values():
        i = at.a[1]
        c = i.c if type(i) is Lin else i
        d[(at.a[0], c)] = v
    return d, l[1], l[2]

# ------------------------------------------------------------ FIR
def fir_kernel(t):
    """-> dict(taps, centre, ...) or a text saying why the step is not a half-band FIR"""
    if t.F: return "the step has recursive state"
    if any(g is None for g in t.G): return "an output sample is not determined by the input"
    ls = [lin(g) for g in t.G]
    if any(l is None for l in ls): return "an output sample is not a linear function of the input"
    if any(l[1] != 0 for l in ls): return "an output sample has a constant offset"
    if t.up:
        (d0, _, p0), (d1, _, _) = ls
        if t.G[1].op != "x": return "an odd output sample is not a copy of an input sample"
        taps = {-c: v for (s, c), v in d0.items()}
        if any(c < 0 for c in taps): return "uses input from the future"
        centre = -next(iter(d1))[1]
        n = max(taps) + 1
        k = [taps.get(i, Fraction(0)) for i in range(n)]
        return dict(taps=k, centre=centre, cval=Fraction(1), depth=p0, nops=depth_ops(t.G[0]))
    d, _, p = ls[0]
    ev = {-c: v for (s, c), v in d.items() if c % 2 == 0}
    od = {-c: v for (s, c), v in d.items() if c % 2}
    # X[2T - 2k] and X[2T + 1 - 2k']
    if len(od) != 1: return "%d odd-indexed input samples are used instead of one" % len(od)
    c, v = next(iter(od.items()))
    if not ev: return "no even-indexed input sample is used"
    if min(ev) < 0 or c < -1: return "uses input from the future"
    n = max(ev) // 2 + 1
    k = [ev.get(2 * i, Fraction(0)) for i in range(n)]
    return dict(taps=k, centre=c, cval=v, depth=p, nops=depth_ops(t.G[0]))

def fir_amp(k, up):
    """cosine coefficients of the zero-phase amplitude with DC gain 1 (high rate), or None"""
    taps = k["taps"]
    n = len(taps)
    # positions at the high rate, relative to the centre sample
    pos = {}
    if up:
        for i, v in enumerate(taps): pos[2 * i] = v / 2
        c = 2 * k["centre"] + 1
        pos[c] = pos.get(c, 0) + Fraction(1, 2)
    else:
        for i, v in enumerate(taps): pos[2 * i] = v
        c = k["centre"]
        pos[c] = pos.get(c, 0) + k["cval"]
    m = max(abs(p - c) for p in pos)
    amp = [Fraction(0)] * (m + 1)
    for p, v in pos.items():
        if pos.get(2 * c - p) != v: return None
        amp[abs(p - c)] += v
    return amp, c

# ------------------------------------------------------------ IIR
def linmap(t):
    """state-space form of a recursive step: A (list of dicts), B, C, D over the states the output depends on"""
    F = [lin(f) for f in t.F]
    G = [lin(g) if g is not None else None for g in t.G]
    if any(g is None for g in G): return "an output sample is not a linear function of input and memories"
    need, todo = set(), [int(s[1:]) for g in G for (s, c) in g[0] if s[0] == "S"]
    while todo:
        j = todo.pop()
        if j in need: continue
        need.add(j)
        if F[j] is None: return "a memory is not updated linearly"
        todo += [int(s[1:]) for (s, c) in F[j][0] if s[0] == "S"]
    if any(G[r][1] != 0 for r in range(len(G))) or any(F[j][1] != 0 for j in need): return "constant offset in the recursion"
    return F, G, sorted(need)

def coefficients(t, need):
    """constants other than 0, 1/2, 1 multiplied in the parts of the recursion the output depends on"""
    out = set()
    seen = set()
    st = [t.F[j] for j in need] + [g for g in t.G if g is not None]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ("c", "x"): continue
        if x.op == "mul":
            for y in x.a:
                if y.op == "c" and abs(y.a[0]) not in (0.0, 0.5, 1.0, 2.0): out.add(Fraction(y.a[0]))
        st.extend(y for y in x.a if type(y) is N)
    return sorted(out)

def impulse(t, F, G, need, inp, L):
    """exact responses: list over frames of outputs, for a unit impulse at input sample inp of frame 0"""
    S = {j: Fraction(0) for j in need}
    out = []
    for T in range(L):
        def val(l):
            v = Fraction(0)
            for (s, c), w in l[0].items():
                if s[0] == "S": v += w * S[int(s[1:])]
                elif T * (1 if t.up else 2) + c == inp: v += w
            return v
        out.append([val(g) for g in G])
        S = {j: val(F[j]) for j in need}
    return out

def allpass_ref(coef, chain, L):
    """exact impulse response of the cascade of (a + z^-1)/(1 + a z^-1)"""
    x = [Fraction(1)] + [Fraction(0)] * (L - 1)
    for a in coef[chain::2]:
        y, px, py = [], Fraction(0), Fraction(0)
        for v in x:
            w = a * (v - py) + px
            y.append(w)
            px, py = v, w
        x = y
    return x

def iir_structure(t, ncoef):
    """-> (coefficients, error text)"""
    m = linmap(t)
    if type(m) is str: return None, m
    F, G, need = m
    for j in need:
        z = t.s0[j]
        if z is None or z.op != "c" or z.a[0] != 0: return None, "memory %d does not start from zero" % j
    co = coefficients(t, need)
    if ncoef is not None and len(co) != ncoef: return None, "%d distinct coefficients instead of %d" % (len(co), ncoef)
    L = len(need) + len(co) + 3
    ref = [allpass_ref(co, c, L) for c in (0, 1)]
    zero = [Fraction(0)] * L
    if t.up:
        got = impulse(t, F, G, need, 0, L)
        for r in (0, 1):
            if [g[r] for g in got] != ref[r]: return co, "output sample %d of each pair is not allpass chain %d" % (r, r)
    else:
        for inp, c in ((1, 0), (0, 1)):
            got = impulse(t, F, G, need, inp, L)
            if [g[0] for g in got] != [v / 2 for v in ref[c]]: return co, "the response to input sample %d of each pair is not half of allpass chain %d" % (inp, c)
    return co, None

def rounding_depth(t):
    d = 0
    for n in t.G + t.F:
        if n is None: continue
        l = linear(n)
        if l is not None: d = max(d, l[2])
    return d

def iir_polys(co):
    """numerator and denominator (in z^-1 at the high rate) of (A0(z^2) + z^-1 A1(z^2))/2"""
    def mul(p, q): return freq.pmul(p, q)
    nums, dens = [], []
    for c in (0, 1):
        n, d = [Fraction(1)], [Fraction(1)]
        for a in co[c::2]:
            n = mul(n, [a, 0, 1])
            d = mul(d, [1, 0, a])
        nums.append(n); dens.append(d)
    num = freq.padd(mul(nums[0], dens[1]), [0] + mul(nums[1], dens[0]))
    den = [2 * v for v in mul(dens[0], dens[1])]
    return [Fraction(v) for v in num], [Fraction(v) for v in den]

def iir_dc_delay(co):
    """group delay at zero frequency, in samples of the high rate"""
    tau = [sum((2 * (1 - a) / (1 + a) for a in co[c::2]), Fraction(0)) for c in (0, 1)]
    return (tau[0] + tau[1] + 1) / 2

# ------------------------------------------------------------ contraction (C13)
U = Fraction(1, 2**24) * Fraction(1000001, 1000000)
def absform(n, memo):
    """|fl(n)| <= sum w_s |s| + eta-terms, including every float rounding: {stream: Fraction}; eta counts underflows"""
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        if x.op == "c": memo[x.id] = ({}, abs(Fraction(x.a[0]))); st.pop(); continue
        if x.op == "x": memo[x.id] = ({(x.a[0], x.a[1].c if type(x.a[1]) is Lin else x.a[1]): Fraction(1)}, Fraction(0)); st.pop(); continue
        todo = [y for y in x.a if y.id not in memo]
        if todo: st.extend(todo); continue
        ls = [memo[y.id] for y in x.a]
        if any(l is None for l in ls): r = None
        elif x.op in ("add", "sub"):
            d = dict(ls[0][0])
            for k, v in ls[1][0].items(): d[k] = d.get(k, Fraction(0)) + v
            r = ({k: v * (1 + U) for k, v in d.items()}, ls[0][1] + ls[1][1])
        elif x.op == "mul":
            if not ls[0][0]: k, d = ls[0][1], ls[1]
            elif not ls[1][0]: k, d = ls[1][1], ls[0]
            else: k = None
            r = None if k is None else ({i: v * k * (1 + U) for i, v in d[0].items() if k}, d[1] * k)
        elif x.op == "neg": r = ls[0]
        else: r = None
        memo[x.id] = r
        st.pop()
    return memo[n.id]

def contraction(t, tight=True):
    """with silent input the memories the output depends on decay geometrically, including rounding: the matrix of
    absolute weights is triangular (after ordering) with diagonal < 1"""
    m = linmap(t)
    if type(m) is str: return None, m
    F, G, need = m
    memo = {}
    rows = {}
    for j in need:
        a = absform(t.F[j], memo)
        if a is None: return None, "memory %d" % j
        if a[1] != 0: return None, "memory %d has an offset" % j
        rows[j] = {int(s[1:]): v for (s, c), v in a[0].items() if s[0] == "S"}
    rho = Fraction(0)
    left = set(need)
    while left:
        ready = [j for j in left if all(k == j or k not in left for k in rows[j])]
        if not ready: return None, "the memories feed back into each other"
        for j in ready:
            rho = max(rho, rows[j].get(j, Fraction(0)))
            left.discard(j)
    return rho, None

# ------------------------------------------------------------ bisimulation (C05)
def bisimilar(p, q):
    """the outputs of two recursive steps are computed by the same float operations from equal memories"""
    sys = (p, q)
    states = [(0, j) for j in range(len(p.F))] + [(1, j) for j in range(len(q.F))]
    cls = {}
    for w, j in states:
        z = sys[w].s0[j]
        cls[(w, j)] = ("c", z.id) if z is not None else ("?", w, j)
    while True:
        rep = {}
        ids = {}
        for s in states: rep[s] = ids.setdefault(cls[s], len(ids))
        def sub(w, n):
            return nmap(n, lambda a: atom("R%d" % rep[(w, int(a.a[0][1:]))], a.a[1], a.ty) if a.a[0][0] == "S" else None)
        new = {s: (rep[s], sub(s[0], sys[s[0]].F[s[1]]).id) for s in states}
        if len(set(new.values())) == len(ids): break
        cls = new
    for r, (a, b) in enumerate(zip(p.G, q.G)):
        if a is None or b is None or sub(0, a) is not sub(1, b): return False, "output sample %d is computed differently" % r
    return len(p.G) == len(q.G), ""

def same_step(p, q):
    """two steps compute the same: FIR as exact linear forms (rounding order aside), recursive ones operation by operation"""
    if p.fir and q.fir:
        ls = [[lin(g) if g is not None else None for g in t.G] for t in (p, q)]
        if any(l is None for x in ls for l in x): return None, "not a linear function of the input"
        return len(ls[0]) == len(ls[1]) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(*ls)), "the kernels differ"
    return bisimilar(p, q)
