"""Frequency-domain lemmas: exact polynomial inequalities on intervals of x = cos(omega).

A trigonometric polynomial sum r_m cos(m w) becomes a polynomial in x; an inequality on a frequency band becomes
"p(x) >= 0 on [a, b]", decided exactly (integer arithmetic, no rounding) by Bernstein subdivision: all Bernstein
coefficients non-negative on every cell of a partition of the interval is a proof; a negative end point is a witness."""
import math
from fractions import Fraction
import numpy as np

BASE = 44100
PASS = 18000

def cheb_to_power(r):
    """sum r[m] T_m(x) -> power coefficients (Fractions)"""
    n = len(r)
    out = [Fraction(0)] * n
    t0, t1 = [1], [0, 1]
    for m in range(n):
        t = t0
        if r[m]:
            for k, v in enumerate(t):
                if v: out[k] += r[m] * v
        t0, t1 = t1, [(2 * t1[k - 1] if k else 0) - (t0[k] if k < len(t0) else 0) for k in range(len(t1) + 1)]
    while len(out) > 1 and not out[-1]: out.pop()
    return out
def peval(p, x):
    r = 0
    for c in reversed(p): r = r * x + c
    return r
def padd(p, q, s=1):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else 0) + s * (q[i] if i < len(q) else 0) for i in range(n)]
def pmul(p, q):
    out = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q): out[i + j] += a * b
    return out

class Stats:
    cells = 0
    lemmas = 0

def bernstein(p, a, b):
    """integer Bernstein coefficients (scaled by a positive number) of p on [a, b]"""
    n = len(p) - 1
    # q(t) = p(a + (b-a) t), power form
    q = [Fraction(0)] * (n + 1)
    w = b - a
    q = [Fraction(0)]
    for c in reversed(p):
        nq = [Fraction(0)] * (len(q) + 1)
        for i, v in enumerate(q):
            nq[i] += v * a
            nq[i + 1] += v * w
        nq[0] += c
        q = nq
    q = q[:n + 1]
    den = 1
    B = []
    for i in range(n + 1):
        s = Fraction(0)
        for k in range(i + 1): s += Fraction(math.comb(i, k), math.comb(n, k)) * q[k]
        B.append(s)
    for s in B: den = den * s.denominator // math.gcd(den, s.denominator)
    return [int(s * den) for s in B]

def nonneg(p, a, b, limit=20000):
    """(True, None): p >= 0 on [a,b]; (False, x): p(x) < 0; (None, None): not decided"""
    Stats.lemmas += 1
    a, b = Fraction(a), Fraction(b)
    B = bernstein(p, a, b)
    n = len(B) - 1
    work = [(B, a, b)]
    cells = 0
    while work:
        B, a, b = work.pop()
        cells += 1
        Stats.cells += 1
        if B[0] < 0: return False, a
        if B[-1] < 0: return False, b
        if min(B) >= 0: continue
        if cells > limit: return None, None
        # de Casteljau at 1/2, in integers (everything scaled by 2^n)
        L, R = [], []
        c = list(B)
        for k in range(n + 1):
            L.append(c[0] << (n - k)); R.append(c[-1] << (n - k))
            c = [c[i] + c[i + 1] for i in range(len(c) - 1)]
        R.reverse()
        g = 0
        for v in L + R: g = math.gcd(g, v)
        s = (g & -g).bit_length() - 1 if g else 0
        m = (a + b) / 2
        work.append(([v >> s for v in R], m, b))
        work.append(([v >> s for v in L], a, m))
    return True, None

def cos_below(f, rate):
    """rational number slightly below cos(2 pi f / rate)"""
    return Fraction(math.floor((math.cos(2 * math.pi * f / rate) - 1e-13) * 2**48), 2**48)
def freq_of(x, rate):
    return math.acos(max(-1.0, min(1.0, float(x)))) / (2 * math.pi) * rate

def up(v, rel=1e-3, ab=1e-12):
    """rational slightly above v"""
    return Fraction(math.ceil((v * (1 + rel) + ab) * 2**60), 2**60)

class Shape:
    """magnitude description of one factor-2 step at its high rate, DC gain normalised to 1:
    FIR: real amplitude A(x) (linear phase);  IIR: |H|^2 = P(x)/Q(x)"""
    def __init__(s, rate): s.rate = rate
    def gain(s, x): raise NotImplementedError

class FirShape(Shape):
    def __init__(s, amp, rate):
        """amp: cosine coefficients of the zero-phase amplitude"""
        s.rate = rate
        s.A = cheb_to_power(amp)
        s.r = np.array([float(v) for v in amp])
    def num(s, f):
        w = 2 * np.pi * np.asarray(f) / s.rate
        return np.cos(np.outer(w, np.arange(len(s.r)))) @ s.r
    def bound_pass(s, e):
        x0 = cos_below(PASS, s.rate)
        for p in (padd([1 + e], s.A, -1), padd(s.A, [1 - e], -1)):
            ok, x = nonneg(p, x0, 1)
            if not ok: return ok, x
        return True, None
    def bound_stop(s, e):
        x0 = cos_below(PASS, s.rate)
        for p in (padd([e], s.A, -1), padd(s.A, [e])):
            ok, x = nonneg(p, -1, -x0)
            if not ok: return ok, x
        return True, None
    def bound_all(s, e):
        for p in (padd([1 + e], s.A, -1), padd(s.A, [1 + e])):
            ok, x = nonneg(p, -1, 1)
            if not ok: return ok, x
        return True, None

class IirShape(Shape):
    def __init__(s, num, den, rate):
        """num, den: coefficients of polynomials in z^-1 (Fractions)"""
        s.rate = rate
        s.n, s.d = num, den
        s.P, s.Q = cheb_to_power(autocorr(num)), cheb_to_power(autocorr(den))
    def num(s, f):
        z = np.exp(-2j * np.pi * np.asarray(f) / s.rate)
        return np.abs(np.polyval([float(v) for v in reversed(s.n)], z) / np.polyval([float(v) for v in reversed(s.d)], z))
    def _le(s, g, a, b):
        return nonneg(padd([g * g * v for v in s.Q], s.P, -1), a, b)
    def _ge(s, g, a, b):
        return nonneg(padd(s.P, [g * g * v for v in s.Q], -1), a, b)
    def bound_pass(s, e):
        x0 = cos_below(PASS, s.rate)
        ok, x = s._le(1 + e, x0, 1)
        return s._ge(1 - e, x0, 1) if ok else (ok, x)
    def bound_stop(s, e):
        return s._le(e, -1, -cos_below(PASS, s.rate))
    def bound_all(s, e):
        return s._le(1 + e, -1, 1)

def autocorr(c):
    n = len(c)
    r = [Fraction(0)] * n
    for m in range(n):
        v = sum(c[i] * c[i + m] for i in range(n - m))
        r[m] = v if m == 0 else 2 * v
    return r

def quality(shapes, D):
    """all pass/image obligations of a chain of steps (low rate first).  -> list of (ok, text, frequency)"""
    k = len(shapes)
    delta = Fraction(math.floor(10 ** (-(D - 1) / 20) * (1 - 1e-9) * 2**80), 2**80)
    out = []
    ep, es, eg = [], [], []
    f = np.linspace(0, PASS, 4001)
    for i, s in enumerate(shapes):
        e = up(np.max(np.abs(np.abs(s.num(f)) - 1)), 1e-2, 1e-10)
        ok, x = s.bound_pass(e)
        out.append((ok, "step %d: |gain-1| <= %.3g on 0..18 kHz" % (i + 1, e), None if x is None else freq_of(x, s.rate)))
        ep.append(e)
        fs = s.rate / 2 - f
        # the least bound that is still proved: double until it holds
        e = up(np.max(np.abs(s.num(fs))), 1e-2, 1e-12)
        ok, x = s.bound_stop(e)
        out.append((ok, "step %d: gain <= %.3g within 18 kHz of %g Hz" % (i + 1, e, s.rate / 2), None if x is None else freq_of(x, s.rate)))
        es.append(e)
        e = up(max(0.0, np.max(np.abs(s.num(np.linspace(0, s.rate / 2, 8001)))) - 1), 1e-2, 1e-8)
        ok, x = s.bound_all(e)
        out.append((ok, "step %d: gain <= 1+%.3g everywhere" % (i + 1, e), None if x is None else freq_of(x, s.rate)))
        eg.append(e)
    g = Fraction(1)
    lo = Fraction(1)
    for e in ep: g *= 1 + e; lo *= 1 - e
    worst = f[int(np.argmax(np.abs(np.prod([np.abs(s.num(f)) for s in shapes], 0) - 1)))]
    out.append((max(g - 1, 1 - lo) <= k * delta, "passband of the chain within %.3g (allowed %.3g)" % (max(g - 1, 1 - lo), k * delta), float(worst)))
    for j in range(k):
        a = es[j]
        for i in range(j): a *= 1 + ep[i]
        for i in range(j + 1, k): a *= 1 + eg[i]
        fs = shapes[j].rate / 2 - f
        worst = fs[int(np.argmax(np.abs(shapes[j].num(fs))))]
        out.append((a <= delta, "images/aliases around odd multiples of %g Hz: %.2f dB (required %g dB)" % (shapes[j].rate / 2, -20 * math.log10(a), D - 1), float(worst)))
    return out
