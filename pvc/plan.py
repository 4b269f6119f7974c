"""What each property needs from the verifier: which units, and which lemmas over their contracts."""
import math
from fractions import Fraction
from . import lemmas, freq
from .lemmas import Tmpl, fir_kernel, fir_amp, iir_structure, iir_polys, iir_dc_delay, contraction, bisimilar, lin
from .units import configs, cname, UP, DOWN, IIR, FIR
from .vals import linear

NS = {1: 0, 2: 1, 4: 2, 8: 3}
D = {8: 48, 12: 72, 16: 96, 20: 120, 24: 144}

# ------------------------------------------------------------------ helpers
def steps(s, c):
    """templates of the steps of a configuration, or None"""
    out = []
    for k in s.keys.get(c, ()):
        r = s.step.get(k)
        if r is None or not r.get("G"): return None
        t = s.__dict__.setdefault("tmpl", {})
        kk = (k, c[0] == UP)
        if kk not in t: t[kk] = Tmpl(r, c[0] == UP)
        out.append(t[kk])
    return out if len(out) == NS[c[1]] else None
def low(ts, c):
    """the step at the low rate"""
    return ts[0] if c[0] == UP else ts[-1]
def query(s, c, what):
    a = s.api.get(c, {}).get("queries")
    return None if a is None else a.get(what)
def need(s, c, name):
    ts = steps(s, c)
    if ts is None: s.lemma("%s: %s" % (name, cname(c)), None, "steps of %s not available" % cname(c), [c])
    return ts

# ------------------------------------------------------------------ lemmas
def fir_factor2(s):
    """C02, C03: the kernel of a factor-2 FIR step"""
    kern = {}
    for c in s.cfgs:
        ts = need(s, c, "kernel")
        if ts is None: continue
        n = cname(c)
        k = fir_kernel(ts[0])
        if type(k) is str: s.lemma("kernel of " + n, None if "not" in k else False, k, [c], credible=False); continue
        kern[c] = k
        order = query(s, c, "order")
        taps = k["taps"]
        s.lemma("taps of " + n, len(taps) == order if order is not None else None, "%d taps but order() is %s" % (len(taps), order), [c])
        s.lemma("symmetry of " + n, taps == taps[::-1], "kernel not symmetric", [c])
        dc = sum(taps)
        tol = Fraction(10 ** (-(D[c[2]] - 1) / 20)) if c[2] in D else Fraction(1, 10**6)
        if c[0] == UP:
            s.lemma("centre of " + n, k["centre"] == len(taps) // 2 - 1, "odd output samples are delayed by %d" % k["centre"], [c])
            s.lemma("DC gain of " + n, abs((dc + 1) / 2 - 1) <= tol, "DC gain %g" % float((dc + 1) / 2), [c])
        else:
            s.lemma("centre of " + n, k["centre"] == len(taps) - 1, "odd sample at lag %d for %d taps" % (k["centre"], len(taps)), [c])
            s.lemma("centre weight of " + n, k["cval"] == Fraction(1, 2), "weight %g" % float(k["cval"]), [c])
            s.lemma("DC gain of " + n, abs(dc + k["cval"] - 1) <= tol, "DC gain %g" % float(dc + k["cval"]), [c])
        s.lemma("rounding depth of " + n, k["depth"] <= 2 * len(taps) + 16, "%d roundings" % k["depth"], [c], credible=False)
    for c, k in kern.items():
        if c[3] == 0 and c[:3] + (1,) + c[4:] in kern:
            k2 = kern[c[:3] + (1,) + c[4:]]
            s.lemma("same kernel with SSE: " + cname(c), k["taps"] == k2["taps"] and k["centre"] == k2["centre"], "kernels differ", [c, c[:3] + (1,) + c[4:]])

def iir_factor2(s):
    s.coefs = {}
    for c in s.cfgs:
        ts = need(s, c, "structure")
        if ts is None: continue
        n = cname(c)
        order = query(s, c, "order")
        co, err = iir_structure(ts[0], order)
        if co is None: s.lemma("structure of " + n, None if "linear" in err else False, err, [c], credible=False); continue
        s.lemma("structure of " + n, err is None, err, [c], credible=False)
        s.lemma("coefficients of " + n, all(0 < a < 1 for a in co) and len(set(co)) == len(co), "coefficients %s" % [float(a) for a in co], [c])
        if err is None: s.coefs.setdefault(c[2], co)
        if c[2] in s.coefs: s.lemma("one set of coefficients per precision: " + n, s.coefs[c[2]] == co, "up and down use different coefficients", [c], credible=False)

def sse_plain(s):
    done = {}
    for c in s.cfgs:
        if c[3]: continue
        d = c[:3] + (1,) + c[4:]
        n = cname(c)[:-6]
        a, b = s.keys.get(c), s.keys.get(d)
        if a is None or b is None: s.lemma("SSE and plain: " + n, None, "not examined", [c, d]); continue
        if len(a) != len(b): s.lemma("SSE and plain: " + n, False, "%d and %d steps" % (len(a), len(b)), [c, d], credible=False); continue
        for w in ("order", "delay"):
            p, q = query(s, c, w), query(s, d, w)
            s.lemma("%s() with SSE: %s" % (w, n), None if p is None or q is None else p == q, "%s() is %s plain, %s with SSE" % (w, p, q), [c, d])
        ta, tb = steps(s, c), steps(s, d)
        if ta is None or tb is None: s.lemma("SSE and plain: " + n, None, "not examined", [c, d]); continue
        for i, (ka, kb) in enumerate(zip(a, b)):
            if (ka, kb) not in done:
                p, q = ta[i], tb[i]
                done[ka, kb] = lemmas.same_step(p, q)
            ok, t = done[ka, kb]
            s.lemma("SSE and plain, step %d: %s" % (i + 1, n), ok, t, [c, d], credible=False)

def delays(s):
    for c in s.cfgs:
        n = cname(c)
        v = query(s, c, "delay")
        if v is None: s.lemma("delay of " + n, None, "delay() not evaluated", [c]); continue
        v = Fraction(v)
        s.lemma("delay >= 0: " + n, v >= 0, "delay() is %g" % float(v), [c])
        if c[1] == 1: s.lemma("delay of " + n, v == 0, "delay() is %g" % float(v), [c]); continue
        ts = need(s, c, "delay")
        if ts is None: continue
        d = Fraction(0)
        bad = None
        for i, t in enumerate(ts):
            if c[4] == FIR:
                k = fir_kernel(t)
                a = fir_amp(k, t.up) if type(k) is dict else None
                if a is None: bad = "step %d has no centre of symmetry" % (i + 1); break
                x = Fraction(a[1])
            else:
                co, err = iir_structure(t, None)
                if err: bad = err; break
                x = iir_dc_delay(co)
                if not t.up: x = x - 1
            # on the time axis of the output
            d += x * 2 ** (len(ts) - 1 - i) if c[0] == UP else x / 2 ** (len(ts) - i)
        if bad: s.lemma("delay of " + n, None, bad, [c]); continue
        if c[4] == FIR:
            s.lemma("delay of " + n, d == v, "delay() is %g, the centre of the impulse response lies at %g" % (float(v), float(d)), [c])
            if c[1] == 2: s.lemma("granularity of delay: " + n, (v * (1 if c[0] == UP else 2)).denominator == 1, "delay() is %g" % float(v), [c])
        else: s.lemma("delay of " + n, abs(d - v) <= Fraction(1, 10), "delay() is %g, the low-frequency group delay %g" % (float(v), float(d)), [c])

def shape(t, rate):
    if t.fir:
        k = fir_kernel(t)
        if type(k) is str: return k
        a = fir_amp(k, t.up)
        if a is None: return "not symmetric"
        g = sum(a[0])
        return freq.FirShape(a[0], rate)
    co, err = iir_structure(t, None)
    if err: return err
    return freq.IirShape(*iir_polys(co), rate)

def quality(s):
    jobs, users = [], {}
    for c in s.cfgs:
        if c[1] == 1 or c[2] not in D: continue
        ts = need(s, c, "quality")
        if ts is None: continue
        if c[0] == DOWN: ts = ts[::-1]
        sh = [shape(t, 44100 * 2 ** (i + 1)) for i, t in enumerate(ts)]
        bad = [x for x in sh if type(x) is str]
        if bad: s.lemma("quality of " + cname(c), None, bad[0], [c]); continue
        key = (tuple(tuple(x.A) if type(x) is freq.FirShape else (tuple(x.P), tuple(x.Q)) for x in sh), c[2])
        if key not in users: jobs.append((key, "quality", (sh, D[c[2]])))
        users.setdefault(key, []).append(c)
    got = s.pool(jobs, "frequency bounds")
    for key, cs in users.items():
        q = got.get(key)
        if q is None: s.lemma("quality of " + cname(cs[0]), None, "not decided", cs); continue
        for ok, text, f in q:
            for c in cs: s.lemma("%s: %s" % (cname(c), text), ok, "%s (at %s Hz)" % (text, f), [c], freq=f)

def forgets(s):
    for c in s.cfgs:
        if c[1] == 1: continue
        ts = need(s, c, "stability")
        if ts is None: continue
        for i, t in enumerate(ts):
            n = "step %d of %s" % (i + 1, cname(c))
            if c[4] == FIR:
                if t.F or any(g is None for g in t.G): s.lemma("no recursion: " + n, False, "the output depends on more than recent input", [c], credible=False); continue
                ls = [lin(g) for g in t.G]
                if any(l is None for l in ls): s.lemma("linear: " + n, None, "not a linear function of the input", [c]); continue
                s.lemma("silence in, silence out: " + n, all(l[1] == 0 for l in ls), "constant offset", [c])
                lag = max([-cc for l in ls for (_, cc) in l[0]] or [0])
                lag = lag if t.up else -(-lag // 2)
                if t is low(ts, c):
                    o = query(s, c, "order")
                    s.lemma("finite memory: " + n, None if o is None else lag < o, "input %s frames back is still used" % lag, [c])
                else: s.lemma("finite memory: " + n, True)
            else:
                rho, err = contraction(t)
                if rho is None: s.lemma("contraction: " + n, None if "linear" in err else False, err, [c], credible=False); continue
                s.lemma("contraction: " + n, rho < 1, "the memories grow by %g per frame" % float(rho), [c], credible=False)

def orders(s):
    for c in s.cfgs:
        n = cname(c)
        o = query(s, c, "order")
        if o is None: s.lemma("order of " + n, None, "order() not evaluated", [c]); continue
        if c[1] == 1: s.lemma("order of " + n, o == 0, "order() is %s" % o, [c]); continue
        ts = need(s, c, "order")
        if ts is None: continue
        t = low(ts, c)
        if c[4] == FIR:
            k = fir_kernel(t)
            v = len(k["taps"]) if type(k) is dict else None
        else:
            co, err = iir_structure(t, None)
            v = len(co) if co is not None and not err else None
        s.lemma("order of " + n, None if v is None else o == v, "order() is %s, the low-rate step has %s coefficients" % (o, v), [c])

def kinds(s):
    """C17: the steps created are what was asked for"""
    jobs, users = [], {}
    for c in s.cfgs:
        if c[1] == 1: continue
        ts = need(s, c, "kind")
        if ts is None: continue
        n = cname(c)
        s.lemma("kind of " + n, all(t.fir == (c[4] == FIR) for t in ts), "filters of another kind", [c], credible=False)
        if c[2] in D:
            t = low(ts, c)
            sh = shape(t, 88200)
            if type(sh) is str: s.lemma("precision of " + n, None, sh, [c]); continue
            key = (tuple(sh.A) if type(sh) is freq.FirShape else (tuple(sh.P), tuple(sh.Q)), c[2])
            if key not in users: jobs.append((key, "quality", ([sh], D[c[2]])))
            users.setdefault(key, []).append(c)
    got = s.pool(jobs, "frequency bounds")
    for key, cs in users.items():
        q = got.get(key)
        for c in cs: s.lemma("precision of " + cname(c), None if q is None else all(x[0] for x in q), "" if q is None else str([x[1] for x in q if not x[0]]), [c], credible=False)
    # a higher precision costs more
    by = {}
    for c in s.cfgs:
        ts = steps(s, c)
        if c[1] == 1 or ts is None: continue
        t = low(ts, c)
        if c[4] == FIR:
            k = fir_kernel(t)
            v = len(k["taps"]) if type(k) is dict else None
        else:
            co, err = iir_structure(t, None)
            v = len(co) if co is not None and not err else None
        if v is not None: by.setdefault((c[0], c[1], c[3], c[4]), []).append((c[2], v, c))
    for g, l in by.items():
        l.sort()
        for (p, v, c), (q, w, d) in zip(l, l[1:]): s.lemma("precision of %s and %s" % (cname(c), cname(d)), v < w, "%d and %d coefficients" % (v, w), [c, d], credible=False)

def effects(allowed, what):
    def f(s):
        for r in s.units:
            es = [e for e in (r.get("effects") or ()) if e[0] in what]
            for e in es: s.lead(r.name, "effects", "%s: %s" % tuple(e), s.where(r), credible=e[0] != "alloca-var")
            s.lemmas.append(("effects of " + r.name, not es))
    return f
REALTIME = ("alloc", "free", "io", "extern", "alloca-var")
GLOBALS = ("global-read", "global-write", "io", "extern")

def stack(s):
    """C18: no dynamically sized stack objects, so the stack use found on the paths of a unit holds for every block"""
    m = max([r.get("stack") or 0 for r in s.units] or [0])
    s.notes.append("largest stack use of a call: %d bytes" % m)
    s.lemma("stack use", m <= 1 << 16, "%d bytes of stack" % m, (), credible=False)

ALL = lambda c: True
API = ("construct", "queries", "reset", "destroy")
def R2(f, m=None): return lambda c: c[1] == 2 and c[4] == f and (m is None or c[0] == m)

PLANS = {
 "C01": dict(cfgs=ALL, steps="prove", cascade=True, native=["plain"]),
 "C02": dict(cfgs=R2(FIR, UP), steps="prove", cascade=True, api=["queries"], lemmas=[fir_factor2], native=["plain"]),
 "C03": dict(cfgs=R2(FIR, DOWN), steps="prove", cascade=True, api=["queries"], lemmas=[fir_factor2], native=["plain"]),
 "C04": dict(cfgs=R2(IIR), steps="prove", cascade=True, api=["queries"], lemmas=[iir_factor2], native=["plain"]),
 "C05": dict(cfgs=ALL, nosse=True, steps="prove", cascade=True, api=["queries"], lemmas=[sse_plain], native=["plain"]),
 "C06": dict(cfgs=ALL, steps="prove", cascade=True, api=API, extra=["precision", "aa"], native=["asan", "msan"],
    kinds=("bounds", "overflow", "alignment", "uninitialised", "precondition")),
 "C07": dict(cfgs=ALL, steps="prove", cascade=True, api=API, extra=["precision"], lemmas=[effects((), GLOBALS)], native=["plain", "tsan"]),
 "C08": dict(cfgs=ALL, steps="prove", cascade=True, api=["queries", "reset"], native=["plain"]),
 "C09": dict(cfgs=ALL, steps=None, cascade=True, native=["plain"], kinds=("composition", "precondition", "postcondition")),
 "C10": dict(cfgs=ALL, steps="prove", cascade=True, api=["queries"], lemmas=[delays], native=["plain"]),
 "C11": dict(cfgs=lambda c: c[4] == FIR and c[2] in D and c[1] > 1, steps="prove", cascade=True, lemmas=[quality], native=["plain"]),
 "C12": dict(cfgs=lambda c: c[4] == IIR and c[2] in D and c[1] > 1, steps="prove", cascade=True, lemmas=[quality], native=["plain"]),
 "C13": dict(cfgs=ALL, steps="prove", cascade=True, api=["queries"], lemmas=[forgets], native=["plain"]),
 "C14": dict(extra=["precision"], native=["plain"], split=False),
 "C15": dict(extra=["aa"], native=["asan", "plain"], split=False),
 "C16": dict(cfgs=ALL, nosse=True, steps="infer", cascade=False, api=["queries", "reset"], lemmas=[orders], native=["plain"]),
 "C17": dict(cfgs=ALL, nosse=True, steps="infer", cascade=False, api=["construct", "destroy"], lemmas=[kinds], native=["plain", "asan"]),
 "C18": dict(cfgs=ALL, steps="prove", cascade=True, api=["queries", "reset"], extra=["precision"], lemmas=[effects((), REALTIME), stack], native=["plain"]),
}
