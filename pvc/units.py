"""What is verified: the factor-2 steps of every supported configuration (found by running the constructor and tracing
process_block), the composition of the steps, and the small API functions."""
import time, traceback
from .vals import *
from .ex import *
from .ex import Rng, Content, Limit, State, Killed
from . import ir, ex, stage
from .loops import LoopMgr, SummaryFailed
from .stage import Step, reach, content_key, pin
from .logic import STATS, Stats

UP, DOWN, IIR, FIR = 0, 1, 0, 1
FIRP, IIRP = (1, 8, 12, 16, 20, 24), (8, 12, 16, 20, 24)
RATIOS = (1, 2, 4, 8)

def configs(filt=None, modes=(UP, DOWN), ratios=RATIOS, sses=(0, 1)):
    for f in ((FIR, IIR) if filt is None else (filt,)):
        for mode in modes:
            for ratio in ratios:
                for prec in (FIRP if f == FIR or ratio == 1 else IIRP):
                    for sse in sses: yield (mode, ratio, prec, sse, f)
def cname(c):
    return "%s ratio %d %s-bit %s %s" % (("up", "down")[c[0]], c[1], c[2], ("FIR" if c[4] else "IIR"), "SSE" if c[3] else "plain")

def make(mod, c):
    """construct: -> (executor, state, object)"""
    x = Ex(mod)
    rs = x.call(State(), "pv_new", list(c))
    if len(rs) != 1 or x.fails: raise Unsupported("constructor of %s: %d paths, %r" % (cname(c), len(rs), x.fails[:1]))
    st = rs[0]
    st.frames = []
    return x, st, st.ret

class StageRef:
    __slots__ = ("fn", "this", "regs", "up", "cfg", "idx")

def stages(x, st, P, c):
    """the steps process_block uses, in the order of their first use"""
    mode, ratio = c[0], c[1]
    out, seen = [], set()
    def rec(s, name, vals):
        if len(vals) != 4 or type(vals[1]) is not Ptr or type(vals[0]) is not Ptr or type(vals[3]) is not Ptr: return
        if any(f.fn.name in seen for f in s.frames): return
        k = (name, vals[0])
        if k in [(r.fn, r.this) for r in out]: return
        seen.add(name)
        r = StageRef()
        r.fn, r.this = name, vals[0]
        out.append(r)
    x.on_indirect = rec
    n = 16 if mode == DOWN else 4
    s = st.clone()
    i = x.region(s, 4 * n, "in", [Rng(0, 4 * n, 4, "n", atom("X", sym(J)))], 16, 0, True)
    o = x.region(s, 4 * n * 8, "out", [{}], 16, 0)
    x.call(s, "pv_process", [P, i, n, o])
    x.on_indirect = None
    for k, r in enumerate(out):
        r.regs = reach(x, st, r.this)
        r.up, r.cfg, r.idx = mode == UP, c, k
    return out

def stage_key(x, st, r, c):
    return (r.fn, c[0], r.this.o, c[3] if c[4] == FIR else 2, content_key(x, st, r.regs))

def run_limits(x, secs):
    x.deadline = time.time() + secs

# ------------------------------------------------------------ results
class Result(dict):
    """outcome of one verification unit (picklable)"""
    __getattr__ = dict.get

def collect(x, r, t0, st0):
    r["obl"] = {k: list(v) for k, v in x.obl.items()}
    if x.nfast:                       # accesses at known addresses, checked directly
        b = r["obl"].setdefault("bounds", [0, 0])
        b[0] += x.nfast; b[1] += x.nfast
    r["fails"] = [dict(kind=f.kind, msg=f.msg, where=f.where, model=f.model, loose=bool(f.loose)) for f in x.fails[:20]]
    r["instr"] = x.ninstr
    r["time"] = time.time() - t0
    r["queries"], r["ztime"], r["zunknown"] = STATS.z3_queries - st0[0], STATS.z3_time - st0[1], STATS.unknown - st0[2]
    r["funcs"] = {short(k): v for k, v in x.funcs_used.items()}
    r["effects"] = sorted(x.effects)
    r["stack"] = x.stackbytes
    if x.fails: r["status"] = "failed"
    return r

def guarded(name, f, x=None):
    """run a unit; anything outside the verifier's reach becomes status 'unsupported'"""
    t0, s0 = time.time(), (STATS.z3_queries, STATS.z3_time, STATS.unknown)
    r = Result(name=name, status="proved", reason="")
    box = []
    try:
        f(r, box)
    except (Unsupported, Limit, RecursionError, MemoryError) as e:
        r["status"], r["reason"] = "unsupported", "%s: %s" % (type(e).__name__, e)
    except Fork as e:
        r["status"], r["reason"] = "unsupported", "undecided case distinction"
    except Killed:
        r["status"], r["reason"] = "unsupported", "no continuation"
    except Exception as e:
        r["status"], r["reason"] = "unsupported", "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " " + traceback.format_exc().splitlines()[-3].strip()
    if box: collect(box[0], r, t0, s0)
    r["time"] = time.time() - t0
    if r["status"] == "proved" and box:
        g = sum(v[0] for v in r["obl"].values())
        if not g: r["status"], r["reason"] = "unsupported", "no obligations were generated"
    return r

# ------------------------------------------------------------ a step
def step_of(mod, c, idx):
    x, st, P = make(mod, c)
    ref = stages(x, st, P, c)[idx]
    def call(s, i, n, o): return x.call(s, ref.fn, [ref.this, i, n, o])
    s = Step(x, st, ref.this, call, c[0] == UP, c[4] == FIR and c[3] == 1, "step %d of %s" % (idx + 1, cname(c)))
    return x, st, P, ref, s

def stage_unit(mod, c, idx, prove=True, secs=400, lo=0, hi=None):
    def f(r, box):
        x, st, P, ref, s = step_of(mod, c, idx)
        box.append(x)
        x.deadline = time.time() + secs
        r["fn"] = short(ref.fn)
        s.infer()
        th = s.th
        x.fails.clear(); x.obl.clear(); x.effects.clear(); x.funcs_used.clear(); x.stackbytes = 0
        r["fir"] = th.fir
        r["G"] = ser(th.G)
        r["F"] = ser([th.F[j] for j in sorted(th.F)])
        r["s0"] = ser([th.s0[j] for j in sorted(th.s0)])
        r["scells"] = [(s.regs.index(rid), o, cls) for rid in th.state for o, cls in sorted(th.state[rid].items())]
        r["order"] = const_of(x, st, P, c, ref, "order")
        if not prove: return
        s.prove(lo, hi)
        r["paths"], r["loops"] = s.paths, [l[:300] for l in s.loops[:40]]
        r["nlin"], r["depth"] = th.nlin, th.maxdepth
    return guarded("step %d of %s" % (idx + 1, cname(c)), f)

def const_of(x, st, P, c, ref, what): return None

def ser(ns):
    """DAGs -> picklable list"""
    tab, idx = [], {}
    def go(n):
        st = [n]
        while st:
            y = st[-1]
            if y.id in idx: st.pop(); continue
            todo = [z for z in y.a if type(z) is N and z.id not in idx] if y.op not in ("c", "x") else []
            if todo: st.extend(todo); continue
            if y.op == "c": e = ("c", y.a[0], y.ty)
            elif y.op == "x":
                i = y.a[1]
                e = ("x", y.a[0], (dict(i.t), i.c) if type(i) is Lin else i, y.ty)
            else: e = (y.op, tuple(idx[z.id] for z in y.a), y.ty)
            idx[y.id] = len(tab); tab.append(e); st.pop()
        return idx[n.id]
    roots = [go(n) if type(n) is N else None for n in ns]
    return tab, roots
def deser(p):
    tab, roots = p
    ns = []
    for e in tab:
        if e[0] == "c": ns.append(fconst(e[1], e[2]))
        elif e[0] == "x":
            i = e[2]
            ns.append(atom(e[1], mk(dict(i[0]), i[1]) if type(i) is tuple else i, e[3]))
        elif len(e[1]) == 2: ns.append(fop(e[0], ns[e[1][0]], ns[e[1][1]]))
        else: ns.append(fun(e[0], ns[e[1][0]], e[2]))
    return [ns[i] if i is not None else None for i in roots]

# ------------------------------------------------------------ the composition of the steps
def same_content(x, a, b, regs):
    return content_key(x, a, regs) == content_key(x, b, regs)

def cascade_unit(mod, c, secs=300):
    def f(r, box):
        mode, ratio = c[0], c[1]
        x, st, P = make(mod, c)
        box.append(x)
        refs = stages(x, st, P, c)
        allregs = reach(x, st, P)
        x.fails.clear(); x.obl.clear(); x.effects.clear(); x.funcs_used.clear(); x.stackbytes = 0
        x.deadline = time.time() + secs
        ns = {1: 0, 2: 1, 4: 2, 8: 3}[ratio]
        if len(refs) != ns: raise Unsupported("%s: %d steps found instead of %d" % (cname(c), len(refs), ns))
        r["steps"] = [short(q.fn) for q in refs]
        up = mode == UP
        kx, ky = (1, 2) if up else (2, 1)
        # each step owns its state
        own = {}
        for k, q in enumerate(refs):
            for g in q.regs:
                if g in own: x.fail(st, "isolation", "steps %d and %d share %s" % (own[g] + 1, k + 1, rname(x.regions[g])), False)
                own[g] = k
            x.ok("isolation")
        if P.r in own: x.fail(st, "isolation", "a step refers back to the resampler object", None, True)
        mult = [1 << k if up else ratio >> (k + 1) for k in range(ns)]
        S = st.clone()
        S.written = set()
        S.pc.assume(b_ge(sym("c"), 0)); S.pc.assume(b_le(sym("c"), 1 << 60))
        m = sym("m")
        n = m if up else lmul(m, ratio)
        S.pc.assume(b_ge(m, 0)); S.pc.assume(b_le(n, (1 << 32) - 1))
        x.smallsyms = ("m",)
        xin = 1 if up or ns == 0 else ratio       # input samples per unit of c
        nout = lmul(m, ratio) if up else m
        if ratio == 1: nout = n = m
        i = x.region(S, lmul(n, 4), "in", [Rng(0, lmul(n, 4), 4, "n", atom("X", ladd(sym(J), lmul(sym("c"), xin))))], 4, None, True)
        o = x.region(S, lmul(nout, 4), "out", [], 4, None)
        for k in range(ns): S.ghost[("ctr", k)] = lmul(sym("c"), mult[k])
        byf = {}
        for k, q in enumerate(refs): byf.setdefault(q.fn, []).append((k, q))
        def hook(x, s, fr, ins, name, vals):
            hit = byf.get(name)
            if hit is None: return None
            for k, q in hit:
                if type(vals[0]) is Ptr and vals[0] == q.this: break
            else:
                x.fail(s, "composition", "a step is called with an unknown object", None, True)
                raise Killed()
            pi, n, po = vals[1], vals[2], vals[3]
            n = x.uval(s, n, 32)
            if kx == 2:
                f = ldivx(n, 2)
                if f is None:
                    x.oblige(s, "precondition", b_eq(x.modk(s, n, 2), 0), lambda: "step %d is given an odd number of samples" % (k + 1))
                    f = x.divk(s, n, 2)
            else: f = n
            if type(f) is not int and s.pc.feasible(b_eq(f, 0)):
                if s.pc.feasible(b_gt(f, 0)): raise Fork([b_eq(f, 0), b_gt(f, 0)])
                f = 0
            if f == 0: return True
            x.ok("precondition")
            fin, fout = lmul(n, 4), lmul(f, 4 * ky)
            x.check_access(s, pi, fin, 4, False)
            x.check_access(s, po, fout, 4, True)
            if pi.r == po.r:
                x.oblige(s, "precondition", b_or([b_le(ladd(pi.o, fin), po.o), b_le(ladd(po.o, fout), pi.o)]), lambda: "step %d works in place" % (k + 1))
            for p in (pi, po):
                if p.r in own or p.r in allregs: x.fail(s, "isolation", "step %d works on the state of the resampler" % (k + 1), False)
            stream = "X" if k == 0 else "Y%d" % (k - 1)
            pos = lmul(s.ghost[("ctr", k)], kx)
            want = atom(stream, ladd(pos, lsub(sym(J), _q4(pi.o))))
            cov = x.find_cover(s, pi.r, pi.o, ladd(pi.o, fin))
            good = cov is not None and cov.kind == "n" and cov.es == 4 and (cov.tm is want or nsubst(cov.tm, s.sub) is nsubst(want, s.sub))
            if not good and cov is not None and cov.kind == "n" and cov.tm.op == "x" and cov.tm.a[0] == stream:
                good = s.pc.prove(b_eq(cov.tm.a[1], want.a[1]))
            if good: x.ok("composition")
            else:
                x.fail(s, "composition", "step %d is fed %s instead of the samples %s[%r..]" % (k + 1, show(cov.tm, 3) if cov is not None and cov.kind == "n" else "something else", "of the input" if k == 0 else "of step %d" % k, pos), None, False)
                if x.fails[-1].model is None: x.fails[-1].model = s.pc.model(True, ("m",))
            s.written.add(po.r)
            x.push(s, po.r, Rng(po.o, ladd(po.o, fout), 4, "n", atom("Y%d" % k, ladd(lmul(s.ghost[("ctr", k)], ky), lsub(sym(J), _q4(po.o))))))
            s.ghost[("ctr", k)] = ladd(s.ghost[("ctr", k)], f)
            return True
        x.hook = hook
        x.loopmgr = LoopMgr(x)
        S0 = S.clone()
        res = x.call(S, "pv_process", [P, i, n, o])
        x.hook = None
        np_ = 0
        for s in res:
            if not s.pc.feasible(): continue
            np_ += 1
            mm = lsubst(m, s.sub)
            if type(mm) is Lin and len(mm.t) == 1:
                v = pin(s, mm)
                if type(v) is int:
                    k = next(iter(mm.t))
                    q = ldivx(v - mm.c, mm.t[k])
                    if q is not None: s.subst({k: q}); mm = v
            # every step has processed exactly its share
            for k in range(ns):
                want = lmul(ladd(sym("c"), mm), mult[k])
                d = b_eq(s.ghost[("ctr", k)], want)
                if s.pc.prove(d): x.ok("postcondition")
                else: x.fail(s, "postcondition", "step %d has processed %r instead of %r frames" % (k + 1, s.ghost[("ctr", k)], want), d)
            name = "X" if ns == 0 else "Y%d" % (ns - 1)
            y0 = lmul(sym("c"), ratio if up else 1)
            if ns == 0: y0 = sym("c")
            check_cover(x, s, o, lmul(mm, 4 * (ratio if up else 1)), name, y0)
            if not same_content(x, S0, s, allregs): x.fail(s, "frame", "the resampler object is modified outside its steps", False)
            else: x.ok("frame")
            for w in s.written:
                if w == o.r: continue
                kd = x.regions[w].kind
                if kd == "stack" or w in allregs: continue
                x.fail(s, "frame", "writes to %s" % rname(x.regions[w]), False)
        if not np_ and not x.fails: raise Unsupported("no path")
        r["paths"], r["loops"] = np_, [l[:300] for l in x.loopmgr.summaries[:40]]
        cover(x, S0, res, r)
    return guarded("composition of " + cname(c), f)

def cover(x, S0, res, r):
    """vacuity guard: block lengths for which a completed path exists"""
    hit = set()
    for s in res:
        mm = lsubst(sym("m"), s.sub)
        for v in (0, 1, 2, 3, 5, 64, 300, 1024, 1025, 5000, 100000):
            if v in hit: continue
            if s.pc.feasible(b_eq(mm, v)): hit.add(v)
    r["cover"] = sorted(hit)
    for v in (0, 1, 2, 3, 5, 64, 300, 1024, 1025, 5000, 100000):
        if v in hit: x.ok("reachability")
        elif S0.pc.feasible(b_eq(sym("m"), v)) and not x.fails:
            raise Unsupported("no completed path for a block of %d" % v)

def _q4(o):
    q = ldivx(o, 4)
    if q is None: raise Unsupported("misplaced sample pointer")
    return q

def check_cover(x, r, o, end, stream, y0):
    """out[0..end) holds stream[y0 + i]"""
    good = []
    for L in r.mem[o.r].layers:
        if type(L) is dict:
            for p, cc in L.items():
                v = cc[1]
                if not (type(v) is N and v.op == "x" and v.a[0] == stream and r.pc.prove(b_eq(v.a[1], ladd(y0, p // 4)))):
                    x.fail(r, "postcondition", "output sample %d is %s" % (p // 4, show(v, 4)), False); return
            good.append(L)
        elif L.kind == "n" and L.es == 4 and L.tm.op == "x" and L.tm.a[0] == stream and r.pc.prove(b_eq(L.tm.a[1], ladd(y0, sym(J)))): good.append(L)
        elif L.kind == "n" and J not in nsyms(L.tm) and L.tm.op == "x" and L.tm.a[0] == stream and r.pc.prove(b_and([b_eq(L.hi, ladd(L.lo, 4)), b_eq(lmul(L.tm.a[1], 4), ladd(lmul(y0, 4), L.lo))])): good.append(L)
        else:
            if r.pc.prove(b_ge(L.lo, L.hi)): continue
            x.fail(r, "postcondition", "output from byte %r to %r is %s" % (L.lo, L.hi, show(L.tm, 4) if L.tm is not None else "unspecified"), b_ge(L.lo, L.hi)); return
    pos, n, used = 0, 0, set()
    while not r.pc.prove(b_ge(pos, end)):
        n += 1
        nxt = None
        for L in good:
            if type(L) is dict:
                if type(pos) is int and pos in L:
                    nxt = pos
                    while nxt in L: nxt += 4
                    break
            elif id(L) not in used and r.pc.prove(b_and([b_le(L.lo, pos), b_ge(L.hi, pos)])):
                nxt = L.hi; used.add(id(L)); break
        if nxt is None or n > 3000:
            x.fail(r, "postcondition", "output from byte %r on is not written" % pos, b_ge(pos, end)); return
        pos = nxt
    x.ok("postcondition")

# ------------------------------------------------------------ the small functions of a resampler
def havoc_state(x, st, refs, scells):
    """every memory that processing may change holds an arbitrary value"""
    s = st.clone()
    s.pc = s.pc.fork()
    s.written = set()
    for k, q in enumerate(refs):
        by = {}
        for ri, o, cls in scells[k]: by.setdefault(q.regs[ri], []).append(o)
        for rid, os in by.items():
            s.mem[rid] = Content([dict(L) if type(L) is dict else L for L in s.mem[rid].layers] + [{o: (4, atom("H%d" % k, o)) for o in os}], s.owner)
    return s

def values(x, st, regs, skip):
    """content of objects as {(region index, offset): value}, without the cells in skip"""
    out = {}
    for n, r in enumerate(regs):
        cells = stage._flat(st, r) if r in st.mem else {}
        for o, c in cells.items():
            if (r, o) in skip: continue
            out[(n, o)] = (c[0], c[1])
    return out

def same_values(a, b):
    if a.keys() != b.keys(): return sorted(set(a) ^ set(b), key=str)[0]
    for k in a:
        p, q = a[k], b[k]
        if p[0] != q[0] or not (stage.same(p[1], q[1]) or type(p[1]) is Undef and type(q[1]) is Undef): return k
    return None

def api_units(mod, c, scells=None):
    """construction, queries, reset and destruction -> {part: Result}"""
    out = {}
    mode, ratio, prec, sse, filt = c
    box0 = []
    def construct(r, box):
        x = Ex(mod)
        box.append(x); box0.append(x)
        rs = x.call(State(), "pv_new", list(c))
        if len(rs) != 1: raise Unsupported("%d paths" % len(rs))
        st = rs[0]; st.frames = []
        box0.append(st)
        for e in sorted(x.effects):
            if e[0] not in ("alloc", "free"): x.fail(st, "effects", "construction: %s at %s" % e, None, True)
        x.ok("effects")
        if not any(True for _ in st.live): x.fail(st, "construction", "no object", None, True)
        allregs = reach(x, st, st.ret)
        for rid in allregs:
            for o, cc in stage._flat(st, rid).items():
                if type(cc[1]) is Undef: x.fail(st, "initialised", "%s+%s is left uninitialised" % (rname(x.regions[rid]), o), None, True)
            x.ok("initialised")
        lost = [l for l in st.live if l not in allregs]
        if lost: x.fail(st, "leak", "an allocation made during construction is lost", False)
        else: x.ok("leak")
        # the same again, and with default arguments
        rs2 = x.call(st.clone(), "pv_new", list(c))
        s2 = rs2[0] if len(rs2) == 1 else None
        if s2 is None or content_key(x, s2, reach(x, s2, s2.ret)) != content_key(x, s2, allregs): x.fail(st, "construction", "a second construction gives a different object", None, True)
        else: x.ok("construction")
        if sse == 1 and filt == FIR:
            rs3 = x.call(st.clone(), "pv_new_default", list(c[:3]))
            if len(rs3) != 1 or content_key(x, rs3[0], reach(x, rs3[0], rs3[0].ret)) != content_key(x, rs3[0], allregs): x.fail(st, "construction", "the default arguments are not (SSE allowed, FIR)", None, True)
            else: x.ok("construction")
        refs = stages(x, st, st.ret, c)
        ns = {1: 0, 2: 1, 4: 2, 8: 3}[ratio]
        if len(refs) == ns: x.ok("construction")
        elif refs or not ns: x.fail(st, "construction", "%d steps instead of %d" % (len(refs), ns), None, True)
        r["steps"] = [short(q.fn) for q in refs]
    out["construct"] = guarded("construction of " + cname(c), construct)
    if len(box0) < 2: return out
    x, st0 = box0
    P = st0.ret
    x.fails.clear()
    refs = stages(x, st0, P, c)
    if scells is None or len(scells) != len(refs): scells = [guess_cells(x, st0, P, c, q) for q in refs]
    skip = {(q.regs[ri], o) for k, q in enumerate(refs) for ri, o, cls in scells[k]}
    scratch = {(q.regs[ri], o) for k, q in enumerate(refs) for ri, o, cls in scells[k] if cls is None}
    allregs = reach(x, st0, P)
    def clean(x):
        x.fails.clear(); x.obl.clear(); x.effects.clear(); x.funcs_used.clear(); x.stackbytes = 0
        x.deadline = time.time() + 120
    def noeffects(x, s, what, allowed=()):
        for e in sorted(x.effects):
            if e[0] not in allowed: x.fail(s, "effects", "%s: %s at %s" % (what, e[0], e[1]), None, True)
        x.ok("effects")
    def queries(r, box):
        clean(x); box.append(x)
        for s in (st0.clone(), havoc_state(x, st0, refs, scells)):
            before = values(x, s, allregs, ())
            for fn in ("pv_order", "pv_delay", "pv_sse_enabled"):
                res = x.call(s.clone(), fn, [P])
                if len(res) != 1: x.fail(s, "query", "%s depends on the history" % fn[3:], None, True); continue
                v = res[0].ret
                if type(v) is N and v.op == "c": v = v.a[0]
                if type(v) not in (int, float): x.fail(s, "query", "%s depends on the history" % fn[3:], None, True); continue
                if r.setdefault(fn[3:], v) != v: x.fail(s, "query", "%s changes after processing" % fn[3:], None, True)
                else: x.ok("query")
                k = same_values(before, values(x, res[0], allregs, ()))
                if k is not None: x.fail(s, "frame", "%s modifies the resampler" % fn[3:], None, True)
                else: x.ok("frame")
        res = x.call(st0.clone(), "pv_sse_available", [])
        r["sse_available"] = res[0].ret
        have = x.call(st0.clone(), "pv_have_sse", [])[0].ret
        if type(res[0].ret) is not int or bool(res[0].ret) != bool(have): x.fail(st0, "query", "sse_available() is %s in a build %s vector code" % (res[0].ret, "with" if have else "without"), None, True)
        else: x.ok("query")
        noeffects(x, st0, "query", ())
        want = 1 if have and sse and ratio > 1 else 0
        if r.get("sse_enabled") is not None and bool(r["sse_enabled"]) != bool(want): x.fail(st0, "query", "sse_enabled() is %s" % bool(r["sse_enabled"]), None, True)
        else: x.ok("query")
        if ratio == 1 and r.get("order") != 0: x.fail(st0, "query", "order() is %s for ratio 1" % r.get("order"), None, True)
        else: x.ok("query")
    out["queries"] = guarded("queries of " + cname(c), queries)
    def reset(r, box):
        clean(x); box.append(x)
        s = havoc_state(x, st0, refs, scells)
        res = x.call(s.clone(), "pv_reset", [P])
        if not res and not x.fails: raise Unsupported("no path")
        for q in res:
            k = same_values(values(x, st0, allregs, scratch), values(x, q, allregs, scratch))
            if k is not None:
                v = values(x, q, allregs, scratch).get(k)
                x.fail(q, "reset", "after reset(), %s+%s is %s" % (rname(x.regions[allregs[k[0]]]), k[1], show(v[1], 2) if v and type(v[1]) is N else v), None, False)
            else: x.ok("reset", max(1, len(skip)))
            for w in q.written:
                if w in allregs or w not in s.mem or x.regions[w].kind == "stack": continue
                x.fail(q, "frame", "reset() writes to %s" % rname(x.regions[w]), None, True)
            x.ok("frame")
        noeffects(x, st0, "reset()", ())
    out["reset"] = guarded("reset of " + cname(c), reset)
    def destroy(r, box):
        clean(x); box.append(x)
        s = havoc_state(x, st0, refs, scells)
        res = x.call(s.clone(), "pv_delete", [P])
        if not res and not x.fails: raise Unsupported("no path")
        for q in res:
            if q.live: x.fail(q, "leak", "%d allocations are not released" % len(q.live), False)
            else: x.ok("leak", max(1, len(st0.live)))
        noeffects(x, st0, "destruction", ("free",))
    out["destroy"] = guarded("destruction of " + cname(c), destroy)
    return out

def guess_cells(x, st, P, c, q):
    """cells a step changes, observed on concrete blocks (used only when the step itself could not be proved)"""
    s = Step(x, st, q.this, lambda a, i, n, o: x.call(a, q.fn, [q.this, i, n, o]), c[0] == UP, c[4] == FIR and c[3] == 1, "step")
    base = {r: stage._flat(st, r) for r in s.regs}
    out = set()
    for sizes in ([150], [1] * 40, [57, 3, 20]):
        s2, _ = s.blocks(st.clone(), sizes)
        if s2 is None: continue
        for r in s.regs:
            for o, cc in stage._flat(s2, r).items():
                b = base[r].get(o)
                if type(o) is int and type(cc[1]) is N and (b is None or not stage.same(b[1], cc[1])): out.add((s.regs.index(r), o, 0))
    return sorted(out)

# ------------------------------------------------------------ precision helpers
PRECS = (1, 8, 12, 16, 20, 24)
DB = {8: 48, 12: 72, 16: 96, 20: 120, 24: 144}
def precision_units(mod):
    def find(r, box):
        x = Ex(mod); box.append(x)
        st = State()
        b = sym("bits")
        st.pc.assume(b_ge(b, 0)); st.pc.assume(b_le(b, (1 << 32) - 1))
        x.smallsyms = ("bits",)
        res = plain_call(x, st, "pv_find", [b])
        # every value of the request must lie on a path
        n = 0
        for s in res:
            if not s.pc.feasible(): continue
            v = s.ret
            bb = lsubst(b, s.sub)
            v = x.uval(s, v, 32) if type(v) is not int else v
            alts = [(b_le(bb, 1), 1)] + [(b_and([b_gt(bb, PRECS[i - 1]), b_le(bb, PRECS[i])]), PRECS[i]) for i in range(1, 6)] + [(b_gt(bb, 24), 24)]
            for cond, p in alts:
                if not s.pc.feasible(cond): continue
                n += 1
                t = s.clone(); t.pc.assume(cond)
                if t.pc.prove(b_eq(v, p)): x.ok("postcondition")
                else: x.fail(t, "postcondition", "returns %r instead of %d" % (v, p), b_eq(v, p))
        for q in (0, 1, 2, 8, 9, 12, 13, 16, 17, 20, 21, 24, 25, 1000, 1 << 31, (1 << 32) - 1):
            if any(s.pc.feasible(b_eq(lsubst(b, s.sub), q)) for s in res): x.ok("reachability")
            elif not x.fails: raise Unsupported("no path for %d" % q)
        for e in sorted(x.effects): x.fail(st, "effects", "%s at %s" % e, None, True)
        x.ok("effects")
        r["paths"] = len(res)
    def name(r, box):
        x = Ex(mod); box.append(x)
        st = State()
        b = sym("value")
        st.pc.assume(b_ge(b, 0)); st.pc.assume(b_le(b, (1 << 32) - 1))
        x.smallsyms = ("value",)
        res = plain_call(x, st, "pv_name", [b])
        texts = {}
        for s in res:
            if not s.pc.feasible(): continue
            bb = lsubst(b, s.sub)
            if type(s.ret) is not Ptr or s.ret.r is None: x.fail(s, "postcondition", "returns no text", False); continue
            if x.regions[s.ret.r].kind not in ("const", "global"): x.fail(s, "postcondition", "the text does not outlive the call", None, True)
            t = cstring(x, s, s.ret)
            hit = [p for p in PRECS if s.pc.feasible(b_eq(bb, p))]
            for p in hit:
                if texts.setdefault(p, t) != t: x.fail(s, "postcondition", "two texts for %d" % p, b_not(b_eq(bb, p)))
            if s.pc.feasible(b_and([b_not(b_eq(bb, p)) for p in PRECS])): texts.setdefault("other", set()).add(t)
        import re
        for p in PRECS:
            t = texts.get(p)
            if not t: x.fail(st, "postcondition", "no text for precision %d" % p, b_not(b_eq(b, p))); continue
            nums = set(re.findall(r"\d+", t))
            if p != 1 and not {str(p), str(DB[p])} <= nums: x.fail(st, "postcondition", "precision %d is called \"%s\"" % (p, t), b_not(b_eq(b, p)))
            elif p == 1 and not "linear" in t.lower(): x.fail(st, "postcondition", "precision 1 is called \"%s\"" % t, b_not(b_eq(b, p)))
            else: x.ok("postcondition")
            if any(texts.get(q) == t for q in PRECS if q != p): x.fail(st, "postcondition", "\"%s\" names two precisions" % t, b_not(b_eq(b, p)))
            elif t in texts.get("other", ()): x.fail(st, "postcondition", "\"%s\" is also used for undeclared values" % t, False)
            else: x.ok("postcondition")
        if "other" not in texts and not x.fails: raise Unsupported("no path for undeclared values")
        for e in sorted(x.effects): x.fail(st, "effects", "%s at %s" % e, None, True)
        x.ok("effects")
        r["paths"], r["texts"] = len(res), {str(k): sorted(v) if type(v) is set else v for k, v in texts.items()}
    return {"find": guarded("find_precision_for_bits", find), "name": guarded("precision_name", name)}

def plain_call(x, st, f, args):
    """execution without loop invariants when every path ends by itself (a search in a constant table), with them otherwise"""
    lim = x.max_instr, x.max_forks
    s0 = st.clone()
    keep = dict(fails=list(x.fails), effects=set(x.effects), obl={k: list(v) for k, v in x.obl.items()})
    x.max_instr, x.max_forks = 20000, 400
    try: return x.call(s0, f, args)
    except (Limit, Unsupported):
        x.__dict__.update(keep)
        x.ninstr = x.nforks = 0
    finally: x.max_instr, x.max_forks = lim
    x.loopmgr = LoopMgr(x)
    try: return x.call(st, f, args)
    finally: x.loopmgr = None

def cstring(x, st, p):
    from .ir import INT
    out, o = [], p.o
    while True:
        v = x.load(st, INT(8), Ptr(p.r, o), 1)
        if type(v) is not int: raise Unsupported("text is not constant")
        if v == 0: return "".join(out)
        out.append(chr(v)); o += 1
        if len(out) > 1000: raise Unsupported("text without end")
