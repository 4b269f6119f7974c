"""AlignedArray: contracts of construction, access and destruction, for an arbitrary number of elements."""
from .vals import *
from .ex import *
from .ex import Rng, Content, State
from . import ir, ex
from .loops import LoopMgr
from .units import guarded

MAXB = 1 << 46                 # largest element storage in bytes (allocation is assumed to succeed)
ES = 24                        # sizeof (PvElem)

def setup(mod, es, box):
    x = Ex(mod)
    box.append(x)
    x.malloc_res = None        # malloc guarantees 16-byte alignment, nothing more
    x.loopmgr = LoopMgr(x)
    x.smallsyms = ("n", "i")
    st = State()
    n = sym("n")
    st.pc.assume(b_ge(n, 0)); st.pc.assume(b_le(lmul(n, es), MAXB))
    return x, st, n

def one(x, rs, what):
    """the states at the end of a call"""
    out = [s for s in rs if s.pc.feasible()]
    if not out and not x.fails: raise Unsupported("no completed path through " + what)
    return out

def call(x, s, fn, args):
    s.frames = []
    return one(x, x.call(s, fn, args), fn)

def storage(x, s, es, n, obj, pre):
    """begin() is 64-byte aligned and [begin, end) are exactly the n elements, inside one owned allocation -> [(state, begin)]"""
    out = []
    for a in call(x, s, pre + "begin", [obj]):
        b = a.ret
        for c in call(x, a, pre + "end", [obj]):
            e = c.ret
            for d in call(x, c, pre + "size", [obj]):
                nn = lsubst(n, d.sub)
                if type(b) is not Ptr or b.r is None or type(e) is not Ptr: x.fail(d, "postcondition", "begin()/end() are no addresses", False); continue
                bo, eo = lsubst(b.o, d.sub), lsubst(e.o, d.sub)
                b = Ptr(b.r, bo)
                size = d.ret if type(d.ret) in (int, Lin) else x.uval(d, d.ret, 64)
                x.oblige(d, "postcondition", b_eq(x.uval(d, lsubst(size, d.sub), 64), nn), "size() is not the number of elements")
                if e.r != b.r: x.fail(d, "postcondition", "end() lies in another object than begin()", False); continue
                x.oblige(d, "postcondition", b_eq(eo, ladd(bo, lmul(nn, es))), "end() is not begin() + size()")
                if b.r not in d.live: x.fail(d, "postcondition", "the elements do not lie in an allocation", False); continue
                rs = lsubst(x.regions[b.r].size, d.sub)
                x.oblige(d, "postcondition", b_and([b_ge(bo, 0), b_le(ladd(bo, lmul(nn, es)), rs)]), "the elements do not fit into their allocation")
                while True:
                    try: m = x.modk(d, x.addr(d, b), 64); break
                    except Fork as f:
                        w = []; x.fork(d, f, w)
                        if w: raise Unsupported("alignment cases")
                x.oblige(d, "postcondition", b_eq(m, 0), "the first element is not at a 64-byte boundary")
                nlive = [l for l in d.live]
                if sorted(d.live.values()).count("new") > 1: x.fail(d, "postcondition", "more than one allocation besides the array object", False)
                out.append((d, b))
    return out

def access(x, s, es, n, obj, b, fns):
    i = sym("i")
    for fn in fns:
        t = s.clone()
        t.pc.assume(b_ge(i, 0)); t.pc.assume(b_lt(i, lsubst(n, t.sub)))
        if not t.pc.feasible(): continue
        for u in call(x, t, fn, [obj, i]):
            p = u.ret
            if type(p) is not Ptr or p.r != b.r: x.fail(u, "postcondition", "indexing leaves the array", False); continue
            x.oblige(u, "postcondition", b_eq(p.o, ladd(lsubst(b.o, u.sub), lmul(lsubst(i, u.sub), es))), "element i is not at begin() + i")
            if u.written - s.written - t.written: pass

def effects(x, s, allowed=("alloc", "free")):
    for e in sorted(x.effects):
        if e[0] not in allowed: x.fail(s, "effects", "%s at %s" % e, None, True)
    x.ok("effects")

def cover(x, rs, n):
    for v in (0, 1, 2, 7, 1000, 10 ** 9):
        if any(s.pc.feasible(b_eq(lsubst(n, s.sub), v)) for s in rs): x.ok("reachability")
        elif not x.fails: raise Unsupported("no completed path for %d elements" % v)

def content(x, d, b, n, kind):
    """every element has the wanted value"""
    hi = ladd(b.o, lmul(lsubst(n, d.sub), 4))
    if d.pc.prove(b_ge(b.o, hi)): return
    i = x.fresh(d, "idx", 0)
    d.pc.assume(b_lt(i, lsubst(n, d.sub)))
    if not d.pc.feasible(): return
    work = [d]
    while work:
        t = work.pop()
        try: v = x.rd1(t, ir.F32, b.r, ladd(b.o, lmul(i, 4)))
        except Fork as f:
            x.fork(t, f, work); 
            if t.pc.feasible(): work.append(t)
            continue
        want = F0["f32"] if kind == "zero" else atom("V", i)
        if v is want or type(v) is N and nsubst(v, t.sub) is nsubst(want, t.sub): x.ok("postcondition")
        elif type(v) is N and v.op == "x" and want.op == "x" and v.a[0] == want.a[0] and t.pc.prove(b_eq(v.a[1], want.a[1])): x.ok("postcondition")
        else: x.fail(t, "postcondition", "element i is %s" % (show(v, 3) if type(v) is N else v), False)

def destroy(x, d, fn, obj, hook=None):
    out = []
    for s in call(x, d.clone(), fn, [obj]):
        if s.live: x.fail(s, "leak", "%d allocations are not released" % len(s.live), False)
        else: x.ok("leak")
        out.append(s)
    return out

def fa_count(mod):
    def f(r, box):
        x, st, n = setup(mod, 4, box)
        rs = call(x, st, "pv_fa_new", [n])
        cover(x, rs, n)
        fin = []
        for s in rs:
            obj = s.ret
            for d, b in storage(x, s, 4, n, obj, "pv_fa_"):
                access(x, d, 4, n, obj, b, ("pv_fa_at", "pv_fa_cat"))
                content(x, d.clone(), b, n, "zero")
                fin += destroy(x, d, "pv_fa_delete", obj)
        cover(x, fin, n)
        effects(x, st)
    return guarded("AlignedArray<float> (n)", f)

def fa_vec(mod):
    def f(r, box):
        x, st, n = setup(mod, 4, box)
        data = x.region(st, lmul(n, 4), "global", [Rng(0, lmul(n, 4), 4, "n", atom("V", sym(J)))], 16, 0, True, name="elements of the vector")
        x.regions[data.r].kind = "in"
        v = x.region(st, 24, "in", [{0: (8, data), 8: (8, Ptr(data.r, lmul(n, 4))), 16: (8, Ptr(data.r, lmul(n, 4)))}], 16, 0, True, name="the vector")
        rs = call(x, st, "pv_fa_vec", [v])
        cover(x, rs, n)
        fin = []
        for s in rs:
            obj = s.ret
            for d, b in storage(x, s, 4, n, obj, "pv_fa_"):
                if b.r == data.r: x.fail(d, "postcondition", "the array does not copy the elements", False)
                content(x, d.clone(), b, n, "copy")
                fin += destroy(x, d, "pv_fa_delete", obj)
        cover(x, fin, n)
        effects(x, st)
    return guarded("AlignedArray<float> (vector)", f)

C, D = ("ctr", "constructed"), ("ctr", "destroyed")
def ea(mod):
    def f(r, box):
        order = ["down"]
        x, st, n = setup(mod, ES, box)
        st.ghost[C] = st.ghost[D] = 0
        seen = []
        def hook(x, s, fr, ins, name, vals):
            if name not in ("pv_elem_ctor", "pv_elem_dtor"): return None
            p = vals[0]
            x.check_access(s, p, ES, 8, True)
            if name == "pv_elem_ctor":
                k = s.ghost[C]
                if not x.nowrap: seen.append((s.clone(), Ptr(p.r, lsub(p.o, lmul(k, ES)))))
                s.ghost[C] = ladd(k, 1)
                return True
            k = s.ghost[D]
            b = mode["begin"]
            nn = lsubst(n, s.sub)
            at = lsub(lsub(nn, 1), k) if order[0] == "down" else k
            if p.r != b.r: x.fail(s, "postcondition", "an object that is not an element is destroyed", False); raise Killed()
            x.oblige(s, "postcondition", b_and([b_lt(k, nn), b_eq(p.o, ladd(lsubst(b.o, s.sub), lmul(at, ES)))]), "element destroyed twice, never, or not an element")
            s.ghost[D] = ladd(k, 1)
            return True
        mode = {}
        x.hook = hook
        x.force_final = True
        rs = call(x, st, "pv_ea_new", [n])
        cover(x, rs, n)
        fin = []
        cand, nb, rids = {}, 0, {s.ret.r for s in rs}
        for s in rs:
            obj = s.ret
            for d, b in storage(x, s, ES, n, obj, "pv_ea_"):
                x.oblige(d, "postcondition", b_eq(lsubst(d.ghost[C], d.sub), lsubst(n, d.sub)), "not every element is constructed")
                if 1:
                    # which member of the object is the address of the first element
                    for L in d.mem[obj.r].layers:
                        for o, cc in (L.items() if type(L) is dict else ()):
                            if type(cc[1]) is Ptr and cc[1].r == b.r and d.pc.prove(b_eq(lsubst(cc[1].o, d.sub), b.o)): cand[o] = cand.get(o, 0) + 1
                nb += 1
                access(x, d, ES, n, obj, b, ("pv_ea_at",))
                mode["begin"] = b
                fl, ob = len(x.fails), {k: list(v) for k, v in x.obl.items()}
                order[0] = "down"
                q = finish(x, d, obj, n)
                if len(x.fails) > fl:
                    keep = x.fails[fl:]
                    del x.fails[fl:]
                    x.obl = ob
                    order[0] = "up"
                    q = finish(x, d, obj, n)
                    if len(x.fails) > fl: x.fails[fl:] = keep
                fin += q
                r["order"] = order[0]
        cover(x, fin, n)
        # every constructor call was made on the elements
        cell = next((o for o in sorted(cand) if cand[o] == nb), None)
        if cell is None and not x.fails: raise Unsupported("no member holds the address of the first element")
        if not x.fails:
            
            for s, base in seen:
                if not s.pc.feasible(): continue
                q = [rid for rid in s.mem if rid in rids]
                if len(q) != 1: raise Unsupported("object under construction not found")
                v = x.rd(s, ir.PTR, q[0], cell)
                if type(v) is not Ptr or type(base) is not Ptr: raise Unsupported("address of the elements is set after their construction")
                if v.r != base.r: x.fail(s, "postcondition", "an element is constructed outside the array", False); continue
                x.oblige(s, "postcondition", b_eq(v.o, base.o), "an element is constructed at a wrong place")
                x.oblige(s, "postcondition", b_lt(s.ghost[C], lsubst(n, s.sub)), "too many elements are constructed")
            r["constructor calls"] = len(seen)
        effects(x, st)
    def finish(x, d, obj, n):
        q = destroy(x, d, "pv_ea_delete", obj)
        for s in q: x.oblige(s, "postcondition", b_eq(lsubst(s.ghost[D], s.sub), lsubst(n, s.sub)), "not every element is destroyed")
        return q
    return guarded("AlignedArray with constructors and destructors (n)", f)

def ownership(mod):
    def f(r, box):
        x = Ex(mod); box.append(x)
        s = x.call(State(), "pv_copyable", [])[0]
        r["copyable"] = s.ret
        s = x.call(State(), "pv_movable", [])[0]
        r["movable"] = s.ret
        if (r["copyable"] | r["movable"]) & 1: raise Unsupported("arrays can be copied or moved: no contract for these operations")
        x.ok("ownership", 2)
    return guarded("ownership of AlignedArray", f)

def units(mod):
    return {"count": fa_count(mod), "vector": fa_vec(mod), "elements": ea(mod), "ownership": ownership(mod)}
