"""Contracts of the factor-2 steps.

A step is an object plus the function that processes a block with it.  Its contract is stated over ghost streams:
X (everything ever fed to it), S_j (internal memories of recursive filters), Y (its output), and a ghost counter c of
the frames processed so far (one frame = one input sample when upsampling, two when downsampling).
  invariant Inv(c):   every memory cell of the object holds X[..] or S_j[c] (or is unspecified scratch)
  requires            in[0..n) = X[c..], n a whole number of frames, out has room for exactly the result
  ensures             out[0..) = Y[..] completely, Inv(c + frames), nothing else written
  definitions         S_j[t+1] = F_j(S[t], X[..t..]),  Y[..] = G(S[t], X[..])
F, G and the assignment of cells to streams are taken from the code (one frame, from an arbitrary state); that
they describe every call is then proved."""
from .vals import *
from .ex import *
from .ex import Rng, Content, Limit
from .loops import LoopMgr, SummaryFailed, pin
from .ir import F32
from . import ex as E

T = "T#"
UP, DOWN = 0, 1

class Theory:
    def __init__(s, up, linear_ok):
        s.up, s.kx, s.ky = up, (1 if up else 2), (2 if up else 1)
        s.linear_ok = linear_ok
        s.state = {}               # rid -> {offset: None | ('x', q) | ('s', j)}
        s.F = {}                   # j -> node in T
        s.G = []                   # per output of a frame: node in T
        s.alts, s.seen = [set(), set()], set()
        s.out = None
        s.s0 = {}
        s.maxdepth = 0
        s.nmatch = s.nlin = 0
    # value of a cell at frame counter c
    def cell(s, cls, c):
        if cls[0] == "x": return atom("X", ladd(lmul(c, s.kx), -cls[1]))
        return atom("S%d" % cls[1], c)
    def shift(s, n, k):
        if type(n) is not N: return n
        return nsubst(n, {"c": ladd(sym("c"), k)})
    def parity(s, t):
        """(frame, output of the frame) of output sample t; (None, 0) if the parity is unknown"""
        if s.up:
            if type(t) is Lin:
                if any(v % 2 for v in t.t.values()): return None, 0
                r = t.c % 2
            else: r = t % 2
            tau = ldivx(lsub(t, r), 2)
        else: r, tau = 0, t
        if r >= len(s.G) or s.G[r] is None: return None, 0
        return tau, r
    def spec(s, t):
        """definition of Y[t]"""
        tau, r = s.parity(t)
        return None if tau is None else nsubst(s.G[r], {T: tau})
    def norm(s, n, st):
        """unfold the streams down to the current base index"""
        if type(n) is not N: return n
        if st.sub: n = nsubst(n, st.sub)
        if not s.F: return n
        floor = st.ghost["floor"]
        memo = {}
        def leaf(a):
            if a.a[0][0] == "S":
                d = lsub(a.a[1], floor)
                if type(d) is int and 0 < d <= 4096:
                    r = s._unf.get(a.id)
                    if r is None:
                        r = nmap(nsubst(s.F[int(a.a[0][1:])], {T: ladd(a.a[1], -1)}), leaf)
                        s._unf[a.id] = r
                    return r
        key = floor if type(floor) is int else floor.key
        if s._unfkey != key: s._unf, s._unfkey = {}, key
        # shallow first, to keep the recursion shallow
        ds = [a.a[1] for a in atoms(n) if a.a[0][0] == "S"]
        if ds:
            m = 0
            for i in ds:
                d = lsub(i, floor)
                if type(d) is int and d > m: m = d
            for d in range(1, m + 1, 1):
                for j in s.F: leaf(atom("S%d" % j, ladd(floor, d)))
        return nmap(n, leaf)
    _unf, _unfkey = {}, None
    def eq(s, a, b):
        if a is b: return True
        if not s.linear_ok or type(a) is not N or type(b) is not N: return False
        la, lb = linear(a), linear(b)
        if la is None or lb is None: return False
        if la[1] != lb[1] or len(la[0]) != len(lb[0]): return False
        for k, (at, v) in la[0].items():
            w = lb[0].get(k)
            if w is None or w[1] != v: return False
        d = max(la[2], lb[2])
        if d > 2 * len(la[0]) + 16: return False
        s.maxdepth = max(s.maxdepth, d)
        s.nlin += 1
        return True
    def matches(s, n, t, st):
        """does n equal Y[t]?"""
        tau, r = s.parity(t)
        if tau is None: return False
        if s.linear_ok:
            # shapes seen before, relative to the frame
            if st.sub: n = nsubst(n, st.sub); tau = lsubst(tau, st.sub)
            key = (n.id, r, tau if type(tau) is not Lin else tau.key)
            if key in s.seen: s.nmatch += 1; return True
            off = lmul(lsub(sym(T), tau), s.kx)
            rel = nmap(n, lambda a: atom(a.a[0], ladd(a.a[1], off), a.ty))
            if rel in s.alts[r] or s.eq(rel, s.G[r]):
                s.alts[r].add(rel)
                s.seen.add(key)
                s.nmatch += 1
                return True
            return False
        sp = s.spec(t)
        n, sp = s.norm(n, st), s.norm(sp, st)
        if n is sp: s.nmatch += 1; return True
        return False
    def fold(s, x, st, o, v):
        e = ldivx(o, 4)
        if e is None: return v
        y0 = st.ghost["y0"]
        t = ladd(e, y0)
        if v.op == "x" and v.a[0] == "Y": return v
        if s.matches(v, t, st):
            return atom("Y", ladd(sym(J), y0)) if type(o) is Lin else atom("Y", t)
        return v
    # ---- state
    def overlay(s, S, rid, ok, k, x=None):
        """layers that describe the state cells of a region, shifted by k frames"""
        x = s.x
        vals = {}
        for o in s.state[rid]:
            vals[o] = s.shift(x.rd1(S, F32, rid, o), k) if ok.get(o) else None
        return s.layers(vals)
    def layers(s, vals):
        x = s.x
        rngs, cells = [], {}
        offs = sorted(vals)
        i = 0
        while i < len(offs):
            o = offs[i]
            v = vals[o]
            if type(v) is N and v.op == "x":
                j = i
                while j + 1 < len(offs) and offs[j + 1] == offs[j] + 4:
                    w, p = vals[offs[j + 1]], vals[offs[j]]
                    if type(w) is N and w.op == "x" and w.a[0] == v.a[0] and lsub(w.a[1], p.a[1]) == 1: j += 1
                    else: break
                if j - i >= 3:
                    rngs.append(Rng(o, offs[j] + 4, 4, "n", atom(v.a[0], ladd(lsub(v.a[1], o // 4), sym(J)))))
                    i = j + 1
                    continue
            cells[o] = (4, v if v is not None else x.junk())
            i += 1
        return rngs + [cells]
    def shift_candidates(s, cells, t):
        out = []
        for a, b in cells:
            if type(a) is N and type(b) is N and a.op == "x" and b.op == "x" and a.a[0] == "X" and b.a[0] == "X":
                d = ldivx(lsub(b.a[1], a.a[1]), s.kx)
                if d is not None and d not in out: out.append(d)
        for k in (1, 2, 4, 8, 3):
            d = lmul(t, k)
            if d not in out: out.append(d)
        if type(t) is int and t % 2 == 0 and t // 2 not in out: out.append(t // 2)
        return out[:12]
    def check_state(s, x, st, S, rid, ok, k):
        """the state cells of rid in st are those of S shifted by k frames; everything else in rid is unchanged"""
        try:
            for o in s.state[rid]:
                if not ok.get(o): continue
                a = s.norm(x.rd1(st, F32, rid, o), st)
                b = s.norm(s.shift(x.rd1(S, F32, rid, o), k), st)
                if not s.eq(a, b): return "%s+%d is %s instead of %s" % (rid, o, show(a, 3), show(b, 3))
            return s.unchanged(x, st, S, rid)
        except Fork:
            return "%s: undecided" % rid
    def unchanged(s, x, st, S, rid):
        sc = s.state.get(rid, {})
        for L in S.mem[rid].layers:
            if type(L) is not dict: continue
            for o, c in L.items():
                if o in sc: continue
                if any(q in sc for q in range(o, o + c[0])): continue
                v = _cellat(x, st, rid, o)
                if v is None or v[0] != c[0] or not same(v[1], c[1]): return "%s+%d modified" % (rid, o)
        return None

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if type(a) in (int, Lin, Ptr, FPtr): return a == b
    if isinstance(a, GRefT): return a.name == b.name and a.off == b.off
    return False
from .ir import GRef as GRefT
def _cellat(x, st, rid, o):
    for L in reversed(st.mem[rid].layers):
        if type(L) is dict:
            if o in L: return L[o]
            continue
        if type(L) is Rng:
            if st.pc.prove(b_or([b_le(ladd(o, 1), L.lo), b_ge(o, L.hi)])): continue
            return (0, None)
        return (0, None)
    return None

def reach(x, st, p):
    """objects reachable from a pointer"""
    todo, seen = [p.r], []
    while todo:
        r = todo.pop()
        if r is None or r in seen or r not in st.mem: continue
        if x.regions[r].kind in ("const", "global"): continue
        seen.append(r)
        for L in st.mem[r].layers:
            if type(L) is dict:
                for o, c in sorted(L.items()):
                    if type(c[1]) is Ptr and c[1].r is not None: todo.append(c[1].r)
    return seen

def content_key(x, st, regs):
    """hashable description of the content of some objects (for recognising identical steps)"""
    idx = {r: i for i, r in enumerate(regs)}
    out = []
    for r in regs:
        cells = {}
        for L in st.mem[r].layers:
            if type(L) is dict: cells.update(L)
            else: cells[("r", L.lo, L.hi)] = (0, L.kind)
        it = []
        for o, c in sorted(cells.items(), key=lambda z: str(z[0])):
            v = c[1]
            if type(v) is Ptr: v = ("p", idx.get(v.r, v.r), v.o)
            elif type(v) is N: v = ("n", repr(v.a[0]) if v.op == "c" else v.id)
            elif type(v) is GRefT: v = ("g", v.name, v.off)
            elif type(v) is FPtr: v = ("f", v.name)
            elif type(v) is Undef: v = "u"
            it.append((o, c[0], v))
        out.append((x.regions[r].size, tuple(it)))
    return tuple(out)

class Step:
    """a factor-2 step: call(st, in, n, out) runs it on a block"""
    def __init__(self, x, st, root, call, up, linear_ok, name):
        self.x, self.st0, self.root, self.call, self.up, self.name = x, st, root, call, up, name
        self.th = Theory(up, linear_ok)
        self.th.x = x
        self.regs = reach(x, st, root)
        self.problems = []
        self.paths = 0
        self.loops = []

    # ---- inference
    def blocks(self, st, sizes, base=0):
        """feed blocks of the given numbers of frames, from stream position `base`; returns the state and all outputs"""
        x, th = self.x, self.th
        pos, outs = base, []
        for f in sizes:
            n = f * th.kx
            i = x.region(st, 4 * n, "in", [Rng(0, 4 * n, 4, "n", atom("X", ladd(sym(J), lmul(pos, th.kx))))] if n else [{}], 16, 0, True)
            o = x.region(st, 4 * f * th.ky, "out", [{}], 16, 0)
            th.out = None
            r = self.call(st, i, n, o)
            if not r: return None, None
            for other in r[1:]: pass
            st = r[0]
            st.frames = []
            for k in range(f * th.ky):
                v = x.rd1(st, F32, o.r, 4 * k)
                outs.append(v)
            pos = ladd(pos, f)
        return st, outs
    def infer(self):
        x, th = self.x, self.th
        runs = []
        mgr, x.loopmgr = x.loopmgr, None
        for sizes in ([150], [1] * 70, [57, 3, 80], [64, 5, 61]):
            st, outs = self.blocks(self.st0.clone(), sizes)
            if st is None: raise Unsupported("%s: no path through a concrete block" % self.name)
            runs.append((sum(sizes), st, outs))
        changed = {}
        for r in self.regs:
            base = _flat(self.st0, r)
            for _, st, _ in runs:
                now = _flat(st, r)
                for o, c in now.items():
                    b = base.get(o)
                    if b is not None and b[0] == c[0] and same(b[1], c[1]): continue
                    if c[0] != 4 or type(c[1]) is not N:
                        if b is not None and type(b[1]) is N and b[1].op == "c" and type(c[1]) is N and b[1] is c[1]: continue
                        raise Unsupported("%s: non-sample state at offset %s" % (self.name, o))
                    changed.setdefault(r, set()).add(o)
        fir = True
        for r, os in changed.items():
            for o in os:
                for K, st, _ in runs:
                    v = _flat(st, r).get(o)
                    if v is None: continue
                    v = v[1]
                    if not (type(v) is N and (v.op == "x" and v.a[0] == "X" or v.op == "c")): fir = False
        th.fir = fir
        j = 0
        for r in self.regs:
            if r not in changed: continue
            th.state[r] = {}
            for o in sorted(changed[r]):
                if fir:
                    q = None
                    for n, (K, st, _) in enumerate(runs):
                        v = _flat(st, r)[o][1] if o in _flat(st, r) else None
                        d = K * th.kx - v.a[1] if v is not None and v.op == "x" else None
                        if n == 0: q = d
                        elif q != d: q = None
                    th.state[r][o] = ("x", q) if q is not None else None
                else:
                    th.state[r][o] = ("s", j); j += 1
        # one frame from an arbitrary state
        while True:
            st = self.havoc()
            st.ghost["floor"] = sym("c")
            st2, outs = self.blocks(st, [1], sym("c"))
            if st2 is None: raise Unsupported("%s: no path through one frame" % self.name)
            m = {"c": sym(T)}
            bad = False
            for r in th.state:
                for o, cls in th.state[r].items():
                    if cls is None: continue
                    v = x.rd1(st2, F32, r, o)
                    if cls[0] == "s":
                        if type(v) is not N: raise Unsupported("%s: state" % self.name)
                        th.F[cls[1]] = nsubst(v, m)
                    elif v is not th.cell(cls, ladd(sym("c"), 1)):
                        th.state[r][o] = None; bad = True
            if not bad: break
        th.G = [nsubst(v, m) if type(v) is N else None for v in outs]
        for r in th.state:
            for o, cls in th.state[r].items():
                if cls is not None and cls[0] == "s": th.s0[cls[1]] = x.rd1(self.st0, F32, r, o)
        x.loopmgr = mgr
    def havoc(self):
        """the object in an arbitrary state satisfying Inv(c)"""
        x, th = self.x, self.th
        st = self.st0.clone()
        st.pc = st.pc.fork()
        st.written = set()
        st.pc.assume(b_ge(sym("c"), 0)); st.pc.assume(b_le(sym("c"), 1 << 60))
        for r in th.state:
            vals = {o: (th.cell(cls, sym("c")) if cls is not None else None) for o, cls in th.state[r].items()}
            st.mem[r] = Content([dict(L) if type(L) is dict else L for L in st.mem[r].layers] + th.layers(vals), st.owner)
        return st

    # ---- the contract for every block length
    def prove(self, lo=0, hi=None):
        x, th = self.x, self.th
        st = self.havoc()
        m = sym("m")
        hi = ((1 << 32) - 1) // th.kx if hi is None else hi
        st.pc.assume(b_ge(m, lo)); st.pc.assume(b_le(m, hi))
        n = lmul(m, th.kx)
        i = x.region(st, lmul(n, 4), "in", [Rng(0, lmul(n, 4), 4, "n", atom("X", ladd(sym(J), lmul(sym("c"), th.kx))))], 4, None, True)
        o = x.region(st, lmul(m, 4 * th.ky), "out", [], 4, None)
        th.out = o.r
        st.ghost["floor"] = sym("c")
        st.ghost["y0"] = lmul(sym("c"), th.ky)
        x.smallsyms = ("m",)
        x.th = th
        x.loopmgr = LoopMgr(x)
        S = st.clone()
        res = self.call(st, i, n, o)
        for r in res: self.post(S, r, o, m)
        self.paths += len(res)
        self.loops = x.loopmgr.summaries
        if not res and not x.fails: raise Unsupported("%s: no path" % self.name)
        # every block length must be covered by a path
        x.th = x.loopmgr = None
        return res

    def post(self, S, r, o, m):
        x, th = self.x, self.th
        if not r.pc.feasible(): return
        mm = lsubst(m, r.sub) if r.sub else m
        if type(mm) is Lin and len(mm.t) == 1:
            v = pin(r, mm)
            if type(v) is int:
                k = next(iter(mm.t))
                q = ldivx(v - mm.c, mm.t[k])
                if q is not None: r.subst({k: q}); mm = v
        self.check_out(r, o, mm)
        floor0 = r.ghost["floor"]
        for rid in self.regs:
            if rid in th.state:
                ok = {k: v is not None for k, v in th.state[rid].items()}
                bad = th.check_state(x, r, S, rid, ok, mm)
            else:
                bad = th.unchanged(x, r, S, rid)
            if bad: x.fail(r, "invariant", "after the block, state %s" % bad, False)
            else: x.ok("invariant")
        for w in r.written:
            if w == o.r or w in th.state: continue
            if w in self.regs or (w in S.mem and x.regions[w].kind != "stack"):
                bad = th.unchanged(x, r, S, w) if w in S.mem else None
                if bad: x.fail(r, "frame", "writes to %s" % bad, False)
        x.ok("frame")

    def check_out(self, r, o, mm):
        """out[0..) = Y[y0..), completely"""
        x, th = self.x, self.th
        end = lmul(mm, 4 * th.ky)
        y0 = r.ghost["y0"]
        Yt = atom("Y", ladd(sym(J), y0))
        good = []
        for L in r.mem[o.r].layers:
            if type(L) is dict:
                for p, c in sorted(L.items()):
                    if type(c[1]) is N and c[1].op == "x" and c[1].a[0] == "Y" and c[1].a[1] == ladd(y0, p // 4): continue
                    if type(c[1]) is N and th.matches(c[1], ladd(y0, p // 4), r): continue
                    x.fail(r, "postcondition", "output sample %d is %s" % (p // 4, show(c[1], 4)), False)
                    return
                x.ok("postcondition", len(L))
                good.append(L)
            elif type(L) is Rng:
                if L.kind == "n" and L.tm is Yt or L.kind == "n" and self.rng_ok(r, L, y0): good.append(L); x.ok("postcondition")
                else:
                    if r.pc.prove(b_ge(L.lo, L.hi)): continue
                    x.fail(r, "postcondition", "output samples from byte %r to %r are %s" % (L.lo, L.hi, show(L.tm, 4) if L.tm is not None else {"z": "zero", "j": "unspecified", "u": "uninitialised"}[L.kind]), False)
                    return
        pos, n, used = 0, 0, set()
        while not r.pc.prove(b_ge(pos, end)):
            n += 1
            nxt = None
            for L in good:
                if type(L) is dict:
                    if type(pos) is int and pos in L:
                        nxt = pos
                        while nxt in L: nxt += 4
                        break
                elif id(L) not in used and r.pc.prove(b_and([b_le(L.lo, pos), b_ge(L.hi, pos)])):
                    nxt = L.hi; used.add(id(L)); break
            if nxt is None or n > 3000:
                if x.debug: print("LAYERS", r.mem[o.r].layers, "pc", r.pc.cons, "sub", r.sub)
                x.fail(r, "postcondition", "output from byte %r on is not written" % pos, b_ge(pos, end))
                return
            pos = nxt
        x.ok("postcondition")
    def rng_ok(self, r, L, y0):
        th = self.th
        if J not in nsyms(L.tm):
            e = ldivx(L.lo, 4)
            return e is not None and r.pc.prove(b_eq(L.hi, ladd(L.lo, 4))) and th.matches(L.tm, ladd(e, y0), r)
        return th.matches(L.tm, ladd(sym(J), y0), r)

def _flat(st, r):
    cells = {}
    for L in st.mem[r].layers:
        if type(L) is dict: cells.update(L)
        elif type(L) is Rng and type(L.lo) is int and type(L.hi) is int:
            for o in list(cells):
                if type(o) is int and L.lo <= o < L.hi: del cells[o]
            for o in range(L.lo, L.hi, 4 if L.es == 1 else L.es):
                cells[o] = (4, F0["f32"] if L.kind == "z" else nsubst(L.tm, {J: o // L.es}) if L.kind == "n" else None)
        else: cells[("r", repr(L))] = (0, None)
    return cells
