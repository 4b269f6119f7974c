"""Loops: concrete execution while every decision is determined, otherwise an inductive summary.

A summary replaces the loop by one arbitrary iteration: every variable that advances is v0 + k*s for a common
progress counter s >= 0, candidate facts about s are kept only if they hold on entry and are preserved by the
arbitrary iteration (Houdini), memory written by earlier iterations is described by a window that the iteration is
checked to extend, by the theory's state shifted by the progress, or is unspecified."""
from math import gcd
from .vals import *
from .ex import *
from .ex import Rng, Hole, Content, Stop, Limit, Killed
from . import ex as E

MAXIT = 40000
SMALL = 72

def holes(own):
    return any(h.read for h in own)

class SummaryFailed(Unsupported):
    pass

class LoopMgr:
    def __init__(self, x):
        self.x = x
        self.summaries = []        # human-readable record
        self.nested = 0
        self.terminates = True

    def loop(self, st, tgt, body):
        x = self.x
        depth = len(st.frames)
        stop = Stop(depth, tgt, body)
        fr = st.frames[-1]
        out = []
        s = st
        x.enter(s, s.frames[-1], tgt, s.frames[-1].block)
        work = [(s, 0)]
        while work:
            s, it = work.pop()
            while True:
                if it > MAXIT: raise Limit("a loop runs too long")
                snap = s.clone()
                fl = len(x.fails)
                res = x.run(s, -1, stop)
                if not res: break
                backs = [r for r in res if r.tag == "back"]
                if not backs:
                    out.extend(res); break
                if len(res) == 1:
                    s = backs[0]
                    x.enter(s, s.frames[-1], tgt, s.frames[-1].block)
                    s.pend = s.tag = None
                    it += 1
                    continue
                # a decision inside the loop depends on a symbol
                alts = self.enumerate(snap, res)
                if alts is not None:
                    work.extend((a, it) for a in alts)
                    break
                split = self.resplit(snap, res)
                if split is not None:
                    work.extend((a, it) for a in split)
                    break
                del x.fails[fl:]
                out.extend(self.summarise(snap, tgt, stop, backs))
                break
        for r in out: r.tag = None
        return out

    # ------------------------------------------------------------ case distinctions
    def enumerate(self, snap, res):
        """the loop depends on a symbol with few possible values: treat each value separately"""
        n0 = len(snap.pc.cons)
        known = set()
        for b in snap.pc.cons: _besyms(b, known)
        tried = set()
        for r in res:
            for b in r.pc.cons[n0:]:
                if b is True or b is False or b[0] not in ("ge", "eq", "ne"): continue
                l = Lin(b[1].t, 0)
                g = _content(l)
                l = ldivx(l, g)
                if not set(l.t) <= known or l.key in tried: continue
                tried.add(l.key)
                if any(k[0] in "AB" for k in l.t): continue
                y = [k for k, v in l.t.items() if abs(v) == 1]
                if not y: continue
                y.sort(key=lambda k: (k[0] == "c", k))
                y = y[0]
                vals = self.values(snap, l)
                if vals is None: continue
                out = []
                for v in vals:
                    s = snap.clone()
                    s.pc.assume(b_eq(l, v))
                    rest = mk({k: q for k, q in l.t.items() if k != y}, 0)
                    s.subst({y: lmul(lsub(v, rest), l.t[y])})
                    if not s.pc.infeasible: out.append(s)
                return out
        return None
    def values(self, st, l, small=SMALL):
        m = st.pc.model()
        if m is None: return []
        v = l.c + sum(k * m.get(s, 0) for s, k in l.t.items())
        if not (st.pc.prove(b_le(l, v + small)) and st.pc.prove(b_ge(l, v - small))): return None
        return [u for u in range(v - small, v + small + 1) if st.pc.feasible(b_eq(l, u))]
    def resplit(self, snap, res):
        """the paths differ only in a case distinction about addresses: make it before the loop"""
        keys = set()
        for r in res:
            keys |= {k for k in r.ghost if type(k) is tuple and k[0] == "res" and k not in snap.ghost}
        if not keys: return None
        k = keys.pop()
        rg = self.x.regions[k[1]]
        try:
            self.x.addr(snap, Ptr(k[1], 0))
        except Fork as f:
            w = []
            self.x.fork(snap, f, w)
            return w + [snap]
        return None

    # ------------------------------------------------------------ summaries
    def summarise(self, S, tgt, stop, backs):
        self.nested += 1
        try:
            return self._summarise(S, tgt, stop, backs)
        finally:
            self.nested -= 1

    def _summarise(self, S, tgt, stop, backs):
        x = self.x
        where = x.where(S)
        fi = stop.depth - 1
        written = set()
        saved_written = S.written
        # --- what changes
        regs0 = S.frames[fi].regs
        names = [k for k in regs0 if k[0] == "&"] + [i[1] for i in S.frames[fi].fn.blocks[tgt] if i[0] == "phi"]
        headphi = {i[1]: i[3] for i in S.frames[fi].fn.blocks[tgt] if i[0] == "phi"}
        def after(b, k):
            if type(k) is tuple: return b.ghost[k] if k[0] == "ctr" else _cell(b, k)
            f = b.frames[fi]
            if k in headphi: return x.val(b, f, headphi[k][f.block])
            return f.regs[k]
        vecs = []
        stale, floats = set(), {}
        cand = {}
        for b in backs: written |= b.written - saved_written | {w for w in b.written}
        # written is cumulative; take the regions whose content differs from the snapshot
        written = {w for w in written if w in S.mem and any(w in b.mem and b.mem[w].layers is not S.mem[w].layers and not _same_layers(b.mem[w].layers, S.mem[w].layers) for b in backs)}
        # objects that hold a few plain variables are followed cell by cell
        celled = {}
        for rid in written:
            if th_state(x, rid) or x.regions[rid].kind == "out": continue
            cs = _plain(S, rid)
            if cs is None or any(_plain(b, rid) is None for b in backs): continue
            celled[rid] = cs
        before = dict(regs0)
        for k in S.ghost:
            if type(k) is tuple and k[0] == "ctr": before[k] = S.ghost[k]
        for rid, cs in celled.items():
            for o, c in cs.items(): before[("cell", rid, o)] = c[1]
        keys = names + [k for k in before if type(k) is tuple]
        for b in backs:
            v = {}
            for rid in celled:
                for o, c in _plain(b, rid).items():
                    if ("cell", rid, o) not in before: stale.add(("cell", rid, o, c[0]))
            for k in keys:
                a, c = sv(before.get(k, UNDEF), b.sub), after(b, k)
                if _eqv(a, c): continue
                ta, tc = type(a), type(c)
                if ta in (int, Lin) and tc in (int, Lin): v[k] = _d(a, c)
                elif ta is Ptr and tc is Ptr and a.r == c.r: v[k] = lsub(c.o, a.o)
                elif ta is N and tc is N and type(k) is str: floats[k] = True
                elif type(k) is tuple and k[0] == "ctr": raise SummaryFailed("ghost counter")
                else: stale.add(k)
            vecs.append(v)
        written -= set(celled)
        ks = [k for k in vecs[0] if k not in stale and all(k in v for v in vecs)]
        for v in vecs:
            for k in v:
                if k not in ks: stale.add(k)
        best = None
        for base in ks:
            grp = {}
            for u in ks:
                q = None
                for v in vecs:
                    q = _ratio(v[u], v[base])
                    if q is not None: break
                if q is None: continue
                for v, b in zip(vecs, backs):
                    if _ratio(v[u], v[base]) != q and not b.pc.prove(b_eq(lmul(v[u], q.denominator), lmul(v[base], q.numerator))): q = None; break
                if q is not None: grp[u] = q
            if best is None or len(grp) > len(best[1]): best = (base, grp)
        if best is None: raise SummaryFailed("loop at %s: no progress variable found" % where)
        base, grp = best
        for k in ks:
            if k not in grp:
                if type(k) is tuple and k[0] == "ctr": raise SummaryFailed("loop at %s: unrelated progress of ghost counters" % where)
                stale.add(k)
        den = 1
        for r in grp.values(): den = den * r.denominator // gcd(den, r.denominator)
        if x.debug: print("VECS", where, vecs, "stale", stale, "grp", grp)
        prim = {k: int(r * den) for k, r in grp.items()}
        g = 0
        for v in prim.values(): g = gcd(g, v)
        prim = {k: v // g for k, v in prim.items()}
        ts = []
        for v in vecs:
            t = None
            for k in prim:
                t = ldivx(v[k], prim[k]) if prim[k] else None
                if t is not None: break
            if t is None: raise SummaryFailed("loop at %s: irregular step" % where)
            ts.append(t)
        g = 0
        for t in ts: g = gcd(g, _content(t))
        if not g: raise SummaryFailed("loop at %s: an iteration may make no progress" % where)
        ts = [ldivx(t, g) for t in ts]
        sg = 1
        for t in ts:
            if type(t) is int and t < 0: sg = -1
            elif type(t) is Lin and not S.pc.prove(b_ge(t, 0)) and backs[ts.index(t)].pc.prove(b_le(t, 0)): sg = -1
        kap = {k: v * g * sg for k, v in prim.items()}
        ts = [lmul(t, sg) for t in ts]
        x.nsym += 1
        sn = "s!%d" % x.nsym
        sig = sym(sn)
        # --- state of the theory
        th = x.th
        kc = 0
        A = {}
        if th is not None:
            for rid in written:
                if rid in th.state: A[rid] = None
            if A or floats:
                kc = self.find_shift(S, backs, ts, A, floats, after, regs0)
            for rid in A:
                A[rid] = self.matching(S, backs, ts, rid, kc)
        fl_ok = {}
        for k in floats:
            ok = th is not None and all(th.eq(th.norm(after(b, k), S), th.norm(th.shift(regs0[k], lmul_(kc, t)), S)) for b, t in zip(backs, ts))
            if ok: fl_ok[k] = True
            else: stale.add(k)
        # --- general iteration
        def general(cands):
            G = S.clone()
            G.tag = G.pend = None
            G.written = set()
            G.pc.assume(b_ge(sig, 0))
            for c in cands: G.pc.assume(c)
            R = G.frames[fi].regs
            cells = {rid: dict(cs) for rid, cs in celled.items()}
            def put(k, v):
                if type(k) is not tuple: R[k] = v
                elif k[0] == "ctr": G.ghost[k] = v
                else: cells[k[1]][k[2]] = (cells[k[1]][k[2]][0] if len(k) < 4 else k[3], v)
            for k, kp in kap.items():
                v = before[k]
                if type(v) is Ptr: put(k, Ptr(v.r, ladd(v.o, lmul(sig, kp))))
                else:
                    if type(v) is int and v >> 31: v = _sg(v, S.frames[fi].fn, k)
                    put(k, ladd(v, lmul(sig, kp)))
            for k in stale:
                if k in kap or type(k) is tuple and k[0] == "ctr": continue
                put(k, STALE)
            for rid, cs in cells.items(): G.mem[rid] = Content([cs], G.owner)
            for k in fl_ok: R[k] = th.shift(R[k], lmul(sig, kc))
            for k in list(R):                      # temporaries do not survive an iteration
                if k[0] != "&" and k not in headphi and k in self.inloop(S.frames[fi].fn, stop.body): R[k] = STALE
            if th is not None and kc: G.ghost["floor"] = ladd(G.ghost["floor"], lmul(sig, kc))
            for rid in written:
                if rid in A:
                    G.mem[rid] = Content(G.mem[rid].layers + th.overlay(S, rid, A[rid], lmul(sig, kc)), G.owner)
                else:
                    h = Hole(rid)
                    own.append(h)
                    G.mem[rid] = Content([h], G.owner)
            return G
        cands = []
        own = []
        rounds = 0
        n_fail0, obl0 = len(x.fails), {k: list(v) for k, v in x.obl.items()}
        def run_general(cands):
            del x.fails[n_fail0:]
            x.obl = {k: list(v) for k, v in obl0.items()}
            own.clear()
            G = general(cands)
            base_n = len(G.pc.cons)
            res = x.run(G, -1, stop)
            for r in res:
                if not all(w in written or w in celled or w not in S.mem for w in r.written):
                    new = {w for w in r.written if w in S.mem and w not in written and w not in celled}
                    written.update(new)
                    for w in new:
                        if th is not None and w in th.state: A[w] = self.matching(S, backs, ts, w, kc)
                    return None, base_n
            again = False
            for r in res:
                if r.tag != "back": continue
                for k in keys:
                    if k in kap or k in stale or k in fl_ok: continue
                    if type(k) is tuple and k[0] == "cell" and k[1] not in celled: continue
                    if not _eqv(sv(before.get(k, UNDEF), r.sub), after(r, k)):
                        if type(k) is tuple and k[0] == "ctr": raise SummaryFailed("loop at %s: ghost counter" % where)
                        stale.add(k); again = True
                for rid in list(celled):
                    cs = _plain(r, rid)
                    if cs is None:
                        celled.pop(rid); written.add(rid); again = True
                        for k in [k for k in kap if type(k) is tuple and k[0] == "cell" and k[1] == rid]: raise SummaryFailed("loop at %s: %s" % (where, rid))
                        for k in [k for k in stale if type(k) is tuple and k[0] == "cell" and k[1] == rid]: stale.discard(k)
                        continue
                    for o, c in cs.items():
                        if o in celled[rid]:
                            if c[0] != celled[rid][o][0]: raise SummaryFailed("loop at %s: %s" % (where, rid))
                        elif ("cell", rid, o, c[0]) not in stale:
                            stale.add(("cell", rid, o, c[0])); again = True
            if again: return None, base_n
            for r in res:
                if r.tag != "back" or sn in r.sub: continue
                t = self.step(S, r, kap, after, sig, where, before, fi)
                if type(t) is not Lin: continue
                k = t.t.get(sn)
                v = pin(r, t)
                if k in (1, -1) and type(v) is int:
                    rest = mk({a: b for a, b in t.t.items() if a != sn}, t.c)
                    r.subst({sn: lmul(lsub(v, rest), k)})
            return res, base_n
        # --- discovery: explore the arbitrary iteration with nothing known, assuming that nothing wraps or fails
        res = None
        nw0 = x.nowrap_used
        x.nowrap += 1
        try:
            while res is None:
                res, base_n = run_general(cands)
                rounds += 1
                if rounds > 12: raise SummaryFailed("loop at %s: unstable set of written objects" % where)
        finally: x.nowrap -= 1
        bk = [r for r in res if r.tag == "back"]
        tt = [self.step(S, r, kap, after, sig, where, before, fi) for r in bk]
        # --- candidate facts
        old = set()
        for b in S.pc.cons: _besyms(b, old)
        for k in kap:
            v = before[k]
            v = v.o if type(v) is Ptr else v
            if type(v) is Lin: old |= set(v.t)
        old.add(sn)
        seen, C = set(), []
        def consider(be):
            if be is True or be is False: return
            kk = _bekey(be)
            if kk in seen: return
            seen.add(kk)
            e0 = b_subst(be, {sn: 0})
            if S.pc.prove(e0): C.append(be); return True
            return False
        for r, t in zip(bk, tt):
            for b in r.pc.cons[base_n:]:
                q = set(); _besyms(b, q)
                if sn not in q or not q <= old: continue
                if b[0] == "ge":
                    if type(t) is int:
                        sh = b_subst(b, {sn: lsub(sig, t)})
                        if consider(sh) is False: consider(b_or([b_eq(sig, 0), sh]))
                    consider(b)
                    if type(t) is not int:
                        consider(("ge", ladd(b[1], 0)))
                if b[0] in ("ne", "eq"):
                    consider(("ge", b[1])); consider(("ge", lmul(b[1], -1)))
            # the step itself is bounded by what is left
        for r, t in zip(bk, tt):
            if type(t) is Lin and set(t.t) <= old:
                consider(b_ge(t, 0))
        def houdini(C, bk, tt):
            while True:
                drop = None
                for r, t in zip(bk, tt):
                    pc = r.pc.fork()
                    for c in C: pc.assume(bsub(r, c))
                    if not pc.feasible(): continue
                    for c in C:
                        if not pc.prove(bsub(r, b_subst(c, {sn: ladd(sig, t)}))):
                            drop = c; break
                    if drop is not None: break
                if drop is None: return C
                C = [c for c in C if c is not drop]
        C = houdini(C, bk, tt)
        # --- final pass (reuse the exploration if it needed no extra facts)
        failed = x.force_final or x.nowrap_used > nw0 or len(x.fails) > n_fail0 or any(v[0] - v[1] > (obl0.get(k, [0, 0])[0] - obl0.get(k, [0, 0])[1]) for k, v in x.obl.items())
        if failed or holes(own):
            while True:
                wins = self.windows(S, bk, tt, sig, sn, written, A) if holes(own) else None
                res = None
                while res is None:
                    res, base_n = run_general(C) if wins is None else self.run_windows(run_general, C, wins, S, sig)
                    rounds += 1
                    if rounds > 30: raise SummaryFailed("loop at %s: unstable" % where)
                bk = [r for r in res if r.tag == "back"]
                tt = [self.step(S, r, kap, after, sig, where, before, fi) for r in bk]
                C2 = houdini(C, bk, tt)
                if len(C2) == len(C): break
                C = C2
        else:
            for r in res:
                for c in C: r.pc.assume(bsub(r, c))
            res = [r for r in res if r.pc.feasible()]
            bk2 = [(r, t) for r, t in zip(bk, tt) if r in res]
            bk, tt = [r for r, _ in bk2], [t for _, t in bk2]
        # --- preservation
        for i, r in enumerate(bk):
            d = forced(r, tt[i])
            if d:
                r.subst(d)
                tt[i] = lsubst(tt[i], d)
        for r, t in zip(bk, tt):
            for c in C:
                if not r.pc.prove(bsub(r, b_subst(c, {sn: ladd(sig, t)}))): raise SummaryFailed("loop at %s: fact not preserved" % where)
            x.ok("loop-invariant", len(C) + 1)
            if not r.pc.prove(b_ge(t, 1)):
                if not r.pc.prove(b_ge(t, 0)): raise SummaryFailed("loop at %s: progress may be negative" % where)
                x.fail(r, "termination", "an iteration of the loop may make no progress", b_ge(t, 1))
                self.terminates = False
            elif not self.bounded(r, base_n, sn, old):
                x.fail(r, "termination", "no bound on the number of iterations found", None, True)
                self.terminates = False
            else: x.ok("termination")
            for k in fl_ok:
                if not th.eq(th.norm(after(r, k), r), th.norm(th.shift(regs0[k], lmul(ladd(sig, t), kc)), r)): raise SummaryFailed("loop at %s: value of %s" % (where, k))
            for rid in A:
                bad = th.check_state(x, r, S, rid, A[rid], lmul(ladd(sig, t), kc))
                if bad: raise SummaryFailed("loop at %s: state %s" % (where, bad))
        wins = self.windows(S, bk, tt, sig, sn, written, A)
        # --- after the loop
        outs = []
        for r in res:
            if r.tag != "exit": continue
            if not r.pc.feasible(): continue
            self.fill(r, S, wins, sig)
            r.written |= saved_written | written | set(celled)
            outs.append(self.solve(r, sn, sig))
        self.summaries.append("%s: step %s, %d facts, windows %s" % (where, tt, len(C), {k: repr(v)[:80] for k, v in wins.items()}))
        return outs

    _il = {}
    def inloop(self, fn, body):
        key = (fn.name, id(fn), frozenset(body))
        r = self._il.get(key)
        if r is None:
            r = set()
            for b in body:
                for ins in fn.blocks[b]:
                    if len(ins) > 1 and type(ins[1]) is str and ins[0] not in ("setl", "phi"): r.add(ins[1])
            self._il[key] = r
        return r

    def step(self, S, r, kap, after, sig, where, before, fi):
        """progress made by one iteration ending in r; checks that all advancing variables agree"""
        t, ds = None, []
        for k, kp in kap.items():
            a, c = before[k], after(r, k)
            if type(a) is Ptr:
                if type(c) is not Ptr or c.r != a.r: raise SummaryFailed("loop at %s: pointer changes object" % where)
                a, c = a.o, c.o
            elif type(c) not in (int, Lin): raise SummaryFailed("loop at %s: variable %s" % (where, k))
            elif type(a) is int and a >> 31: a = _sg(a, S.frames[fi].fn, k)
            d = lsub(lsub(c, a), lmul(sig, kp))
            if r.sub: d = lsubst(d, r.sub)
            q = ldivx(d, kp)
            if q is not None and t is None: t = q
            ds.append((k, d, kp))
        if t is None: raise SummaryFailed("loop at %s: irregular step of %s" % (where, k))
        for k, d, kp in ds:
            if d != lmul(t, kp) and not r.pc.prove(b_eq(d, lmul(t, kp))): raise SummaryFailed("loop at %s: variables advance unequally (%s)" % (where, k))
        return t

    def bounded(self, r, n, sn, old):
        """some fact bounds the progress by loop-independent quantities"""
        if sn in r.sub and (type(r.sub[sn]) is int or set(r.sub[sn].t) <= old): return True
        for b in r.pc.cons:
            q = set(); _besyms(b, q)
            if sn not in q: continue
            if b[0] == "ge" and b[1].t.get(sn, 0) < 0 and q <= old: return True
            if b[0] == "eq" and q <= old: return True
        # ask the solver: is there an upper bound (all program integers are below 2^64)
        return r.pc.prove(b_le(sym(sn), 1 << 66))

    # ---- theory state
    def find_shift(self, S, backs, ts, A, floats, after, regs0):
        x, th = self.x, self.x.th
        votes = {}
        for b, t in zip(backs, ts):
            pm = pins(b, S, t)
            cells = [(x.rd1(S, x._f32(), rid, o), x.rd1(b, x._f32(), rid, o)) for rid in A for o, cls in th.state[rid].items() if cls is not None]
            cells += [(regs0[k], after(b, k)) for k in floats]
            for s in th.shift_candidates(cells, t):
                k = ldivx(s, t) if type(t) is int and type(s) is int else _q(s, t)
                if k is None: continue
                n = sum(1 for a, c in cells if type(a) is N and type(c) is N and self.agree(c, th.shift(a, s), pm, S, b))
                votes[k] = votes.get(k, 0) + n
        if not votes: return 0
        return max(votes, key=lambda k: (votes[k], -abs(k)))
    def agree(self, u, v, pm, S, b):
        """are two values the same, unfolded to the base of the start or of the end of an iteration?"""
        th = self.x.th
        u, v = nsubst(u, pm), nsubst(v, pm)
        if th.eq(th.norm(u, S), th.norm(v, S)): return True
        f = b.ghost["floor"]
        return f != S.ghost["floor"] and th.eq(th.norm(u, b), th.norm(v, b))
    def matching(self, S, backs, ts, rid, kc):
        x, th = self.x, self.x.th
        ok = {}
        pm = [pins(b, S, t) for b, t in zip(backs, ts)]
        for o, cls in th.state[rid].items():
            good = cls is not None
            if good:
                a = x.rd1(S, x._f32(), rid, o)
                good = type(a) is N and all(self.agree(x.rd1(b, x._f32(), rid, o), th.shift(a, lmul_(kc, t)), p, S, b) for b, t, p in zip(backs, ts, pm))
            ok[o] = good
        return ok

    # ---- streaming windows
    def windows(self, S, bk, tt, sig, sn, written, A):
        """rid -> (w0, kw, es, kind, tm): all earlier iterations together have written [w0, w0+kw*s) with the template,
        or None (unspecified)"""
        wins = {}
        for rid in written:
            if rid in A: continue
            ps = [self.parts(r, rid) for r in bk]
            if not bk or any(p is None for p in ps): wins[rid] = None; continue
            w = None
            for r, t, p in zip(bk, tt, ps):
                w = self.window(r, p, t, sn)
                if w is not None: break
            if w is not None and not all(self.iswin(r, p, t, sig, w) for r, t, p in zip(bk, tt, ps)): w = None
            wins[rid] = w
        return wins
    def parts(self, r, rid):
        """the contiguous pieces written on top of the hole, in order; None if it is anything else"""
        if rid not in r.mem: return None
        L = r.mem[rid].layers
        i = max((j for j, y in enumerate(L) if type(y) is Hole), default=-1)
        if i < 0: return None
        rs = []
        for y in L[i + 1:]:
            if type(y) is dict:
                if y: return None
                continue
            rs.append(y)
        if not rs: return None
        parts = [rs.pop(0)]
        lo, hi = parts[0].lo, parts[0].hi
        while rs:
            for y in rs:
                if r.pc.prove(b_eq(y.lo, hi)): hi = y.hi; parts.append(y); break
                if r.pc.prove(b_eq(y.hi, lo)): lo = y.lo; parts.insert(0, y); break
            else: return None
            rs.remove(y)
        return parts
    def window(self, r, parts, t, sn):
        lo, hi = parts[0].lo, parts[-1].hi
        if type(lo) is not Lin or sn not in lo.t: return None
        kw = lo.t[sn]
        w0 = lsubst(lo, {sn: 0})
        kind, es = parts[0].kind, min(y.es for y in parts)
        if kind != "n": return (w0, kw, es, kind, None)
        for y in parts:
            if y.kind != "n" or y.es != es: return None
            v = y.tm
            if v.op == "c":
                if all(z.tm is v for z in parts): return (w0, kw, es, kind, v)
                return None
            if J in nsyms(v):
                if sn in nsyms(v): continue
                return (w0, kw, es, kind, v)
            if sn in nsyms(v) and r.pc.prove(b_eq(y.hi, ladd(y.lo, es))):
                # one element: element index J = y.lo/es  ->  progress as a function of J
                k = y.lo.t.get(sn) if type(y.lo) is Lin else None
                if not k: continue
                rest = lsubst(y.lo, {sn: 0})
                v = nsubst(v, {sn: lscale(lsub(lmul(sym(J), es), rest), Fraction(1, k))})
                if _intnode(v): return (w0, kw, es, kind, v)
        return None
    def iswin(self, r, parts, t, sig, w):
        w0, kw, es, kind, tm = w
        s = lsubst(sig, r.sub)
        w0, tm = lsubst(w0, r.sub), nsubst(tm, r.sub) if tm is not None else None
        lo, hi = ladd(w0, lmul(s, kw)), ladd(w0, lmul(ladd(s, t), kw))
        if kw < 0: return False
        if not r.pc.prove(b_and([b_eq(parts[0].lo, lo), b_eq(parts[-1].hi, hi)])): return False
        for y in parts:
            if y.kind != kind: return False
            if kind != "n": continue
            if y.es != es: return False
            if J in nsyms(y.tm) or y.tm.op == "c":
                if y.tm is not tm: return False
            else:
                e = ldivx(y.lo, es)
                if e is None or not r.pc.prove(b_eq(y.hi, ladd(y.lo, es))) or nsubst(tm, {J: e}) is not y.tm: return False
        return True
    def fill(self, r, S, wins, sig):
        for rid, w in wins.items():
            if rid not in r.mem: continue
            L = r.mem[rid].layers
            i = max((j for j, y in enumerate(L) if type(y) is Hole and y.rid == rid), default=-1)
            if i < 0: continue
            base = [dict(y) if type(y) is dict else y for y in S.mem[rid].layers]
            if w is None:
                sz = self.x.regions[rid].size
                below = [Rng(0, sz, 1, "j")]
            else:
                below = base
                lo, hi = lsubst(w[0], r.sub), lsubst(ladd(w[0], lmul(sig, w[1])), r.sub)
                r.mem[rid] = Content(base, r.owner)
                self.x.push(r, rid, Rng(lo, hi, w[2], w[3], nsubst(w[4], r.sub) if w[4] is not None else None))
                below = r.mem[rid].layers
            tail = L[i + 1:]
            r.mem[rid] = Content(below, r.owner)
            for y in tail:
                if type(y) is dict: r.mem[rid].layers.append(dict(y))
                else: self.x.push(r, rid, y)
    def run_windows(self, run_general, C, wins, S, sig):
        raise SummaryFailed("loop reads memory written by earlier iterations")

    # ---- after the loop: express the progress by older symbols
    def solve(self, r, sn, sig):
        seen = 0
        for b in list(r.pc.cons):
            if b is True or b is False or b[0] not in ("ge", "eq"): continue
            l = b[1]
            c = l.t.get(sn)
            if c is None: continue
            seen += 1
            if seen > 12: break
            if b[0] == "ge" and not r.pc.prove(b_le(l, 0)): continue
            rest = mk({k: v for k, v in l.t.items() if k != sn}, l.c)
            e = ldivx(lmul(rest, -1), c)
            if e is None: continue
            r.subst({sn: e})
            break
        return r

def sv(v, m):
    if not m: return v
    if type(v) is Lin: return lsubst(v, m)
    if type(v) is Ptr: return Ptr(v.r, lsubst(v.o, m))
    if type(v) is N: return nsubst(v, m)
    if type(v) is tuple: return tuple(sv(e, m) for e in v)
    return v
def bsub(r, b):
    return b_subst(b, r.sub) if r.sub else b
def pins(st, S, t):
    """substitution that holds on a path which fixes the length of its iteration"""
    d = forced(st, t)
    return {**st.sub, **d} if d else st.sub
def forced(st, t):
    """the symbols of t whose value follows from the path condition"""
    if type(t) is not Lin: return {}
    m = st.pc.model()
    if m is None: return {}
    return {k: m[k] for k in t.t if k in m and st.pc.prove(b_eq(sym(k), m[k]))}
def pin(st, v):
    m = st.pc.model()
    if m is None: return v
    c = v.c + sum(k * m.get(s, 0) for s, k in v.t.items())
    return c if st.pc.prove(b_eq(v, c)) else v
def th_state(x, rid):
    return x.th is not None and rid in x.th.state
def _plain(st, rid):
    """cells of a region that holds only a few plain variables at fixed offsets, or None"""
    c = st.mem.get(rid)
    if c is None: return None
    out = {}
    for L in c.layers:
        if type(L) is not dict: return None
        out.update(L)
    if len(out) > 64 or any(type(v[1]) is N for v in out.values()): return None
    return out
def _cell(st, k):
    c = _plain(st, k[1])
    c = c.get(k[2]) if c is not None else None
    return c[1] if c is not None else UNDEF
def lmul_(k, t):
    return lmul(t, k)
def _sg(v, fn, k):
    w = 64 if v >> 32 else 32
    return v - (1 << w) if v >> (w - 1) & 1 else v
def _d(a, c):
    d = lsub(c, a)
    if type(d) is int:
        for w in (32, 64):
            if abs(d) > (1 << (w - 1)) and abs(d) < (1 << w): d = d - (1 << w) if d > 0 else d + (1 << w)
    return d
def _ratio(a, b):
    """a/b as Fraction if proportional"""
    if type(a) is int and type(b) is int:
        return Fraction(a, b) if b else None
    if type(b) is int: return None if b else None
    if type(a) is int: return Fraction(0) if a == 0 else None
    k = next(iter(b.t))
    if k not in a.t: return None
    q = Fraction(a.t[k]) / Fraction(b.t[k])
    return q if lscale(b, q) == a or lsub(lscale(b, q), a) == 0 else None
def _q(s, t):
    r = _ratio(s, t)
    return r.numerator if r is not None and r.denominator == 1 else None
def _content(t):
    if type(t) is int: return abs(t)
    g = abs(t.c) if type(t.c) is int else 0
    for v in t.t.values():
        if type(v) is not int: return None
        g = gcd(g, v)
    return g
def _eqv(a, c):
    if a is c: return True
    if type(a) is not type(c): return False
    if type(a) in (int, Lin, Ptr, FPtr): return a == c
    if type(a) is Bool: return a.e == c.e
    if type(a) is tuple: return len(a) == len(c) and all(_eqv(p, q) for p, q in zip(a, c))
    return False
def _same_layers(a, b):
    if len(a) != len(b): return False
    for p, q in zip(a, b):
        if p is q: continue
        if type(p) is dict and type(q) is dict:
            if len(p) != len(q): return False
            for o, c in p.items():
                d = q.get(o)
                if d is None or (d is not c and (d[0] != c[0] or not _eqv(d[1], c[1]))): return False
            continue
        return False
    return True
def _besyms(b, out):
    if b is True or b is False: return
    k = b[0]
    if k in ("ge", "eq", "ne"): out.update(b[1].t)
    elif k in ("and", "or"):
        for y in b[1]: _besyms(y, out)
def _bekey(b):
    k = b[0]
    if k in ("ge", "eq", "ne"): return (k, b[1].key)
    if k in ("and", "or"): return (k,) + tuple(_bekey(y) for y in b[1])
    return b
def _intnode(n):
    for a in atoms(n):
        i = a.a[1]
        if not is_int_lin(i): return False
    return True
