"""Symbolic executor for the decoded IR: memory model, obligations, path exploration."""
import sys, time
from .vals import *
from .logic import PC, STATS, USED
from .ir import GRef, Const, AggC, FloatC, Func, IRError, INT

sys.setrecursionlimit(20000)
J = "J#"                      # bound variable of range templates: element index (offset / element size)

class Fork(Exception):
    """the path must be split: by conditions, or by a list of state transformers"""
    def __init__(s, conds, sets=None): s.conds, s.sets = conds, sets
class Rec:
    """what one execution of a function read, wrote and returned; another call that reads the same does the same"""
    __slots__ = ("key", "cnt", "nsym", "own", "reads", "writes", "wiv", "peak", "base", "nfast", "funcs", "dead")
    def __init__(s, key): s.key, s.own, s.reads, s.writes, s.wiv, s.peak, s.funcs, s.dead = key, set(), {}, [], {}, 0, [], False
class Stop:
    """end of a loop iteration: back edge to header, or leaving the body, at the given frame depth"""
    __slots__ = ("depth", "header", "body")
    def __init__(s, depth, header, body): s.depth, s.header, s.body = depth, header, body
class Killed(Exception):
    """the path cannot continue (failed obligation that excludes every continuation)"""
class Limit(Exception):
    pass

class Region:
    __slots__ = ("id", "size", "kind", "align", "res", "ro", "name", "esz", "site")
    def __init__(s, id, size, kind, align=16, res=0, ro=False, name="", site=""):
        s.id, s.size, s.kind, s.align, s.res, s.ro, s.name, s.site = id, size, kind, align, res, ro, name, site
    def __repr__(s): return "%s(%s,%r)" % (s.id, s.kind, s.size)

class Rng:
    """elements of size es at byte offsets lo, lo+es, .. < hi.  kind: n template, z zero bytes, j unspecified, u uninitialised"""
    __slots__ = ("lo", "hi", "es", "kind", "tm")
    def __init__(s, lo, hi, es, kind, tm=None):
        s.lo, s.hi, s.es, s.kind, s.tm = lo, hi, es, kind, tm
    def __repr__(s): return "Rng[%r,%r)%s %r" % (s.lo, s.hi, s.kind, s.tm)

class Hole:
    """content of a region before the current loop iteration; filled in when the loop has been understood"""
    __slots__ = ("layers", "rid", "read")
    def __init__(s, rid=None): s.layers, s.rid, s.read = None, rid, False

class Content:
    __slots__ = ("layers", "owner")
    def __init__(s, layers, owner): s.layers, s.owner = layers, owner

class Frame:
    __slots__ = ("fn", "regs", "block", "ip", "prev", "allocas", "dst", "nxt", "cont", "base", "rec")
    def clone(s):
        f = Frame()
        f.rec = s.rec
        f.fn, f.regs, f.block, f.ip, f.prev = s.fn, dict(s.regs), s.block, s.ip, s.prev
        f.allocas, f.dst, f.nxt, f.cont, f.base = list(s.allocas), s.dst, s.nxt, s.cont, s.base
        return f

class State:
    __slots__ = ("frames", "mem", "pc", "live", "wraps", "ghost", "ret", "owner", "written", "trace", "log", "pend", "tag", "sub")
    _own = [0]
    def __init__(s):
        s.frames, s.mem, s.pc, s.live, s.wraps, s.ghost = [], {}, PC(), {}, {}, {}
        s.ret = None
        s.owner = s.newowner()
        s.written = set()      # ids of regions written on this path
        s.trace = ()
        s.log = None
        s.pend = s.tag = None
        s.sub = {}
    @staticmethod
    def newowner():
        State._own[0] += 1
        return State._own[0]
    def clone(s):
        n = State()
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem)
        n.pc = s.pc.fork()
        n.live = dict(s.live)
        n.wraps = dict(s.wraps)
        n.ghost = dict(s.ghost)
        n.ret = s.ret
        n.written = set(s.written)
        n.trace = s.trace
        n.log = s.log
        n.pend, n.tag = s.pend, s.tag
        n.sub = dict(s.sub)
        s.owner = s.newowner()
        return n
    def subst(s, m, asserted=True):
        """replace symbols by expressions everywhere (they are known to be equal)"""
        m = dict(m)
        for _ in range(4):           # quotients and wrap counters that become known
            more = {}
            for key, q in s.wraps.items():
                if key[0] not in "dw" or type(q) is not Lin: continue
                l = lsubst(Lin(dict(key[1][0]), key[1][1]), m)
                if type(l) is int and key[0] == "d":
                    for k in q.t:
                        if k not in m and q == sym(k): more[k] = l // key[2]
            if not more: break
            m.update(more)
        memo = {}
        def sub(v):
            t = type(v)
            if t is Lin: return lsubst(v, m)
            if t is Ptr: return Ptr(v.r, lsubst(v.o, m)) if type(v.o) is Lin else v
            if t is N: return nsubst(v, m, memo)
            if t is Bool:
                e = b_subst(v.e, m)
                return 1 if e is True else 0 if e is False else Bool(e)
            if t is tuple: return tuple(sub(e) for e in v)
            if t is Packed: return Packed(tuple(sub(e) for e in v.parts))
            return v
        s.sub = {k: lsubst(v, m) for k, v in s.sub.items()}
        for k, v in m.items(): s.sub.setdefault(k, v)
        for f in s.frames:
            for k, v in f.regs.items():
                if type(v) in (Lin, Ptr, N, Bool, tuple, Packed): f.regs[k] = sub(v)
        for rid in list(s.mem):
            s.mem[rid] = Content([_lsub(L, sub, m) for L in s.mem[rid].layers], s.owner)
        for k, v in s.ghost.items():
            if type(v) in (Lin, N): s.ghost[k] = sub(v)
        if type(s.ret) in (Lin, Ptr, N, Bool, tuple): s.ret = sub(s.ret)
        old = s.pc
        s.pc = PC()
        s.pc.infeasible = old.infeasible
        for b in old.cons:
            if b is False: s.pc.infeasible = True
            else: s.pc.assume(b_subst(b, m))
        w = {}
        for key, q in s.wraps.items():
            if key[0] in ("d", "w"):
                l = lsubst(Lin(dict(key[1][0]), key[1][1]), m)
                if type(l) is Lin: w[(key[0], l.key) + key[2:]] = sub(q)
            else: w[key] = q
        s.wraps = w
    def content(s, rid):
        """content, private to this state"""
        c = s.mem[rid]
        if c.owner != s.owner:
            l = list(c.layers)
            if l and type(l[-1]) is dict: l[-1] = dict(l[-1])
            c = s.mem[rid] = Content(l, s.owner)
        return c

def _lsub(L, sub, m):
    if type(L) is dict:
        return {o: (c[0], sub(c[1])) for o, c in L.items()}
    if type(L) is Rng:
        return Rng(lsubst(L.lo, m), lsubst(L.hi, m), L.es, L.kind, sub(L.tm) if L.tm is not None else None)
    return L

class Failure:
    __slots__ = ("kind", "msg", "where", "model", "pc", "cond", "ctx", "loose")
    def __init__(s, kind, msg, where, model=None, ctx="", loose=False):
        s.kind, s.msg, s.where, s.model, s.ctx, s.loose = kind, msg, where, model, ctx, loose
    def __repr__(s): return "%s at %s: %s%s%s" % (s.kind, s.where, s.msg, " model=%r" % s.model if s.model else "", " [" + s.ctx + "]" if s.ctx else "")

def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) & 1 else v

class Ex:
    def __init__(self, mod):
        self.mod = mod
        self.regions = {}
        self.nid = 0
        self.nsym = 0
        self.fails = []
        self.obl = {}              # kind -> [generated, discharged]
        self.models = {}
        self.hook = None           # hook(ex, st, fr, ins, callee, args) -> True if handled
        self.on_indirect = None
        self.funcs_used = {}
        self.ninstr = 0
        self.max_instr = 400_000_000
        self.ctx = ""
        self.smallsyms = ()
        self.gstate_reads = set()
        self.malloc_res = 16
        self.loopmgr = None
        self.max_paths = 4000
        self.ptrtoint_in = False
        self.maxstack = 0
        self.loop_depth_limit = 12
        self.effects = set()
        self.recs, self.memo = [], {}
        self.nflops = 0
        self.stackbytes = 0
        self.allow_vla = False
        self.extern_policy = self.io_policy = "record"
        from . import models
        models.install(self)

    # ------------------------------------------------------------ obligations
    def fresh(self, st, base, lo=None, hi=None):
        self.nsym += 1
        n = "%s!%d" % (base, self.nsym)
        l = sym(n)
        if lo is not None: st.pc.assume(b_ge(l, lo))
        if hi is not None: st.pc.assume(b_le(l, hi))
        return l
    def where(self, st):
        if not st.frames: return "?"
        f = st.frames[-1]
        try:
            d = f.fn.dbg[f.block][f.ip]
            return "%s:%d" % (short(f.fn.name), self.mod.line(d))
        except Exception:
            return short(f.fn.name)
    def fail(self, st, kind, msg, cond=None, loose=False):
        c = self.obl.setdefault(kind, [0, 0])
        c[0] += 1
        USED[0] += 1
        m = None
        if cond is not None and not loose and len(self.fails) < 6:
            m = st.pc.model(b_not(cond), self.smallsyms)
        f = Failure(kind, msg, self.where(st), m, self.ctx, loose)
        f.pc, f.cond = (st.pc.fork(), cond) if len(self.fails) < 20 else (None, None)
        if len(self.fails) < 200:
            self.fails.append(f)
    def oblige(self, st, kind, be, msg):
        """be must hold on this path; afterwards it may be assumed"""
        if st.pc.prove(be):
            c = self.obl.get(kind)
            if c is None: c = self.obl[kind] = [0, 0]
            c[0] += 1; c[1] += 1
            return True
        if not st.pc.feasible():
            raise Killed()
        self.fail(st, kind, msg() if callable(msg) else msg, be)
        if not st.pc.feasible(be):
            raise Killed()
        st.pc.assume(be)
        return False
    def ok(self, kind, n=1):
        c = self.obl.setdefault(kind, [0, 0])
        c[0] += n; c[1] += n

    # ------------------------------------------------------------ regions
    def region(self, st, size, kind, layers=None, align=16, res=0, ro=False, name="", rid=None):
        if rid is None:
            self.nid += 1
            rid = "%s%d" % (kind[0], self.nid)
        r = Region(rid, size, kind, align, res, ro, name)
        self.regions[rid] = r
        for q in self.recs: q.own.add(rid)
        st.mem[rid] = Content(layers if layers is not None else [{}], st.owner)
        return Ptr(rid, 0)
    def global_ptr(self, st, g):
        name = g.name
        if name is None:
            return NULL if g.off == 0 else Ptr(None, g.off)
        name = self.mod.aliases.get(name, name)
        if name in self.mod.ftext or name in self.mod.decls:
            return FPtr(name)
        rid = "@" + name
        if rid not in self.regions:
            gl = self.mod.globals.get(name)
            if gl is None:
                raise Unsupported("unknown global " + name)
            ty, init, const, tls = gl
            sz = self.mod.size(ty)
            self.regions[rid] = Region(rid, sz, "const" if const else "global", 16, 0, const, name)
        if rid not in st.mem:
            gl = self.mod.globals[name]
            cells = {}
            if gl[1] is None:
                lay = [Rng(0, self.regions[rid].size, 1, "j")]
            else:
                self._ginit(st, gl[0], gl[1], cells)
                lay = [cells]
            st.mem[rid] = Content(lay, st.owner)
        return Ptr(rid, g.off)
    def _ginit(self, st, ty, text, cells):
        f = Func.__new__(Func)
        f.mod = self.mod
        v, _ = f.const(text + "  ", 0, ty)
        def put(ty, v, off):
            if isinstance(v, Const):
                if v.k == "zero": self._zero(ty, off, cells)
                return
            if isinstance(v, AggC):
                if ty.k == "struct":
                    for e, o, x in zip(ty.els, self.mod.offsets(ty), v.items): put(e, x, off + o)
                else:
                    es = self.mod.size(ty.el)
                    for i, x in enumerate(v.items): put(ty.el, x, off + i * es)
                return
            if isinstance(v, GRef):
                if v.name is not None and (v.name in self.mod.ftext or v.name in self.mod.decls): x = FPtr(v.name)
                elif v.name is None: x = NULL
                else: x = GRef(v.name, v.off)
                cells[off] = (8, x); return
            if isinstance(v, FloatC):
                cells[off] = (self.mod.size(ty), fconst(v.v, ty.k)); return
            cells[off] = (self.mod.size(ty), v)
        put(ty, v, 0)
    def _zero(self, ty, off, cells):
        k = ty.k
        if k == "struct":
            for e, o in zip(ty.els, self.mod.offsets(ty)): self._zero(e, off + o, cells)
        elif k in ("arr", "vec"):
            es = self.mod.size(ty.el)
            for i in range(ty.n): self._zero(ty.el, off + i * es, cells)
        else:
            cells[off] = (self.mod.size(ty), self.zero(ty))
    def zero(self, ty):
        k = ty.k
        if k == "int": return 0
        if k == "ptr": return NULL
        if k in ("f32", "f64"): return F0[k]
        if k in ("vec", "arr"): return (self.zero(ty.el),) * ty.n
        if k == "struct": return tuple(self.zero(e) for e in ty.els)
        raise Unsupported("zero " + k)

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, size, align, write):
        if type(p) is not Ptr:
            if type(p) is FPtr: self.fail(st, "memory", "access through a function pointer")
            elif type(p) is Undef: self.fail(st, "memory", "access through an uninitialised pointer", loose=p is STALE)
            else: self.fail(st, "memory", "access through a pointer that was never derived from an object", loose=True)
            raise Killed()
        if p.r is None:
            self.fail(st, "memory", "null pointer dereference")
            raise Killed()
        if p.r not in st.mem:
            r0 = self.regions[p.r]
            if r0.kind in ("const", "global"):
                self.global_ptr(st, GRef(r0.name))
            else:
                self.fail(st, "memory", "access to released %s object" % r0.kind)
                raise Killed()
        r = self.regions[p.r]
        o, rs = p.o, r.size
        if type(rs) is Lin and st.sub: rs = lsubst(rs, st.sub)
        if type(o) is int and type(rs) is int and type(size) is int:
            if o < 0 or o + size > rs:
                self.fail(st, "bounds", "%s %d bytes at offset %d of %s (%d bytes)" % ("writes" if write else "reads", size, o, rname(r), rs), False)
                raise Killed()
            self.nfast += 1
        else:
            self.oblige(st, "bounds", b_ge(o, 0), lambda: "%s below the start of %s" % ("write" if write else "read", rname(r)))
            self.oblige(st, "bounds", b_le(ladd(o, size), rs), lambda: "%s %d bytes at offset %r of %s (%r bytes)" % ("writes" if write else "reads", size, o, rname(r), rs))
        if align > 1 and r.res is None:
            if align > r.align:
                m = self.modk(st, self.addr(st, p), align)
                self.oblige(st, "alignment", b_eq(m, 0), lambda: "%d-byte aligned access at offset %r of %s" % (align, o, rname(r)))
            else:
                m = self.modk(st, o, align)
                if m != 0: self.oblige(st, "alignment", b_eq(m, 0), lambda: "%d-byte aligned access at offset %r of %s" % (align, o, rname(r)))
        elif align > 1:
            if type(o) is int:
                if r.align < align and (r.res is None or r.align * 1 < align) or (r.res + o) % align:
                    if not (r.align % align == 0 and (r.res + o) % align == 0):
                        self.fail(st, "alignment", "%d-byte aligned access at offset %d of %s" % (align, o, rname(r)), False)
            else:
                if r.align % align:
                    self.fail(st, "alignment", "%d-byte aligned access to %s" % (align, rname(r)), False)
                else:
                    m = self.modk(st, ladd(o, r.res), align, False)
                    if m != 0:
                        self.oblige(st, "alignment", b_eq(m, 0), lambda: "%d-byte aligned access at offset %r of %s" % (align, o, rname(r)))
        if write:
            if r.ro:
                self.fail(st, "frame", "writes to %s" % rname(r))
                raise Killed()
            if r.kind == "global":
                self.effects.add(("global-write", r.name))
            st.written.add(p.r)
        elif r.kind == "global":
            self.effects.add(("global-read", r.name))
        return r
    nfast = 0
    hole_read = False
    th = None

    def load(self, st, ty, p, align=1):
        sz = self.mod.size(ty)
        if not self.recs:
            self.check_access(st, p, sz, align, False)
            return self.rd(st, ty, p.r, p.o)
        u = USED[0]
        self.check_access(st, p, sz, align, False)
        v = self.rd(st, ty, p.r, p.o)
        USED[0] = u
        self.rec_read(ty, p, sz, align, v)
        return v
    # ------------------------------------------------------------ repeated calls
    recs = ()
    memo_hits = 0
    def rec_begin(self, st, f, name, args):
        """a call of a function with loops: either repeat what an earlier call did (True), or record this one"""
        k = [name]
        for a in args:
            t = type(a)
            if t is Ptr: k.append((a.r, a.o))
            elif t is int or t is Lin: k.append(a)
            elif t is N: k.append(("n", a.id))
            else: return None
        key = tuple(k)
        for r in self.memo.get(key, ()):
            if self.rec_same(st, r): return r
        r = Rec(key)
        r.cnt, r.nsym, r.nfast = USED[0], self.nsym, self.nfast
        r.base = sum(self.regions[a].size for q in st.frames for a in q.allocas if type(self.regions[a].size) is int)
        if len(self.recs) >= 3: self.recs.pop(0)
        self.recs.append(r)
        f.append(r)
        return None
    def rec_read(self, ty, p, sz, align, v):
        for r in self.recs:
            if r.dead or p.r in r.own: continue
            if r.cnt != USED[0]: r.dead = True; continue
            w = r.wiv.get(p.r)
            if w is not None:
                if type(p.o) is not int: r.dead = True; continue
                if w.get(p.o) == sz: continue
                if any(a < p.o + sz and p.o < a + n for a, n in w.items()): r.dead = True; continue
            k = (p.r, p.o, sz, ty.k, align)
            if k not in r.reads: r.reads[k] = (ty, p, v)
    def rec_write(self, ty, p, sz, align, v):
        for r in self.recs:
            if r.dead or p.r in r.own: continue
            if r.cnt != USED[0] or type(v) is Ptr and v.r in r.own: r.dead = True; continue
            if type(p.o) is int: r.wiv.setdefault(p.r, {})[p.o] = sz
            elif any(k[0] == p.r for k in r.reads): r.dead = True; continue
            else: r.wiv.setdefault(p.r, {})[None] = 0
            r.writes.append((ty, p, v, align))
    def rec_same(self, st, r):
        n, u = self.nfast, USED[0]
        for k, (ty, p, v) in r.reads.items():
            if p.r not in st.mem and self.regions[p.r].kind not in ("const", "global"): break
            w = self.rd(st, ty, p.r, p.o)
            if w is v: continue
            if type(w) is tuple:
                if type(v) is tuple and len(v) == len(w) and all(a is b for a, b in zip(v, w)): continue
                break
            if type(w) is not type(v) or type(w) not in (int, Ptr, FPtr, Lin) or w != v: break
        else: return True
        return False
    def rec_repeat(self, st, r, ret):
        self.memo_hits += 1
        recs, self.recs = self.recs, []
        try:
            n = self.nfast
            for k, (ty, p, v) in r.reads.items(): self.check_access(st, p, k[2], k[4], False)
            for ty, p, v, align in r.writes: self.store(st, ty, p, v, align)
            self.nfast = n + r.nfast
        finally:
            self.recs = recs
        for q in recs: q.dead = True
        b = sum(self.regions[a].size for q in st.frames for a in q.allocas if type(self.regions[a].size) is int)
        self.stackbytes = max(self.stackbytes, b + r.peak)
        for f in r.funcs: self.funcs_used[f] = self.funcs_used.get(f, 0) + 1
    def rec_end(self, st, r, v):
        if r not in self.recs: return
        while self.recs.pop() is not r: pass
        if r.dead or r.cnt != USED[0] or r.nsym != self.nsym or type(v) is Ptr and v.r in r.own: return
        if type(v) not in (int, Ptr, N, Lin, tuple, type(None)): return
        if None in (w for q in r.wiv.values() for w in q) and any(k[0] in r.wiv and None in r.wiv[k[0]] for k in r.reads): return
        r.nfast = self.nfast - r.nfast
        r.own = None
        l = self.memo.setdefault(r.key, [])
        l.insert(0, r)
        r.cnt = v
        if len(l) > 6: l.pop()
    def rd(self, st, ty, rid, o):
        k = ty.k
        if k in ("vec", "arr"):
            es = self.mod.size(ty.el)
            return tuple(self.rd(st, ty.el, rid, ladd(o, i * es)) for i in range(ty.n))
        if k == "struct":
            return tuple(self.rd(st, e, rid, ladd(o, x)) for e, x in zip(ty.els, self.mod.offsets(ty)))
        v = self.rd1(st, ty, rid, o)
        t = type(v)
        if t is GRef:
            return self.global_ptr(st, v)
        if k == "f32" and t is int:
            if v == 0: return F0["f32"]
            import struct as S
            return fconst(S.unpack("<f", S.pack("<I", v))[0], "f32")
        if k == "f64" and t is int:
            if v == 0: return F0["f64"]
            import struct as S
            return fconst(S.unpack("<d", S.pack("<Q", v))[0], "f64")
        if k == "ptr" and t is int:
            if v == 0: return NULL
        if k == "int" and t is Ptr and v == NULL: return 0
        if k == "int" and t is N:
            if v.op == "c":
                import struct as S
                return int.from_bytes(S.pack("<f" if v.ty == "f32" else "<d", v.a[0]), "little")
            raise Unsupported("float bits read as integer")
        return v
    def rd1(self, st, ty, rid, o):
        """read one scalar"""
        sz = self.mod.size(ty)
        for L in reversed(st.mem[rid].layers):
            if type(L) is dict:
                if not L: continue
                if type(o) is int:
                    c = L.get(o)
                    if c is not None:
                        if c[0] == sz: return c[1]
                        return self._partial(st, L, ty, o, sz, rid)
                    for d in range(1, 16):
                        c = L.get(o - d)
                        if c is not None and c[0] > d:
                            return self._partial(st, L, ty, o, sz, rid)
                    for d in range(1, sz):
                        if o + d in L:
                            return self._partial(st, L, ty, o, sz, rid)
                    continue
                lo, hi = min(L), max(a + b[0] for a, b in L.items())
                if st.pc.prove(b_le(ladd(o, sz), lo)) or st.pc.prove(b_ge(o, hi)): continue
                return self._symread(st, L, ty, o, sz, lo, hi)
            if type(L) is Hole:
                L.read = True
                return STALE if ty.k != "f32" else self.junk()
            lo, hi = L.lo, L.hi
            ins = b_and([b_le(lo, o), b_le(ladd(o, sz), hi)])
            if not st.pc.prove(ins):
                below, above = b_le(ladd(o, sz), lo), b_ge(o, hi)
                if st.pc.prove(below) or st.pc.prove(above): continue
                raise Fork([ins, below, above])
            return self._rngval(st, L, ty, o, sz)
        return UNDEF
    def _rngval(self, st, L, ty, o, sz):
        if L.kind == "z": return self.zero(ty)
        if L.kind == "u": return UNDEF
        if L.kind == "j": return self.junk() if ty.k == "f32" else STALE
        if sz == 8 and L.es == 4 and ty.k == "int":
            return Packed((self._rngval(st, L, self._f32(), o, 4), self._rngval(st, L, self._f32(), ladd(o, 4), 4)))
        if sz != L.es: raise Unsupported("element size mismatch in range read")
        i = ldivx(o, L.es)
        if i is None:
            d = lsub(o, L.lo)
            raise Unsupported("misplaced element read at %r" % o)
        tm = L.tm
        if tm.op == "x":
            j = tm.a[1]
            return atom(tm.a[0], lsubst(j, {J: i}), tm.ty) if type(j) is Lin and J in j.t else tm
        return nsubst(tm, {J: i})
    _F32 = None
    def _f32(self):
        from .ir import F32
        return F32
    def junk(self):
        self.nsym += 1
        return atom("junk!%d" % self.nsym, 0)
    def _partial(self, st, L, ty, o, sz, rid):
        from .ir import F32
        if ty.k == "int" and sz == 8:
            a, b = L.get(o), L.get(o + 4)
            if a and b and a[0] == 4 and b[0] == 4 and type(a[1]) is not int:
                return Packed((a[1], b[1]))
        if ty.k in ("int",) and all(type(c[1]) is int for c in (L.get(o + i) for i in range(sz)) if c) :
            bs = []
            for i in range(sz):
                v = None
                for d in range(0, 16):
                    c = L.get(o + i - d)
                    if c is not None:
                        if c[0] > d:
                            if type(c[1]) is not int: raise Unsupported("mixed-size read")
                            v = c[1] >> (8 * d) & 255
                        break
                if v is None: raise Unsupported("mixed-size read")
                bs.append(v)
            return int.from_bytes(bytes(bs), "little")
        if ty.k == "f32":
            c = L.get(o) or L.get(o - 4)
            if c and type(c[1]) is Packed:
                return c[1].parts[0 if o in L else 1]
        raise Unsupported("mixed-size read of %r at %r" % (ty, o))
    def _symread(self, st, L, ty, o, sz, lo, hi):
        # table lookup with a symbolic index: split over the possible cells
        offs = [a for a, b in L.items() if b[0] == sz]
        cand = [a for a in offs if st.pc.feasible(b_eq(o, a))] if len(offs) <= 64 else None
        if not cand: self.split_small(st, o)
        if not cand: raise Unsupported("symbolic read at %r from individually known cells" % o)
        rest = b_and([b_not(b_eq(o, a)) for a in cand])
        if st.pc.prove(b_or([b_eq(o, a) for a in cand])):
            if len(cand) == 1: return L[cand[0]][1]
            raise Fork([b_eq(o, a) for a in cand])
        raise Unsupported("symbolic read at %r from individually known cells" % o)

    def store(self, st, ty, p, v, align=1):
        sz = self.mod.size(ty)
        if not self.recs:
            self.check_access(st, p, sz, align, True)
            self.wr(st, ty, p.r, p.o, v)
            return
        u = USED[0]
        self.check_access(st, p, sz, align, True)
        self.wr(st, ty, p.r, p.o, v)
        USED[0] = u
        self.rec_write(ty, p, sz, align, v)
    def wr(self, st, ty, rid, o, v):
        k = ty.k
        if k in ("vec", "arr"):
            es = self.mod.size(ty.el)
            if type(v) is Undef: v = (v,) * ty.n
            for i in range(ty.n): self.wr(st, ty.el, rid, ladd(o, i * es), v[i])
            return
        if k == "struct":
            if type(v) is Undef: v = (v,) * len(ty.els)
            for e, x, y in zip(ty.els, self.mod.offsets(ty), v): self.wr(st, e, rid, ladd(o, x), y)
            return
        sz = self.mod.size(ty)
        if type(v) is Packed:
            from .ir import F32
            for i, q in enumerate(v.parts): self.wr1(st, rid, ladd(o, 4 * i), 4, q)
            return
        self.wr1(st, rid, o, sz, v)
    def wr1(self, st, rid, o, sz, v):
        if self.th is not None and type(v) is N and rid == self.th.out:
            v = self.th.fold(self, st, o, v)
        c = st.content(rid)
        Ls = c.layers
        if type(o) is int:
            if not Ls or type(Ls[-1]) is not dict:
                Ls.append({})
            d = Ls[-1]
            old = d.get(o)
            if old is None or old[0] != sz:
                for k in range(1, 16):
                    x = d.get(o - k)
                    if x is not None and x[0] > k:
                        self._split(d, o - k, x)
                for k in range(0, sz):
                    x = d.get(o + k)
                    if x is not None:
                        if x[0] + k > sz: self._split(d, o + k, x)
                        if o + k in d: del d[o + k]
            d[o] = (sz, v)
        else:
            if type(v) is N and sz in (4, 8):
                self.push(st, rid, Rng(o, ladd(o, sz), sz, "n", v))
            elif type(v) is Undef:
                self.push(st, rid, Rng(o, ladd(o, sz), sz, "u"))
            elif v == 0:
                self.push(st, rid, Rng(o, ladd(o, sz), 1, "z"))
            else:
                raise Unsupported("store of a non-float at a symbolic offset")
    def _split(self, d, o, x):
        del d[o]
        if type(x[1]) is int:
            for i in range(x[0]): d[o + i] = (1, x[1] >> (8 * i) & 255)
        elif type(x[1]) is Undef:
            for i in range(x[0]): d[o + i] = (1, x[1])
        else:
            raise Unsupported("partial overwrite")
    def push(self, st, rid, r):
        """add a range on top of a region's content, merging with an adjacent range of the same template"""
        if st.pc.prove(b_le(r.hi, r.lo)):
            return
        Ls = st.content(rid).layers
        if Ls and type(Ls[-1]) is dict and not Ls[-1]: Ls.pop()
        if Ls and type(Ls[-1]) is dict and type(r.lo) is int and r.kind == "n" and J in nsyms(r.tm):
            lo, d = r.lo, Ls[-1]
            while True:
                c = d.get(lo - r.es)
                if c is None or c[0] != r.es or nsubst(r.tm, {J: (lo - r.es) // r.es}) is not c[1]: break
                lo -= r.es
            if lo != r.lo: r = Rng(lo, r.hi, r.es, r.kind, r.tm)
        while Ls and type(Ls[-1]) is Rng:
            t = Ls[-1]
            if t.kind == r.kind and t.es == r.es and t.tm is r.tm and (r.kind != "n" or J in nsyms(r.tm) or r.tm.op == "c"):
                if t.hi == r.lo or st.pc.prove(b_eq(t.hi, r.lo)):
                    r = Rng(t.lo, r.hi, r.es, r.kind, r.tm); Ls.pop(); continue
                if r.hi == t.lo or st.pc.prove(b_eq(r.hi, t.lo)):
                    r = Rng(r.lo, t.hi, r.es, r.kind, r.tm); Ls.pop(); continue
            if st.pc.prove(b_and([b_le(r.lo, t.lo), b_le(t.hi, r.hi)])):
                Ls.pop(); continue
            m = self._joined(st, t, r)
            if m is not None: r = m; Ls.pop(); continue
            break
        Ls.append(r)
    def _joined(self, st, t, r):
        """a single element next to a range that has the range's value at that place"""
        if t.kind != "n" or r.kind != "n" or t.es != r.es: return None
        a, b = J in nsyms(t.tm), J in nsyms(r.tm)
        if a == b: return None
        g, e = (t, r) if a else (r, t)
        if lsub(e.hi, e.lo) != e.es: return None
        i = ldivx(e.lo, e.es)
        if i is None or nsubst(g.tm, {J: i}) is not e.tm: return None
        if e.lo == g.hi or st.pc.prove(b_eq(e.lo, g.hi)): return Rng(g.lo, e.hi, g.es, "n", g.tm)
        if e.hi == g.lo or st.pc.prove(b_eq(e.hi, g.lo)): return Rng(e.lo, g.hi, g.es, "n", g.tm)
        return None

    def find_cover(self, st, rid, lo, hi):
        """the single range that holds [lo,hi) of a region, or None; Fork if undecided"""
        for L in reversed(st.mem[rid].layers):
            if type(L) is dict:
                if not L: continue
                a, b = min(L), max(x + y[0] for x, y in L.items())
                if st.pc.prove(b_le(hi, a)) or st.pc.prove(b_ge(lo, b)): continue
                return None
            if type(L) is Hole:
                L.read = True
                return None
            if st.pc.prove(b_and([b_le(L.lo, lo), b_le(hi, L.hi)])): return L
            if st.pc.prove(b_le(hi, L.lo)) or st.pc.prove(b_ge(lo, L.hi)): continue
            ins = b_and([b_le(L.lo, lo), b_le(hi, L.hi)])
            out = b_or([b_le(hi, L.lo), b_ge(lo, L.hi)])
            if st.pc.prove(b_or([ins, out])): raise Fork([ins, out])
            return None
        return None

    def copy(self, st, dst, src, n):
        """memmove of n bytes"""
        if type(n) is not int:
            n = self.uval(st, n, 64)
        if type(n) is not int:
            if st.pc.prove(b_eq(n, 0)): n = 0
        if n == 0 : return
        if type(n) is not int:
            if st.pc.feasible(b_eq(n, 0)): raise Fork([b_eq(n, 0), b_gt(n, 0)])
        self.check_access(st, src, n, 1, False)
        self.check_access(st, dst, n, 1, True)
        if type(n) is int and type(src.o) is int:
            cov = self.find_cover(st, src.r, src.o, src.o + n) if n > 64 or type(dst.o) is not int else None
            if cov is None or cov.kind not in ("n", "z"):
                cells = self._cells(st, src.r, src.o, n)
                for o, sz, v in cells:
                    self.wr1(st, dst.r, ladd(dst.o, o), sz, v)
                return
        cov = self.find_cover(st, src.r, src.o, ladd(src.o, n))
        if cov is None:
            if type(n) is int and n % 4 == 0 and n <= 4096:
                from .ir import F32
                vals = [self.rd1(st, F32, src.r, ladd(src.o, i)) for i in range(0, n, 4)]
                for i, v in enumerate(vals): self.wr1(st, dst.r, ladd(dst.o, 4 * i), 4, v)
                return
            self.split_small(st, n)
            if type(n) is int:
                for o in (src.o, dst.o): self.split_small(st, o)
            raise Unsupported("copy of %r bytes from several sources" % n)
        if cov.kind == "n":
            sh = ldivx(lsub(src.o, dst.o), cov.es)
            if sh is None: raise Unsupported("copy shifts by a partial element")
            tm = nsubst(cov.tm, {J: ladd(sym(J), sh)})
        else:
            tm = None
        self.push(st, dst.r, Rng(dst.o, ladd(dst.o, n), cov.es, cov.kind, tm))
    def split_small(self, st, l, small=72):
        """treat each value of an expression with a small range separately"""
        if type(l) is not Lin: return
        g = 0
        for v in l.t.values(): g = gcd(g, v)
        l = ldivx(Lin(l.t, 0), g)
        y = sorted((k for k, v in l.t.items() if abs(v) == 1 and k[0] not in "AB"), key=lambda k: (k[0] == "c", k))
        if not y: return
        y = y[0]
        m = st.pc.model()
        if m is None: raise Killed()
        v = sum(k * m.get(s, 0) for s, k in l.t.items())
        if not (st.pc.prove(b_le(l, v + small)) and st.pc.prove(b_ge(l, v - small))): return
        def mk_(u):
            def f(s2):
                s2.pc.assume(b_eq(l, u))
                s2.subst({y: lmul(lsub(u, mk({k: q for k, q in l.t.items() if k != y}, 0)), l.t[y])})
            return f
        sets = [mk_(u) for u in range(v - small, v + small + 1) if st.pc.feasible(b_eq(l, u))]
        if not sets: raise Killed()
        raise Fork(None, sets)
    def _cells(self, st, rid, o, n):
        """cells of [o, o+n) at concrete offsets, as stored"""
        from .ir import F32
        out, i = [], 0
        Ls = st.mem[rid].layers
        while i < n:
            hit = None
            for L in reversed(Ls):
                if type(L) is dict:
                    c = L.get(o + i)
                    if c is not None and i + c[0] <= n:
                        hit = (i, c[0], c[1]); break
                    if c is None:
                        for d in range(1, 8):
                            x = L.get(o + i - d)
                            if x is not None and x[0] > d:
                                hit = "part"; break
                        if hit == "part": break
                        continue
                    hit = "part"; break
                elif type(L) is Hole:
                    L.read = True
                    hit = "range"; break
                else:
                    if st.pc.prove(b_and([b_le(L.lo, o + i), b_ge(L.hi, o + i + 1)])):
                        hit = "range"; break
                    if st.pc.prove(b_or([b_le(o + i + 1, L.lo), b_ge(o + i, L.hi)])): continue
                    raise Fork([b_and([b_le(L.lo, o + i), b_ge(L.hi, o + i + 1)]), b_not(b_and([b_le(L.lo, o + i), b_ge(L.hi, o + i + 1)]))])
            if hit is None:
                i += 1; continue          # uninitialised byte
            if hit == "part": raise Unsupported("copy of a partial cell")
            if hit == "range":
                if type(L) is Rng and L.kind == "z":
                    out.append((i, 1, 0)); i += 1; continue
                out.append((i, 4, self.rd1(st, F32, rid, o + i))); i += 4; continue
            out.append(hit); i += hit[1]
        return out
    def fill(self, st, dst, byte, n):
        if type(byte) is not int: raise Unsupported("memset with symbolic byte")
        if type(n) is not int: n = self.uval(st, n, 64)
        if n == 0: return
        if type(n) is not int and st.pc.feasible(b_eq(n, 0)): raise Fork([b_eq(n, 0), b_gt(n, 0)])
        self.check_access(st, dst, n, 1, True)
        if byte != 0:
            if type(n) is int and type(dst.o) is int:
                for i in range(n): self.wr1(st, dst.r, dst.o + i, 1, byte)
                return
            raise Unsupported("memset with non-zero byte")
        if type(n) is int and type(dst.o) is int:
            c = st.content(dst.r)
            if c.layers and type(c.layers[-1]) is dict:
                d = c.layers[-1]
                for k in [k for k, x in d.items() if k < dst.o + n and k + x[0] > dst.o]:
                    if k >= dst.o and k + d[k][0] <= dst.o + n: del d[k]
                    else: raise Unsupported("memset over part of a cell")
                c.layers.insert(len(c.layers) - 1, Rng(dst.o, dst.o + n, 1, "z"))
                return
        self.push(st, dst.r, Rng(dst.o, ladd(dst.o, n), 1, "z"))

    # ------------------------------------------------------------ integer views
    def uval(self, st, v, w):
        """unsigned value of a w-bit integer"""
        if type(v) is int: return v
        if type(v) is Lin:
            if st.pc.prove(b_ge(v, 0)) and st.pc.prove(b_le(v, (1 << w) - 1)): return v
            return self.wrap(st, v, w, 0)
        if type(v) is Bool: raise Fork([v.e, b_not(v.e)]) if w > 1 else Unsupported("bool")
        if type(v) is Undef: self.undef(st, v)
        raise Unsupported("integer use of %r" % (v,))
    def sval(self, st, v, w):
        if type(v) is int: return signed(v, w)
        if type(v) is Lin:
            h = 1 << (w - 1)
            if st.pc.prove(b_ge(v, -h)) and st.pc.prove(b_le(v, h - 1)): return v
            return self.wrap(st, v, w, -h)
        if type(v) is Bool: raise Fork([v.e, b_not(v.e)])
        if type(v) is Undef: self.undef(st, v)
        raise Unsupported("integer use of %r" % (v,))
    def undef(self, st, v):
        self.fail(st, "uninitialised", "use of an %s value" % v.why, loose=v is STALE)
        raise Killed()
    debug = False
    nowrap = 0                 # while facts about a loop are being guessed: assume that nothing wraps (never in a verdict)
    nowrap_used = 0
    force_final = False        # loops: do not reuse the exploration that looked for facts
    def wrap(self, st, v, w, lo):
        if self.nowrap:
            be = b_and([b_ge(v, lo), b_le(v, lo + (1 << w) - 1)])
            if st.pc.feasible(be):
                self.nowrap_used += 1
                st.pc.assume(be)
                return v
        key = ("w", v.key, w, lo)
        r = st.wraps.get(key)
        if r is None:
            k = self.fresh(st, "wr")
            r = lsub(v, lmul(k, 1 << w))
            st.pc.assume(b_ge(r, lo)); st.pc.assume(b_le(r, lo + (1 << w) - 1))
            st.wraps[key] = r
        return r
    def divk(self, st, v, k):
        """floor division of a mathematical integer"""
        if type(v) is not Lin: return v // k
        if all(x % k == 0 for x in v.t.values()):
            return mk({s: x // k for s, x in v.t.items()}, v.c // k)
        # split off the divisible part
        div = {s: x // k for s, x in v.t.items() if x % k == 0}
        rest = mk({s: x for s, x in v.t.items() if x % k}, v.c)
        key = ("d", rest.key, k)
        q = st.wraps.get(key)
        if q is None:
            q = self.fresh(st, "q")
            st.pc.assume(b_ge(lsub(rest, lmul(q, k)), 0))
            st.pc.assume(b_le(lsub(rest, lmul(q, k)), k - 1))
            st.wraps[key] = q
        return ladd(mk(div, 0), q)
    def modk(self, st, v, k, create=True):
        if type(v) is not Lin: return v % k
        rest = mk({s: x % k for s, x in v.t.items() if x % k}, v.c % k)
        if type(rest) is not Lin: return rest % k
        return lsub(rest, lmul(self.divk(st, rest, k), k))

    def addr(self, st, p, exact=True):
        """integer value of a pointer; exact: its residue modulo 16 will matter"""
        if type(p) is FPtr: raise Unsupported("address of a function")
        if p.r is None: return p.o
        r = self.regions[p.r]
        s = "A" + p.r
        b = st.pc.bnd.get(((s, 1),))
        if b is None:
            st.pc.assume(b_ge(sym(s), 1)); st.pc.assume(b_le(sym(s), (1 << 47) // r.align))
        if r.align < 16 and r.res is None:
            k = ("res", p.r)
            q = st.ghost.get(k)
            if q is None and exact:
                def mk_(v):
                    def f(s2):
                        s2.ghost[k] = v
                        s2.pc.assume(b_eq(sym(s), ladd(lmul(sym("B" + p.r), 16 // r.align), v)))
                        s2.pc.assume(b_ge(sym("B" + p.r), 0))
                    return f
                raise Fork(None, [mk_(v) for v in range(16 // r.align)])
            if q is not None:
                return ladd(ladd(lmul(sym("B" + p.r), 16), q * r.align), p.o)
            return ladd(lmul(sym(s), r.align), p.o)
        return ladd(ladd(lmul(sym(s), r.align), r.res), p.o)
    def unaddr(self, st, v):
        """pointer from an integer that was computed from an address"""
        hit = None
        for s, c in v.t.items():
            if s[0] in "AB" and s[1:] in self.regions and c == (self.regions[s[1:]].align if s[0] == "A" else 16):
                if hit: raise Unsupported("integer to pointer")
                hit = s[1:]
        if hit is None:
            # rounded addresses: the object the integer provably points into
            for rid in list(st.live):
                r = self.regions[rid]
                if st.pc.bnd.get((("A" + rid, 1),)) is None: continue
                b = self.addr(st, Ptr(rid, 0), False)
                if st.pc.prove(b_and([b_ge(v, b), b_le(v, ladd(b, r.size))])): return Ptr(rid, lsub(v, b))
        if hit is None: raise Unsupported("integer to pointer")
        r = self.regions[hit]
        if r.align < 16 and r.res is None:
            return Ptr(hit, lsub(v, self.addr(st, Ptr(hit, 0), False)))
        return Ptr(hit, lsub(lsub(v, lmul(sym("A" + hit), r.align)), r.res))
    def disjoint(self, st, a, b):
        """two live objects do not overlap"""
        key = ("dis",) + tuple(sorted((a, b)))
        if key in st.wraps: return
        st.wraps[key] = True
        A, B = self.addr(st, Ptr(a, 0), False), self.addr(st, Ptr(b, 0), False)
        st.pc.assume(b_or([b_le(ladd(A, self.regions[a].size), B), b_le(ladd(B, self.regions[b].size), A)]))

    # ------------------------------------------------------------ running
    def val(self, st, fr, o):
        t = type(o)
        if t is str: return fr.regs[o]
        if t is int: return o
        if t is GRef: return self.global_ptr(st, o)
        if t is FloatC: return fconst(o.v, o.ty.k)
        if t is Const:
            if o.k == "zero": return self.zero(o.ty)
            ty = o.ty
            if ty.k in ("vec", "arr"): return (UNDEF,) * ty.n
            if ty.k == "struct": return (UNDEF,) * len(ty.els)
            return UNDEF
        if t is AggC:
            ty = o.ty
            if ty.k == "struct": return tuple(self.val(st, fr, x) for x in o.items)
            return tuple(self.val(st, fr, x) for x in o.items)
        raise Unsupported("operand")
    def push_frame(self, st, name, args, dst=None, nxt=None):
        fn = self.mod.func(name)
        self.funcs_used[name] = self.funcs_used.get(name, 0) + 1
        if len(st.frames) > 200: raise Unsupported("recursion too deep")
        f = Frame()
        f.fn, f.block, f.ip, f.prev, f.allocas, f.dst, f.nxt, f.cont, f.base = fn, fn.entry, 0, None, [], dst, nxt, None, len(st.frames)
        f.regs = r = {}
        f.rec = None
        for (nm, ty), v in zip(fn.params, args): r[nm] = v
        for v in fn.promoted: r["&" + v] = UNDEF
        st.frames.append(f)
        return f

    def call(self, st, name, args):
        """run a function to completion on all paths -> list of states (st.ret holds the result)"""
        base = len(st.frames)
        self.push_frame(st, name, args)
        return self.run(st, base)

    def run(self, st, base, stop=None):
        """explore from st until the frame stack is back to `base` frames (or until `stop`); returns the final states"""
        out, work = [], [st]
        while work:
            st = work.pop()
            r = self.run1(st, base, work, stop)
            if r is not None:
                out.append(r)
                if len(out) > self.max_paths: raise Limit("too many paths")
        return out

    def run1(self, st, base, work, stop):
        """run one path; returns its final state, or None if it ended or was replaced by states on the work list"""
        H = self.H
        frames = st.frames
        if st.pend is not None:
            tgt, st.pend = st.pend, None
            try:
                r = self.goto(st, frames[-1], tgt, work, stop)
            except Fork as f:
                st.pend = tgt
                self.fork(st, f, work)
                work.append(st)
                return None
            except Killed:
                return None
            if r is not True: return r
        while True:
            fr = frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            self.ninstr += 1
            try:
                op = ins[0]
                if op == "getl":
                    fr.regs[ins[1]] = fr.regs[ins[2]]
                    fr.ip += 1
                    continue
                if op == "setl":
                    v = ins[3]
                    fr.regs[ins[1]] = fr.regs[v] if type(v) is str else self.val(st, fr, v)
                    fr.ip += 1
                    continue
                if op == "br":
                    tgt = ins[2]
                elif op == "cbr":
                    c = ins[2]
                    c = fr.regs[c] if type(c) is str else c
                    if type(c) is int:
                        tgt = ins[3] if c & 1 else ins[4]
                    elif type(c) is Bool:
                        e = c.e
                        if st.pc.prove(e): tgt = ins[3]
                        elif st.pc.prove(b_not(e)): tgt = ins[4]
                        else:
                            self.count_fork(st)
                            st2 = st.clone()
                            st2.pc.assume(b_not(e))
                            st2.pend = ins[4]
                            work.append(st2)
                            st.pc.assume(e)
                            tgt = ins[3]
                    elif type(c) is Undef: self.undef(st, c)
                    else: raise Unsupported("branch on %r" % (c,))
                elif op == "switch":
                    v = self.val(st, fr, ins[3])
                    if type(v) is Undef: self.undef(st, v)
                    if type(v) is int:
                        tgt = ins[4]
                        for cv, lb in ins[5]:
                            if cv == v: tgt = lb; break
                    else:
                        v = self.uval(st, v, ins[2].w)
                        alts = [(b_eq(v, cv), lb) for cv, lb in ins[5]]
                        alts.append((b_and([b_not(a) for a, _ in alts]), ins[4]))
                        alts = [(a, lb) for a, lb in alts if st.pc.feasible(a)]
                        if not alts: return None
                        for a, lb in alts[1:]:
                            st2 = st.clone(); st2.pc.assume(a); st2.pend = lb
                            work.append(st2)
                        st.pc.assume(alts[0][0]); tgt = alts[0][1]
                elif op == "ret":
                    if stop is not None and len(frames) == stop.depth:
                        st.tag = "exit"
                        return st
                    v = None if ins[3] is None else self.val(st, fr, ins[3])
                    if fr.rec is not None: self.rec_end(st, fr.rec, v)
                    for rid in fr.allocas: st.mem.pop(rid, None)
                    frames.pop()
                    if len(frames) <= base:
                        st.ret = v
                        return st
                    up = frames[-1]
                    if fr.dst is not None: up.regs[fr.dst] = v
                    if fr.nxt is None:
                        up.ip += 1
                        continue
                    fr, tgt = up, fr.nxt
                elif op == "call":
                    H[op](self, st, fr, ins)
                    if ins[5] is None or st.frames[-1] is not fr or fr.cont != "invoke-done": continue
                    fr.cont = None
                    tgt = ins[5]
                else:
                    H[op](self, st, fr, ins)
                    fr.ip += 1
                    continue
            except Fork as f:
                if not self.fork(st, f, work): return None
                continue
            except Killed:
                return None
            try:
                r = self.goto(st, fr, tgt, work, stop)
            except Fork as f:
                st.pend = tgt
                self.fork(st, f, work)
                work.append(st)
                return None
            except Killed:
                return None
            if r is not True: return r
            if self.ninstr > self.max_instr: raise Limit("instruction budget")
            if self.deadline and self.ninstr & 63 == 0 and time.time() > self.deadline: raise Limit("time budget")

    def fork(self, st, f, work):
        """split the path; the clones repeat the current instruction.  False if no alternative is feasible"""
        USED[0] += 1
        if f.sets is not None:
            self.count_fork(st)
            for fn in f.sets[1:]:
                s2 = st.clone()
                fn(s2)
                if not s2.pc.infeasible: work.append(s2)
            f.sets[0](st)
            return not st.pc.infeasible
        alive = [c for c in f.conds if st.pc.feasible(c)]
        if not alive: return False
        if len(alive) > 1: self.count_fork(st)
        for c in alive[1:]:
            s2 = st.clone(); s2.pc.assume(c); work.append(s2)
        st.pc.assume(alive[0])
        return True

    def count_fork(self, st):
        self.nforks += 1
        if self.nforks > self.max_forks: raise Limit("too many case distinctions")
        if self.deadline and time.time() > self.deadline: raise Limit("time budget")
    deadline = None
    nforks = 0
    max_forks = 20000

    def goto(self, st, fr, tgt, work, stop):
        """transfer control to block tgt.  True: go on; a state: it has reached a stop; None: replaced by states on the work list"""
        cur = fr.block
        if stop is not None and len(st.frames) == stop.depth:
            if tgt == stop.header:
                st.pend, st.tag = tgt, "back"
                return st
            if tgt not in stop.body:
                st.pend, st.tag = tgt, "exit"
                return st
        body = fr.fn.loops.get(tgt)
        if body is not None and cur not in body and self.loopmgr is not None:
            res = self.loopmgr.loop(st, tgt, body)
            if res is not None:
                work.extend(res)
                return None
        self.enter(st, fr, tgt, cur)
        return True
    def enter(self, st, fr, tgt, cur):
        fr.prev, fr.block, fr.ip = cur, tgt, 0
        bl = fr.fn.blocks[tgt]
        if bl[0][0] == "phi":
            vals = []
            i = 0
            while bl[i][0] == "phi":
                ins = bl[i]
                if cur not in ins[3]: raise Unsupported("phi without entry for " + cur)
                vals.append((ins[1], self.val(st, fr, ins[3][cur])))
                i += 1
            for d, v in vals: fr.regs[d] = v
            fr.ip = i
    H = {}

def rname(r):
    return {"in": "the input buffer", "out": "the output buffer"}.get(r.kind, "%s object %s" % (r.kind, r.name or r.id))

_dm = {}
def short(n):
    if n in _dm: return _dm[n]
    import subprocess
    try:
        d = subprocess.run(["c++filt", n], capture_output=True, text=True, timeout=5).stdout.strip() or n
    except Exception:
        d = n
    d = d.replace("PandaResampler::", "")
    i = d.find("(")
    if i > 0: d = d[:i]
    _dm[n] = d
    return d

from . import ops
