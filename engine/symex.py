"""Path-based symbolic executor for the LLVM IR of the harness crate + nt-hive + std.

Every integer is a fixed-width bit-vector (wrapping), pointers are (object, offset) pairs, the hive is an
SMT array of bytes of symbolic length.  Branches on symbolic conditions are decided by z3; both feasible sides
are explored.  Assertions are discharged by `unsat(path condition and not assertion)`.
"""
import re
import sys
import time
import math
import numpy as np
import numpy as np
import z3
from unary import Unary
from llparse import Module, Reg, GRef, CExpr, UNDEF, ZERO, P, tokenize, unq, INT_RE, TYPE_WORDS

sys.setrecursionlimit(20000)
DBG_RE = re.compile(r'!dbg !(\d+)')

BV = z3.BitVecVal
_bvcache = {}


def simp(e):
    return z3.simplify(e, bv_le2extract=False)


def negate(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)


def conj(c):
    """conjuncts of a condition"""
    if z3.is_and(c):
        return [q for x in c.children() for q in conj(x)]
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return [q for x in c.arg(0).children() for q in conj(negate(x))]
    if z3.is_not(c) and z3.is_not(c.arg(0)):
        return conj(c.arg(0).arg(0))
    return [c]


_lin = {}


def lin(e):
    """e as (constant, {id: (coefficient, term)}) modulo 2^w, coefficients and constant in signed form; memoised"""
    k = e.get_id()
    r = _lin.get(k)
    if r is not None:
        return r[0], r[1]
    w = e.size()
    M = 1 << w
    c0 = 0
    ts = {}
    if z3.is_bv_value(e):
        c0 = e.as_long()
    else:
        kind = e.decl().kind()
        done = False
        if kind == z3.Z3_OP_BADD:
            done = True
            for a in e.children():
                c, t = lin(a)
                c0 += c
                for i, (q, x) in t.items():
                    o = ts.get(i)
                    ts[i] = (q + (o[0] if o else 0), x)
        elif kind == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            done = True
            m = e.arg(0).as_long()
            c, t = lin(e.arg(1))
            c0 = c * m
            ts = {i: (q * m, x) for i, (q, x) in t.items()}
        elif kind == z3.Z3_OP_CONCAT:
            z = e.arg(e.num_args() - 1)
            if z3.is_bv_value(z) and z.as_long() == 0:
                sh = z.size()
                y = e.arg(0)
                if e.num_args() == 2 and y.decl().kind() == z3.Z3_OP_EXTRACT and y.params() == [w - 1 - sh, 0] and y.arg(0).size() == w:
                    x = y.arg(0)         # x << sh
                elif e.num_args() == 2 and y.decl().kind() == z3.Z3_OP_BADD:
                    c, t = lin(y)        # a sum << sh, term by term
                    x = bv(c % (1 << w - sh), w)
                    for q, z in t.values():
                        x = x + bv(q % M, w) * z3.ZeroExt(sh, z)
                    x = simp(x)
                else:
                    x = simp(z3.ZeroExt(sh, z3.Extract(w - 1, sh, e)))
                if x.get_id() != k:
                    done = True
                    c, t = lin(x)
                    c0 = c << sh
                    ts = {i: (q << sh, y) for i, (q, y) in t.items()}
        if not done:
            if kind == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
                y = e.arg(1)
                if z3.is_app_of(y, z3.Z3_OP_ITE) and z3.is_bv_value(y.arg(1)) and z3.is_bv_value(y.arg(2)):
                    y = z3.If(y.arg(0), bv(y.arg(1).as_long(), w), bv(y.arg(2).as_long(), w))
                    ts = {y.get_id(): (1, y)}
            if not ts:
                ts = {k: (1, e)}
    for i, (q, x) in list(ts.items()):
        # 2^k * (y >> k) with a multiple y of 2^k
        if q & 3 == 0 and z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
            y = x.arg(1)
            if y.decl().kind() == z3.Z3_OP_EXTRACT and y.arg(0).size() == w and y.params()[0] == w - 1:
                n = y.params()[1]
                y = y.arg(0)
                if 0 < n < 8 and q % (1 << n) == 0 and tzeros(y) >= n:
                    del ts[i]
                    q >>= n
                    c, t = lin(y)
                    c0 += q * c
                    for i, (p, x) in t.items():
                        o = ts.get(i)
                        ts[i] = (q * p + (o[0] if o else 0), x)
    c0 = sgn(c0 & (M - 1), w)
    ts = {i: (sgn(q & (M - 1), w), x) for i, (q, x) in ts.items() if q & (M - 1)}
    _lin[k] = (c0, ts, e)
    return c0, ts


def tzeros(e):
    """number of low bits of a sum that are known to be 0"""
    c, ts = lin(e)
    r = e.size() if c == 0 else (c & -c).bit_length() - 1
    for q, _ in ts.values():
        r = min(r, (q & -q).bit_length() - 1)
    return r


_ub = {}


def ubound(e):
    """structural upper bound of a term"""
    k = e.get_id()
    r = _ub.get(k)
    if r is not None:
        return r[0]
    w = e.size()
    b = (1 << w) - 1
    if z3.is_bv_value(e):
        b = e.as_long()
    else:
        kind = e.decl().kind()
        if kind == z3.Z3_OP_CONCAT:
            a = e.arg(0)
            if z3.is_bv_value(a):
                rest = w - a.size()
                b = (a.as_long() << rest) + (1 << rest) - 1
                if a.as_long() == 0 and e.num_args() == 2:
                    b = ubound(e.arg(1))
        elif kind == z3.Z3_OP_ITE:
            b = max(ubound(e.arg(1)), ubound(e.arg(2)))
        elif kind in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            b = ubound(e.arg(0)) // e.arg(1).as_long()
    _ub[k] = (b, e)
    return b


def build_lin(c, ts, w):
    e = None
    for q, x in ts:
        t = x if q == 1 else x * bv(q, w)
        e = t if e is None else e + t
    if e is None:
        return bv(c, w)
    return simp(e + bv(c, w)) if c else simp(e)


def bv(v, w):
    k = (v, w)
    r = _bvcache.get(k)
    if r is None:
        r = BV(v, w)
        _bvcache[k] = r
    return r


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.obj, self.off)


class Undef:
    """undefined value of some width; materialised as a fresh symbol when used"""
    __slots__ = ()


UND = Undef()


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'segs', 'arr', 'ro', 'name')

    def __init__(self, id, size, kind, name=''):
        self.id = id
        self.size = size
        self.kind = kind
        self.cells = {}
        self.segs = None      # list of (start, len, array or int fill, srcoff), newest last
        self.arr = None       # z3 array for regions
        self.ro = False
        self.name = name

    def copy(self):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.segs = list(self.segs) if self.segs else None
        o.arr = self.arr
        o.ro = self.ro
        return o


class Mem:
    """content of a region: unknown bytes (or zeros) overlaid with writes.  Every byte that is read becomes a variable of its own;
    two variables whose addresses coincide must be equal, which Engine.check enforces lazily (see aliases)."""
    __slots__ = ('rid', 'zero', 'writes')

    def __init__(self, rid, zero, writes=None):
        self.rid = rid
        self.zero = zero
        self.writes = writes     # linked list (base, k, value, rest), newest first; base None for a constant address


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'ret', 'allocas', 'visits')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.block = self.block
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.visits = self.visits
        return f


class State:
    __slots__ = ('frames', 'objs', 'own', 'pc', 'model', 'syms', 'regions', 'known', 'facts', 'lia', 'fts', 'xd', 'dom', 'outs', 'steps', 'covers',
                 'depth', 'nalloc', 'allocbytes', 'clones', 'canon', 'bases', 'rv')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        self.own = set()
        s.own = set()
        s.pc = list(self.pc)
        s.model = self.model
        s.syms = list(self.syms)
        s.regions = list(self.regions)
        s.known = dict(self.known)
        s.facts = dict(self.facts)
        s.lia = list(self.lia)
        s.fts = list(self.fts)
        s.xd = list(self.xd)
        s.dom = dict(self.dom)
        s.outs = list(self.outs)
        s.steps = self.steps
        s.covers = list(self.covers)
        s.depth = self.depth + 1
        s.nalloc = self.nalloc
        s.allocbytes = self.allocbytes
        s.clones = 0
        s.canon = dict(self.canon)
        s.bases = list(self.bases)
        s.rv = {k: (b, dict(d)) for k, (b, d) in self.rv.items()}
        return s


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Config:
    max_steps = 4_000_000
    max_paths = 200_000
    query_timeout_ms = 60_000
    max_visits = 200_000
    time_limit = 800.0


class Engine:
    def __init__(self, module, cfg=None, concrete=None):
        self.m = module
        self.cfg = cfg or Config()
        self.ptrw = module.ptrbits
        self.ptrsz = module.ptrbits // 8
        self.little = module.little
        self.solver = z3.SolverFor('QF_ABV')
        self.solver.set('relevancy', 0)
        self.solver.set('timeout', self.cfg.query_timeout_ms)
        self.sstack = []
        self.lsolver = z3.SolverFor('QF_LIA')
        self.lsolver.set('timeout', 1000)
        self.lstack = []
        self.lvars = {}
        self.gobj = {}
        self.gbyid = {}
        self.next_gid = 1 << 20
        self.stats = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, steps=0, asserts=0,
                          discharged=0, panics=0, killed=0, cheap=0, lemmas=0, lia=0, merges=0, mutated=0)
        self.funcs_seen = set()
        self.violations = []
        self.vkeys = {}
        self.share = None
        self.on_violation = None
        self.stop = None      # the rest of the job is not needed any more
        self.unary = Unary()
        self.gbytes = {}
        self.covers = {}
        self.samples = []
        self.concrete = concrete     # dict for concrete execution (validation)
        self.fresh = 0
        self.tabcache = {}
        self.case = 0
        self.log = None
        self.keep = []
        self.skipped_dup = 0
        self.path_hook = None
        self.dbgseen = set()
        self.simpl = {}
        self.debug_extract = None
        self.rvars = {}
        self.ftl = {}
        self.islem = {}
        self.hammocks = {}
        self.xors = {}
        self.xkeep = []
        self.xnames = {}
        self.divs = {}
        self.xbyset = {}
        self.xdef = {}
        self.xseen = {}

    # ------------------------------------------------------------------ addresses
    def base(self, oid):
        if oid == 0:
            return 0
        if self.ptrw == 64:
            if oid >= (1 << 20):
                return 0x5500_0000_0000 + (oid - (1 << 20)) * 0x100000
            return (oid + 1) << 44
        if oid >= (1 << 20):
            return 0x0800_0000 + (oid - (1 << 20)) * 0x8000
        return 0x8000_0000 + oid * 0x8000 if oid > 1 else 0x1000_0000

    def paddr(self, p):
        b = self.base(p.obj)
        if isinstance(p.off, int):
            return (b + p.off) & self.pmask()
        return bv(b, self.ptrw) + p.off if b else p.off

    def pmask(self):
        return (1 << self.ptrw) - 1

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            if v == 0:
                return Ptr(0, 0)
            if self.ptrw == 64:
                if v >= (1 << 44):
                    if 0x5500_0000_0000 <= v < 0x5600_0000_0000:
                        oid = (1 << 20) + (v - 0x5500_0000_0000) // 0x100000
                        return Ptr(oid, v - self.base(oid))
                    oid = (v >> 44) - 1
                    if oid in st.objs:
                        return Ptr(oid, v - self.base(oid))
            else:
                for oid in list(st.objs) + list(self.gbyid):
                    o = st.objs.get(oid) or self.gbyid.get(oid)
                    b = self.base(oid)
                    if isinstance(o.size, int) and b <= v <= b + o.size:
                        return Ptr(oid, v - b)
            return Ptr(0, v)
        if is_sym(v):
            # try: value = base(obj) + something, decided by the model then by the solver
            mv = self.meval(st, v)
            p = self.to_ptr(st, mv)
            if p.obj:
                off = simp(v - bv(self.base(p.obj), self.ptrw))
                return Ptr(p.obj, off.as_long() if z3.is_bv_value(off) else off)
            return Ptr(0, v)
        if v is UND:
            return Ptr(0, 0)
        raise Unsupported('to_ptr %r' % (v,))

    # ------------------------------------------------------------------ solver
    def sync(self, pc):
        ss = self.sstack
        n = 0
        lim = min(len(ss), len(pc))
        while n < lim and ss[n] is pc[n]:
            n += 1
        if n < len(ss):
            self.solver.pop(len(ss) - n)
            del ss[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            ss.append(c)

    def check(self, st, extra):
        """satisfiability of st.pc and extra -> model or None"""
        act = ()
        if st.fts:
            have = None
            act = {}
            todo = [extra, *st.pc]
            while todo:
                q = todo.pop()
                if q.get_id() not in self.islem:
                    for u in self.unary.uses(q):
                        act[u[0].get_id()] = u
            act = list(act.values())
            for u in act:
                for l in self.ftl.get(u[0].get_id(), ()):
                    if have is None:
                        have = {q.get_id() for q in st.pc}
                    if l.get_id() not in have:
                        st.pc.append(l)
        if time.time() - self.t0 > self.cfg.time_limit:
            raise Inconclusive('time limit')
        while True:
            m = self.check1(st, extra)
            if m is None:
                return None
            if st.xd:
                m = self.xfix(st, m, extra)
                if m is None:
                    continue
            ls = self.aliases(st, m)
            if ls or not act:
                if not ls:
                    if st.fts:
                        self.tables(st, m)
                    return m
                self.stats['lemmas'] += len(ls)
                st.pc.extend(ls)
                continue
            bad = []
            for u in act:
                y, arg, f = u
                v = m.eval(arg, model_completion=True).as_long()
                w, t = self.unary.defs[f][:2]
                x = m.eval(y, model_completion=True)
                x = x.as_long() if w else int(z3.is_true(x))
                if x != int(t[v]):
                    bad.append((u, v, x))
            if not bad:
                self.tables(st, m)
                return m
            if self.repair(st, m, bad, extra):
                return m
            for (y, arg, f), v, x in bad:
                for l in self.unary.lemmas(y, arg, f, v):
                    st.pc.append(l)
                    self.islem[l.get_id()] = l
                    self.ftl.setdefault(y.get_id(), []).append(l)
            self.stats['lemmas'] += len(bad)

    def tables(self, st, m):
        for u in st.xd:
            m.update_value(u[0], m.eval(u[1], model_completion=True))
        for y, arg, f in st.fts:
            w, t = self.unary.defs[f][:2]
            x = int(t[m.eval(arg, model_completion=True).as_long()])
            m.update_value(y, bv(x, w) if w else z3.BoolVal(bool(x)))

    def fine(self, st, m, extra):
        return all(z3.is_true(m.eval(q, model_completion=True)) for q in (extra, *reversed(st.pc)) if q.get_id() not in self.islem) \
            and not self.aliases(st, m)

    def image(self, st, e):
        """(table, variables, allowed arguments or None) of a term over one small variable"""
        u = self.unary.unary(e)
        if u is None:
            return None
        return u[1], u[2], st.dom.get(tuple(c.get_id() for c in u[2]))

    def sides(self, c):
        """comparison of two terms with different small variables -> (kind, negated?, left, right)"""
        n = z3.is_not(c)
        if n:
            c = c.arg(0)
        k = c.decl().kind()
        if k not in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ) or not z3.is_bv(c.arg(0)) or c.arg(0).size() > 64:
            return None
        a, b = c.children()
        if not self.unary.info(a)[0] or not self.unary.info(b)[0]:
            return None
        return k, n, a, b

    def dom_learn(self, st, c):
        for q in conj(c):
            n = z3.is_not(q)
            vs, size = self.unary.info(q)
            if not vs:
                continue
            u = self.unary.unary(q)
            if u is None:
                continue
            k = tuple(c.get_id() for c in u[2])
            m = st.dom.get(k)
            st.dom[k] = (u[1] != 0) if m is None else m & (u[1] != 0)

    def dom_entails(self, st, c):
        """does the condition follow from what the path says about its variables one by one?"""
        if self.unary.info(c)[0]:
            r = self.image(st, c)
            if r is None:
                return False
            t, o, m = r
            return bool((t != 0).all() if m is None else (t[m] != 0).all())
        s = self.sides(c)
        if s is None:
            return False
        k, n, a, b = s
        x, y = self.image(st, a), self.image(st, b)
        if x is None or y is None:
            return False
        x = x[0] if x[2] is None else x[0][x[2]]
        y = y[0] if y[2] is None else y[0][y[2]]
        if not len(x) or not len(y):
            return False
        if k == z3.Z3_OP_EQ:
            return n and not len(np.intersect1d(x, y))
        return bool(x.min() > y.max()) if n else bool(x.max() <= y.min())

    def mutate(self, st, extra):
        """a model of the path and a condition over one or two small variables, found by changing these variables only"""
        cand = []
        if self.unary.info(extra)[0]:
            r = self.image(st, extra)
            if r is None:
                return None
            t, o, m = r
            ok = t != 0
            if m is not None:
                ok = ok & m
            idx = ok.nonzero()[0]
            n = len(idx)
            if n:
                cand = [[(o, int(idx[k]))] for k in sorted({0, n - 1, n // 3, n * 2 // 3})]
        else:
            s = self.sides(extra)
            if s is None:
                return None
            k, n, a, b = s
            x, y = self.image(st, a), self.image(st, b)
            if x is None or y is None or {c.get_id() for c in x[1]} & {c.get_id() for c in y[1]}:
                return None
            ix = np.arange(len(x[0])) if x[2] is None else x[2].nonzero()[0]
            iy = np.arange(len(y[0])) if y[2] is None else y[2].nonzero()[0]
            tx, ty = x[0][ix], y[0][iy]
            if not len(ix) or not len(iy):
                return None

            def add(i, j):
                cand.append([(x[1], int(ix[i])), (y[1], int(iy[j]))])
            if k == z3.Z3_OP_EQ and not n:
                w = np.intersect1d(tx, ty)
                for q in w[sorted({0, len(w) // 2, len(w) - 1})] if len(w) else ():
                    i, j = (tx == q).nonzero()[0], (ty == q).nonzero()[0]
                    add(i[0], j[0])
                    if len(i) + len(j) > 2:
                        add(i[-1], j[-1])
            else:
                lx, hx, ly, hy = int(tx.argmin()), int(tx.argmax()), int(ty.argmin()), int(ty.argmax())
                p, q = (lx, hy) if not n and k != z3.Z3_OP_EQ else (hx, ly)
                # keep one of the two where it is
                cand.append([(y[1], int(iy[q]))])
                cand.append([(x[1], int(ix[p]))])
                add(p, q)
                if k == z3.Z3_OP_EQ:
                    add(lx, hy)
        m = None
        for c in cand:
            if m is None:
                m = st.model.__copy__()
            for o, v in c:
                for q in o:
                    m.update_value(q, bv(v & ((1 << q.size()) - 1), q.size()))
                    v >>= q.size()
            self.tables(st, m)
            if self.fine(st, m, extra):
                self.stats['mutated'] += 1
                return m
            if len(c) == 1 and len(cand) > 1:
                m = None
        return None

    def repair(self, st, m, bad, extra):
        """make a model whose function values disagree with their tables agree with them, if a nearby change does"""
        self.tables(st, m)
        if self.fine(st, m, extra):
            return True
        done = set()
        for (y, arg, f), v, x in bad:
            if arg.get_id() in done or not self.unary.defs[f][0]:
                continue
            u = self.unary.preimage(f, x)
            if u is None:
                continue
            done.add(arg.get_id())
            for c in reversed(self.unary.args(arg)):
                m.update_value(c, bv(u & ((1 << c.size()) - 1), c.size()))
                u >>= c.size()
        if not done:
            return False
        self.tables(st, m)
        return self.fine(st, m, extra)

    def aliases(self, st, m):
        """array lemmas violated by the model: reads of one region at equal addresses must give equal bytes"""
        out = []
        by = {}
        for (rid, bid), (base, vs) in st.rv.items():
            v = 0 if base is None else m.eval(base, model_completion=True).as_long()
            by.setdefault(rid, []).append((v, base, vs))
        msk = self.pmask()
        for rid, gs in by.items():
            gs.sort(key=lambda g: g[0])
            addr = {}
            done = set()
            for i, (v, base, vs) in enumerate(gs):
                for k, var in vs.items():
                    a = (v + k) & msk
                    o = addr.get(a)
                    if o is None:
                        addr[a] = (i, k, var)
                        continue
                    j, k2, var2 = o
                    if m.eval(var, model_completion=True).as_long() == m.eval(var2, model_completion=True).as_long():
                        continue
                    d = (k2 - k) & msk          # base_i == base_j + d
                    if (i, j, d) in done:
                        continue
                    done.add((i, j, d))
                    b1 = bv(0, self.ptrw) if base is None else base
                    b2 = gs[j][1]
                    b2 = bv(d, self.ptrw) if b2 is None else b2 + bv(d, self.ptrw)
                    eqs = []
                    ovs = gs[j][2]
                    for kk, vv in vs.items():
                        u = ovs.get((kk + d) & msk)
                        if u is not None:
                            eqs.append(vv == u)
                    out.append(z3.Or(b1 != b2, z3.And(*eqs)))
        return out

    def abstract(self, st, c):
        self.xuse(st, c)
        c, us = self.unary.abstract(c)
        if us and st.dom:
            out = []
            sub = []
            for u in us:
                r = self.alias(st, u)
                if r is u:
                    out.append(u)
                else:
                    sub.append((u[0], r[0] if isinstance(r, tuple) else r))
                    if isinstance(r, tuple) and not any(q is r for q in out):
                        out.append(r)
            if sub:
                c = simp(z3.substitute(c, *sub))
                us = out
        self.use(st, us)
        return c

    def alias(self, st, u):
        """function value equal to u on the arguments this path allows, that is already in use"""
        if any(q is u for q in st.fts):
            return u
        y, arg, f = u
        m = st.dom.get(tuple(c.get_id() for c in reversed(self.unary.args(arg))))
        if m is None:
            return u
        w, t, d, bits = self.unary.defs[f]
        tm = t[m]
        if len(tm) and (tm == tm[0]).all():
            return bv(int(tm[0]), w) if w else z3.BoolVal(bool(tm[0]))
        if w >= bits and not d[m].any():
            return arg if w == bits else simp(z3.ZeroExt(w - bits, arg))
        for q in st.fts:
            if q[1].eq(arg):
                w2, t2 = self.unary.defs[q[2]][:2]
                if w2 == w and (t2[m] == tm).all():
                    return q
        return u

    def use(self, st, us):
        """function values that occur on this path from now on"""
        for u in us:
            if not any(q is u for q in st.fts):
                if not st.fts:
                    for c in st.pc:
                        self.dom_learn(st, c)
                st.fts.append(u)
                y, arg, f = u
                w, t = self.unary.defs[f][:2]
                x = int(t[self.meval(st, arg)])
                st.model.update_value(y, bv(x, w) if w else z3.BoolVal(bool(x)))

    def check1(self, st, extra):
        t0 = time.time()
        self.sync(st.pc)
        s = self.solver
        s.push()
        s.add(extra)
        r = s.check()
        model = None
        if r == z3.sat:
            model = s.model()
        s.pop()
        dt = time.time() - t0
        S = self.stats
        S['queries'] += 1
        S['solver_s'] += dt
        if r == z3.sat:
            S['sat'] += 1
            return model
        if r == z3.unsat:
            S['unsat'] += 1
            return None
        # second chance: fresh solver
        t0 = time.time()
        s2 = z3.Solver()
        s2.set('timeout', self.cfg.query_timeout_ms)
        s2.add(*st.pc)
        s2.add(extra)
        r = s2.check()
        S['solver_s'] += time.time() - t0
        if r == z3.sat:
            S['sat'] += 1
            return s2.model()
        if r == z3.unsat:
            S['unsat'] += 1
            return None
        S['unknown'] += 1
        raise Inconclusive('solver unknown: %s' % s2.reason_unknown())

    def meval(self, st, e):
        v = st.model.eval(e, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        v = simp(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        raise Inconclusive('model eval %s' % v)

    def meval_any(self, st, e):
        if isinstance(e, int):
            return e
        if e is UND:
            return 0
        return self.meval(st, e)

    def decide(self, st, c):
        """truth value of a condition on this path, forking when both are feasible"""
        if isinstance(c, int):
            return c
        if c is UND:
            raise Unsupported('branch on undef')
        if isinstance(c, z3.BitVecRef):
            c = c == bv(1, 1)
        k = c.get_id()
        r = st.known.get(k)
        if r is not None:
            return r[0]
        sc = simp(c)
        if z3.is_true(sc):
            return 1
        if z3.is_false(sc):
            return 0
        k2 = sc.get_id()
        r = st.known.get(k2)
        if r is not None:
            st.known[k] = (r[0], c)
            return r[0]
        if not sc.num_args() == 0:
            sc = self.abstract(st, sc)
            if z3.is_true(sc):
                return 1
            if z3.is_false(sc):
                return 0
            k2 = sc.get_id()
            r = st.known.get(k2)
            if r is not None:
                st.known[k] = (r[0], c)
                return r[0]
        v = self.meval(st, sc)
        pos = sc if v else negate(sc)
        neg = negate(sc) if v else sc
        ps = conj(sc)
        m = self.mutate(st, neg) if st.fts and not self.dom_entails(st, pos) else None
        if m is not None:
            pass
        elif len(ps) > 1:
            if v:
                rem = [q for q in ps if not self.entails(st, q)]
                m = None if not rem else self.check(st, negate(rem[0]) if len(rem) == 1 else z3.Or([negate(q) for q in rem]))
            else:
                m = None if any(self.entails(st, negate(q)) for q in ps) else self.check(st, neg)
        else:
            m = None if self.entails(st, pos) else self.check(st, neg)
        if m is not None:
            o = st.fork()
            o.pc.append(neg)
            self.learn(o, neg)
            o.model = m
            o.known[k] = (1 - v, c)
            o.known[k2] = (1 - v, sc)
            self.work.append(o)
            self.stats['forks'] += 1
            st.pc.append(pos)
        self.learn(st, pos)
        st.known[k] = (v, c)
        st.known[k2] = (v, sc)
        return v

    def concretize(self, st, e, limit=4096, what=''):
        if isinstance(e, int):
            return e
        if e is UND:
            raise Unsupported('concretize undef')
        s = simp(e)
        if z3.is_bv_value(s):
            return s.as_long()
        # a case split on a condition
        while z3.is_app_of(s, z3.Z3_OP_ITE) and (z3.is_bv_value(s.arg(1)) or z3.is_bv_value(s.arg(2))):
            s = s.arg(1) if self.decide(st, s.arg(0)) else s.arg(2)
            if z3.is_bv_value(s):
                return s.as_long()
        self.xuse(st, s)
        n = 0
        while True:
            v = self.meval(st, s)
            if self.decide(st, s == bv(v, s.size())):
                return v
            n += 1
            if n > limit:
                raise Unsupported('concretize limit ' + what)

    def assume(self, st, c):
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume')
            return
        c = self.abstract(st, simp(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assume')
        if self.meval(st, c):
            st.pc.append(c)
            self.learn(st, c)
            return
        m = self.check(st, c)
        if m is None:
            raise PathEnd('assume')
        st.pc.append(c)
        self.learn(st, c)
        st.model = m

    def do_assert(self, st, c, aid):
        self.stats['asserts'] += 1
        if isinstance(c, int):
            if c:
                self.stats['discharged'] += 1
                self.stats['cheap'] += 1
                return
            self.violation(st, 'assert', aid, st.model)
            raise PathEnd('violated')
        c = self.abstract(st, simp(c))
        if z3.is_true(c):
            self.stats['discharged'] += 1
            self.stats['cheap'] += 1
            return
        if z3.is_false(c):
            self.violation(st, 'assert', aid, st.model)
            raise PathEnd('violated')
        k = st.known.get(c.get_id())
        if k is not None and k[0]:
            self.stats['discharged'] += 1
            return
        parts = conj(c)
        if len(parts) > 1 and self.meval(st, c):
            # one query per conjunct: much cheaper than one for the negated conjunction
            for q in parts:
                self.assert1(st, q, aid)
            self.stats['discharged'] += 1
            st.known[c.get_id()] = (1, c)
            return
        self.stats['discharged'] += self.assert1(st, c, aid)

    def assert1(self, st, c, aid):
        k = st.known.get(c.get_id())
        if k is not None and k[0]:
            return 1
        if not self.meval(st, c):
            self.violation(st, 'assert', aid, st.model, z3.Not(c))
            m = self.check(st, c)
            if m is None:
                raise PathEnd('violated')
            st.pc.append(c)
            st.model = m
            return 0
        m = None if self.entails(st, c) else (self.mutate(st, negate(c)) if st.fts else None) or self.check(st, negate(c))
        if m is None:
            st.known[c.get_id()] = (1, c)
            self.learn(st, c)
            return 1
        self.violation(st, 'assert', aid, m, z3.Not(c))
        st.pc.append(c)
        return 0

    def violation(self, st, kind, what, model, extra=None):
        key = (kind, what)
        n = self.vkeys.get(key, 0)
        self.vkeys[key] = n + 1
        if n >= 3:
            return
        # prefer small models: shrink region lengths if possible
        best = model
        for (oid, size, zero) in st.regions:
            if isinstance(size, int):
                continue
            for lim in (4096 + 256, 4096 + 1024, 4096 + 8192, 1 << 20, 1 << 28):
                cs = [z3.ULE(size, bv(lim, size.size()))]
                if extra is not None:
                    cs.append(extra)
                try:
                    m = self.check(st, z3.And(*cs))
                except Inconclusive:
                    m = None
                if m is not None:
                    best = m
                    break
        self.violations.append(dict(kind=kind, what=what, input=self.extract(st, best), where=self.where(st)))
        if self.on_violation is not None:
            self.on_violation()

    def where(self, st):
        return [f.fn.name for f in st.frames[-4:]]

    def extract(self, st, model):
        """concrete inputs of this path under model"""
        def ev(e):
            if isinstance(e, int):
                return e
            v = model.eval(e, model_completion=True)
            if not z3.is_bv_value(v):
                v = simp(v)
            return v.as_long()
        regs = {}
        order = []
        for (oid, size, mem) in st.regions:
            regs[mem.rid] = (ev(size), {})
            order.append(mem.rid)
        for (rid, bid), (base, vs) in st.rv.items():
            ln, d = regs[rid]
            b = 0 if base is None else ev(base)
            for k, var in vs.items():
                a = (b + k) & self.pmask()
                if a < ln:
                    d[a] = ev(var)
        if self.debug_extract is not None:
            self.debug_extract(st, model, regs)
        return dict(case=self.case, syms=[ev(e) for (_, _, e) in st.syms],
                    regions=[dict(len=regs[o][0], bytes=sorted(regs[o][1].items())) for o in order])

    # ------------------------------------------------------------------ memory
    def newobj(self, st, size, kind, name=''):
        st.nalloc += 1
        oid = st.nalloc
        o = Obj(oid, size, kind, name)
        st.objs[oid] = o
        st.own.add(oid)
        return o

    def getobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.gbyid.get(oid)
            if o is None:
                raise Unsupported('dangling object %r' % oid)
            if o.kind == 'global' and o.cells is None:
                self.init_global(o)
        return o

    def wobj(self, st, oid):
        if oid in st.own:
            return st.objs[oid]
        o = self.getobj(st, oid)
        if o.ro:
            raise Unsupported('write to constant ' + o.name)
        o = o.copy()
        st.objs[oid] = o
        st.own.add(oid)
        return o

    def gref(self, name):
        o = self.gobj.get(name)
        if o is not None:
            return o
        m = self.m
        if name in m.func_src or name in m.decls:
            o = Obj(self.next_gid, 16, 'func', name)
        elif name in m.glob_src:
            t, init, const = m.global_init(name)
            if t == 'alias':
                assert isinstance(init, GRef)
                o = self.gref(init.name)
                self.gobj[name] = o
                return o
            o = Obj(self.next_gid, m.size(t), 'global', name)
            o.cells = None
            o.ro = const
        else:
            raise Unsupported('unknown global ' + name)
        self.next_gid += 1 + (o.size >> 20 if self.ptrw == 64 else o.size >> 15)
        self.gobj[name] = o
        self.gbyid[o.id] = o
        return o

    def init_global(self, o):
        t, init, const = self.m.global_init(o.name)
        o.cells = {}
        if init is None:
            return
        self.init_store(o, 0, t, init)

    def init_store(self, o, off, t, v):
        m = self.m
        if v is UNDEF:
            return
        if isinstance(v, bytes):
            for i, b in enumerate(v):
                o.cells[off + i] = (1, b)
            return
        if isinstance(v, (GRef, CExpr)):
            o.cells[off] = (m.size(t), self.const(v, t))
            return
        if isinstance(t, int):
            n = (t + 7) // 8
            if v is ZERO:
                v = 0
            o.cells[off] = (n, v)
            return
        if t == 'ptr':
            o.cells[off] = (self.ptrsz, Ptr(0, 0) if v is ZERO or v == 0 else self.const(v, t))
            return
        if t in ('float', 'double'):
            o.cells[off] = (m.size(t), 0)
            return
        if t[0] == 's':
            offs = m.offsets(t)
            for i, ft in enumerate(t[2]):
                self.init_store(o, off + offs[i], ft, ZERO if v is ZERO else v[i])
            return
        if t[0] in 'av':
            es = m.size(t[2])
            if v is ZERO:
                n = t[1] * es
                if n > 256:
                    o.segs = (o.segs or []) + [(off, n, 0, 0)]
                    return
            for i in range(t[1]):
                self.init_store(o, off + i * es, t[2], ZERO if v is ZERO else v[i])
            return
        raise Unsupported('init %r %r' % (t, v))

    def const(self, v, t):
        """constant operand -> runtime value"""
        if isinstance(v, int):
            if t == 'ptr':
                return Ptr(0, v)
            return v
        if isinstance(v, GRef):
            o = self.gref(v.name)
            return Ptr(o.id, v.off)
        if v is UNDEF:
            if isinstance(t, int):
                return UND
            if t == 'ptr':
                return UND
            return self.undef_agg(t)
        if v is ZERO:
            if isinstance(t, int):
                return 0
            if t == 'ptr':
                return Ptr(0, 0)
            return self.zero_agg(t)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'splat':
            return [self.const(v[1], t[2])] * t[1]
        if isinstance(v, tuple):
            if t[0] == 's':
                return [self.const(x, ft) for x, ft in zip(v, t[2])]
            return [self.const(x, t[2]) for x in v]
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, CExpr):
            op = v.op
            if op == 'gep':
                st, base, idx = v.args
                b = self.const(base, 'ptr')
                off = self.gep_const(st, [(it, self.const(iv, it)) for it, iv in idx])
                return Ptr(b.obj, (b.off + off) & self.pmask() if b.obj == 0 else b.off + off)
            if op == 'inttoptr':
                x = self.const(v.args[1], v.args[0])
                return Ptr(0, x)
            if op in ('ptrtoint', 'ptrtoaddr'):
                x = self.const(v.args[1], v.args[0])
                return self.paddr(x)
            if op == 'trunc':
                return self.const(v.args[1], v.args[0]) & ((1 << v.args[2]) - 1)
            if op in ('zext', 'bitcast'):
                return self.const(v.args[1], v.args[0])
            if op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                a = self.const(v.args[1], v.args[0])
                b = self.const(v.args[2], v.args[0])
                w = v.args[0]
                return self.binop_c(op, a, b, w)
        raise Unsupported('const %r : %r' % (v, t))

    def zero_agg(self, t):
        if isinstance(t, int):
            return 0
        if t == 'ptr':
            return Ptr(0, 0)
        if t[0] == 's':
            return [self.zero_agg(x) for x in t[2]]
        return [self.zero_agg(t[2])] * t[1]

    def undef_agg(self, t):
        if isinstance(t, int) or t == 'ptr':
            return UND
        if t[0] == 's':
            return [self.undef_agg(x) for x in t[2]]
        return [self.undef_agg(t[2])] * t[1]

    def gep_const(self, t, idx):
        m = self.m
        off = idx[0][1]
        off = sgn(off, idx[0][0]) * m.size(t)
        for it, iv in idx[1:]:
            if t[0] == 's':
                off += m.offsets(t)[iv]
                t = t[2][iv]
            else:
                off += sgn(iv, it) * m.size(t[2])
                t = t[2]
        return off

    # byte level access to cell objects
    def byte_at(self, o, off, st):
        cells = o.cells
        for d in range(0, 17):
            c = cells.get(off - d)
            if c is not None:
                n, v = c
                if d < n:
                    return self.extract_byte(v, n, d)
                if d:
                    continue
        if o.segs:
            for (s, ln, src, so) in reversed(o.segs):
                if s <= off < s + ln:
                    if isinstance(src, int):
                        return src
                    b, k = so
                    return self.mem_select(st, src, b, (k + off - s) & self.pmask())
        return UND

    def extract_byte(self, v, n, d):
        if v is UND:
            return UND
        if isinstance(v, Ptr):
            v = self.paddr(v)
        if not self.little:
            d = n - 1 - d
        if isinstance(v, int):
            return (v >> (8 * d)) & 255
        if n == 1:
            return v
        return z3.Extract(8 * d + 7, 8 * d, v)

    def clear_range(self, o, off, n):
        cells = o.cells
        if n <= 64:
            for a in range(off - 16, off + n):
                c = cells.get(a)
                if c is not None:
                    cn = c[0]
                    if a + cn > off:
                        del cells[a]
                        if a < off or a + cn > off + n:
                            for i in range(cn):
                                if not (off <= a + i < off + n):
                                    cells[a + i] = (1, self.extract_byte(c[1], cn, i))
        else:
            for a in [k for k in cells if off - 16 <= k < off + n]:
                c = cells[a]
                cn = c[0]
                if a + cn > off:
                    del cells[a]
                    if a < off or a + cn > off + n:
                        for i in range(cn):
                            if not (off <= a + i < off + n):
                                cells[a + i] = (1, self.extract_byte(c[1], cn, i))

    def fresh_bv(self, w, name='u'):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    def load_bytes(self, st, p, n):
        """n bytes at p as an int of 8n bits (int or BitVec)"""
        o = self.getobj(st, p.obj)
        if o.arr is not None:
            return self.region_load(st, o, p.off, n)
        off = p.off
        if not isinstance(off, int):
            return self.sym_load(st, o, off, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return v
        if isinstance(o.size, int) and (off < 0 or off + n > o.size):
            raise PathEnd('oob', 'load %s+%d size %s' % (o.name or o.kind, off, o.size))
        return self.join([self.byte_at(o, off + i, st) for i in range(n)])

    def join(self, bs):
        """bytes in memory order -> value"""
        if all(isinstance(b, int) for b in bs):
            v = 0
            for b in (reversed(bs) if self.little else bs):
                v = (v << 8) | b
            return v
        if all(b is UND for b in bs):
            return UND
        if len(bs) == 1:
            return bs[0]
        parts = []
        for b in bs:
            if b is UND:
                b = self.fresh_bv(8)
            parts.append(bv(b, 8) if isinstance(b, int) else b)
        if self.little:
            parts = parts[::-1]
        # merge adjacent extracts of the same value
        out = []
        for x in parts:
            if out and z3.is_app_of(x, z3.Z3_OP_EXTRACT) and z3.is_app_of(out[-1], z3.Z3_OP_EXTRACT):
                y = out[-1]
                xh, xl = x.params()
                yh, yl = y.params()
                if yl == xh + 1 and x.arg(0).eq(y.arg(0)):
                    out[-1] = z3.Extract(yh, xl, x.arg(0))
                    continue
            out.append(x)
        if len(out) == 1:
            r = out[0]
            if z3.is_app_of(r, z3.Z3_OP_EXTRACT):
                h, l = r.params()
                if l == 0 and h == r.arg(0).size() - 1:
                    return r.arg(0)
            return r
        return z3.Concat(*out)

    def canon(self, st, off):
        """(base, k): the same address in the form first used on this path, so that equal reads become the same term.
        Sound: an address is replaced only when the path condition implies that both are equal."""
        if isinstance(off, int):
            return None, off & self.pmask()
        c = self.simpl.get(off.get_id())
        if c is None:
            e = simp(off)
            if z3.is_bv_value(e):
                c = (None, e.as_long(), off)
            else:
                k = 0
                base = e
                if z3.is_app_of(e, z3.Z3_OP_BADD):
                    nums = [a for a in e.children() if z3.is_bv_value(a)]
                    if nums:
                        k = sum(a.as_long() for a in nums)
                        rest = [a for a in e.children() if not z3.is_bv_value(a)]
                        base = rest[0]
                        for r in rest[1:]:
                            base = base + r
                        if len(rest) > 1:
                            base = simp(base)
                c = (base, k & self.pmask(), off)
            self.simpl[off.get_id()] = c
        base, k, _ = c
        if base is None:
            return None, k
        m = st.canon.get(base.get_id())
        if m is None:
            m = self.find_canon(st, base)
            st.canon[base.get_id()] = m
        cb, d = m[0], m[1]
        return cb, (k + d) & self.pmask()

    def find_canon(self, st, base):
        w = self.ptrw
        msk = self.pmask()
        v = self.meval(st, base)
        # a constant?
        models = [st.model]

        def val(m, e):
            return m.eval(e, model_completion=True).as_long()
        for b in st.bases + [None]:
            try:
                if b is None:
                    d = v
                    if len(models) > 1 and any(val(m, base) != d for m in models[1:]):
                        continue
                    q = base != bv(d, w)
                else:
                    d = (v - self.meval(st, b)) & msk
                    if 0x20000 < d < (msk ^ 0x1ffff):
                        continue
                    if any(((val(m, base) - val(m, b)) & msk) != d for m in models[1:]):
                        continue
                    q = base != b + bv(d, w)
            except AttributeError:
                continue
            if st.lia and self.entails(st, base == bv(d, w) if b is None else base == b + bv(d, w)):
                return (b, d, base)
            m = self.check(st, q)
            if m is None:
                return (b, d, base)
            models.append(m)
        st.bases.append(base)
        return (base, 0, base)

    def region_load(self, st, o, off, n):
        base, k = self.canon(st, off)
        apart = self.apart(st, o.arr, base, k, n) if o.arr.writes is not None else ()
        return self.join([self.mem_select(st, o.arr, base, (k + i) & self.pmask(), apart) for i in range(n)])

    def apart(self, st, mem, base, k, n):
        """which addresses that were written to lie before or behind the n bytes at base + k, on this path"""
        groups = {}
        w = mem.writes
        while w is not None:
            wb, wk, _, w = w
            if wb is base or (wb is not None and base is not None and wb.eq(base)):
                continue
            g = groups.setdefault(0 if wb is None else wb.get_id(), [wb, wk, wk])
            g[1] = min(g[1], wk)
            g[2] = max(g[2], wk)
        r = set()
        W = self.ptrw

        def addr(b, d):
            return bv(d, W) if b is None else simp(b + bv(d, W)) if d else b
        for i, (wb, lo, hi) in groups.items():
            if k + n > self.pmask() or hi - lo > 64:
                continue
            # neither range wraps around: both accesses were in bounds
            x = self.ule(st, addr(base, k + n), addr(wb, lo), W)
            y = self.ule(st, addr(wb, hi + 1), addr(base, k), W)
            for c in (x, y):
                if c == 1 if isinstance(c, int) else self.entails(st, simp(c)):
                    r.add(i)
                    break
            else:
                if any(not isinstance(c, int) and self.decide(st, c) for c in (x, y)):
                    r.add(i)
        return r

    def mem_select(self, st, mem, base, k, apart=()):
        """byte at address base + k (base None: constant address)"""
        over = []
        w = mem.writes
        while w is not None:
            wb, wk, v, w = w
            if wb is base or (wb is not None and base is not None and wb.eq(base)):
                if wk == k:
                    r = v
                    break
                continue
            if apart and (0 if wb is None else wb.get_id()) in apart:
                continue
            over.append((wb, wk, v))
        else:
            r = 0 if mem.zero else self.rvar(st, mem.rid, base, k)
        if over:
            a = bv(k, self.ptrw) if base is None else (base + bv(k, self.ptrw) if k else base)
            for wb, wk, v in reversed(over):
                c = a == (bv(wk, self.ptrw) if wb is None else (wb + bv(wk, self.ptrw) if wk else wb))
                r = z3.If(c, bv(v, 8) if isinstance(v, int) else v, bv(r, 8) if isinstance(r, int) else r)
            r = simp(r)
            if z3.is_bv_value(r):
                r = r.as_long()
        return r

    def rvar(self, st, rid, base, k):
        key = (rid, 0 if base is None else base.get_id())
        g = st.rv.get(key)
        if g is None:
            g = st.rv[key] = (base, {})
        var = g[1].get(k)
        if var is None:
            gk = key + (k,)
            var = self.rvars.get(gk)
            if var is None:
                var = z3.BitVec('m%d_%d' % (rid, len(self.rvars)), 8)
                self.rvars[gk] = var
                self.keep.append(base)
            # the current model must stay a model: equal addresses, equal bytes
            msk = self.pmask()
            a = ((0 if base is None else self.meval(st, base)) + k) & msk
            for (r2, _), (b2, vs) in st.rv.items():
                if r2 != rid:
                    continue
                v2 = 0 if b2 is None else self.meval(st, b2)
                o = vs.get((a - v2) & msk)
                if o is not None:
                    st.model.update_value(var, st.model.eval(o, model_completion=True))
                    break
            g[1][k] = var
        return var

    def dtree(self, e, memo, budget):
        """decision tree of a BV expression whose leaves are constants, or None.  Tree: int | (cond, t, f)"""
        k = e.get_id()
        if k in memo:
            return memo[k]
        r = None
        if z3.is_bv_value(e):
            r = e.as_long()
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            a = self.dtree(e.arg(1), memo, budget)
            b = self.dtree(e.arg(2), memo, budget) if a is not None else None
            if a is not None and b is not None:
                r = a if (isinstance(a, int) and a == b) else (e.arg(0), a, b)
        elif z3.is_app(e) and e.num_args() > 0 and e.decl().kind() in DT_OPS:
            ts = []
            for c in e.children():
                t = self.dtree(c, memo, budget)
                if t is None:
                    ts = None
                    break
                ts.append(t)
            if ts is not None and sum(1 for t in ts if not isinstance(t, int)) <= 1:
                def app(vals):
                    x = e.decl()(*[bv(v, c.size()) for v, c in zip(vals, e.children())])
                    return simp(x).as_long()
                j = next((i for i, t in enumerate(ts) if not isinstance(t, int)), None)
                if j is None:
                    r = app(ts)
                else:
                    mm = {}

                    def go(t):
                        if isinstance(t, int):
                            if t not in mm:
                                vv = list(ts)
                                vv[j] = t
                                mm[t] = app(vv)
                            return mm[t]
                        q = mm.get(id(t))
                        if q is None:
                            q = (t[0], go(t[1]), go(t[2]))
                            mm[id(t)] = q
                            self.keep.append(t)
                        return q
                    r = go(ts[j])
        memo[k] = r
        self.keep.append(e)
        return r

    def sym_load(self, st, o, off, n):
        if o.kind == 'global' and o.ro:
            key = (o.id, off.get_id(), n)
            r = self.tabcache.get(key)
            if r is not None:
                if len(r) > 2:
                    self.use(st, r[2])
                return r[0]
            t = self.unary.unary(off)
            if t is not None:
                r = self.gather(st, o, off, n, t)
                if r is not None:
                    self.tabcache[key] = (r[0], off, r[1])
                    self.use(st, r[1])
                    return r[0]
            t = self.dtree(off, self.dtmemo, 0)
            if t is not None:
                def leaf(v):
                    x = self.load_bytes(st, Ptr(o.id, v), n)
                    if isinstance(x, Ptr):
                        raise Unsupported('pointer table')
                    return bv(x, 8 * n)
                memo = {}

                def go(t):
                    if isinstance(t, int):
                        return leaf(t)
                    q = memo.get(id(t))
                    if q is None:
                        a = go(t[1])
                        b = go(t[2])
                        q = a if a.eq(b) else z3.If(t[0], a, b)
                        memo[id(t)] = q
                    return q
                r = go(t)
                self.tabcache[key] = (r, off)
                return r
            # general: a binary tree over the feasible aligned offsets
            c = o.cells.get(0)
            if c is not None and isinstance(c[1], Ptr):
                v = self.concretize(st, off, what='pointer table')
                return self.load_bytes(st, Ptr(o.id, v), n)
            es = max(1, c[0] if c else 1)
            st_low = simp(z3.URem(off, bv(es, self.ptrw)))
            step = 1
            base = 0
            if z3.is_bv_value(st_low):
                step = es
                base = st_low.as_long()
            offs = [x for x in range(base, o.size - n + 1, step)]
            if len(offs) > 20000:
                raise Unsupported('big symbolic table')
            vals = [self.load_bytes(st, Ptr(o.id, x), n) for x in offs]

            def build(lo, hi):
                if hi - lo == 1:
                    return bv(vals[lo], 8 * n)
                mid = (lo + hi) // 2
                a = build(lo, mid)
                b = build(mid, hi)
                if a.eq(b):
                    return a
                return z3.If(z3.ULT(off, bv(offs[mid], self.ptrw)), a, b)
            r = build(0, len(offs))
            self.tabcache[key] = (r, off)
            return r
        v = self.concretize(st, off, what='symbolic load offset')
        return self.load_bytes(st, Ptr(o.id, v), n)

    dtmemo = {}

    def gather(self, st, o, off, n, t):
        """constant table read at an offset that is a function of one small variable"""
        data = self.gbytes.get(o.id)
        if data is None:
            bs = [self.byte_at(o, k, st) if True else 0 for k in range(o.size)]
            data = np.array(bs, dtype=np.uint64) if all(isinstance(b, int) for b in bs) else False
            self.gbytes[o.id] = data
        if data is False or n > 8:
            return None
        w, tab, order = t
        bad = tab > o.size - n
        if bad.any():
            if not self.decide(st, self.icmp(st, 'ule', off, o.size - n, self.ptrw)):
                raise PathEnd('oob', 'load %s[symbolic] size %s' % (o.name or o.kind, o.size))
            tab = np.where(bad, 0, tab)
        r = np.zeros(len(tab), dtype=np.uint64)
        ti = tab.astype(np.int64)
        for k in range(n):
            r |= data[ti + k] << np.uint64(8 * (k if self.little else n - 1 - k))
        return self.unary.make(8 * n, r, order)

    def store_bytes(self, st, p, n, v):
        o = self.wobj(st, p.obj)
        off = p.off
        if o.arr is not None:
            base, k = self.canon(st, off)
            w = o.arr.writes
            for i in range(n):
                b = self.extract_byte(v, n, i)
                if b is UND:
                    b = self.fresh_bv(8)
                w = (base, (k + i) & self.pmask(), b, w)
            o.arr = Mem(o.arr.rid, o.arr.zero, w)
            return
        if not isinstance(off, int):
            off = self.concretize(st, off, what='store offset')
            o = self.wobj(st, p.obj)
        if isinstance(o.size, int) and (off < 0 or off + n > o.size):
            raise PathEnd('oob', 'store %s+%d size %s' % (o.name or o.kind, off, o.size))
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        self.clear_range(o, off, n)
        o.cells[off] = (n, v)

    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            p = self.to_ptr(st, p)
        if isinstance(t, int):
            n = (t + 7) // 8
            if p.obj == 0:
                raise PathEnd('oob', 'load through null/integer pointer')
            v = self.load_bytes(st, p, n)
            if v is UND:
                return UND
            if isinstance(v, Ptr):
                v = self.paddr(v)
            if t != 8 * n or t == 1:
                v = self.cast_trunc(v, 8 * n, t)
            return v
        if t == 'ptr':
            if p.obj == 0:
                raise PathEnd('oob', 'load through null/integer pointer')
            v = self.load_bytes(st, p, self.ptrsz)
            if v is UND:
                return UND
            return self.to_ptr(st, v)
        if t[0] == 's':
            offs = self.m.offsets(t)
            return [self.load(st, self.padd(p, offs[i]), x) for i, x in enumerate(t[2])]
        if t[0] in 'av':
            es = self.m.size(t[2])
            return [self.load(st, self.padd(p, i * es), t[2]) for i in range(t[1])]
        raise Unsupported('load %r' % (t,))

    def store(self, st, p, t, v):
        if not isinstance(p, Ptr):
            p = self.to_ptr(st, p)
        if isinstance(t, int):
            n = (t + 7) // 8
            if p.obj == 0:
                raise PathEnd('oob', 'store through null/integer pointer')
            if v is not UND and (t != 8 * n):
                v = self.cast_zext(v, t, 8 * n)
            self.store_bytes(st, p, n, v)
            return
        if t == 'ptr':
            if p.obj == 0:
                raise PathEnd('oob', 'store through null/integer pointer')
            self.store_bytes(st, p, self.ptrsz, v)
            return
        if t[0] == 's':
            offs = self.m.offsets(t)
            for i, x in enumerate(t[2]):
                self.store(st, self.padd(p, offs[i]), x, v[i])
            return
        if t[0] in 'av':
            es = self.m.size(t[2])
            for i in range(t[1]):
                self.store(st, self.padd(p, i * es), t[2], v[i])
            return
        raise Unsupported('store %r' % (t,))

    def padd(self, p, k):
        if isinstance(k, int) and k == 0:
            return p
        if isinstance(p.off, int) and isinstance(k, int):
            o = p.off + k
            if p.obj == 0:
                o &= self.pmask()
            return Ptr(p.obj, o)
        a = p.off if not isinstance(p.off, int) else bv(p.off & self.pmask(), self.ptrw)
        b = k if not isinstance(k, int) else bv(k & self.pmask(), self.ptrw)
        return Ptr(p.obj, addfold(a, b))

    def memcpy(self, st, d, s, n):
        if not isinstance(d, Ptr):
            d = self.to_ptr(st, d)
        if not isinstance(s, Ptr):
            s = self.to_ptr(st, s)
        n = self.concretize(st, n, what='memcpy length')
        if n == 0:
            return
        do = self.wobj(st, d.obj)
        so = self.getobj(st, s.obj)
        doff = d.off
        soff = s.off
        if so.arr is not None:
            base, k = self.canon(st, soff)
            if do.arr is not None or n <= 64 or not isinstance(doff, int):
                bs = [self.mem_select(st, so.arr, base, (k + i) & self.pmask()) for i in range(n)]
                for i, b in enumerate(bs):
                    self.store_bytes(st, self.padd(d, i), 1, b)
                return
            self.clear_range(do, doff, n)
            do.segs = (do.segs or []) + [(doff, n, so.arr, (base, k))]
            return
        if not isinstance(soff, int):
            if so.ro:
                bs = [self.load_bytes(st, self.padd(s, i), 1) for i in range(n)]
                for i, b in enumerate(bs):
                    self.store_bytes(st, self.padd(d, i), 1, b)
                return
            soff = self.concretize(st, soff, what='memcpy src')
            so = self.getobj(st, s.obj)
            do = self.wobj(st, d.obj)
        if isinstance(so.size, int) and soff + n > so.size:
            raise PathEnd('oob', 'memcpy src')
        if do.arr is not None or not isinstance(doff, int):
            bs = [self.byte_at(so, soff + i, st) for i in range(n)]
            for i, b in enumerate(bs):
                self.store_bytes(st, self.padd(d, i), 1, b)
            return
        if isinstance(do.size, int) and doff + n > do.size:
            raise PathEnd('oob', 'memcpy dst')
        # cells to cells
        items = []
        cells = so.cells
        if n <= 256:
            a = soff - 16
            rng = range(soff - 16, soff + n)
            ks = [k for k in rng if k in cells]
        else:
            ks = [k for k in cells if soff - 16 <= k < soff + n]
        for k in ks:
            cn, v = cells[k]
            if k >= soff and k + cn <= soff + n:
                items.append((k - soff + doff, cn, v))
            else:
                for i in range(cn):
                    if soff <= k + i < soff + n:
                        items.append((k + i - soff + doff, 1, self.extract_byte(v, cn, i)))
        segs = []
        if so.segs:
            for (sg, ln, src, sso) in so.segs:
                lo = max(sg, soff)
                hi = min(sg + ln, soff + n)
                if lo < hi:
                    dd = lo - sg
                    if isinstance(src, int):
                        no = 0
                    else:
                        no = (sso[0], sso[1] + dd)
                    segs.append((lo - soff + doff, hi - lo, src, no))
        self.clear_range(do, doff, n)
        if do.segs or segs:
            # hide older segments below a copied hole: represent holes as nothing (stale data would be wrong)
            if do.segs:
                keep = []
                for (sg, ln, src, sso) in do.segs:
                    if sg >= doff and sg + ln <= doff + n:
                        continue
                    if sg + ln <= doff or sg >= doff + n:
                        keep.append((sg, ln, src, sso))
                        continue
                    for lo, hi in ((sg, min(doff, sg + ln)), (max(doff + n, sg), sg + ln)):
                        if lo < hi:
                            dd = lo - sg
                            no = 0 if isinstance(src, int) else (sso[0], sso[1] + dd)
                            keep.append((lo, hi - lo, src, no))
                do.segs = keep
            do.segs = (do.segs or []) + segs
        for a, cn, v in items:
            do.cells[a] = (cn, v)

    def memset(self, st, d, v, n):
        n = self.concretize(st, n, what='memset length')
        if n == 0:
            return
        if n > 64 and isinstance(v, int) and isinstance(d.off, int):
            o = self.wobj(st, d.obj)
            if o.arr is None:
                self.clear_range(o, d.off, n)
                o.segs = (o.segs or []) + [(d.off, n, v, 0)]
                return
        for i in range(n):
            self.store_bytes(st, self.padd(d, i), 1, v)

    def memcmp(self, st, a, b, n, eqonly, rw):
        n = self.concretize(st, n, what='memcmp length')
        if n == 0:
            return 0
        xs = [self.load_bytes(st, self.padd(a, i), 1) for i in range(n)]
        ys = [self.load_bytes(st, self.padd(b, i), 1) for i in range(n)]
        if all(isinstance(x, int) for x in xs) and all(isinstance(y, int) for y in ys):
            if xs == ys:
                return 0
            return 1 if xs > ys else (1 << rw) - 1
        xs = [bv(x, 8) if isinstance(x, int) else x for x in xs]
        ys = [bv(x, 8) if isinstance(x, int) else x for x in ys]
        if eqonly:
            c = z3.And(*[x == y for x, y in zip(xs, ys)])
            return z3.If(c, bv(0, rw), bv(1, rw))
        r = bv(0, rw)
        for x, y in reversed(list(zip(xs, ys))):
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), bv((1 << rw) - 1, rw), bv(1, rw)))
        return r

    # ------------------------------------------------------------------ values
    def toint(self, v, w):
        if isinstance(v, Ptr):
            v = self.paddr(v)
        if v is UND:
            if w == 1:
                self.fresh += 1
                return z3.Bool('ub!%d' % self.fresh)
            return self.fresh_bv(w)
        return v

    def sbv(self, v, w):
        if isinstance(v, int):
            return bv(v, w)
        return v

    def sbool(self, v):
        if isinstance(v, int):
            return z3.BoolVal(bool(v))
        return v

    def cast_trunc(self, v, f, t):
        if isinstance(v, int):
            return v & ((1 << t) - 1)
        if v is UND:
            return UND
        if t == 1:
            if f == 1:
                return v
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                a, b = v.arg(1), v.arg(2)
                if z3.is_bv_value(a) and z3.is_bv_value(b):
                    x, y = a.as_long() & 1, b.as_long() & 1
                    if x == y:
                        return x
                    return v.arg(0) if x else z3.Not(v.arg(0))
            return z3.Extract(0, 0, v) == bv(1, 1)
        if f == t:
            return v
        if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(v, z3.Z3_OP_SIGN_EXT):
            x = v.arg(0)
            if x.size() == t:
                return x
            if x.size() > t:
                return z3.Extract(t - 1, 0, x)
        elif z3.is_app_of(v, z3.Z3_OP_CONCAT):
            x = v.arg(v.num_args() - 1)
            if x.size() == t:
                return x
        elif z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                m = (1 << t) - 1
                return z3.If(v.arg(0), bv(a.as_long() & m, t), bv(b.as_long() & m, t))
        return z3.Extract(t - 1, 0, v)

    def cast_zext(self, v, f, t):
        if isinstance(v, int):
            return v
        if v is UND:
            v = self.toint(v, f)
        if f == 1:
            return z3.If(v, bv(1, t), bv(0, t))
        if f == t:
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                return z3.If(v.arg(0), bv(a.as_long(), t), bv(b.as_long(), t))
        return z3.ZeroExt(t - f, v)

    def binop_c(self, op, a, b, w):
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & M
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & M
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & M
        raise Unsupported(op)

    def binop(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0 and op in ('udiv', 'urem', 'sdiv', 'srem'):
                raise PathEnd('ub', 'division by zero')
            return self.binop_c(op, a, b, w)
        if isinstance(a, list):
            return [self.binop(op, x, y, w[2]) for x, y in zip(a, b)]
        a = self.toint(a, w)
        b = self.toint(b, w)
        if isinstance(a, int) and isinstance(b, int):
            return self.binop_c(op, a, b, w)
        if w == 1:
            if op == 'and':
                if isinstance(a, int):
                    return b if a else 0
                if isinstance(b, int):
                    return a if b else 0
                return z3.And(a, b)
            if op == 'or':
                if isinstance(a, int):
                    return 1 if a else b
                if isinstance(b, int):
                    return 1 if b else a
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, int):
                    return z3.Not(b) if a else b
                if isinstance(b, int):
                    return z3.Not(a) if b else a
                return z3.Xor(a, b)
            if op == 'mul':
                return z3.And(self.sbool(a), self.sbool(b))
            raise Unsupported('i1 ' + op)
        M = (1 << w) - 1
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('and', 'mul'):
                    return 0
            if op == 'add':
                return addfold(a, bv(b, w))
            if op == 'sub':
                return addfold(a, bv((-b) & M, w))
            if b == M and op == 'and':
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'and' and (b & (b + 1)) == 0:
                k = b.bit_length()
                return z3.ZeroExt(w - k, self.cast_trunc(a, w, k)) if k > 1 else z3.ZeroExt(w - 1, z3.Extract(0, 0, a))
        elif isinstance(a, int):
            if a == 0:
                if op in ('add', 'or', 'xor'):
                    return b
                if op in ('and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
                    return 0
            if op == 'add':
                return addfold(b, bv(a, w))
        if op == 'and' and isinstance(b, int) and b and w >= 32 and (M & ~b) + 1 == b & -b:
            # x & -2^k of a multiple of 2^k
            x = simp(a)
            if tzeros(x) >= (b & -b).bit_length() - 1:
                return x
        if op == 'shl' and isinstance(b, int) and 0 < b < w and w >= 32:
            # (x >> k) << k of a multiple of 2^k
            x = simp(a)
            if z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                y = x.arg(1)
                if y.decl().kind() == z3.Z3_OP_EXTRACT and y.params() == [w - 1, b] and y.arg(0).size() == w and tzeros(y.arg(0)) >= b:
                    return y.arg(0)
        x = self.sbv(a, w)
        y = self.sbv(b, w)
        if op == 'ashr' and isinstance(b, int) and 0 < b < w:
            # sign extension written as a pair of shifts
            hi = simp(z3.Extract(b - 1, 0, x))
            if z3.is_bv_value(hi) and hi.as_long() == 0:
                return z3.SignExt(b, simp(z3.Extract(w - 1, b, x)))
        if op == 'add':
            return x + y
        if op == 'sub':
            if x.eq(y):
                return 0
            return subfold(x, y)
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return self.xor(x, y)
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op in ('udiv', 'urem'):
            if w >= 32 and isinstance(b, int) and b & (b - 1):
                return self.divrem(x, b, w)[op == 'urem']
            return z3.UDiv(x, y) if op == 'udiv' else z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Unsupported(op)

    def divrem(self, x, c, w):
        """quotient and remainder by a constant as names tied to the dividend by a linear equation"""
        x = simp(x)
        k = (x.get_id(), c)
        r = self.divs.get(k)
        if r is None:
            ub = ubound(x) // c
            n = len(self.divs)
            out = []
            for nm, u in (('div%d' % n, ub), ('rem%d' % n, min(c - 1, ubound(x)))):
                if u == 0:
                    out.append((None, bv(0, w)))
                    continue
                v = z3.BitVec(nm, min(w, u.bit_length()))
                e = simp(z3.ZeroExt(w - v.size(), v)) if v.size() < w else v
                _ub[e.get_id()] = (u, e)
                out.append((v, e))
            (qv, q), (rv, r) = out
            d = [x == simp(q * bv(c, w) + r)]
            d += [z3.ULE(e, bv(u, w)) for v, e, u in ((qv, q, ub), (rv, r, c - 1)) if v is not None and u & (u + 1)]
            b = bv(c, w)
            us = [(v, z3.Extract(v.size() - 1, 0, t), [], d, (x, c, q, r)) for v, t in ((qv, z3.UDiv(x, b)), (rv, z3.URem(x, b))) if v is not None]
            for u in us:
                self.xdef[u[0].get_id()] = u
            r = self.divs[k] = (q, r)
            self.keep.append(x)
        return r

    def xor(self, x, y):
        """sums of many terms in one canonical order, whatever the order they are added up in"""
        a, b = self.xors.get(x.get_id()), self.xors.get(y.get_id())
        a = {x.get_id(): x} if a is None else a
        b = {y.get_id(): y} if b is None else b
        s = {k: t for k, t in a.items() if k not in b}
        s.update((k, t) for k, t in b.items() if k not in a)
        if not s:
            return 0
        if len(s) < 8:
            r = x ^ y
        else:
            r = None
            for k in sorted(s):
                r = s[k] if r is None else r ^ s[k]
            if len(s) >= 16:
                # a name for the sum: its definition is enforced only where a model disagrees with it
                q = self.xnames.get(r.get_id())
                if q is None:
                    q = z3.BitVec('xor%d' % len(self.xnames), r.size())
                    self.xnames[r.get_id()] = q
                    self.xdef[q.get_id()] = (q, r, list(s.values()))
                    self.xkeep.append(r)
                    self.xbyset[frozenset(s)] = q
                r = q
        self.xors[r.get_id()] = s
        self.xkeep.append(r)
        return r

    def xnamed(self, x, y):
        """the sum of both where it has a name already: x == y is then the same as that sum being 0"""
        a, b = self.xors.get(x.get_id()), self.xors.get(y.get_id())
        if (a is None or len(a) < 15) and (b is None or len(b) < 15):
            return None
        a = {x.get_id(): x} if a is None else a
        b = {y.get_id(): y} if b is None else b
        return self.xbyset.get(frozenset(a.keys() ^ b.keys()))

    def xuses(self, e):
        k = e.get_id()
        r = self.xseen.get(k)
        if r is None:
            r = {}
            seen = set()
            stack = [e]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if i in self.xdef:
                    r[i] = self.xdef[i]
                elif x.num_args():
                    stack.extend(x.children())
            self.keep.append(e)
            r = self.xseen[k] = tuple(r.values())
        return r

    def xuse(self, st, e):
        if self.xdef:
            for u in self.xuses(e):
                if not any(q is u for q in st.xd):
                    st.xd.append(u)
                    self.xuse(st, u[1])
                    st.model.update_value(u[0], st.model.eval(u[1], model_completion=True))
                    if len(u) > 3:
                        for q in u[3]:
                            self.xuse(st, q)
                        for q in u[3]:
                            if not any(q is p for p in st.pc):
                                st.pc.append(q)
                                self.learn(st, q)
                    if len(u) > 4:
                        # dividend == quotient * divisor + remainder over the integers
                        x, c, q, r = u[4]
                        e = self.exact(st, x)
                        if e is not None:
                            d = dict(e[1])
                            k = -e[0]
                            for f, y in ((-c, q), (-1, r)):
                                b, ts = lin(y)
                                k -= f * b
                                for i, (g, z) in ts.items():
                                    o = d.get(i)
                                    d[i] = ((o[0] if o else 0) + f * g, z)
                            d = {i: v for i, v in d.items() if v[0]}
                            self.lfact(st, d, k)
                            self.lfact(st, {i: (-g, z) for i, (g, z) in d.items()}, -k)

    def xfix(self, st, m, extra):
        """a model in which named sums have the value of their terms, or None after their definition became part of the path"""
        bad = [u for u in st.xd if not z3.is_true(m.eval(u[0] == u[1], model_completion=True))]
        if not bad:
            return m
        for q, r, leaves in (u[:3] for u in bad):
            n = 0
            d = m.eval(q ^ r, model_completion=True).as_long()
            for l in leaves[::-1]:
                c = self.leaf_vars(l)
                if c is None:
                    continue
                n += 1
                if n > 12:
                    break
                m2 = m.__copy__()
                v = m.eval(l, model_completion=True).as_long() ^ d
                for b in c:
                    m2.update_value(b, bv(v & ((1 << b.size()) - 1), b.size()))
                    v >>= b.size()
                self.tables(st, m2)
                if self.fine(st, m2, extra):
                    m = m2
                    d = 0
                    break
            if d:
                st.pc.extend(u[0] == u[1] for u in bad)
                return None
        return m

    def leaf_vars(self, l):
        cs = l.children()[::-1] if l.decl().kind() == z3.Z3_OP_CONCAT else [l]
        if all(z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED for c in cs) and len({c.get_id() for c in cs}) == len(cs):
            return cs
        return None

    def icmp(self, st, pred, a, b, t):
        if isinstance(t, tuple):
            return [self.icmp(st, pred, x, y, t[2]) for x, y in zip(a, b)]
        if t == 'ptr':
            if a is UND or b is UND:
                # an undefined pointer may be any: so may the outcome
                self.fresh += 1
                return z3.Bool('up!%d' % self.fresh)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                a, b = a.off, b.off
                if isinstance(a, int) and isinstance(b, int):
                    pass
                w = self.ptrw
                if isinstance(a, int):
                    a &= self.pmask()
                if isinstance(b, int):
                    b &= self.pmask()
            else:
                if pred in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(b, Ptr) and (a.obj == 0) != (b.obj == 0):
                    z = a if a.obj == 0 else b
                    if z.off == 0:
                        return 1 if pred == 'ne' else 0
                a = self.paddr(a) if isinstance(a, Ptr) else a
                b = self.paddr(b) if isinstance(b, Ptr) else b
                w = self.ptrw
        else:
            w = t
            a = self.toint(a, w)
            b = self.toint(b, w)
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            if p == 'lt':
                return int(a < b)
            if p == 'le':
                return int(a <= b)
            if p == 'gt':
                return int(a > b)
            return int(a >= b)
        if w == 1:
            a = self.sbool(a)
            b = self.sbool(b)
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return z3.Xor(a, b)
            if pred == 'ult':
                return z3.And(z3.Not(a), b)
            if pred == 'ugt':
                return z3.And(a, z3.Not(b))
            if pred == 'ule':
                return z3.Or(z3.Not(a), b)
            if pred == 'uge':
                return z3.Or(a, z3.Not(b))
            raise Unsupported('icmp i1 ' + pred)
        x = self.sbv(a, w)
        y = self.sbv(b, w)
        if self.xdef and pred in ('eq', 'ne') and not isinstance(a, int) and not isinstance(b, int):
            r = self.xnamed(x, y)
            if r is not None:
                x, y = r, bv(0, w)
        if w >= 32 and pred[0] != 's':
            if pred in ('ult', 'ugt'):
                if pred == 'ult':
                    x, y = y, x
                r = self.ule(st, x, y, w)          # not (y <= x)
                return 1 - r if isinstance(r, int) else z3.Not(r)
            if pred == 'ule':
                return self.ule(st, x, y, w)
            if pred == 'uge':
                return self.ule(st, y, x, w)
        if pred == 'eq':
            if isinstance(b, int) and z3.is_app_of(x, z3.Z3_OP_ITE):
                p, q = x.arg(1), x.arg(2)
                if z3.is_bv_value(p) and z3.is_bv_value(q):
                    pe, qe = p.as_long() == b, q.as_long() == b
                    if pe and qe:
                        return 1
                    if pe:
                        return x.arg(0)
                    if qe:
                        return z3.Not(x.arg(0))
                    return 0
            return x == y
        if pred == 'ne':
            r = self.icmp(st, 'eq', a, b, w)
            return 1 - r if isinstance(r, int) else z3.Not(r)
        if pred == 'ult':
            return z3.ULT(x, y)
        if pred == 'ule':
            return z3.ULE(x, y)
        if pred == 'ugt':
            return z3.UGT(x, y)
        if pred == 'uge':
            return z3.UGE(x, y)
        if pred == 'slt':
            return x < y
        if pred == 'sle':
            return x <= y
        if pred == 'sgt':
            return x > y
        if pred == 'sge':
            return x >= y
        raise Unsupported(pred)

    # ---- linear arithmetic over sums that cannot wrap around
    # An unsigned comparison of two sums whose exact integer values fit the width is a linear inequality over the
    # integers.  Such inequalities that hold on a path are kept in st.lia (as (terms, constant): sum of coefficient *
    # term <= constant) and most range checks follow from them in linear integer arithmetic; the bit-vector solver is
    # asked only where they do not.
    def tbounds(self, st, x):
        f = st.facts.get(x.get_id())
        if f is not None:
            return f[0], f[1]
        return 0, ubound(x)

    def range(self, st, c, ts):
        lo = hi = c
        for q, x in ts.values():
            l, h = self.tbounds(st, x)
            if q >= 0:
                lo += q * l
                hi += q * h
            else:
                lo += q * h
                hi += q * l
        return lo, hi

    def exact(self, st, x, deep=True):
        """(constant, terms) whose integer sum is the value of x, or None"""
        c, ts = lin(x)
        M = 1 << x.size()
        cs = (c, c % M) if c < 0 else (c,)
        for u in cs:
            l, h = self.range(st, u, ts)
            if 0 <= l and h < M:
                return u, ts
        if deep and st.lia:
            for u in cs:
                l, h = self.range(st, u, ts)
                if l >= M or h < 0:
                    continue
                if (l >= 0 or self.lia_le(st, {i: (-q, e) for i, (q, e) in ts.items()}, u)) and (h < M or self.lia_le(st, ts, M - 1 - u)):
                    return u, ts
        return None

    def eqform(self, st, x, y):
        """x == y as an integer equation (terms, constant), or None"""
        M = 1 << x.size()
        c, ts = lin(x)
        k, us = lin(y)
        d = dict(ts)
        for i, (q, e) in us.items():
            o = d.get(i)
            d[i] = ((o[0] if o else 0) - q, e)
        d = {i: (sgn(q % M, x.size()), e) for i, (q, e) in d.items() if q % M}
        b = sgn((k - c) % M, x.size())
        l, h = self.range(st, -b, d)
        if l <= -M or h >= M:
            if not st.lia:
                return None
            if l <= -M and not self.lia_le(st, {i: (-q, e) for i, (q, e) in d.items()}, M - 1 - b):
                return None
            if h >= M and not self.lia_le(st, d, M - 1 + b):
                return None
        return d, b

    def linform(self, st, x, y, deep=True):
        """x <= y (unsigned) as an integer inequality (terms, constant), or None"""
        e1 = self.exact(st, x, deep)
        if e1 is None:
            return None
        e2 = self.exact(st, y, deep)
        if e2 is None:
            # x <= x + b says that the sum does not wrap
            M = 1 << x.size()
            c, ts = lin(y)
            d = dict(ts)
            for i, (q, e) in e1[1].items():
                o = d.get(i)
                r = (o[0] if o else 0) - q
                if r:
                    d[i] = (r, e)
                else:
                    del d[i]
            k = sgn((c - e1[0]) % M, x.size())
            if k < 0:
                return None
            l, h = self.range(st, k, d)
            if l < 0 or h >= M or any(q < 0 for q, _ in d.values()):
                return None
            t = dict(e1[1])
            for i, (q, e) in d.items():
                o = t.get(i)
                t[i] = ((o[0] if o else 0) + q, e)
            return {i: v for i, v in t.items() if v[0]}, M - 1 - e1[0] - k
        d = dict(e1[1])
        for i, (q, e) in e2[1].items():
            o = d.get(i)
            d[i] = ((o[0] if o else 0) - q, e)
        return {i: v for i, v in d.items() if v[0]}, e2[0] - e1[0]

    def lterm(self, st, d, full):
        s = self.lsolver
        xs = []
        for i, (q, e) in d.items():
            v = self.lvars.get(i)
            if v is None:
                v = z3.Int('t%d' % i)
                self.lvars[i] = v
                self.keep.append(e)
            xs.append((q, v))
            # a fact stays on the stack for other paths: only bounds that hold on all of them may go with it
            l, h = self.tbounds(st, e) if full else (0, ubound(e))
            s.add(v >= l, v <= h)
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                # 0 or 1, depending on whether a remainder is 0
                r = self.zeroflag(e)
                if r is not None:
                    u = self.lvars.get(r.get_id())
                    if u is None:
                        u = self.lvars[r.get_id()] = z3.Int('t%d' % r.get_id())
                        self.keep.append(r)
                    s.add(v <= u, u <= ubound(r) * v)
        if not xs:
            return z3.IntVal(0)
        return z3.Sum([q * v if q != 1 else v for q, v in xs])

    def zeroflag(self, e):
        """the remainder r of which e is If(r == 0, 0, 1)"""
        c, a, b = e.children()
        if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 0 and b.as_long() == 1 and c.decl().kind() == z3.Z3_OP_EQ:
            for v, o in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_bv_value(o) and o.as_long() == 0 and z3.is_const(v) and v.get_id() in self.xdef and v.size() <= e.size():
                    return simp(z3.ZeroExt(e.size() - v.size(), v)) if v.size() < e.size() else v
        return None

    def lia_le(self, st, d, c):
        """does sum(d) <= c follow from the linear facts of the path?"""
        if self.range(st, 0, d)[1] <= c:
            return True
        if self.range(st, 0, d)[0] > c:
            return False
        t0 = time.time()
        ls = self.lstack
        n = 0
        lim = min(len(ls), len(st.lia))
        while n < lim and ls[n] is st.lia[n]:
            n += 1
        s = self.lsolver
        if n < len(ls):
            s.pop(len(ls) - n)
            del ls[n:]
        for it in st.lia[n:]:
            s.push()
            s.add(self.lterm(st, it[0], False) <= it[1])
            ls.append(it)
        s.push()
        s.add(self.lterm(st, d, True) > c)
        r = s.check()
        s.pop()
        self.stats['lia'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r == z3.unsat

    def entails(self, st, c):
        """does the condition follow from the linear facts of the path?  (False: don't know)"""
        if st.fts and self.dom_entails(st, c):
            return True
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            return all(self.entails(st, x) for x in c.children())
        if k == z3.Z3_OP_OR:
            return any(self.entails(st, x) for x in c.children())
        n = False
        if k == z3.Z3_OP_NOT:
            n = True
            c = c.arg(0)
            k = c.decl().kind()
            if k == z3.Z3_OP_NOT:
                return self.entails(st, c.arg(0))
            if k == z3.Z3_OP_AND:
                return any(self.entails(st, simp(z3.Not(x))) for x in c.children())
            if k == z3.Z3_OP_OR:
                return all(self.entails(st, simp(z3.Not(x))) for x in c.children())
        if k == z3.Z3_OP_ULEQ and c.arg(0).size() >= 32:
            f = self.linform(st, c.arg(0), c.arg(1))
            if f is None:
                return False
            d, b = f
            if n:
                return self.lia_le(st, {i: (-q, e) for i, (q, e) in d.items()}, -b - 1)
            return self.lia_le(st, d, b)
        if k == z3.Z3_OP_EQ and not n and z3.is_bv(c.arg(0)) and c.arg(0).size() >= 32:
            f = self.eqform(st, c.arg(0), c.arg(1))
            if f is None:
                return False
            d, b = f
            return self.lia_le(st, d, b) and self.lia_le(st, {i: (-q, e) for i, (q, e) in d.items()}, -b)
        if k == z3.Z3_OP_EQ and n and st.lia and z3.is_bv(c.arg(0)) and c.arg(0).size() >= 32:
            f = self.eqform(st, c.arg(0), c.arg(1))
            if f is not None and len(f[0]) > 1:
                d, b = f
                if self.lia_le(st, d, b - 1) or self.lia_le(st, {i: (-q, e) for i, (q, e) in d.items()}, -b - 1):
                    return True
        r = st.known.get(c.get_id())
        return r is not None and r[0] == (0 if n else 1)

    def ule(self, st, x, y, w):
        """x <= y, with the common parts of both sides cancelled where neither side can wrap around"""
        x = simp(x)
        y = simp(y)
        f = None
        e1 = self.exact(st, x, False)
        if e1 is not None and self.exact(st, y, False) is not None:
            f = self.linform(st, x, y, False)
        if f is None:
            return z3.ULE(x, y)
        d, c = f
        M = 1 << w
        lo, hi = self.range(st, -c, d)
        if hi <= 0:
            return 1
        if lo > 0:
            return 0
        g = 0
        for q, e in d.values():
            g = math.gcd(g, abs(q))
        if g > 1:
            c = c // g                             # floor
            d = {i: (q // g, e) for i, (q, e) in d.items()}
        ps = [(q, e) for q, e in d.values() if q > 0]
        ns = [(-q, e) for q, e in d.values() if q < 0]
        lc, rc = (0, c) if c >= 0 else (-c, 0)
        _, ph = self.range(st, lc, {k: v for k, v in enumerate(ps)})
        _, nh = self.range(st, rc, {k: v for k, v in enumerate(ns)})
        if ph >= M or nh >= M:
            return z3.ULE(x, y)
        ps.sort(key=lambda v: v[1].get_id())
        ns.sort(key=lambda v: v[1].get_id())
        return z3.ULE(build_lin(lc, ps, w), build_lin(rc, ns, w))

    def learn(self, st, c):
        """remember the linear facts that a condition of the path implies"""
        if st.fts:
            self.dom_learn(st, c)
        todo = conj(c)
        late = []
        for q in todo:
            if not self.learn1(st, q):
                late.append(q)
        for q in late:
            self.learn1(st, q)

    def learn1(self, st, q):
        n = z3.is_not(q)
        if n:
            q = q.arg(0)
        k = q.decl().kind()
        if k == z3.Z3_OP_EQ and not n and z3.is_bv(q.arg(0)) and q.arg(0).size() >= 32:
            f = self.eqform(st, q.arg(0), q.arg(1))
            if f is None:
                return False
            self.lfact(st, *f)
            self.lfact(st, {i: (-r, e) for i, (r, e) in f[0].items()}, -f[1])
            return True
        if k == z3.Z3_OP_EQ and n and z3.is_bv(q.arg(0)) and q.arg(0).size() >= 32 and st.lia:
            f = self.eqform(st, q.arg(0), q.arg(1))
            if f is None or not f[0]:
                return f is not None
            d, b = f
            m = {i: (-r, e) for i, (r, e) in d.items()}
            if len(d) > 1:
                if self.lia_le(st, d, b):
                    self.lfact(st, d, b - 1)
                elif self.lia_le(st, m, -b):
                    self.lfact(st, m, -b - 1)
            return True
        if k != z3.Z3_OP_ULEQ or q.arg(0).size() < 32:
            return True
        f = self.linform(st, q.arg(0), q.arg(1))
        if f is None:
            return False
        d, c = f
        if n:
            d, c = {i: (-r, e) for i, (r, e) in d.items()}, -c - 1
        self.lfact(st, d, c)
        return True

    def lfact(self, st, d, c):
        lo, hi = self.range(st, 0, d)
        if hi <= c or not d:
            return
        # tighten the bounds of the terms
        for i, (q, e) in d.items():
            l, h = self.tbounds(st, e)
            if q > 0:
                m = (c - (lo - q * l)) // q
                if l <= m < h:
                    st.facts[i] = (l, m, e)
                    if q & (q - 1) and e.size() >= 32 and m.bit_length() <= 32 and h.bit_length() > m.bit_length():
                        # tell the bit-vector solver that this product is a small one
                        st.pc.append(z3.ULE(e, bv(m, e.size())))
            else:
                m = -((c - (lo - q * h)) // -q)
                if l < m <= h:
                    st.facts[i] = (m, h, e)
        st.lia.append((d, c))

    # ------------------------------------------------------------------ instruction decoding
    def decode(self, fn, label):
        code = fn.parsed.get(label)
        if code is None:
            for s in fn.blocks[label]:
                self.dbgseen.update(DBG_RE.findall(s))
            code = [self.decode_instr(s, fn) for s in fn.blocks[label]]
            # split phis
            ph = [c for c in code if c[0] == 'phi']
            code = (ph, [c for c in code if c[0] != 'phi'])
            fn.parsed[label] = code
        return code

    def opnd(self, v, t):
        """runtime-ready operand"""
        if isinstance(v, Reg):
            return v
        return ('k', self.const(v, t))

    def decode_instr(self, s, fn):
        try:
            return self._decode_instr(s, fn)
        except (SyntaxError, Unsupported, IndexError, KeyError) as e:
            return ('unsupported', None, '%s: %s' % (s[:200], e))

    def _decode_instr(self, s, fn):
        p = P(tokenize(s), self.m)
        res = None
        if p.peek()[0] == 'reg' and p.peek(1)[1] == '=':
            res = Reg(unq(p.next()[1][1:]))
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op in BINOPS:
            while p.peek()[0] == 'word' and p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.i += 1
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return ('bin', res, op, t, self.opnd(a, t), self.opnd(b, t))
        if op == 'icmp':
            if p.peek()[1] == 'samesign':
                p.i += 1
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return ('icmp', res, pred, t, self.opnd(a, t), self.opnd(b, t))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'):
            while p.peek()[0] == 'word' and p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.i += 1
            t, v = p.tval()
            p.exp('to')
            t2 = p.type()
            return ('cast', res, op, t, t2, self.opnd(v, t))
        if op == 'freeze':
            t, v = p.tval()
            return ('freeze', res, t, self.opnd(v, t))
        if op == 'select':
            ct, c = p.tval()
            p.exp(',')
            t, a = p.tval()
            p.exp(',')
            t2, b = p.tval()
            return ('select', res, ct, t, self.opnd(c, ct), self.opnd(a, t), self.opnd(b, t))
        if op == 'phi':
            t = p.type()
            d = {}
            while True:
                p.exp('[')
                v = p.value(t)
                p.exp(',')
                l = unq(p.next()[1][1:])
                p.exp(']')
                d[l] = self.opnd(v, t)
                if not p.acc(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return ('phi', res, t, d)
        if op == 'br':
            if p.acc('label'):
                return ('jmp', None, unq(p.next()[1][1:]))
            t, c = p.tval()
            p.exp(',')
            p.exp('label')
            a = unq(p.next()[1][1:])
            p.exp(',')
            p.exp('label')
            b = unq(p.next()[1][1:])
            return ('br', None, self.opnd(c, 1), a, b)
        if op == 'switch':
            t, v = p.tval()
            p.exp(',')
            p.exp('label')
            d = unq(p.next()[1][1:])
            p.exp('[')
            cases = []
            while not p.acc(']'):
                ct, cv = p.tval()
                p.exp(',')
                p.exp('label')
                cases.append((cv, unq(p.next()[1][1:])))
            return ('switch', None, t, self.opnd(v, t), d, cases)
        if op == 'ret':
            if p.acc('void'):
                return ('ret', None, None, None)
            t, v = p.tval()
            return ('ret', None, t, self.opnd(v, t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'alloca':
            if p.peek()[1] == 'inalloca':
                p.i += 1
            t = p.type()
            n = 1
            if p.acc(','):
                if p.is_type():
                    nt, n = p.tval()
            return ('alloca', res, self.m.size(t), n)
        if op == 'load':
            while p.peek()[0] == 'word' and p.peek()[1] in ('volatile', 'atomic'):
                p.i += 1
            t = p.type()
            p.exp(',')
            pt, v = p.tval()
            return ('load', res, t, self.opnd(v, 'ptr'))
        if op == 'store':
            while p.peek()[0] == 'word' and p.peek()[1] in ('volatile', 'atomic'):
                p.i += 1
            t, v = p.tval()
            p.exp(',')
            pt, q = p.tval()
            return ('store', None, t, self.opnd(v, t), self.opnd(q, 'ptr'))
        if op == 'getelementptr':
            while p.peek()[0] == 'word' and p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.i += 1
                if p.peek()[1] == '(':
                    p.skip_balanced()
            t = p.type()
            p.exp(',')
            bt, b = p.tval()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta':
                    break
                it, iv = p.tval()
                idx.append((it, self.opnd(iv, it)))
            # flatten into constant + list of (reg, width, scale)
            m = self.m
            const = 0
            var = []
            cur = t
            for j, (it, iv) in enumerate(idx):
                if j == 0:
                    sc = m.size(cur)
                elif cur[0] == 's':
                    k = iv[1]
                    const += m.offsets(cur)[k]
                    cur = cur[2][k]
                    continue
                else:
                    cur = cur[2]
                    sc = m.size(cur)
                if isinstance(iv, Reg):
                    var.append((iv, it, sc))
                else:
                    const += sgn(iv[1], it) * sc
            return ('gep', res, self.opnd(b, 'ptr'), const, var)
        if op == 'extractvalue':
            t, v = p.tval()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return ('extractvalue', res, self.opnd(v, t), idx)
        if op == 'insertvalue':
            t, v = p.tval()
            p.exp(',')
            et, ev = p.tval()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return ('insertvalue', res, self.opnd(v, t), self.opnd(ev, et), idx)
        if op in ('call', 'invoke'):
            p.skip_attrs()
            rt = p.type()
            if p.peek()[1] == '(':     # function type (varargs)
                p.skip_balanced()
            if p.peek()[1] == 'asm':
                return ('unsupported', res, s[:120])
            k, v = p.peek()
            callee = p.value('ptr')
            if isinstance(callee, GRef):
                callee = callee.name
            else:
                callee = self.opnd(callee, 'ptr')
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    at = p.type()
                    p.skip_attrs()
                    av = p.value(at)
                    if at != 'metadata':
                        args.append((at, self.opnd(av, at)))
                    if p.acc(')'):
                        break
                    p.exp(',')
            cont = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.i += 1
                p.exp('to')
                p.exp('label')
                cont = unq(p.next()[1][1:])
            if isinstance(callee, str) and callee.startswith('llvm.'):
                n = callee
                if n.startswith(NOP_INTRIN):
                    return ('nop', None)
                return ('intrin', res, rt, n, args)
            return ('call', res, rt, callee, args, cont)
        if op == 'extractelement':
            t, v = p.tval()
            p.exp(',')
            it, iv = p.tval()
            return ('extractelement', res, self.opnd(v, t), self.opnd(iv, it))
        if op == 'insertelement':
            t, v = p.tval()
            p.exp(',')
            et, ev = p.tval()
            p.exp(',')
            it, iv = p.tval()
            return ('insertelement', res, self.opnd(v, t), self.opnd(ev, et), self.opnd(iv, it))
        if op == 'shufflevector':
            t, a = p.tval()
            p.exp(',')
            t2, b = p.tval()
            p.exp(',')
            mt, mk = p.tval()
            return ('shufflevector', res, t, self.opnd(a, t), self.opnd(b, t), self.opnd(mk, mt))
        return ('unsupported', res, s[:160])

    # ------------------------------------------------------------------ run
    def start_state(self):
        st = State()
        st.frames = []
        st.objs = {}
        st.own = set()
        st.pc = []
        st.model = None
        st.syms = []
        st.regions = []
        st.known = {}
        st.facts = {}
        st.lia = []
        st.fts = []
        st.xd = []
        st.dom = {}
        st.outs = []
        st.steps = 0
        st.covers = []
        st.depth = 0
        st.nalloc = 0
        st.allocbytes = 0
        st.clones = 0
        st.canon = {}
        st.bases = []
        st.rv = {}
        s = z3.Solver()
        s.check()
        st.model = s.model()
        return st

    def push_frame(self, st, fn, args, ret):
        f = Frame()
        f.fn = fn
        f.regs = {}
        for r, a in zip(fn.params, args):
            f.regs[r] = a
        f.block = fn.entry
        f.idx = 0
        f.prev = None
        f.ret = ret
        f.allocas = []
        f.visits = 0
        st.frames.append(f)
        self.funcs_seen.add(fn.name)

    def run(self, entry, case=0):
        self.case = case
        self.work = []
        self.inconclusive = []
        self.t0 = time.time()
        st = self.start_state()
        self.push_frame(st, self.m.func(entry), [], None)
        self.work.append(st)
        self.loop()

    def loop(self):
        while self.work:
            if len(self.work) > 1 and self.share is not None:
                self.share(self)
            if self.stop is not None and self.stop():
                return
            st = self.work.pop()
            try:
                self.exec_path(st)
                kind, msg = 'ok', ''
            except PathEnd as e:
                kind, msg = e.kind, e.msg
            self.stats['paths'] += 1
            self.stats['steps'] += st.steps
            if kind == 'panic':
                self.stats['panics'] += 1
                self.violation(st, 'panic', msg, st.model)
            elif kind in ('oob', 'ub', 'abort'):
                self.violation(st, kind, msg, st.model)
            elif kind == 'hang':
                self.violation(st, 'hang', msg, st.model)
            elif kind == 'assume':
                self.stats['killed'] += 1
            if kind == 'ok':
                for c in st.covers:
                    self.covers[c] = self.covers.get(c, 0) + 1
                if self.path_hook is not None:
                    self.path_hook(self, st)
            if self.stats['paths'] >= self.cfg.max_paths and self.work:
                raise Inconclusive('path limit')
            if time.time() - self.t0 > self.cfg.time_limit and self.work:
                raise Inconclusive('time limit with %d states left' % len(self.work))

    def exec_path(self, st):
        frames = st.frames
        f = frames[-1]
        code = self.decode(f.fn, f.block)[1]
        handlers = self.handlers
        maxs = self.cfg.max_steps
        lim = min(maxs, st.steps + 200_000)
        while True:
            ins = code[f.idx]
            st.steps += 1
            r = handlers[ins[0]](self, st, f, ins)
            if r is None:
                f.idx += 1
                continue
            # control transfer
            if r == 1:         # jump within the frame
                if st.steps > lim:
                    if st.steps > maxs:
                        raise PathEnd('hang', 'step limit in ' + f.fn.name)
                    lim = min(maxs, st.steps + 200_000)
                    if self.stop is not None and self.stop():
                        raise PathEnd('stopped')
                    if time.time() - self.t0 > self.cfg.time_limit:
                        raise Inconclusive('time limit')
                code = self.decode(f.fn, f.block)[1]
                continue
            if r == 2:         # frame change
                if not frames:
                    return
                if len(frames) > 400:
                    raise PathEnd('hang', 'recursion limit in ' + f.fn.name)
                f = frames[-1]
                code = self.decode(f.fn, f.block)[1]
                continue

    def ev(self, f, o):
        if o.__class__ is Reg:
            return f.regs[o]
        return o[1]

    def jump(self, st, f, target):
        phis = self.decode(f.fn, target)[0]
        if phis:
            cur = f.block
            regs = f.regs
            vals = []
            for ph in phis:
                o = ph[3][cur]
                vals.append((ph[1], regs[o] if o.__class__ is Reg else o[1]))
            for r, v in vals:
                regs[r] = v
        f.prev = f.block
        f.block = target
        f.idx = 0
        return 1

    # handlers ---------------------------------------------------------
    def h_bin(self, st, f, i):
        a = i[4]
        b = i[5]
        a = f.regs[a] if a.__class__ is Reg else a[1]
        b = f.regs[b] if b.__class__ is Reg else b[1]
        op = i[2]
        w = i[3]
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(w, int) and not isinstance(b, int):
            b = self.toint(b, w)
            # rustc guards divisions; a zero divisor here would be UB
            if self.decide(st, b == bv(0, w)):
                raise PathEnd('ub', 'division by zero')
        f.regs[i[1]] = self.binop(op, a, b, w)

    def h_icmp(self, st, f, i):
        a = i[4]
        b = i[5]
        a = f.regs[a] if a.__class__ is Reg else a[1]
        b = f.regs[b] if b.__class__ is Reg else b[1]
        f.regs[i[1]] = self.icmp(st, i[2], a, b, i[3])

    def h_cast(self, st, f, i):
        v = self.ev(f, i[5])
        op, t, t2 = i[2], i[3], i[4]
        f.regs[i[1]] = self.cast(st, op, t, t2, v)

    def cast(self, st, op, t, t2, v):
        if isinstance(t, tuple) and op != 'bitcast':
            return [self.cast(st, op, t[2], t2[2], x) for x in v]
        if op == 'zext':
            return self.cast_zext(v, t, t2)
        if op == 'trunc':
            return self.cast_trunc(v, t, t2)
        if op == 'sext':
            if v is UND:
                v = self.toint(v, t)
            if isinstance(v, int):
                return sgn(v, t) & ((1 << t2) - 1)
            if t == 1:
                return z3.If(v, bv((1 << t2) - 1, t2), bv(0, t2))
            return z3.SignExt(t2 - t, v)
        if op in ('ptrtoint', 'ptrtoaddr'):
            if v is UND:
                return UND
            a = self.paddr(v) if isinstance(v, Ptr) else v
            if t2 == self.ptrw:
                return a
            if t2 < self.ptrw:
                return self.cast_trunc(a, self.ptrw, t2)
            return self.cast_zext(a, self.ptrw, t2)
        if op == 'inttoptr':
            if v is UND:
                return UND
            if t < self.ptrw:
                v = self.cast_zext(v, t, self.ptrw)
            return self.to_ptr(st, v)
        if op == 'bitcast':
            if t == t2:
                return v
            # go through bytes
            bs = self.val_bytes(v, t)
            return self.bytes_val(st, bs, t2)
        raise Unsupported(op)

    def val_bytes(self, v, t):
        if isinstance(t, int):
            if t % 8:
                if t == 1:
                    raise Unsupported('bitcast i1')
                raise Unsupported('bitcast i%d' % t)
            n = t // 8
            return [self.extract_byte(v, n, i) for i in range(n)]
        if t[0] == 'v':
            if t[2] == 1:
                # <n x i1> -> bits
                return ('bits', v)
            out = []
            for x in v:
                out += self.val_bytes(x, t[2])
            return out
        raise Unsupported('val_bytes')

    def bytes_val(self, st, bs, t):
        if isinstance(bs, tuple) and bs[0] == 'bits':
            if isinstance(t, int):
                if all(isinstance(b, int) for b in bs[1]):
                    r = 0
                    for k, b in enumerate(bs[1]):
                        r |= b << k
                    return r
                parts = [z3.If(self.sbool(b), bv(1, 1), bv(0, 1)) for b in bs[1]]
                return z3.Concat(*parts[::-1]) if len(parts) > 1 else parts[0]
            raise Unsupported('bits')
        if isinstance(t, int):
            if t % 8:
                raise Unsupported('bytes_val i%d' % t)
            return self.join(bs)
        if t[0] == 'v':
            n = t[2] // 8
            return [self.join(bs[i * n:(i + 1) * n]) for i in range(t[1])]
        raise Unsupported('bytes_val')

    def h_freeze(self, st, f, i):
        v = self.ev(f, i[3])
        if v is UND:
            t = i[2]
            v = 0 if isinstance(t, int) else Ptr(0, 0)
        f.regs[i[1]] = v

    def h_select(self, st, f, i):
        c = self.ev(f, i[4])
        a = self.ev(f, i[5])
        b = self.ev(f, i[6])
        t = i[3]
        if isinstance(c, list):
            f.regs[i[1]] = [self.sel(st, ci, x, y, t[2]) for ci, x, y in zip(c, a, b)]
            return
        f.regs[i[1]] = self.sel(st, c, a, b, t)

    def sel(self, st, c, a, b, t):
        if isinstance(c, int):
            return a if c else b
        if c is UND:
            return a
        if a is b:
            return a
        if isinstance(t, int):
            if a is UND:
                return b
            if b is UND:
                return a
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            k = st.known.get(c.get_id())
            if k is not None:
                return a if k[0] else b
            if t == 1:
                if isinstance(a, int):
                    if a:
                        return z3.Or(c, b) if not isinstance(b, int) else (1 if b else c)
                    return z3.And(z3.Not(c), b) if not isinstance(b, int) else (z3.Not(c) if b else 0)
                if isinstance(b, int):
                    return z3.Or(z3.Not(c), a) if b else z3.And(c, a)
                return z3.If(c, a, b)
            a = self.toint(a, t)
            b = self.toint(b, t)
            return z3.If(c, self.sbv(a, t), self.sbv(b, t))
        if t == 'ptr':
            if a is UND:
                return b
            if b is UND:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                if a.obj == 0 or True:
                    x = a.off if not isinstance(a.off, int) else bv(a.off & self.pmask(), self.ptrw)
                    y = b.off if not isinstance(b.off, int) else bv(b.off & self.pmask(), self.ptrw)
                    return Ptr(a.obj, z3.If(c, x, y))
            return a if self.decide(st, c) else b
        return a if self.decide(st, c) else b

    def h_jmp(self, st, f, i):
        return self.jump(st, f, i[2])

    def h_br(self, st, f, i):
        c = i[2]
        c = f.regs[c] if c.__class__ is Reg else c[1]
        if c.__class__ is not int:
            j = self.hammock(f.fn, f.block, i)
            if j is not None:
                return self.merge(st, f, i, c, j)
            c = self.decide(st, c)
        return self.jump(st, f, i[3] if c else i[4])

    PURE = frozenset(('bin', 'icmp', 'cast', 'select', 'gep', 'load', 'extractvalue', 'insertvalue', 'freeze', 'nop'))

    def hammock(self, fn, block, br):
        """block where the two sides of a branch meet again after a few blocks without effects, or None"""
        key = (fn.name, block)
        if key in self.hammocks:
            return self.hammocks[key]

        def reach(b, depth):
            out = {b: depth}
            if depth >= 5:
                return out
            ins = self.decode(fn, b)[1]
            if any(q[0] not in self.PURE for q in ins[:-1]):
                return out
            t = ins[-1]
            nxt = [t[2]] if t[0] == 'jmp' else [t[3], t[4]] if t[0] == 'br' else []
            for n in nxt:
                if n in (b, block):
                    continue
                for k, d in reach(n, depth + 1).items():
                    out[k] = min(out.get(k, 99), d)
            return out
        a = reach(br[3], 0)
        b = reach(br[4], 0)
        both = [(a[k] + b[k], k) for k in a if k in b]
        r = self.hammocks[key] = min(both)[1] if both else None
        return r

    def merge(self, st, f, i, c, j):
        """branch on a predicate of one small variable: go on with one path whose values depend on it, where possible"""
        sc = simp(c) if not isinstance(c, z3.BitVecRef) else simp(c == bv(1, 1))
        vs = None if sc.num_args() == 0 and not sc.get_id() in self.unary.fv else self.unary.info(sc)[0]
        if not vs or self.unary.order(sc, vs) is None:
            c = self.decide(st, c)
            return self.jump(st, f, i[3] if c else i[4])
        base = (list(st.pc), dict(st.known), dict(st.facts), list(st.lia), dict(st.dom))
        rv0 = {k: len(d) for k, (b, d) in st.rv.items()}
        nb = (len(st.canon), len(st.bases))
        regs0 = dict(f.regs)
        n = len(self.work)
        v = self.decide(st, c)
        self.jump(st, f, i[3] if v else i[4])
        if len(self.work) == n:
            return 1
        o = self.work.pop()
        g = o.frames[-1]
        self.jump(o, g, i[4] if v else i[3])
        keep = o.fork()
        try:
            there = self.run_to(st, f, j)
        except BaseException:
            self.work.append(keep)
            raise
        if not there:
            self.work.append(keep)
            return 1
        n = len(self.work)
        try:
            there = self.run_to(o, g, j)
        except PathEnd:
            there = False
        if not there:
            del self.work[n:]
            self.work.append(keep)
            return 1
        same = all((len(x.canon), len(x.bases)) == nb and {k: len(d) for k, (b, d) in x.rv.items()} == rv0 for x in (st, o))
        new = {}
        if same:
            for r in f.regs:
                x = f.regs[r]
                if r not in g.regs or (r in regs0 and regs0[r] is x and g.regs[r] is x):
                    continue
                y = g.regs[r]
                if r in regs0 and regs0[r] is y and regs0[r] is x:
                    continue
                if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
                    continue
                w = None
                for q in (x, y):
                    if isinstance(q, z3.BitVecRef):
                        w = q.size()
                    elif isinstance(q, z3.BoolRef):
                        w = 1
                    elif not isinstance(q, int):
                        w = -1
                        break
                if w is None:
                    # two numbers: the width is known only to the instruction
                    w = self.widths(f.fn).get(r)
                if not isinstance(w, int) or w < 1:
                    same = False
                    break
                a, b = (x, y) if v else (y, x)
                new[r] = (a, b, w)
        if same:
            sc = self.unary.abstract(sc)[0]
            for r, (a, b, w) in new.items():
                if w == 1:
                    a = z3.BoolVal(bool(a)) if isinstance(a, int) else a
                    b = z3.BoolVal(bool(b)) if isinstance(b, int) else b
                    if isinstance(a, z3.BitVecRef):
                        a = a == bv(1, 1)
                    if isinstance(b, z3.BitVecRef):
                        b = b == bv(1, 1)
                    t = z3.If(sc, a, b)
                else:
                    t = z3.If(sc, self.sbv(self.toint(a, w), w), self.sbv(self.toint(b, w), w))
                q = self.unary.info(t)[0]
                if q is None or self.unary.order(t, q) is None and q:
                    same = False
                    break
                new[r] = t
        if not same:
            self.work.append(keep)
            return 1
        st.pc, st.known, st.facts, st.lia, st.dom = base
        self.use(st, o.fts)
        f.regs = {r: q for r, q in f.regs.items() if r in g.regs}
        for r, t in new.items():
            f.regs[r] = self.abstract(st, simp(t))
        st.steps += o.steps - st.steps if o.steps > st.steps else 0
        self.stats['forks'] -= 1
        self.stats['merges'] += 1
        return 1

    def widths(self, fn):
        w = getattr(fn, 'phiw', None)
        if w is None:
            w = fn.phiw = {}
            for b in fn.blocks:
                for ph in self.decode(fn, b)[0]:
                    w[ph[1]] = ph[2]
        return w

    def run_to(self, st, f, j):
        """execute effect-free blocks up to the start of block j; False: stopped early (the state is fine)"""
        n = len(self.work)
        k = 0
        while f.block != j or f.idx != 0:
            if k > 120:
                return False
            k += 1
            ins = self.decode(f.fn, f.block)[1][f.idx]
            if ins[0] not in self.PURE and ins[0] not in ('jmp', 'br'):
                return False
            if ins[0] == 'br':
                c = self.ev(f, ins[2])
                d = self.decide(st, c) if not isinstance(c, int) else c
                self.jump(st, f, ins[3] if d else ins[4])
                if len(self.work) != n:
                    return False
            elif self.handlers[ins[0]](self, st, f, ins) is None:
                f.idx += 1
            st.steps += 1
        return True

    def h_switch(self, st, f, i):
        v = self.ev(f, i[3])
        t = i[2]
        if isinstance(v, int):
            for cv, l in i[5]:
                if cv == v:
                    return self.jump(st, f, l)
            return self.jump(st, f, i[4])
        if v is UND:
            raise Unsupported('switch undef')
        if t == 1:
            d = self.decide(st, v)
            for cv, l in i[5]:
                if cv == d:
                    return self.jump(st, f, l)
            return self.jump(st, f, i[4])
        # group by target
        groups = {}
        for cv, l in i[5]:
            groups.setdefault(l, []).append(cv)
        for l, cvs in groups.items():
            if l == i[4]:
                continue
            if len(cvs) == 1:
                c = self.icmp(st, 'eq', v, cvs[0], t)
            else:
                c = z3.Or(*[v == bv(x, t) for x in cvs])
            if self.decide(st, c):
                return self.jump(st, f, l)
        return self.jump(st, f, i[4])

    def h_ret(self, st, f, i):
        v = None
        if i[3] is not None:
            v = self.ev(f, i[3])
        for a in f.allocas:
            st.objs.pop(a, None)
            st.own.discard(a)
        st.frames.pop()
        if st.frames:
            g = st.frames[-1]
            res, cont = f.ret
            if res is not None:
                g.regs[res] = v
            if cont is not None:
                self.jump(st, g, cont)
            else:
                g.idx += 1
        return 2

    def h_unreachable(self, st, f, i):
        raise PathEnd('ub', 'unreachable executed in ' + f.fn.name)

    def h_alloca(self, st, f, i):
        o = self.newobj(st, i[2] * i[3], 'stack')
        f.allocas.append(o.id)
        f.regs[i[1]] = Ptr(o.id, 0)

    def h_load(self, st, f, i):
        p = i[3]
        p = f.regs[p] if p.__class__ is Reg else p[1]
        f.regs[i[1]] = self.load(st, p, i[2])

    def h_store(self, st, f, i):
        v = i[3]
        v = f.regs[v] if v.__class__ is Reg else v[1]
        p = i[4]
        p = f.regs[p] if p.__class__ is Reg else p[1]
        self.store(st, p, i[2], v)

    def h_gep(self, st, f, i):
        b = i[2]
        b = f.regs[b] if b.__class__ is Reg else b[1]
        if not isinstance(b, Ptr):
            b = self.to_ptr(st, b)
        off = i[3]
        for r, w, sc in i[4]:
            v = f.regs[r]
            if v is UND:
                v = 0
            if isinstance(v, int):
                off = off + sgn(v, w) * sc if isinstance(off, int) else addfold(off, bv((sgn(v, w) * sc) & self.pmask(), self.ptrw))
            else:
                if w < self.ptrw:
                    v = z3.SignExt(self.ptrw - w, v)
                elif w > self.ptrw:
                    v = z3.Extract(self.ptrw - 1, 0, v)
                if sc != 1:
                    v = v * bv(sc & self.pmask(), self.ptrw)
                if isinstance(off, int):
                    off = addfold(v, bv(off & self.pmask(), self.ptrw)) if off else v
                else:
                    off = off + v
        f.regs[i[1]] = self.padd(b, off)

    def h_extractvalue(self, st, f, i):
        v = self.ev(f, i[2])
        for k in i[3]:
            v = v[k]
        f.regs[i[1]] = v

    def h_insertvalue(self, st, f, i):
        v = self.ev(f, i[2])
        e = self.ev(f, i[3])

        def ins(a, idx):
            a = list(a)
            if len(idx) == 1:
                a[idx[0]] = e
            else:
                a[idx[0]] = ins(a[idx[0]], idx[1:])
            return a
        f.regs[i[1]] = ins(v, i[4])

    def h_extractelement(self, st, f, i):
        v = self.ev(f, i[2])
        k = self.concretize(st, self.ev(f, i[3]))
        f.regs[i[1]] = v[k]

    def h_insertelement(self, st, f, i):
        v = list(self.ev(f, i[2]))
        k = self.concretize(st, self.ev(f, i[4]))
        v[k] = self.ev(f, i[3])
        f.regs[i[1]] = v

    def h_shufflevector(self, st, f, i):
        a = self.ev(f, i[3])
        b = self.ev(f, i[4])
        mk = self.ev(f, i[5])
        ab = list(a) + list(b)
        f.regs[i[1]] = [UND if k is UND else ab[k] for k in mk]

    def h_nop(self, st, f, i):
        return None

    def h_unsupported(self, st, f, i):
        raise Unsupported(i[2])

    def h_intrin(self, st, f, i):
        n = i[3]
        args = [self.ev(f, o) for _, o in i[4]]
        r = self.intrin(st, n, i[2], i[4], args)
        if i[1] is not None:
            f.regs[i[1]] = r

    def intrin(self, st, n, rt, at, args):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if n.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return None
        b = n[5:]
        for k in ('umin', 'umax', 'smin', 'smax'):
            if b.startswith(k + '.'):
                if isinstance(rt, tuple):
                    return [self.minmax(st, k, x, y, rt[2]) for x, y in zip(args[0], args[1])]
                return self.minmax(st, k, args[0], args[1], rt)
        if '.with.overflow.' in n:
            op = b.split('.')[0]
            w = rt[2][0]
            x = self.toint(args[0], w)
            y = self.toint(args[1], w)
            return list(self.with_overflow(op, x, y, w))
        for k in ('uadd.sat', 'usub.sat', 'sadd.sat', 'ssub.sat'):
            if b.startswith(k):
                w = rt
                x = self.toint(args[0], w)
                y = self.toint(args[1], w)
                r, o = self.with_overflow(k[:4], x, y, w)
                if w >= 32:
                    o = self.decide(st, o)
                M = (1 << w) - 1
                if k == 'uadd.sat':
                    s = M
                elif k == 'usub.sat':
                    s = 0
                else:
                    neg = self.icmp(st, 'slt', x, 0, w)
                    s = self.sel(st, neg, 1 << (w - 1), (1 << (w - 1)) - 1, w)
                return self.sel(st, o, s, r, w)
        if b.startswith('abs.'):
            w = rt
            x = self.toint(args[0], w)
            if isinstance(x, int):
                return abs(sgn(x, w)) & ((1 << w) - 1)
            return z3.If(x < bv(0, w), -x, x)
        if b.startswith(('ctlz.', 'cttz.', 'ctpop.')):
            w = rt
            x = self.toint(args[0], w)
            if b.startswith('ctlz'):
                if isinstance(x, int):
                    return w - x.bit_length()
                r = bv(w, w)
                for k in range(w):
                    r = z3.If(z3.Extract(k, k, x) == bv(1, 1), bv(w - 1 - k, w), r)
                return r
            if b.startswith('cttz'):
                if isinstance(x, int):
                    return w if x == 0 else (x & -x).bit_length() - 1
                r = bv(w, w)
                for k in reversed(range(w)):
                    r = z3.If(z3.Extract(k, k, x) == bv(1, 1), bv(k, w), r)
                return r
            if isinstance(x, int):
                return bin(x).count('1')
            r = bv(0, w)
            for k in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
            return r
        if b.startswith('bswap.'):
            w = rt
            x = self.toint(args[0], w)
            n8 = w // 8
            if isinstance(x, int):
                return int.from_bytes(x.to_bytes(n8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n8)])
        if b.startswith('bitreverse.'):
            w = rt
            x = self.toint(args[0], w)
            if isinstance(x, int):
                return int(bin(x)[2:].zfill(w)[::-1], 2)
            return z3.Concat(*[z3.Extract(k, k, x) for k in range(w)])
        if b.startswith(('fshl.', 'fshr.')):
            w = rt
            x, y, s = [self.toint(a, w) for a in args]
            left = b.startswith('fshl')
            if isinstance(s, int):
                s %= w
                if not left:
                    s = (w - s) % w
                    if s == 0:
                        return y
                if s == 0:
                    return x
                if isinstance(x, int) and isinstance(y, int):
                    return ((x << s) | (y >> (w - s))) & ((1 << w) - 1)
                return (self.sbv(x, w) << bv(s, w)) | z3.LShR(self.sbv(y, w), bv(w - s, w))
            raise Unsupported('fsh symbolic')
        if b.startswith(('ucmp.', 'scmp.')):
            tw = at[0][0]
            x = self.toint(args[0], tw)
            y = self.toint(args[1], tw)
            s = b[0]
            lt = self.icmp(st, s + 'lt', x, y, tw)
            gt = self.icmp(st, s + 'gt', x, y, tw)
            w = rt
            M = (1 << w) - 1
            if isinstance(lt, int) and isinstance(gt, int):
                return M if lt else (1 if gt else 0)
            return z3.If(self.sbool(lt), bv(M, w), z3.If(self.sbool(gt), bv(1, w), bv(0, w)))
        if b.startswith('expect.'):
            return args[0]
        if b.startswith('is.constant'):
            return 0
        if b.startswith('threadlocal.address'):
            return args[0]
        if b.startswith('load.relative'):
            off = self.concretize(st, args[1], what='load.relative')
            p = self.padd(args[0], off)
            v = self.load(st, p, 32)
            a = self.paddr(args[0])
            return self.to_ptr(st, (a + sgn(v, 32)) & self.pmask())
        if b.startswith(('trap', 'ubsantrap')):
            raise PathEnd('abort', 'trap')
        if b.startswith('ptrmask'):
            p = args[0]
            return self.to_ptr(st, self.binop('and', self.paddr(p), args[1], self.ptrw))
        if b.startswith('vector.reduce.'):
            k = b.split('.')[2]
            v = args[0]
            w = rt
            r = v[0]
            for x in v[1:]:
                if k in ('umin', 'umax', 'smin', 'smax'):
                    r = self.minmax(st, k, r, x, w)
                else:
                    r = self.binop(k, r, x, w)
            return r
        raise Unsupported(n)

    def minmax(self, st, k, x, y, w):
        x = self.toint(x, w)
        y = self.toint(y, w)
        c = self.icmp(st, k[0] + 'lt', x, y, w)
        if k[1:] == 'max':
            x, y = y, x
        if w >= 32 and k[0] == 'u' and z3.is_expr(c) and not self.unary.info(c)[0]:
            # a case split keeps the numbers linear
            c = self.decide(st, c)
        return self.sel(st, c, x, y, w)

    def with_overflow(self, op, x, y, w):
        M = (1 << w) - 1
        if isinstance(x, int) and isinstance(y, int):
            if op[0] == 'u':
                r = x + y if op == 'uadd' else x - y if op == 'usub' else x * y
                return r & M, int(r < 0 or r > M)
            a, b = sgn(x, w), sgn(y, w)
            r = a + b if op == 'sadd' else a - b if op == 'ssub' else a * b
            return r & M, int(r < -(1 << (w - 1)) or r > (1 << (w - 1)) - 1)
        a = self.sbv(x, w)
        b = self.sbv(y, w)
        if op == 'uadd':
            r = a + b
            return r, z3.ULT(r, a)
        if op == 'usub':
            return a - b, z3.ULT(a, b)
        if op == 'umul':
            if isinstance(y, int):
                if y == 0:
                    return 0, 0
                return a * b, z3.UGT(a, bv(M // y, w))
            if isinstance(x, int):
                return self.with_overflow(op, y, x, w)
            wide = z3.ZeroExt(w, a) * z3.ZeroExt(w, b)
            return z3.Extract(w - 1, 0, wide), z3.Extract(2 * w - 1, w, wide) != bv(0, w)
        ext = w if op == 'smul' else 1
        sa = z3.SignExt(ext, a)
        sb = z3.SignExt(ext, b)
        r = sa + sb if op == 'sadd' else sa - sb if op == 'ssub' else sa * sb
        lo = z3.Extract(w - 1, 0, r)
        return lo, r != z3.SignExt(ext, lo)

    # calls ------------------------------------------------------------
    def h_call(self, st, f, i):
        callee = i[3]
        if not isinstance(callee, str) or callee.__class__ is Reg:
            p = self.ev(f, callee)
            if not isinstance(p, Ptr):
                p = self.to_ptr(st, p)
            o = self.gbyid.get(p.obj)
            if o is None or o.kind != 'func':
                raise PathEnd('oob', 'call through bad pointer')
            name = o.name
        else:
            name = callee
        h = self.externs.get(name)
        if h is None:
            h = self.match_special(name)
        if h is not None:
            args = [self.ev(f, o) for _, o in i[4]]
            r = h(self, st, f, args, i)
            if i[1] is not None:
                f.regs[i[1]] = r
            if i[5] is not None:
                return self.jump(st, f, i[5])
            return None
        if name not in self.m.func_src:
            a = self.m.glob_src.get(name)
            raise Unsupported('external call ' + name)
        fn = self.m.func(name)
        args = [self.ev(f, o) for _, o in i[4]]
        self.push_frame(st, fn, args, (i[1], i[5]))
        return 2

    def match_special(self, name):
        for k, h in self.special:
            if k in name:
                self.externs[name] = h
                return h
        return None

    # harness intrinsics
    def x_sym(self, st, f, args, i):
        w = args[0]
        if isinstance(i[2], int):
            pass
        n = len(st.syms)
        key = ('sym', n, w)
        e = z3.BitVec('s%d_%d' % (n, w), w)
        st.syms.append((n, w, e))
        v = e if w == 64 else z3.ZeroExt(64 - w, e)
        return v

    def x_region(self, st, f, args, i):
        """sym_region(len: usize, zero: u32) -> ptr"""
        size = args[0]
        zero = args[1]
        o = self.newobj(st, size, 'region', 'region')
        n = len(st.regions)
        o.arr = Mem(n, bool(zero))
        st.regions.append((o.id, size, o.arr))
        return Ptr(o.id, 0)

    def x_assume(self, st, f, args, i):
        self.assume(st, args[0])

    def x_assert(self, st, f, args, i):
        aid = self.concretize(st, args[1])
        self.do_assert(st, args[0], aid)

    def x_cover(self, st, f, args, i):
        st.covers.append(self.concretize(st, args[0]))

    def x_out(self, st, f, args, i):
        st.outs.append(args[0])

    def x_case(self, st, f, args, i):
        return self.case

    def x_peek(self, st, f, args, i):
        n = args[3]
        p = args[0]
        if self.getobj(st, p.obj).arr is None and isinstance(args[1], int):
            # an image with a concrete layout: a peek beyond its end gives 0, as in the native build
            off = args[2]
            if args[1] < n:
                return 0
            if not (off <= args[1] - n if isinstance(off, int) else self.decide(st, z3.ULE(off, bv(args[1] - n, self.ptrw)))):
                return 0
        v = self.load_bytes(st, self.padd(p, args[2]), n)
        if v is UND:
            return UND
        return v if n == 8 else self.cast_zext(v, 8 * n, 64)

    def x_concretize(self, st, f, args, i):
        return self.concretize(st, args[0], what='sym_concretize')

    def x_panic(self, st, f, args, i):
        msg = i[3] if isinstance(i[3], str) else '?'
        raise PathEnd('panic', self.panic_where(st, f, msg, args))

    def panic_where(self, st, f, name, args):
        return '%s in %s' % (short(name), '<'.join(short(g.fn.name) for g in reversed(st.frames[-3:])))

    # allocation
    def x_malloc(self, st, f, args, i):
        n = self.concretize(st, args[0], what='malloc')
        if n > self.cfg_max_alloc:
            raise PathEnd('oom', 'malloc %d' % n)
        return Ptr(self.newobj(st, n, 'heap').id, 0)

    cfg_max_alloc = 1 << 26

    def x_calloc(self, st, f, args, i):
        n = self.concretize(st, args[0]) * self.concretize(st, args[1])
        o = self.newobj(st, n, 'heap')
        o.segs = [(0, n, 0, 0)]
        return Ptr(o.id, 0)

    def x_realloc(self, st, f, args, i):
        n = self.concretize(st, args[1], what='realloc')
        p = args[0]
        o = self.getobj(st, p.obj)
        q = self.newobj(st, n, 'heap')
        k = min(n, o.size)
        self.memcpy(st, Ptr(q.id, 0), p, k)
        st.objs.pop(o.id, None)
        return Ptr(q.id, 0)

    def x_free(self, st, f, args, i):
        p = args[0]
        if p.obj:
            st.objs.pop(p.obj, None)
            st.own.discard(p.obj)

    def x_posix_memalign(self, st, f, args, i):
        n = self.concretize(st, args[2])
        o = self.newobj(st, n, 'heap')
        self.store(st, args[0], 'ptr', Ptr(o.id, 0))
        return 0

    def x_bcmp(self, st, f, args, i):
        return self.memcmp(st, args[0], args[1], args[2], True, 32)

    def x_memcmp(self, st, f, args, i):
        return self.memcmp(st, args[0], args[1], args[2], False, 32)

    def x_memcpy(self, st, f, args, i):
        self.memcpy(st, args[0], args[1], args[2])
        return args[0]

    def x_memset(self, st, f, args, i):
        self.memset(st, args[0], self.cast_trunc(args[1], 32, 8), args[2])
        return args[0]

    def x_strlen(self, st, f, args, i):
        n = 0
        while True:
            b = self.load_bytes(st, self.padd(args[0], n), 1)
            if b == 0:
                return n
            n += 1

    def x_abort(self, st, f, args, i):
        raise PathEnd('panic', 'abort in ' + short(f.fn.name))


def short(name):
    """very small demangler: the identifiers of a v0 / legacy mangled name"""
    import re
    if not (name.startswith('_R') or name.startswith('_ZN')):
        return name
    ids = re.findall(r'(?:^|[^0-9])([0-9]+)_?([A-Za-z_][A-Za-z0-9_]*)', name)
    out = []
    i = 0
    s = name
    while i < len(s):
        if s[i].isdigit() and (i == 0 or not s[i - 1].isdigit()):
            j = i
            while j < len(s) and s[j].isdigit():
                j += 1
            n = int(s[i:j])
            k = j + (1 if j < len(s) and s[j] == '_' else 0)
            if 1 < n <= len(s) - k and n < 80:
                w = s[k:k + n]
                if re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', w) and not re.match(r'^17h', w):
                    out.append(w)
                    i = k + n
                    continue
            i = j
            continue
        i += 1
    out = [w for w in out if not re.match(r'^(core|alloc|std|nt_hive|harness|Cs.*)$', w)]
    return '::'.join(out[:5]) or name


def addfold(a, c):
    """a + c with constant folding of (x + k1) + k2; c may be any BV"""
    if z3.is_bv_value(c):
        cv = c.as_long()
        w = c.size()
        if cv == 0:
            return a
        if z3.is_bv_value(a):
            return bv((a.as_long() + cv) & ((1 << w) - 1), w)
        if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
            k = a.arg(1)
            if z3.is_bv_value(k):
                s = (k.as_long() + cv) & ((1 << w) - 1)
                if s == 0:
                    return a.arg(0)
                return a.arg(0) + bv(s, w)
        return a + c
    return a + c


def splitc(a):
    if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
        return a.arg(0), a.arg(1).as_long()
    return a, 0


def subfold(x, y):
    a, ka = splitc(x)
    b, kb = splitc(y)
    if a.eq(b):
        return (ka - kb) & ((1 << x.size()) - 1)
    return x - y


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
NOP_INTRIN = ('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.prefetch', 'llvm.donothing',
              'llvm.va_', 'llvm.sideeffect', 'llvm.invariant')
DT_OPS = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BAND,
          z3.Z3_OP_BOR, z3.Z3_OP_BXOR}

Engine.handlers = {k[2:]: v for k, v in Engine.__dict__.items() if k.startswith('h_')}
Engine.externs = {
    'sym_u': Engine.x_sym, 'sym_region': Engine.x_region, 'sym_assume': Engine.x_assume, 'sym_assert': Engine.x_assert,
    'sym_cover': Engine.x_cover, 'sym_out': Engine.x_out, 'sym_case': Engine.x_case, 'sym_peek': Engine.x_peek, 'sym_concretize': Engine.x_concretize,
    'malloc': Engine.x_malloc, 'calloc': Engine.x_calloc, 'realloc': Engine.x_realloc, 'free': Engine.x_free,
    'posix_memalign': Engine.x_posix_memalign, 'bcmp': Engine.x_bcmp, 'memcmp': Engine.x_memcmp,
    'memcpy': Engine.x_memcpy, 'memmove': Engine.x_memcpy, 'memset': Engine.x_memset, 'strlen': Engine.x_strlen,
    'abort': Engine.x_abort,
}
Engine.special = [
    ('4core9panicking', Engine.x_panic), ('slice_index_fail', Engine.x_panic), ('unwrap_failed', Engine.x_panic),
    ('expect_failed', Engine.x_panic), ('slice_error_fail', Engine.x_panic), ('handle_alloc_error', Engine.x_panic),
    ('capacity_overflow', Engine.x_panic), ('raw_vec12handle_error', Engine.x_panic), ('len_mismatch_fail', Engine.x_panic),
    ('rust_panic', Engine.x_panic), ('begin_panic', Engine.x_panic),
    ('panic_const', Engine.x_panic),
]
