"""functions of one small variable (case tables and the like) as interned function values

A big term over at most 16 bits of unknowns is a function of those bits.  It is tabulated once (exactly, over its whole
domain), named by its table, and replaced by a fresh value f(u); two terms with the same table and argument become the
same value, whatever code computed them.  The table enters the solver lazily: a model in which f(u) disagrees with the
table is refuted with the piece of the table at that u (symex.Engine.check)."""
import numpy as np
import z3

Z = z3
MAXBITS = 16
HEAVY = 40
BLOCK = 64
U64 = np.uint64


class Unary:
    def __init__(self):
        self.vs = {}          # id -> frozenset of variable ids, or None (too many)
        self.sz = {}
        self.keep = []
        self.vars = {}        # id -> term
        self.tables = {}      # canonical term id -> (width, table) or None
        self.fids = {}        # (width, table bytes) -> fid
        self.defs = []        # fid -> (width, table, pieces)
        self.vals = {}        # (fid, arg id) -> (value, arg, fid)
        self.memo = {}        # id -> (term, tuple of (fid, argid))
        self.fv = {}          # id of a function value -> (value, arg, fid)
        self.fvs = {}         # id -> function values in the term (None: none)
        self.ord = {}         # variable set -> variables, low first
        self.idx = {}
        self.blocks = set()

    def info(self, e):
        """variables and size of a term (iterative post-order)"""
        k = e.get_id()
        if k in self.sz:
            return self.vs[k], self.sz[k]
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.sz:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.sz]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.keep.append(x)
            if not ch:
                if z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x):
                    v = frozenset()
                elif i in self.fv:
                    v = frozenset(q.get_id() for q in self.args(self.fv[i][1]))
                elif z3.is_const(x) and z3.is_bv(x) and x.size() <= MAXBITS:
                    v = frozenset((i,))
                    self.vars[i] = x
                else:
                    v = None
                n = 1
            else:
                v = frozenset()
                n = 1
                for c in ch:
                    ci = c.get_id()
                    n += self.sz[ci]
                    if v is not None:
                        w = self.vs[ci]
                        v = None if w is None else v | w
                if v is not None and sum(self.vars[q].size() for q in v) > MAXBITS:
                    v = None
                n = min(n, 1 << 20)
            self.vs[i] = v
            self.sz[i] = n
        return self.vs[k], self.sz[k]

    def args(self, a):
        if z3.is_app_of(a, z3.Z3_OP_CONCAT):
            return a.children()
        return [a]

    def uses(self, e):
        """function values a term contains"""
        k = e.get_id()
        r = self.fvs.get(k)
        if r is None:
            out = {}
            seen = set()
            stack = [e]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if i in self.fv:
                    out[i] = self.fv[i]
                if x.num_args():
                    stack.extend(x.children())
            self.keep.append(e)
            r = self.fvs[k] = tuple(out.values())
        return r

    def order(self, e, vs):
        """variables in the order of their significance (low first) where a concatenation shows it"""
        key = vs
        r = self.ord.get(key)
        if r is None:
            r = self.order1(e, vs)
            if r is not None:
                self.ord[key] = r
        return r

    def order1(self, e, vs):
        vs = sorted((self.vars[v] for v in vs), key=lambda x: str(x))
        if len(vs) == 2:
            a, b = vs
            seen = set()
            stack = [e]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_app_of(x, z3.Z3_OP_CONCAT):
                    ch = [c for c in x.children() if c.eq(a) or c.eq(b)]
                    if len(ch) == 2 and not ch[0].eq(ch[1]):
                        return [ch[1], ch[0]]
                stack.extend(x.children())
            return None
        return vs if len(vs) == 1 else None

    def table(self, e, vs):
        k = e.get_id()
        if k in self.tables:
            return self.tables[k]
        self.keep.append(e)
        bits = sum(v.size() for v in vs)
        idx = self.idx.get(bits)
        if idx is None:
            idx = self.idx[bits] = np.arange(1 << bits, dtype=U64)
        env = {}
        sh = 0
        for n, v in enumerate(vs):
            env[v.get_id()] = (idx >> U64(sh)) & U64((1 << v.size()) - 1) if len(vs) > 1 else idx
            sh += v.size()
        try:
            t = self.evaluate(e, env, 1 << bits)
            w = 0 if z3.is_bool(e) else e.size()
            r = (w, np.ascontiguousarray(np.broadcast_to(t, (1 << bits,))).astype(np.bool_ if not w else np.uint16 if w <= 16 else U64))
        except NotImplementedError:
            r = None
        self.tables[k] = r
        return r

    def evaluate(self, e, env, n):
        val = dict(env)
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in val:
                stack.pop()
                continue
            if i in self.fv:
                arg = self.fv[i][1]
                ai = arg.get_id()
                if ai not in val:
                    stack.append(arg)
                    continue
                stack.pop()
                d = self.defs[self.fv[i][2]]
                val[i] = d[1][val[ai].astype(np.int64)]
                if not d[0]:
                    val[i] = val[i] != 0
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in val]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            val[i] = self.op(x, ch, [val[c.get_id()] for c in ch])
        return val[e.get_id()]

    def op(self, x, ch, a):
        if z3.is_bv_value(x):
            if x.size() > 64:
                raise NotImplementedError
            return U64(x.as_long())
        if z3.is_true(x):
            return np.bool_(True)
        if z3.is_false(x):
            return np.bool_(False)
        k = x.decl().kind()
        if z3.is_bv(x):
            w = x.size()
            if w > 64:
                raise NotImplementedError
            m = U64((1 << w) - 1)
        if k == z3.Z3_OP_ITE:
            return np.where(a[0], a[1], a[2])
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT and len(a) == 2:
            return a[0] != a[1]
        if k == z3.Z3_OP_NOT:
            return np.logical_not(a[0])
        if k == z3.Z3_OP_AND:
            r = a[0]
            for y in a[1:]:
                r = np.logical_and(r, y)
            return r
        if k == z3.Z3_OP_OR:
            r = a[0]
            for y in a[1:]:
                r = np.logical_or(r, y)
            return r
        if k == z3.Z3_OP_XOR:
            return np.logical_xor(a[0], a[1])
        if k == z3.Z3_OP_ULEQ:
            return a[0] <= a[1]
        if k == z3.Z3_OP_ULT:
            return a[0] < a[1]
        if k == z3.Z3_OP_UGEQ:
            return a[0] >= a[1]
        if k == z3.Z3_OP_UGT:
            return a[0] > a[1]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            f = U64(1 << (ch[0].size() - 1))
            p, q = a[0] ^ f, a[1] ^ f
            return {z3.Z3_OP_SLEQ: p <= q, z3.Z3_OP_SLT: p < q, z3.Z3_OP_SGEQ: p >= q, z3.Z3_OP_SGT: p > q}[k]
        if k == z3.Z3_OP_CONCAT:
            r = U64(0)
            for c, y in zip(ch, a):
                r = (r << U64(c.size())) | y if c.size() < 64 else y
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            return (a[0] >> U64(lo)) & U64((1 << (hi - lo + 1)) - 1)
        if k == z3.Z3_OP_BADD:
            r = a[0]
            for y in a[1:]:
                r = (r + y) & m
            return r
        if k == z3.Z3_OP_BMUL:
            r = a[0]
            for y in a[1:]:
                r = (r * y) & m
            return r
        if k == z3.Z3_OP_BSUB:
            return (a[0] - a[1]) & m
        if k == z3.Z3_OP_BAND:
            r = a[0]
            for y in a[1:]:
                r = r & y
            return r
        if k == z3.Z3_OP_BOR:
            r = a[0]
            for y in a[1:]:
                r = r | y
            return r
        if k == z3.Z3_OP_BXOR:
            r = a[0]
            for y in a[1:]:
                r = r ^ y
            return r
        if k == z3.Z3_OP_BNOT:
            return a[0] ^ m
        if k == z3.Z3_OP_BNEG:
            return (U64(0) - a[0]) & m
        if k == z3.Z3_OP_ZERO_EXT:
            return a[0]
        if k == z3.Z3_OP_SIGN_EXT:
            f = U64(1 << (ch[0].size() - 1))
            return ((a[0] ^ f) - f) & m
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR):
            s = np.minimum(a[1], U64(63))
            r = (a[0] << s) & m if k == z3.Z3_OP_BSHL else a[0] >> s
            return np.where(a[1] >= U64(w), U64(0), r)
        raise NotImplementedError

    def define(self, w, t, bits):
        key = (w, bits, t.astype(np.uint64).tobytes())
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = len(self.defs)
            tv = t.astype(np.uint64)
            mask = (1 << w) - 1 if w else 1
            idx = np.arange(len(t), dtype=U64)
            delta = (tv - idx) & U64(mask) if w else tv
            # maximal runs with one difference to the argument, and with one value
            self.defs.append((w, tv, delta, bits))
        return f

    def value(self, f, arg):
        key = (f, arg.get_id())
        v = self.vals.get(key)
        if v is None:
            w = self.defs[f][0]
            n = 'f%d_%d' % (f, len(self.vals))
            y = z3.BitVec(n, w) if w else z3.Bool(n)
            v = self.vals[key] = (y, arg, f)
            self.fv[y.get_id()] = v
            self.keep.append(y)
            self.keep.append(arg)
        return v

    def piece(self, f, v):
        """(lo, hi, by difference?, number): the run of the table around argument v"""
        w, t, d, bits = self.defs[f]

        def run(a):
            x = a[v]
            lo = v
            ne = np.nonzero(a[:v] != x)[0]
            lo = int(ne[-1]) + 1 if len(ne) else 0
            ne = np.nonzero(a[v:] != x)[0]
            hi = v + int(ne[0]) - 1 if len(ne) else len(a) - 1
            return lo, hi, int(x)
        lo1, hi1, x1 = run(t)
        lo2, hi2, x2 = run(d)
        if w and hi2 - lo2 > hi1 - lo1:
            return lo2, hi2, True, x2
        return lo1, hi1, False, x1

    def preimage(self, f, x):
        w, t, d, bits = self.defs[f]
        if x < len(t) and int(t[x]) == x:
            return x
        i = np.nonzero(t == U64(x))[0]
        return int(i[0]) if len(i) else None

    def lemmas(self, y, arg, f, v):
        """the pieces of the table in the aligned block around v"""
        key = (y.get_id(), v // BLOCK)
        if key in self.blocks:
            return [self.lemma(y, arg, f, v)]
        self.blocks.add(key)
        out = []
        x = v // BLOCK * BLOCK
        end = min(x + BLOCK, len(self.defs[f][1]))
        while x < end:
            out.append(self.lemma(y, arg, f, x))
            x = self.piece(f, x)[1] + 1
        return [z3.And(*out)] if len(out) > 1 else out

    def lemma(self, y, arg, f, v):
        w, t, d, bits = self.defs[f]
        lo, hi, diff, x = self.piece(f, v)
        A = lambda c: z3.BitVecVal(c, bits)
        if lo == hi:
            rng = arg == A(lo)
        else:
            rng = z3.And(z3.ULE(A(lo), arg), z3.ULE(arg, A(hi)))
        if not w:
            r = y if x else z3.Not(y)
        elif diff:
            z = arg if bits == w else (z3.ZeroExt(w - bits, arg) if w > bits else z3.Extract(w - 1, 0, arg))
            r = y == z + z3.BitVecVal(x, w)
        else:
            r = y == z3.BitVecVal(x, w)
        return z3.Implies(rng, r)

    def make(self, w, tab, order):
        """the value of a table at the given variables -> (term, function values in it)"""
        if (tab == tab[0]).all():
            c = int(tab[0])
            return (z3.BoolVal(bool(c)) if not w else z3.BitVecVal(c, w), ())
        bits = sum(v.size() for v in order)
        f = self.define(w, tab, bits)
        arg = order[0] if len(order) == 1 else z3.Concat(*order[::-1])
        if w >= bits and not self.defs[f][2].any():
            return (arg if bits == w else z3.simplify(z3.ZeroExt(w - bits, arg)), ())
        v = self.value(f, arg)
        return (v[0], (v,))

    def unary(self, e):
        """(width, table, variables) of a term over one small argument, or None"""
        vs, n = self.info(e)
        if not vs or not (z3.is_bool(e) or e.size() <= 64):
            return None
        order = self.order(e, vs)
        if order is None:
            return None
        t = self.table(e, order)
        if t is None:
            return None
        return t[0], t[1], order

    def abstract(self, e):
        """e with its big one-variable parts replaced -> (term, the function values in it)"""
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        if k in self.fv:
            return e, (self.fv[k],)
        vs, n = self.info(e)
        us = self.uses(e)
        if n <= HEAVY and not us:
            r = (e, ())
        else:
            t = self.unary(e) if n > 1 else None
            if t is not None:
                r = self.make(*t)
            else:
                ch = e.children()
                us = []
                new = []
                for c in ch:
                    q, u = self.abstract(c)
                    new.append(q)
                    for x in u:
                        if not any(q is x for q in us):
                            us.append(x)
                if all(a is b or a.eq(b) for a, b in zip(ch, new)):
                    r = (e, tuple(us))
                else:
                    x = z3.simplify(e.decl()(*new), bv_le2extract=False)
                    r = (x, self.uses(x))
        self.memo[k] = r
        self.keep.append(e)
        return r
