"""Lazy parser for textual LLVM IR (the subset rustc emits).

Types:   int width -> python int;  'ptr', 'void', 'float', 'double', 'label', 'metadata'
         ('s', packed, (types...)), ('a', n, t), ('v', n, t)
Operands: Reg(name) or a constant: int, GRef(name, off), UNDEF, ('zero',), tuple (aggregate)
"""
import re


class Reg(str):
    __slots__ = ()


class GRef:
    """Address of a global (function or data) plus a constant byte offset."""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off

    def __repr__(self):
        return '@%s+%d' % (self.name, self.off)


class CExpr:
    """A constant expression that has to be evaluated with addresses known."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args


class _Undef:
    def __repr__(self):
        return 'undef'


class _Zero:
    def __repr__(self):
        return 'zeroinit'


UNDEF = _Undef()
ZERO = _Zero()

TOK = re.compile(r'''
    \s+
  | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<reg>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?(?![a-zA-Z_]))
  | (?P<hex>0x[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def unq(s):
    if s.startswith('"'):
        return s[1:-1]
    return s


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        if s[i] == ';':
            break
        t = m(s, i)
        if t is None:
            raise SyntaxError('tok at %r' % s[i:i + 60])
        i = t.end()
        k = t.lastgroup
        if k is None:
            continue
        v = t.group(k)
        out.append((k, v))
    return out


INT_RE = re.compile(r'^i[0-9]+$')
TYPE_WORDS = {'ptr', 'void', 'float', 'double', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'bfloat', 'opaque', 'token'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'word', 'dots'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        t = self.next()
        if t[1] != v:
            raise SyntaxError('expected %r got %r in %r' % (v, t, self.t))

    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return INT_RE.match(v) is not None or v in TYPE_WORDS
        if k == 'p':
            return v in '{[<'
        if k == 'reg':
            return v[1:] in self.mod.named_types
        return False

    def type(self):
        k, v = self.next()
        if k == 'word':
            if INT_RE.match(v):
                t = int(v[1:])
            else:
                t = v
                if v == 'ptr' and self.peek()[1] == 'addrspace':
                    self.i += 4
        elif v == '{':
            t = self._struct(False, '}')
        elif v == '<':
            if self.acc('{'):
                t = self._struct(True, '}')
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('v', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('a', n, e)
        elif k == 'reg':
            t = self.mod.named_types[v[1:]]
        else:
            raise SyntaxError('type? %r in %r' % (v, self.t))
        return t

    def _struct(self, packed, end):
        ts = []
        if self.acc(end):
            return ('s', packed, ())
        while True:
            ts.append(self.type())
            if self.acc(end):
                return ('s', packed, tuple(ts))
            self.exp(',')

    def skip_balanced(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()
            if v[0] == 'p':
                if v[1] == '(':
                    d += 1
                elif v[1] == ')':
                    d -= 1

    def skip_attrs(self):
        """skip parameter / return attributes up to something that is not an attribute"""
        while True:
            k, v = self.peek()
            if k == 'word' and not (INT_RE.match(v) or v in TYPE_WORDS) and v not in VALUE_WORDS:
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_balanced()
                elif self.peek()[0] == 'num' and v in ('align', 'cc'):
                    self.i += 1
            elif k in ('attr', 'str'):
                self.i += 1
                if self.acc('='):
                    self.i += 1
            else:
                return

    def tval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    def value(self, t):
        k, v = self.next()
        if k == 'reg':
            return Reg(unq(v[1:]))
        if k == 'num':
            if isinstance(t, int):
                return int(v) & ((1 << t) - 1)
            return ('fp', v)
        if k == 'hex':
            return ('fp', v)
        if k == 'glob':
            return GRef(unq(v[1:]))
        if k == 'cstr':
            return cstr(v)
        if k == 'meta':
            if self.peek()[0] in ('cstr', 'str'):
                self.next()
            return ('meta', v)
        if k == 'p':
            if v == '{':
                return self._agg('}')
            if v == '[':
                return self._agg(']')
            if v == '<':
                if self.acc('{'):
                    r = self._agg('}')
                    self.exp('>')
                    return r
                return self._agg('>')
        if k == 'word':
            if v == 'true':
                return 1
            if v == 'false':
                return 0
            if v == 'null':
                return 0
            if v in ('undef', 'poison'):
                return UNDEF
            if v == 'zeroinitializer':
                return ZERO
            if v == 'none':
                return UNDEF
            if v == 'splat':
                self.exp('(')
                et, ev = self.tval()
                self.exp(')')
                return ('splat', ev)
            if v == 'getelementptr':
                while self.peek()[1] != '(':
                    self.i += 1
                self.exp('(')
                st = self.type()
                self.exp(',')
                bt, base = self.tval()
                idx = []
                while self.acc(','):
                    if self.peek()[1] == 'inrange':
                        self.i += 1
                        self.skip_balanced()
                    it, iv = self.tval()
                    idx.append((it, iv))
                self.exp(')')
                return CExpr('gep', st, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'trunc', 'bitcast', 'zext', 'addrspacecast', 'sext', 'ptrtoaddr'):
                self.exp('(')
                ft, fv = self.tval()
                self.exp('to')
                tt = self.type()
                self.exp(')')
                return CExpr(v, ft, fv, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.peek()[1] != '(':
                    self.i += 1
                self.exp('(')
                at, a = self.tval()
                self.exp(',')
                bt, b = self.tval()
                self.exp(')')
                return CExpr(v, at, a, b)
            if v in ('asm',):
                raise SyntaxError('asm')
        raise SyntaxError('value? %r in %r' % ((k, v), self.t[max(0, self.i - 6):self.i + 6]))

    def _agg(self, end):
        vs = []
        if self.acc(end):
            return ()
        while True:
            vs.append(self.tval()[1])
            if self.acc(end):
                return tuple(vs)
            self.exp(',')


VALUE_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'splat', 'getelementptr', 'ptrtoint',
               'inttoptr', 'trunc', 'bitcast', 'zext', 'sext', 'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'asm',
               'addrspacecast', 'ptrtoaddr', 'to'}


def cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(s[i].encode('latin1') if ord(s[i]) < 256 else s[i].encode())
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'lines', 'parsed', 'header', 'vararg', 'unnamed', 'phiw')


class Module:
    def __init__(self, path):
        self.named_types = {}
        self.func_src = {}      # name -> (header line, start, end)
        self.funcs = {}
        self.glob_src = {}
        self.globals = {}
        self.aliases = {}
        self.decls = set()
        self.datalayout = ''
        with open(path, encoding='latin1') as f:
            self.lines = f.read().split('\n')
        self._index()

    def _index(self):
        L = self.lines
        i = 0
        n = len(L)
        attr = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
        self.noreturn_attrs = set()
        while i < n:
            l = L[i]
            c = l[:1]
            if c == 'd':
                if l.startswith('define'):
                    name = unq(attr.search(l).group(1))
                    j = i + 1
                    while L[j] != '}':
                        j += 1
                    self.func_src[name] = (i, j)
                    i = j
                elif l.startswith('declare'):
                    self.decls.add(unq(attr.search(l).group(1)))
            elif c == '@':
                m = attr.match(l)
                self.glob_src[unq(m.group(1))] = i
            elif c == '%':
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m and m.group(2) != 'opaque':
                    self.named_types[m.group(1)] = P(tokenize(m.group(2)), self).type()
            elif c == 't' and l.startswith('target datalayout'):
                self.datalayout = l.split('"')[1]
            i += 1
        dl = self.datalayout
        self.little = dl.startswith('e') or not dl.startswith('E')
        m = re.search(r'(?:^|-)p:(\d+):', dl)
        self.ptrbits = int(m.group(1)) if m else 64
        self.i64align = 8
        m = re.search(r'(?:^|-)i64:(\d+)', dl)
        if m:
            self.i64align = int(m.group(1)) // 8
        elif self.ptrbits == 32:
            self.i64align = 4
        self.i128align = 16 if 'i128:128' in dl or self.ptrbits == 64 else self.i64align

    # ---- layout
    def align(self, t):
        if isinstance(t, int):
            if t <= 8:
                return 1
            if t <= 16:
                return 2
            if t <= 32:
                return 4
            if t <= 64:
                return self.i64align
            return self.i128align
        if t == 'ptr':
            return self.ptrbits // 8
        if t == 'double':
            return self.i64align
        if t == 'float':
            return 4
        if t[0] == 's':
            if t[1] or not t[2]:
                return 1
            return max(self.align(x) for x in t[2])
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 'v':
            return self.size(t)
        raise ValueError(t)

    def size(self, t):
        if isinstance(t, int):
            b = (t + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t == 'ptr':
            return self.ptrbits // 8
        if t == 'double':
            return 8
        if t == 'float':
            return 4
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        if t[0] == 'v':
            e = t[2]
            bits = t[1] * (e if isinstance(e, int) else self.ptrbits)
            return (bits + 7) // 8
        if t[0] == 's':
            o = self.offsets(t)
            return o[-1]
        raise ValueError(t)

    def offsets(self, t):
        """field offsets of a struct, total size last"""
        o = 0
        out = []
        ma = 1
        for x in t[2]:
            a = 1 if t[1] else self.align(x)
            ma = max(ma, a)
            o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        o = (o + ma - 1) // ma * ma
        out.append(o)
        return out

    # ---- globals
    def global_init(self, name):
        """-> (type, init value or None, is_constant)"""
        g = self.globals.get(name)
        if g is not None:
            return g
        l = self.lines[self.glob_src[name]]
        toks = tokenize(l)
        p = P(toks, self)
        p.next()
        p.exp('=')
        const = False
        external = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('global', 'constant'):
                const = v == 'constant'
                p.i += 1
                break
            if k == 'word' and v == 'alias':
                p.i += 1
                t = p.type()
                p.exp(',')
                at, av = p.tval()
                g = ('alias', av, True)
                self.globals[name] = g
                return g
            if k == 'word' and v in ('external', 'extern_weak'):
                external = True
            p.i += 1
            if p.peek()[1] == '(':
                p.skip_balanced()
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        g = (t, init, const)
        self.globals[name] = g
        return g

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self._parse_func(name)
            self.funcs[name] = f
        return f

    def _parse_func(self, name):
        a, b = self.func_src[name]
        p = P(tokenize(self.lines[a]), self)
        p.exp('define')
        while not p.is_type():
            p.i += 1
            if p.peek()[1] == '(':
                p.skip_balanced()
        f = Func()
        f.name = name
        f.ret = p.type()
        while p.peek()[0] != 'glob':
            p.i += 1
        p.next()
        p.exp('(')
        f.params = []
        f.vararg = False
        f.unnamed = 0
        k = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                else:
                    t = p.type()
                    p.skip_attrs()
                    if p.peek()[0] == 'reg':
                        f.params.append(Reg(unq(p.next()[1][1:])))
                        if f.params[-1].isdigit():
                            f.unnamed += 1
                    else:
                        f.params.append(Reg(str(f.unnamed)))
                        f.unnamed += 1
                    k += 1
                if p.acc(')'):
                    break
                p.exp(',')
        # blocks
        f.blocks = {}
        cur = None
        first = None
        L = self.lines
        i = a + 1
        lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        pend = []
        while i < b:
            l = L[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                m = lab.match(l)
                if m:
                    cur = unq(m.group(1))
                    pend = []
                    f.blocks[cur] = pend
                    if first is None:
                        first = cur
                continue
            s = l.strip()
            if s.startswith(';') or s.startswith('#dbg'):
                continue
            if cur is None:
                cur = str(f.unnamed)
                first = cur
                pend = []
                f.blocks[cur] = pend
            if s.startswith('switch') and s.rstrip().endswith('['):
                parts = [s]
                while True:
                    l2 = L[i].strip()
                    i += 1
                    parts.append(l2)
                    if l2.startswith(']'):
                        break
                s = ' '.join(parts)
            elif ('invoke ' in s) and not ' unwind label' in s:
                s = s + ' ' + L[i].strip()
                i += 1
            elif 'landingpad' in s:
                while i < b and (L[i].startswith('          ')):
                    i += 1
            pend.append(s)
        f.entry = first
        f.parsed = {}
        return f
