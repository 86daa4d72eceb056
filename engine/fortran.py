"""Symbolic execution of the Fortran kernels of /repo (free form, read from the source on every run).

A kernel is a sequence of scalar assignments, conditionals and `do` loops over the elements of its
arrays.  A loop is taken element by element: the value of an array element after the loop is the
value its own iteration gives it, which is the meaning of the loop because every scalar assigned in
the body is required to be assigned before it is read there (nothing is carried between iterations)
and an element is only read at the indices of its own iteration.  Anything else is Unsupported.

Dropped: comments (OpenMP directives are comments in this build), declarations beyond type and
extent, the rounding of literals (1.25 and 0.002 are the decimal numbers; a literal that agrees with
pi/180, pi or pi/2 to at least 15 digits is that number) and of arithmetic.
"""
import math
import os
import re
from fractions import Fraction
from .sym import *
from . import sym

TOK = re.compile(r'''\s*(?:
    (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[ded][+-]?\d+)?(?:_\w+)?)
  | (?P<dot>\.(?:and|or|not|eqv|neqv|true|false|gt|lt|ge|le|eq|ne)\.)
  | (?P<name>[a-z_]\w*)
  | (?P<op>\*\*|==|/=|<=|>=|//|[-+*/()<>,=%:])
  )''', re.X)
DOTS = {'.gt.': '>', '.lt.': '<', '.ge.': '>=', '.le.': '<=', '.eq.': '==', '.ne.': '!=', '/=': '!='}
TYPES = ('integer', 'doubleprecision', 'double precision', 'real', 'complex', 'logical', 'character')


class Bad(Unsupported):
    pass


# ---------------------------------------------------------------- lines and units

def lines(text):
    out, cont = [], ''
    for raw in text.split('\n'):
        l = raw.split('!')[0].strip().lower()
        if not l:
            continue
        if l.startswith('&'):
            l = l[1:].strip()
        if l.endswith('&'):
            cont += l[:-1] + ' '
            continue
        for s in (cont + l).split(';'):
            if s.strip():
                out.append(s.strip())
        cont = ''
    return out


def tokens(s):
    # a digit followed by a dot operator ("1.and.") is not a number
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == '':
            break
        m = re.compile(r'\s*(\d+)(?=\.(?:and|or|eq|ne|gt|lt|ge|le)\.)').match(s, i)
        if m:
            out.append(('num', m.group(1)))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise Bad('Fortran text %r' % s[i:i + 20])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][1] in vals and self.t[self.i][0] != 'num'

    def take(self, v=None):
        if self.i >= len(self.t):
            raise Bad('Fortran statement ends early')
        k = self.t[self.i]
        if v is not None and k[1] != v:
            raise Bad('Fortran: expected %r, found %r' % (v, k[1]))
        self.i += 1
        return k

    def expr(self):
        return self.orx()

    def orx(self):
        a = self.andx()
        while self.peek('.or.'):
            self.take()
            a = ('or', a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.peek('.and.'):
            self.take()
            a = ('and', a, self.notx())
        return a

    def notx(self):
        if self.peek('.not.'):
            self.take()
            return ('not', self.notx())
        return self.rel()

    def rel(self):
        a = self.sum()
        if self.peek('<', '>', '<=', '>=', '==', '/=', '.gt.', '.lt.', '.ge.', '.le.', '.eq.', '.ne.'):
            o = self.take()[1]
            return ('cmp', DOTS.get(o, o), a, self.sum())
        return a

    def sum(self):
        if self.peek('-'):
            self.take()
            a = ('neg', self.term())
        else:
            if self.peek('+'):
                self.take()
            a = self.term()
        while self.peek('+', '-'):
            o = self.take()[1]
            a = (o, a, self.term())
        return a

    def term(self):
        a = self.factor()
        while self.peek('*', '/'):
            o = self.take()[1]
            a = (o, a, self.factor())
        return a

    def factor(self):
        a = self.prim()
        if self.peek('**'):
            self.take()
            b = ('neg', self.factor()) if self.peek('-') and self.take() else self.factor()
            return ('**', a, b)
        return a

    def prim(self):
        k, v = self.take()
        if k == 'num':
            return ('num', v)
        if v == '(':
            a = self.expr()
            if self.peek(','):
                self.take()
                a = ('cplx', a, self.expr())
            self.take(')')
            return a
        if v in ('.true.', '.false.'):
            return ('bool', v == '.true.')
        if k != 'name':
            raise Bad('Fortran operand %r' % v)
        if self.peek('('):
            return ('ref', v, self.args())
        return ('var', v)

    def args(self):
        self.take('(')
        out = []
        while not self.peek(')'):
            out.append(self.expr())
            if not self.peek(')'):
                self.take(',')
        self.take(')')
        return out

    def end(self):
        if self.i != len(self.t):
            raise Bad('Fortran: trailing %r' % self.t[self.i][1])


def parse_expr(s):
    p = Parser(tokens(s))
    e = p.expr()
    p.end()
    return e


class Unit:
    def __init__(self, kind, name, params, result):
        self.kind, self.name, self.params, self.result = kind, name, params, result
        self.types, self.dims, self.body, self.inits = {}, {}, [], []


def parse_file(text):
    units, stack = {}, []
    cur, body = None, None
    for l in lines(text):
        m = re.match(r'(?:(?:pure|elemental|recursive)\s+)*(subroutine)\s+(\w+)\s*(?:\(([^)]*)\))?\s*$', l)
        f = re.match(r'(?:(?:pure|elemental|recursive)\s+)*(?:(double\s*precision|real|integer|logical|complex)(?:\s*\([^)]*\))?\s+)?'
                     r'(?:(?:pure|elemental)\s+)*function\s+(\w+)\s*\(([^)]*)\)\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$', l)
        if m or f:
            g = m or f
            name = g.group(2)
            args = [x.strip() for x in (g.group(3) or '').split(',') if x.strip()]
            u = Unit('subroutine' if m else 'function', name, args, None if m else (f.group(4) or name))
            if f and f.group(1):
                u.types[u.result] = f.group(1)
            units[name] = u
            if cur is not None:
                stack.append((cur, body))
            cur, body = u, [u.body]
            continue
        if re.match(r'end\s*(subroutine|function)\b', l) or (l == 'end' and body is not None and len(body) == 1):
            cur, body = stack.pop() if stack else (None, None)
            continue
        if l == 'contains' or re.match(r'(end\s*)?module\b', l) or l.startswith('use ') or l.startswith('implicit') or l == 'private':
            continue
        if cur is None:
            raise Bad('Fortran statement outside a unit: %r' % l[:40])
        statement(l, cur, body)
    return units


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch == '('
        d -= ch == ')'
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


def statement(l, u, body):
    if l == 'end':
        raise Bad('Fortran: bare end')
    ty = next((t for t in TYPES if re.match(t.replace(' ', r'\s+') + r'\b', l)), None)
    if ty and not re.match(r'\w+\s*(\([^=]*\))?\s*=[^=]', l):
        rest = l
        attrs = []
        if '::' in l:
            head, rest = l.split('::', 1)
            attrs = split_top(head)[1:]
        else:
            rest = re.sub(r'^%s(\s*\(\s*\w+\s*\)|\*\d+)?' % ty.replace(' ', r'\s+'), '', l)
        dim = next((a[a.index('(') + 1:-1] for a in attrs if a.startswith('dimension')), None)
        for x in split_top(rest):
            m = re.match(r'(\w+)\s*(\(([^)]*)\))?\s*(?:=\s*(.+))?$', x)
            if not m:
                raise Bad('Fortran declaration %r' % x)
            u.types[m.group(1)] = ty
            d = m.group(3) if m.group(2) else dim
            if d is not None:
                u.dims[m.group(1)] = [e.strip() for e in split_top(d)]
            if m.group(4):
                u.inits.append(('assign', ('var', m.group(1)), parse_expr(m.group(4))))
        return
    m = re.match(r'do\s+(\w+)\s*=\s*(.+)$', l)
    if m:
        parts = split_top(m.group(2))
        if len(parts) != 2:
            raise Bad('Fortran do with a step')
        node = ('do', m.group(1), parse_expr(parts[0]), parse_expr(parts[1]), [])
        body[-1].append(node)
        body.append(node[4])
        return
    if re.match(r'end\s*do$', l):
        body.pop()
        return
    m = re.match(r'else\s*if\s*\((.*)\)\s*then$', l)
    if m:
        body.pop()
        node = ('if', parse_expr(m.group(1)), [], [])
        owner = body[-1][-1]
        while owner[3]:
            owner = owner[3][-1]
        owner[3].append(node)
        body.append(node[2])
        return
    m = re.match(r'if\s*\((.*)\)\s*then$', l)
    if m:
        node = ('if', parse_expr(m.group(1)), [], [])
        body[-1].append(node)
        body.append(node[2])
        return
    if l == 'else':
        body.pop()
        owner = body[-1][-1]
        while owner[3]:
            owner = owner[3][-1]
        body.append(owner[3])
        return
    if re.match(r'end\s*if$', l):
        body.pop()
        return
    if re.match(r'if\s*\(', l):
        p = Parser(tokens(l))
        p.take('if')
        p.take('(')
        c = p.expr()
        p.take(')')
        node = ('if', c, [], [])
        rest = p.t[p.i:]
        node[2].append(simple(Parser(rest)))
        body[-1].append(node)
        return
    body[-1].append(simple(Parser(tokens(l))))


def simple(p):
    if p.peek('call'):
        p.take()
        n = p.take()[1]
        a = p.args() if p.peek('(') else []
        p.end()
        return ('call', n, a)
    k, v = p.take()
    if k != 'name':
        raise Bad('Fortran statement at %r' % v)
    if v in ('return', 'stop', 'exit', 'cycle', 'goto', 'print', 'write', 'read', 'where', 'forall', 'allocate', 'select'):
        raise Bad('Fortran %s' % v)
    t = ('ref', v, p.args()) if p.peek('(') else ('var', v)
    p.take('=')
    e = p.expr()
    p.end()
    return ('assign', t, e)


# ---------------------------------------------------------------- values

NEAR = ((Fraction(math.pi) / 180, lambda: PI / 180), (Fraction(math.pi), lambda: PI), (Fraction(math.pi) / 2, lambda: PI / 2),
        (180 / Fraction(math.pi), lambda: 180 / PI), (2 * Fraction(math.pi), lambda: 2 * PI))


def literal(s):
    s = s.split('_')[0].replace('d', 'e')
    if re.match(r'\d+$', s):
        return int(s)
    v = Fraction(s if not s.endswith('.') else s + '0') if 'e' not in s else Fraction(re.sub(r'\.(?=e)', '.0', s))
    for x, f in NEAR:
        if abs(v - x) <= abs(x) / 10 ** 15:
            return f()
    return v


def cadd(a, b):
    return Cx.of(a).add(b) if isinstance(a, Cx) or isinstance(b, Cx) else add(a, b)


def csub(a, b):
    return Cx.of(a).sub(b) if isinstance(a, Cx) or isinstance(b, Cx) else sub(a, b)


def cmul(a, b):
    if isinstance(a, Cx):
        return a.mul(b)
    if isinstance(b, Cx):
        return b.mul(a)
    return mul(a, b)


def cdiv(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx.of(a).div(b)
    if is_int(a) and is_int(b):
        if conc(a) and conc(b) and b:
            return int(Fraction(a, b))
        raise Bad('integer division')
    return truediv(a, b)


def cite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return ite(c, a, b)


class Ix(tuple):
    """position of an array element along one Fortran dimension (a flattened array has the indices of its base)"""


class Frame:
    def __init__(self, unit):
        self.unit = unit
        self.vars = {}
        self.arrays = {}
        self.elems = {}
        self.at = {}
        self.ix = {}


class Kernel:
    """one subroutine, callable from the interpreted code as f2py exposes it"""

    def __init__(self, rel, name, text):
        self.rel, self.name = rel, name
        self.units = parse_file(text)
        if name not in self.units:
            raise Bad('no subroutine %s in %s' % (name, rel))
        self.unit = self.units[name]

    def __call__(self, ip, args, kwargs):
        self.ip = ip
        u = self.unit
        extents = {d for p in u.params for d in u.dims.get(p, [])}
        names = [p for p in u.params if p not in extents] + [p for p in u.params if p in extents]
        if len(args) > len(names):
            raise Bad('too many arguments')
        got = dict(zip(names, args))
        for k, v in kwargs.items():
            got[k.lower()] = v
        for p in names:
            if p not in got and p not in extents:
                raise PyRaise('TypeError', (p,))
        f = Frame(u)
        shapes = {}
        for p in names:
            if p in u.dims:
                a = got[p]
                if not isinstance(a, SArr):
                    raise Bad('array argument %s' % p)
                base = a.props.get('ravel_of', a)
                f.arrays[p] = base
                ds = u.dims[p]
                if len(ds) == 1:
                    if ds[0] in shapes and not alike(shapes[ds[0]], base.shape):
                        raise Bad('arrays of different shapes')
                    shapes.setdefault(ds[0], base.shape)
                elif len(ds) == len(base.shape):
                    for d, s in zip(ds, base.shape):
                        if d in shapes:
                            ip.ctx.prove('pre: extent of %s' % p, eq(shapes[d][0] if len(shapes[d]) == 1 else -1, s))
                        shapes.setdefault(d, (s,))
                else:
                    raise Bad('rank of %s' % p)
            elif p in got:
                f.vars[p] = num(got[p]) if not isinstance(got[p], Cx) else got[p]
        for d in extents:
            if not d.isidentifier():
                raise Bad('extent %s' % d)
            n = 1
            for s in shapes[d]:
                n = mul(n, s)
            if d in f.vars:
                ip.ctx.prove('pre: every element is covered by %s' % d, eq(f.vars[d], n))
            f.vars[d] = n
        self.shapes = shapes
        for p in u.params:
            if u.types.get(p, '') != 'integer' and p in f.vars and is_int(f.vars[p]) and p not in extents:
                f.vars[p] = toreal(f.vars[p])
        for s in u.inits + u.body:
            self.top(s, f)
        return None

    # -- statements outside loops
    def top(self, s, f):
        if s[0] == 'do':
            self.loop(s, f)
        else:
            self.exec(s, f, {})

    def targets(self, stmts, loops):
        out = []
        for s in stmts:
            if s[0] == 'assign' and s[1][0] == 'ref':
                out.append((s[1][1], s[1][2]))
            elif s[0] == 'if':
                out += self.targets(s[2], loops) + self.targets(s[3], loops)
            elif s[0] == 'do':
                loops.append((s[1], s[2], s[3]))
                out += self.targets(s[4], loops)
        return out

    def loop(self, s, f):
        loops = [(s[1], s[2], s[3])]
        ts = self.targets(s[4], loops)
        if not ts:
            raise Bad('loop without array results')
        rng = {}
        for v, lo, hi in loops:
            if v in rng:
                raise Bad('nested loops over %s' % v)
            rng[v] = (self.eval(lo, f, {}), self.eval(hi, f, {}))
        start = dict(f.vars)
        assigned = set()
        scalars(s[4], assigned)
        for x in assigned:
            start.pop(x, None)
        before = {}
        names = {}
        for a, ix in ts:
            vs = []
            for e in ix:
                if e[0] != 'var' or e[1] not in rng:
                    raise Bad('element written at an index expression')
                vs.append(e[1])
            if names.setdefault(a, vs) != vs:
                raise Bad('element written at two positions')
        for a in names:
            before[a] = self.array(a, f)
        snaps = {a: x.snapshot() for a, x in before.items()}
        memo = {}
        for a, vs in names.items():
            if set(vs) != set(rng):
                raise Bad('an iteration is overwritten by another')
        unit = f.unit
        frozen = {n: (x.shape, x.snapshot()) for n, x in f.arrays.items()}

        def iteration(pos):
            """all elements written by the iteration at pos (loop variable -> Ix)"""
            k = tuple(idxkey(pos[v]) for v in sorted(pos))
            if k in memo:
                return memo[k]
            g = Frame(unit)
            g.vars = dict(start)
            g.ix = dict(pos)
            for n, (shape, get) in frozen.items():
                g.arrays[n] = (shape, get)
            for st in s[4]:
                self.exec(st, g, pos)
            memo[k] = g.elems
            return g.elems

        for a, vs in names.items():
            arr_ = before[a]
            dims = unit.dims[a]
            widths = [len(self.shape_of(d, f)) for d in dims]

            def place(idx, vs=vs, widths=widths):
                pos, k = {}, 0
                for v, w in zip(vs, widths):
                    pos[v] = Ix(idx[k:k + w])
                    k += w
                return pos

            def cond(idx, vs=vs, dims=dims, place=place):
                pos = place(idx)
                cs = []
                for v, d in zip(vs, dims):
                    lo, hi = rng[v]
                    if norm(lo) == 1 and z3eq(hi, f.vars.get(d)):
                        continue
                    q = self.position(pos[v], d, f)
                    cs += [le(lo, add(q, 1)), le(add(q, 1), hi)]
                return And(*cs) if cs else True

            def val(idx, a=a, place=place, old=snaps[a]):
                e = iteration(place(idx))
                return e[a] if a in e else old(idx)
            arr_.write(cond, val)
        for x in assigned:
            f.vars.pop(x, None)

    def position(self, ix, d, f):
        if len(ix) == 1:
            return ix[0]
        # row-major position in the flattened array
        sh = self.shape_of(d, f)
        q = ix[0]
        for i, n in zip(ix[1:], sh[1:]):
            q = add(mul(q, n), i)
        return q

    def shape_of(self, d, f):
        if d in self.shapes:
            return self.shapes[d]
        raise Bad('extent %s' % d)

    def array(self, a, f):
        if a in f.arrays:
            return f.arrays[a]
        if a not in f.unit.dims:
            raise Bad('array %s' % a)
        sh = tuple(x for d in f.unit.dims[a] for x in self.shape_of(d, f))
        f.arrays[a] = self.ip.fresh_array(sh, 'r', a)
        return f.arrays[a]

    # -- statements of one iteration
    def exec(self, s, f, pos):
        if s[0] == 'assign':
            v = self.eval(s[2], f, pos)
            t = s[1]
            if t[0] == 'var':
                f.vars[t[1]] = self.store(f.unit, t[1], v)
            else:
                if not pos:
                    raise Bad('element assigned outside a loop')
                f.at[t[1]] = [a[1] for a in t[2]]
                f.elems[t[1]] = toreal(v) if not isinstance(v, Cx) else v.re
        elif s[0] == 'if':
            c = self.eval(s[1], f, pos)
            if isinstance(c, bool):
                for x in s[2] if c else s[3]:
                    self.exec(x, f, pos)
                return
            if self.ip.ctx.must(c):
                c = True
            elif self.ip.ctx.must(Not(c)):
                c = False
            if isinstance(c, bool):
                for x in s[2] if c else s[3]:
                    self.exec(x, f, pos)
                return
            if self.ip.ctx.branch(c):
                c = True
            else:
                c = False
            for x in s[2] if c else s[3]:
                self.exec(x, f, pos)
            return
            v0, e0 = dict(f.vars), dict(f.elems)
            for x in s[2]:
                self.exec(x, f, pos)
            v1, e1 = f.vars, f.elems
            f.vars, f.elems = v0, e0
            for x in s[3]:
                self.exec(x, f, pos)
            f.vars = {k: merge(c, v1[k], f.vars[k]) for k in v1 if k in f.vars}
            el = {}
            for k in set(e1) | set(f.elems):
                get = lambda d: d[k] if k in d else self.before(k, f, pos)
                el[k] = merge(c, get(e1), get(f.elems))
            f.elems = el
        elif s[0] == 'do':
            if s[1] not in pos:
                raise Bad('inner loop')
            for x in s[4]:
                self.exec(x, f, pos)
        elif s[0] == 'call':
            self.call(s[1], s[2], f, pos)
        else:
            raise Bad('Fortran %s' % s[0])

    def before(self, a, f, pos):
        raise Bad('element set in one branch only')

    def store(self, u, name, v):
        ty = u.types.get(name) or ('integer' if name[0] in 'ijklmn' else 'real')
        if ty == 'complex':
            return Cx.of(v)
        if ty == 'logical':
            return v
        if ty == 'integer':
            return trunc(v) if not is_int(v) else v
        return toreal(v.re if isinstance(v, Cx) else v)

    def call(self, name, args, f, pos):
        u = self.units.get(name)
        if u is None or u.kind != 'subroutine' or u.dims:
            raise Bad('call of %s' % name)
        g = Frame(u)
        for p, a in zip(u.params, args):
            try:
                g.vars[p] = self.eval(a, f, pos)
            except Bad:
                if a[0] not in ('var', 'ref'):
                    raise
        for s in u.inits + u.body:
            self.exec(s, g, pos)
        for p, a in zip(u.params, args):
            if p in g.vars and assigns(u.body, p):
                if a[0] == 'var':
                    f.vars[a[1]] = g.vars[p]
                elif a[0] == 'ref' and a[1] in f.unit.dims:
                    f.elems[a[1]] = g.vars[p]
                else:
                    raise Bad('result of %s' % name)

    # -- expressions
    def eval(self, e, f, pos):
        k = e[0]
        if k == 'num':
            return literal(e[1])
        if k == 'bool':
            return e[1]
        if k == 'var':
            if e[1] in f.vars:
                return f.vars[e[1]]
            if e[1] in f.ix:
                raise Bad('loop index used as a number')
            raise Bad('%s read before it is assigned in the iteration' % e[1])
        if k == 'cplx':
            return Cx(toreal(self.eval(e[1], f, pos)), toreal(self.eval(e[2], f, pos)))
        if k == 'neg':
            v = self.eval(e[1], f, pos)
            return v.neg() if isinstance(v, Cx) else neg(v)
        if k in ('+', '-', '*', '/'):
            a, b = self.eval(e[1], f, pos), self.eval(e[2], f, pos)
            return {'+': cadd, '-': csub, '*': cmul, '/': cdiv}[k](a, b)
        if k == '**':
            a, b = self.eval(e[1], f, pos), self.eval(e[2], f, pos)
            return pow_(a, b)
        if k == 'cmp':
            return cmp(e[1], self.eval(e[2], f, pos), self.eval(e[3], f, pos))
        if k == 'and':
            return And(self.eval(e[1], f, pos), self.eval(e[2], f, pos))
        if k == 'or':
            return Or(self.eval(e[1], f, pos), self.eval(e[2], f, pos))
        if k == 'not':
            return Not(self.eval(e[1], f, pos))
        if k == 'ref':
            return self.ref(e[1], e[2], f, pos)
        raise Bad(k)

    def ref(self, name, args, f, pos):
        if name in f.unit.dims:
            ix = []
            for a in args:
                if a[0] != 'var' or a[1] not in f.ix:
                    raise Bad('element read at an index expression')
                ix.append(f.ix[a[1]])
            if name in f.elems:
                if f.at.get(name) != [a[1] for a in args]:
                    raise Bad('element of another iteration')
                return f.elems[name]
            if name not in f.arrays:
                raise Bad('%s read before it is assigned' % name)
            shape, get = f.arrays[name]
            idx = tuple(x for i in ix for x in i)
            if len(idx) != len(shape):
                raise Bad('rank of %s' % name)
            return get(idx)
        if name in self.units and self.units[name].kind == 'function':
            u = self.units[name]
            if u.dims:
                raise Bad('function %s of arrays' % name)
            g = Frame(u)
            for p, a in zip(u.params, args):
                g.vars[p] = self.eval(a, f, pos)
            for s in u.inits + u.body:
                self.exec(s, g, pos)
            return g.vars[u.result]
        v = [self.eval(a, f, pos) for a in args]
        return self.intrinsic(name, v)

    def intrinsic(self, n, v):
        from .models import cx_fun
        a = v[0]
        if n in ('realpart', 'real', 'dble', 'dreal'):
            return toreal(a.re if isinstance(a, Cx) else a)
        if n in ('imagpart', 'aimag', 'dimag'):
            return toreal(a.im if isinstance(a, Cx) else Fraction(0))
        if n in ('cmplx', 'dcmplx'):
            return Cx(toreal(a), toreal(v[1]) if len(v) > 1 else Fraction(0))
        if n == 'conjg':
            return Cx(a.re, neg(a.im))
        if n in ('abs', 'dabs'):
            if isinstance(a, Cx):
                return mfun('sqrt', add(mul(a.re, a.re), mul(a.im, a.im)))
            return absv(a)
        if n in ('sign', 'dsign'):
            m = absv(a)
            if self.ip.ctx.must(le(0, v[1])):
                return m
            if self.ip.ctx.must(lt(v[1], 0)):
                return neg(m)
            return ite(le(0, v[1]), m, neg(m))
        if n in ('exp', 'dexp'):
            return cx_fun('exp', a)
        if n in ('sqrt', 'dsqrt', 'sin', 'dsin', 'cos', 'dcos', 'tan', 'dtan', 'log', 'dlog', 'asin', 'acos', 'atan', 'datan', 'sinh', 'cosh'):
            if isinstance(a, Cx):
                raise Bad('complex %s' % n)
            b = n[1:] if n[0] == 'd' else n
            if b == 'atan' and conc(a) and a == 1:
                return PI / 4
            return mfun(b, a)
        if n in ('atan2', 'datan2'):
            return ATAN2(z(toreal(a)), z(toreal(v[1])))
        if n in ('max', 'dmax1', 'min', 'dmin1'):
            g = maxv if n.startswith(('max', 'dmax')) else minv
            r = a
            for x in v[1:]:
                r = g(r, x)
            return r
        raise Bad('Fortran function %s' % n)


def z3eq(a, b):
    if b is None:
        return False
    d = norm(sub(a, b))
    import z3
    if isz(d):
        d = norm(z3.simplify(d))
    return conc(d) and d == 0


def alike(a, b):
    return len(a) == len(b) and all(z3eq(x, y) for x, y in zip(a, b))


def scalars(stmts, out):
    for s in stmts:
        if s[0] == 'assign' and s[1][0] == 'var':
            out.add(s[1][1])
        elif s[0] == 'if':
            scalars(s[2], out)
            scalars(s[3], out)
        elif s[0] == 'do':
            scalars(s[4], out)
        elif s[0] == 'call':
            for a in s[2]:
                if a[0] == 'var':
                    out.add(a[1])


def assigns(stmts, name):
    o = set()
    scalars(stmts, o)
    return name in o


def merge(c, a, b):
    if a is b:
        return a
    return cite(c, a, b)


def load(rel, name, repo=None):
    p = os.path.join(repo or os.environ.get('VERIF_REPO', '/repo'), rel)
    with open(p) as fh:
        return Kernel(rel, name, fh.read())
