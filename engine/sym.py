"""Values of the symbolic executor: numbers, arrays, lists, objects.

Integers are mathematical integers, floats are mathematical reals.  Concrete numbers are
Python int / Fraction, symbolic ones z3 Int / Real / Bool expressions.
"""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """The construct is outside the supported subset."""


class PathEnd(Exception):
    """This path needs no further exploration."""


class PyRaise(Exception):
    """A Python exception raised by the executed code."""

    def __init__(self, name, args=(), node=None):
        Exception.__init__(self, name)
        self.name = name
        self.pyargs = args
        self.node = node


# ---------------------------------------------------------------- numbers

def isz(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or (isz(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))


def is_real(v):
    return isinstance(v, Fraction) or (isz(v) and z3.is_real(v))


def is_num(v):
    return isinstance(v, (int, Fraction)) or (isz(v) and (z3.is_arith(v) or z3.is_bool(v)))


def conc(v):
    """True when v is a concrete number."""
    return isinstance(v, (int, Fraction))


def norm(v):
    """z3 numerals and literals become Python numbers."""
    if isz(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def z(v):
    """to a z3 expression"""
    if isz(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported("not a number: %r" % (v,))


def num(v):
    """bool -> int for arithmetic"""
    if isinstance(v, bool):
        return int(v)
    if isz(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def toreal(v):
    v = num(v)
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isz(v) and z3.is_int(v):
        return z3.ToReal(v)
    if isz(v) and z3.is_real(v):
        return v
    raise Unsupported("not a number: %r" % (v,))


def pair(a, b):
    """coerce to a common sort (both z3)"""
    a, b = num(a), num(b)
    if is_real(a) or is_real(b):
        return z(toreal(a)), z(toreal(b))
    return z(a), z(b)


def _chk(*vs):
    for v in vs:
        if not is_num(v):
            raise Unsupported("arithmetic on %s" % type(v).__name__)


def add(a, b):
    _chk(a, b)
    if conc(a) and conc(b):
        return num(a) + num(b)
    if conc(a) and a == 0 and not isinstance(a, bool):
        return num(b) if is_int(a) else toreal(b)
    if conc(b) and b == 0 and not isinstance(b, bool):
        return num(a) if is_int(b) else toreal(a)
    x, y = pair(a, b)
    return x + y


def sub(a, b):
    _chk(a, b)
    if conc(a) and conc(b):
        return num(a) - num(b)
    if conc(b) and b == 0 and not isinstance(b, bool):
        return num(a) if is_int(b) else toreal(a)
    x, y = pair(a, b)
    if x.eq(y):
        return 0 if is_int(x) else Fraction(0)
    return x - y


def neg(a):
    _chk(a)
    a = num(a)
    return -a


def mul(a, b):
    _chk(a, b)
    if conc(a) and conc(b):
        return num(a) * num(b)
    for p, q in ((a, b), (b, a)):
        if conc(p) and not isinstance(p, bool):
            if p == 1:
                return num(q) if is_int(p) else toreal(q)
            if p == 0:
                return 0 if (is_int(p) and is_int(num(q))) else Fraction(0)
    x, y = pair(a, b)
    return x * y


def truediv(a, b):
    _chk(a, b)
    a, b = toreal(a), toreal(b)
    if conc(a) and conc(b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a / b
    if conc(b) and b != 0:
        return z(a) * z3.RealVal(1 / b) if b != 1 else a
    return z(a) / z(b)


def floor(a):
    a = num(a)
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    if z3.is_int(a):
        return a
    u = unreal(a)
    if u is not None:
        return u
    return z3.ToInt(a)


def ceil(a):
    a = num(a)
    if isinstance(a, (int, Fraction)):
        return -floor(-a)
    if z3.is_int(a):
        return a
    u = unreal(a)
    if u is not None:
        return u
    return -z3.ToInt(-a)


def trunc(a):
    a = num(a)
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return int(a)
    if z3.is_int(a):
        return a
    # int(floor(x)), int(n/1.0): already integral
    u = unreal(a)
    if u is not None:
        return u
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def rnd(a):
    """Python round() to an integer (ties to even)"""
    a = num(a)
    if isinstance(a, (int, Fraction)):
        return round(a)
    if z3.is_int(a):
        return a
    r = z3.ToInt(a + z3.RealVal(Fraction(1, 2)))
    tie = z3.And(z3.ToReal(r) == a + z3.RealVal(Fraction(1, 2)), r % 2 != 0)
    return z3.If(tie, r - 1, r)


def floordiv(a, b):
    _chk(a, b)
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        r = a // b
        return r if is_int(a) and is_int(b) else Fraction(r)
    if is_int(a) and is_int(b):
        if conc(b) and b > 0:
            return z(a) / z3.IntVal(b)
        x, y = z(a), z(b)
        if conc(b):
            return (-x) / z3.IntVal(-b)
        return z3.If(y > 0, x / y, (-x) / (-y))
    return z3.ToReal(z3.ToInt(z(truediv(a, b))))


def mod(a, b):
    _chk(a, b)
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
        return a % b
    if is_int(a) and is_int(b) and conc(b) and b > 0:
        return z(a) % z3.IntVal(b)
    return sub(a, mul(b, floordiv(a, b)))


def unreal(e):
    """integer expression equal to the real expression e, or None"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if isinstance(e, Fraction):
        return int(e) if e.denominator == 1 else None
    if not isz(e):
        return None
    if z3.is_int(e):
        return e
    if not z3.is_real(e):
        return None
    if z3.is_to_real(e):
        return e.arg(0)
    if z3.is_rational_value(e):
        return e.numerator_as_long() if e.denominator_as_long() == 1 else None
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        cs = [unreal(c) for c in e.children()]
        if any(c is None for c in cs):
            return None
        r = cs[0]
        if k == z3.Z3_OP_UMINUS:
            return -r
        for c in cs[1:]:
            r = r + c if k == z3.Z3_OP_ADD else (r - c if k == z3.Z3_OP_SUB else r * c)
        return r
    if k == z3.Z3_OP_ITE:
        x, y = unreal(e.arg(1)), unreal(e.arg(2))
        if x is None or y is None:
            return None
        return z3.If(e.arg(0), z(x), z(y))
    return None


def cmp(op, a, b):
    if conc(a) and conc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    _chk(a, b)
    if op in ('==', '!=') and is_bool(a) and is_bool(b):
        x, y = z(a), z(b)
        return norm(x == y) if op == '==' else norm(x != y)
    x, y = pair(a, b)
    if z3.is_real(x):
        u, v = unreal(x), unreal(y)
        if u is not None and v is not None:
            x, y = z(u), z(v)
            if conc(norm(x)) and conc(norm(y)):
                return cmp(op, norm(x), norm(y))
    if x.eq(y):
        return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
            '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        x = norm(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        x = norm(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = norm(x)
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def ite(c, a, b):
    c = norm(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        if conc(a) and conc(b) and a == b and is_int(a) == is_int(b) and is_bool(a) == is_bool(b):
            return a
        if is_bool(a) and is_bool(b):
            x, y = z(a), z(b)
        else:
            x, y = pair(a, b)
        if x.eq(y):
            return x
        return z3.If(c, x, y)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, SArr) and isinstance(b, SArr) and same_shape(a, b):
        fa, fb = a.snapshot(), b.snapshot()
        return SArr(a.shape, lambda idx: ite(c, fa(idx), fb(idx)), a.kind if a.kind == b.kind else 'r')
    raise Unsupported("merge of %r and %r" % (type(a).__name__, type(b).__name__))


def eq(a, b):
    return cmp('==', a, b)


def lt(a, b):
    return cmp('<', a, b)


def le(a, b):
    return cmp('<=', a, b)


def absv(a):
    a = num(a)
    if conc(a):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def maxv(a, b):
    if conc(a) and conc(b):
        return max(a, b)
    return ite(cmp('>=', a, b), a, b)


def minv(a, b):
    if conc(a) and conc(b):
        return min(a, b)
    return ite(cmp('<=', a, b), a, b)


class Cx:
    """complex number as a pair of reals"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(v):
        return v if isinstance(v, Cx) else Cx(toreal(v), Fraction(0))

    def add(self, o):
        o = Cx.of(o)
        return Cx(add(self.re, o.re), add(self.im, o.im))

    def sub(self, o):
        o = Cx.of(o)
        return Cx(sub(self.re, o.re), sub(self.im, o.im))

    def neg(self):
        return Cx(neg(self.re), neg(self.im))

    def mul(self, o):
        if not isinstance(o, Cx):
            return Cx(mul(self.re, o), mul(self.im, o))
        return Cx(sub(mul(self.re, o.re), mul(self.im, o.im)),
                  add(mul(self.re, o.im), mul(self.im, o.re)))

    def div(self, o):
        if not isinstance(o, Cx):
            return Cx(truediv(self.re, o), truediv(self.im, o))
        d = add(mul(o.re, o.re), mul(o.im, o.im))
        return Cx(truediv(add(mul(self.re, o.re), mul(self.im, o.im)), d),
                  truediv(sub(mul(self.im, o.re), mul(self.re, o.im)), d))


class Special:
    """nan / inf"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN = Special('nan')
INF = Special('inf')
NINF = Special('-inf')


# ---------------------------------------------------------------- math functions

RS = z3.RealSort()
IS = z3.IntSort()
BS = z3.BoolSort()
PI = z3.Real('pi!')
F = {n: z3.Function(n + '!', RS, RS) for n in
     ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'gamma', 'cosh', 'sinh')}
POW = z3.Function('pow!', RS, RS, RS)
ATAN2 = z3.Function('atan2!', RS, RS, RS)


def mfun(name, a):
    if isinstance(a, Special):
        raise Unsupported("%s of %r" % (name, a))
    a = toreal(a)
    if conc(a):
        if name == 'exp' and a == 0:
            return Fraction(1)
        if name == 'log' and a == 1:
            return Fraction(0)
        if name == 'sqrt' and a >= 0:
            import math
            n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
        if name in ('sin', 'tan', 'asin', 'atan') and a == 0:
            return Fraction(0)
        if name == 'cos' and a == 0:
            return Fraction(1)
    if name in ('sin', 'cos') and isz(a):
        # canonical sign of the argument
        s, b = _canon_neg(a)
        if s < 0:
            r = F[name](z(b))
            return -r if name == 'sin' else r
    return F[name](z(a))


def _large(e, most=200):
    n, todo = 0, [e]
    while todo:
        x = todo.pop()
        n += 1
        if n > most:
            return True
        todo += x.children()
    return False


def _canon_neg(a):
    """(sign, b) with a = sign*b, b in a canonical orientation"""
    s = z3.simplify(a, som=False)
    t = z3.simplify(-a, som=False)
    if _large(s) or _large(t):
        return (1, a) if s.hash() <= t.hash() else (-1, t)
    return (1, a) if str(s) <= str(t) else (-1, t)


def pow_(a, b):
    """a ** b"""
    if isinstance(a, Cx):
        raise Unsupported("complex power")
    a, b = num(a), num(b)
    if conc(a) and conc(b) and (isinstance(b, int) or b.denominator == 1) and (a != 0 or b >= 0):
        r = Fraction(a) ** int(b)
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return int(r)
        return r
    if conc(b) and (isinstance(b, int) or b.denominator == 1) and abs(b) <= 8:
        n = int(b)
        keep_int = is_int(a) and isinstance(b, int) and n >= 0
        base = a if keep_int else toreal(a)
        r = 1 if keep_int else Fraction(1)
        for _ in range(abs(n)):
            r = mul(r, base)
        return r if n >= 0 else truediv(1, r)
    if conc(b) and Fraction(b) == Fraction(1, 2):
        return mfun('sqrt', a)
    a, b = toreal(a), toreal(b)
    if conc(a) and a == 1:
        return Fraction(1)
    return POW(z(a), z(b))


def sign(a):
    a = num(a)
    one, zero, mone = (1, 0, -1) if is_int(a) else (Fraction(1), Fraction(0), Fraction(-1))
    return ite(cmp('>', a, 0), one, ite(cmp('<', a, 0), mone, zero))


# ---------------------------------------------------------------- arrays

def same_dim(m, n):
    if conc(m) and conc(n):
        return m == n
    return z(m).eq(z(n))


def same_shape(a, b):
    return len(a.shape) == len(b.shape) and all(same_dim(m, n) for m, n in zip(a.shape, b.shape))


def idxkey(idx):
    return tuple(('z', i.get_id()) if isz(i) else ('c', i) for i in idx)


READLOG = []     # stack of active read logs (lists), see map-loop rule


class SArr:
    """n-d array: shape and a getter from an index tuple to a value.

    A view refers to its base through (base, spec): spec is a list with one entry per base
    dimension, ('i', k) for a fixed index or ('s', start, step) for a kept dimension."""

    def __init__(self, shape, fn, kind='r', view=None):
        self.shape = tuple(shape)
        self._fn = fn
        self.kind = kind
        self.view = view
        self.cache = {}
        self.wlog = []
        self.props = {}       # facts known about the array (e.g. sorted)
        self.cls = None       # ndarray subclass marker
        self.fields = None

    # reading
    def fwd(self, idx):
        base, spec = self.view
        out, k = [], 0
        for s in spec:
            if s[0] == 'i':
                out.append(s[1])
            elif s[0] == 'n':
                k += 1
            else:
                i = idx[k]
                k += 1
                out.append(add(s[1], i if s[2] == 1 else mul(s[2], i)))
        return tuple(out)

    def at(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        idx = tuple(norm(i) for i in idx)
        if self.view is not None:
            return self.view[0].at(self.fwd(idx))
        for log in READLOG:
            log.append((self, idx))
        k = idxkey(idx)
        if k in self.cache:
            return self.cache[k][0]
        v = norm(self._fn(idx))
        self.cache[k] = (v, idx)
        return v

    def snapshot(self):
        """getter of the current contents"""
        if self.view is not None:
            base, spec = self.view
            g = base.snapshot()
            return lambda idx: g(self.fwd(tuple(idx)))
        fn, cache = self._fn, self.cache

        def get(idx):
            idx = tuple(norm(i) for i in idx)
            for log in READLOG:
                log.append((self, idx))
            k = idxkey(idx)
            if k in cache:
                return cache[k][0]
            v = norm(fn(idx))
            cache[k] = (v, idx)
            return v
        return get

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = mul(n, d)
        return n

    @property
    def ndim(self):
        return len(self.shape)

    def setfn(self, fn):
        assert self.view is None
        self._fn = fn
        self.cache = {}

    # writing: cond/val are functions of the index tuple; spec describes the index set
    def write(self, cond, val, spec=None):
        if self.view is not None:
            base, vs = self.view

            def inv(b):
                out = []
                ok = []
                kk = 0
                for s, bi in zip([s for s in vs if s[0] != 'n'], b):
                    if s[0] == 'i':
                        ok.append(eq(bi, s[1]))
                    else:
                        d = sub(bi, s[1])
                        n = self.shape[kk]
                        if s[2] == 1:
                            v = d
                        elif s[2] == -1:
                            v = neg(d)
                        else:
                            v = floordiv(d, s[2])
                            ok.append(eq(mul(v, s[2]), d))
                        ok.append(le(0, v))
                        ok.append(lt(v, n))
                        out.append(v)
                        kk += 1
                return And(*ok), tuple(out)

            def bcond(b):
                ok, v = inv(b)
                if ok is False:
                    return False
                return And(ok, cond(v))
            bspec = []
            k = 0
            for s in vs:
                if s[0] == 'i':
                    bspec.append(('i', s[1]))
                elif s[0] == 'n':
                    raise Unsupported('write through newaxis view')
                else:
                    e = spec[k] if spec else ('*',)
                    k += 1
                    if e[0] == 'i':
                        bspec.append(('i', add(s[1], mul(s[2], e[1]))))
                    else:
                        bspec.append(('*',))
            base.write(bcond, lambda b: val(inv(b)[1]), bspec)
            return
        old = self.snapshot()
        kind = self.kind

        def fn(idx):
            c = cond(idx)
            if c is True:
                return conv(val(idx), kind)
            if c is False:
                return old(idx)
            return ite(c, conv(val(idx), kind), old(idx))
        self.setfn(fn)
        self.props = {}
        self.wlog.append((spec or [('*',)] * len(self.shape)))

    def fill(self, v):
        self.write(lambda i: True, lambda i: v)


def conv(v, kind):
    """conversion on store into an array of this kind"""
    if kind == 'i':
        if is_real(v):
            return trunc(v)
        return num(v)
    if kind == 'r':
        if isinstance(v, Special):
            raise Unsupported("nan/inf stored")
        return toreal(v)
    if kind == 'b':
        if is_bool(v):
            return v
        return cmp('!=', v, 0)
    if kind == 'c':
        return Cx.of(v)
    return v


def lam(fn, *sorts):
    """z3 lambda of a getter"""
    vs = [z3.FreshConst(s, 'l') for s in sorts]
    return z3.Lambda(vs, z(fn(tuple(vs))))


# ---------------------------------------------------------------- lists, dicts, objects

class PList:
    """Python list: concrete items, or symbolic (length n, getter fn).

    With `inv` set it is a typed list under a data invariant: append proves inv(elem, n)."""

    def __init__(self, items=None, n=None, fn=None, inv=None, gen=None):
        self.items = items
        self.n = n
        self.fn = fn
        self.inv = inv
        self.gen = gen

    @property
    def concrete(self):
        return self.items is not None

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def at(self, i):
        if self.items is not None and conc(i):
            return self.items[i]
        if self.items is not None:
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = ite(eq(i, k), self.items[k], r)
            return r
        return self.fn(i)

    def getter(self):
        if self.items is not None:
            its = list(self.items)

            def g(i):
                if conc(i):
                    return its[i]
                r = its[-1]
                for k in range(len(its) - 2, -1, -1):
                    r = ite(eq(i, k), its[k], r)
                return r
            return g
        return self.fn


class PDict:
    def __init__(self, d=None):
        self.d = d if d is not None else {}


class PSet:
    def __init__(self, items=()):
        self.items = list(items)


class SObj:
    """instance of a class (cls is a ClassRef or a plain name)"""
    _n = 0

    def __init__(self, cls, attrs=None, hooks=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.hooks = hooks or {}      # attribute name -> function(obj) -> value
        SObj._n += 1
        self.oid = SObj._n

    def __repr__(self):
        return "<%s object>" % (self.cls,)


class SymStr:
    """string with symbolic parts: template and values"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "SymStr%r" % (self.parts,)


class Opaque:
    """value nothing is known about; any use other than passing it on is unsupported"""

    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def __repr__(self):
        return "<opaque %s>" % self.name


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Native:
    """callable implemented by the contract: fn(ip, args, kwargs)"""

    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return "<native %s>" % self.name


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if conc(self.lo) and conc(self.hi) and conc(self.step):
            return len(range(self.lo, self.hi, self.step))
        if not conc(self.step):
            raise Unsupported("range with symbolic step")
        d = sub(self.hi, self.lo)
        if self.step == 1:
            n = d
        elif self.step > 0:
            n = floordiv(add(d, self.step - 1), self.step)
        else:
            n = floordiv(add(neg(d), -self.step - 1), -self.step)
        return ite(cmp('>', n, 0), n, 0)

    def at(self, i):
        return add(self.lo, mul(self.step, i))


class Iter:
    """generic symbolic sequence"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def length(self):
        return self.n

    def at(self, i):
        return self.fn(i)


UNDEF = Opaque('undefined')


def clone(root, memo):
    """copy of the mutable object graph; immutable values are shared"""
    if isinstance(root, (int, Fraction, str, type(None), bytes, Special, SymStr, Range, Slice, Native)) or isz(root):
        return root
    k = id(root)
    if k in memo:
        return memo[k][1]
    if isinstance(root, tuple):
        r = tuple(clone(x, memo) for x in root)
        if all(a is b for a, b in zip(r, root)):
            r = root
        memo[k] = (root, r)
        return r
    if isinstance(root, SArr):
        r = SArr.__new__(SArr)
        memo[k] = (root, r)
        r.__dict__.update(root.__dict__)
        r.cache = dict(root.cache)
        r.wlog = list(root.wlog)
        r.props = dict(root.props)
        if root.view is not None:
            r.view = (clone(root.view[0], memo), root.view[1])
        return r
    if isinstance(root, PList):
        r = PList.__new__(PList)
        memo[k] = (root, r)
        r.__dict__.update(root.__dict__)
        if root.items is not None:
            r.items = [clone(x, memo) for x in root.items]
        return r
    if isinstance(root, PDict):
        r = PDict({})
        memo[k] = (root, r)
        for a, b in root.d.items():
            r.d[a] = clone(b, memo)
        return r
    if isinstance(root, PSet):
        r = PSet([clone(x, memo) for x in root.items])
        memo[k] = (root, r)
        return r
    if isinstance(root, SObj):
        r = SObj.__new__(SObj)
        memo[k] = (root, r)
        r.__dict__.update(root.__dict__)
        r.attrs = {a: clone(b, memo) for a, b in root.attrs.items()}
        return r
    if isinstance(root, list):
        r = []
        memo[k] = (root, r)
        r.extend(clone(x, memo) for x in root)
        return r
    if isinstance(root, dict):
        r = {}
        memo[k] = (root, r)
        for a, b in root.items():
            r[a] = clone(b, memo)
        return r
    if hasattr(root, 'clone_state'):
        r = root.clone_state(memo, clone)
        return r
    return root
