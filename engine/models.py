"""Models of Python builtins, math, numpy: the assumed contracts on dependencies."""
import z3
from .sym import *
from . import sym as S
from .interp import (ExtRef, FuncRef, ClassRef, Bound, ModRef, Native, BUILTIN_EXC, mkstr, LOG)

REG = {}


def model(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def const(name, v):
    REG['value:' + name] = v


const('math.pi', PI)
const('numpy.pi', PI)
const('numpy.nan', NAN)
const('numpy.NaN', NAN)
const('numpy.inf', INF)
const('math.inf', INF)
const('math.nan', NAN)
const('numpy.newaxis', Opaque('newaxis'))
NEWAXIS = REG['value:numpy.newaxis']
const('os.sep', '/')
const('sys.maxsize', 2 ** 63 - 1)
const('sys.float_info', SObj('float_info', {'max': INF}))


def kind_of(v):
    if isinstance(v, SArr):
        return v.kind
    if isinstance(v, Cx):
        return 'c'
    if is_bool(v):
        return 'b'
    if is_int(v):
        return 'i'
    if is_real(v) or isinstance(v, Special):
        return 'r'
    return 'o'


def join_kind(a, b, op=None):
    order = 'birco'
    if 'o' in (a, b):
        return 'o'
    k = max(a, b, key=lambda x: 'birc'.index(x))
    if op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'Pow') and k == 'b':
        k = 'i'
    if op == 'Div' and k in 'bi':
        k = 'r'
    return k


def bshape(ip, shapes, node=None):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        dims = []
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                dims.append(norm(s[j]))
        d = None
        for x in dims:
            if conc(x) and x == 1:
                continue
            if d is None:
                d = x
            elif not same_dim(d, x):
                if conc(d) and conc(x):
                    raise PyRaise('ValueError', ('shapes',), node)
                ip.defined('operands could be broadcast', eq(d, x), node, 'ValueError')
                if conc(x):
                    d = x
        out.append(1 if d is None else d)
    return tuple(out)


def bget(a, n):
    """getter of a broadcast to n dims"""
    if not isinstance(a, SArr):
        return lambda i: a
    g = a.snapshot()
    off = n - len(a.shape)
    one = [conc(norm(d)) and norm(d) == 1 for d in a.shape]
    return lambda i: g(tuple(0 if one[k] and True else i[off + k] for k in range(len(one))))


def broadcast(ip, f, a, b, node=None, kind=None, opname=None):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return f(a, b)
    shp = bshape(ip, [x.shape for x in (a, b) if isinstance(x, SArr)], node)
    ga, gb = bget(a, len(shp)), bget(b, len(shp))
    k = kind or join_kind(kind_of(a), kind_of(b), opname)
    return SArr(shp, lambda i: f(ga(i), gb(i)), k)


def bmulti(ip, f, args, kind, node=None):
    arrs = [x for x in args if isinstance(x, SArr)]
    if not arrs:
        return f(*args)
    shp = bshape(ip, [x.shape for x in arrs], node)
    gs = [bget(x, len(shp)) for x in args]
    return SArr(shp, lambda i: f(*[g(i) for g in gs]), kind)


def arr(ip, v):
    """numpy array from anything array-like"""
    if isinstance(v, SArr):
        return v
    if isinstance(v, (PList, tuple)):
        return REG['numpy.array'](ip, [v], {})
    if isinstance(v, (Range, Iter)):
        g = v
        if isinstance(v, Range):
            return SArr((v.length(),), lambda i: g.at(i[0]), 'i')
        return SArr((v.length(),), lambda i: g.at(i[0]), kind_of(v.at(0)))
    if is_num(v) or isinstance(v, Cx):
        return SArr((), lambda i: v, kind_of(v))
    raise Unsupported('array from %s' % type(v).__name__)


def row_view(a, i):
    if a.view is not None:
        base, spec = a.view
        spec = list(spec)
        k = next(j for j, s in enumerate(spec) if s[0] == 's')
        spec[k] = ('i', add(spec[k][1], mul(spec[k][2], i)))
        return SArr(a.shape[1:], None, a.kind, view=(base, spec))
    return SArr(a.shape[1:], None, a.kind, view=(a, [('i', i)] + [('s', 0, 1)] * (len(a.shape) - 1)))


def mkview(a, spec, shape):
    """spec in terms of a's dimensions; flattened to a's base"""
    if a.view is None:
        return SArr(shape, None, a.kind, view=(a, spec))
    base, vs = a.view
    out = []
    k = 0
    for s in vs:
        if s[0] == 's':
            e = spec[k]
            k += 1
            if e[0] == 'i':
                out.append(('i', add(s[1], mul(s[2], e[1]))))
            else:
                out.append(('s', add(s[1], mul(s[2], e[1])), s[2] * e[2]))
        else:
            out.append(s)
    return SArr(shape, None, a.kind, view=(base, out))


def qvar(n=1, base='q'):
    vs = [z3.FreshConst(IS, base) for _ in range(n)]
    return vs[0] if n == 1 else vs


def forall(vs, body):
    body = norm(body)
    if isinstance(body, bool):
        return body
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.ForAll(list(vs), body)


def exists(vs, body):
    body = norm(body)
    if isinstance(body, bool):
        return body
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.Exists(list(vs), body)


def in_shape(idx, shape):
    return And(*[And(le(0, i), lt(i, n)) for i, n in zip(idx, shape)])


def mask_filter(ip, m):
    """ascending enumeration of the true positions of a 1-d mask: (count, sel)"""
    key = m.props.get('filter') if m.view is None else None
    g = m.snapshot()
    tag = None
    n = m.shape[0]
    q = z3.Const('flt!q', IS)
    body = norm(g((q,)))
    bz = z(body) if not isinstance(body, bool) else z3.BoolVal(body)
    tab = mask_filter_tab(ip)
    k = (bz.get_id(), z(n).get_id())
    if k not in tab:
        # the same places named by another condition
        for o in [o for o in tab if o[1] == k[1] and len(o) == 2][:6]:
            if tab[o][3][0] is not None and equivalent(tab[o][3][0], bz):
                tab[k] = tab[o][:3] + ((bz, z(n)),) + tab[o][4:]
                break
    if k in tab:
        cnt, sel, pos, keep, facts = tab[k]
        for f in facts:
            if not any(f is h for h in ip.ctx.facts):
                ip.ctx.assume(f)
        return cnt, sel, pos
    ctx = ip.ctx
    cnt = ctx.int('count')
    sf = ctx.func('sel', IS, IS)
    pf = ctx.func('pos', IS, IS)
    a, b = qvar(2)
    at = lambda i: g((i,))
    rng = And(0 <= a, a < cnt)
    facts = [cnt >= 0, le(cnt, n),
             forall(a, Implies(rng, And(0 <= sf(a), lt(sf(a), n), at(sf(a)), pf(sf(a)) == a))),
             z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < cnt), sf(a) < sf(b))),
             forall(a, Implies(And(0 <= a, lt(a, n), at(a)), And(0 <= pf(a), pf(a) < cnt, sf(pf(a)) == a)))]
    for f in facts:
        ctx.assume(f)
    tab[k] = (cnt, sf, pf, (bz, z(n)), facts)
    return cnt, sf, pf


def equivalent(a, b):
    if any(z3.is_quantifier(x) for x in (a, b)):
        return False
    s = z3.Solver()
    s.set('timeout', 200)
    s.add(a != b)
    return s.check() == z3.unsat


def filter_arr(ip, a, m):
    cnt, sf, pf = mask_filter(ip, m)
    g = a.snapshot()
    sel = unpos((sf,), pf)
    return SArr((cnt,) + tuple(a.shape[1:]), lambda i: g(sel(i[0]) + tuple(i[1:])), a.kind)


def unpos(sels, pf):
    """index tuple of the k-th selected element; the position of a tuple maps back to the tuple

    (positions of unselected tuples are not otherwise specified, so they may be taken distinct)"""
    def f(k):
        k = z(k)
        if z3.is_app(k) and k.decl().eq(pf):
            return tuple(norm(k.arg(j)) for j in range(k.num_args()))
        return tuple(s(k) for s in sels)
    return f


def nd_enum(ip, m):
    """enumeration of the true index tuples of an n-d mask: (count, sel functions, pos function)"""
    if len(m.shape) == 1:
        cnt, sf, pf = mask_filter(ip, m)
        return cnt, (sf,), pf
    ctx = ip.ctx
    n = len(m.shape)
    gm = m.snapshot()
    us = tuple(z3.Const('flt!q%d' % k, IS) for k in range(n))
    body = norm(gm(us))
    bz = z3.BoolVal(body) if isinstance(body, bool) else z(body)
    mask_filter_tab(ip)
    k = (bz.get_id(),) + tuple(z(d).get_id() for d in m.shape)
    if k in ctx.filter_tab:
        cnt, sels, pf, keep, facts = ctx.filter_tab[k]
        for f in facts:
            if not any(f is h for h in ctx.facts):
                ctx.assume(f)
        return cnt, sels, pf
    cnt = ctx.int('count')
    sels = tuple(ctx.func('sel%d' % k, IS, IS) for k in range(n))
    pf = ctx.func('pos', *([IS] * n + [IS]))
    q = qvar(1)
    vs = qvar(n)
    t = tuple(s(q) for s in sels)
    p = pf(*vs)
    facts = [cnt >= 0, forall(q, Implies(And(0 <= q, q < cnt), And(in_shape(t, m.shape), gm(t)))),
             forall(vs, Implies(And(in_shape(vs, m.shape), gm(tuple(vs))),
                                And(0 <= p, p < cnt, *[s(p) == v for s, v in zip(sels, vs)])))]
    for f in facts:
        ctx.assume(f)
    ctx.filter_tab[k] = (cnt, sels, pf, (bz, tuple(z(d) for d in m.shape)), facts)
    return cnt, sels, pf


def mask_filter_tab(ip):
    tab = ip.ctx.__dict__.setdefault('filter_tab', {})
    if ip.ctx.__dict__.get('filter_path') != (ip.ctx.paths, id(ip.ctx.solver)):
        ip.ctx.filter_tab = tab = {}
        ip.ctx.filter_path = (ip.ctx.paths, id(ip.ctx.solver))
    return tab


def arr_getitem(ip, a, ix, node=None):
    if isinstance(ix, str):
        if a.fields and ix in a.fields:
            return a.fields[ix]
        raise Unsupported('record field %r' % ix)
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(x is Ellipsis for x in ix):
        k = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        used = sum(1 for x in ix if x is not Ellipsis and x is not None and x is not NEWAXIS)
        ix = ix[:k] + (Slice(None, None, None),) * (len(a.shape) - used) + ix[k + 1:]
    if any(x is None or x is NEWAXIS for x in ix):
        # new axes, other entries full slices
        g = a.snapshot()
        shape = []
        src = []
        k = 0
        for x in ix:
            if x is None or x is NEWAXIS:
                shape.append(1)
                src.append(None)
            elif isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None:
                shape.append(a.shape[k])
                src.append(k)
                k += 1
            else:
                raise Unsupported('mixed newaxis index')
        while k < len(a.shape):
            shape.append(a.shape[k])
            src.append(k)
            k += 1
        keep = [j for j, s in enumerate(src) if s is not None]
        return SArr(shape, lambda i: g(tuple(i[j] for j in keep)), a.kind)
    if len(ix) == 1 and isinstance(ix[0], tuple) and all(isinstance(x, SArr) for x in ix[0]):
        ix = ix[0]
    if len(ix) == 1 and isinstance(ix[0], SArr) and ix[0].kind == 'b':
        m = ix[0]
        if len(m.shape) == 1:
            if not same_dim(m.shape[0], a.shape[0]):
                ip.defined('mask length matches', eq(m.shape[0], a.shape[0]), node, 'IndexError')
            return filter_arr(ip, a, m)
        if len(m.shape) == 0:
            raise Unsupported('scalar mask')
        # n-d mask: selected set, order abstracted through an enumeration of index tuples
        return filter_nd(ip, a, m, node)
    if len(ix) > len(a.shape):
        raise PyRaise('IndexError', ('too many indices',), node)
    if any(isinstance(x, (SArr, PList)) for x in ix):
        xs = [arr(ip, x) if isinstance(x, (SArr, PList)) else x for x in ix]
        if all(isinstance(x, SArr) or is_num(x) for x in xs):
            if any(isinstance(x, SArr) and x.kind == 'b' for x in xs):
                if len(xs) == 2 and is_num(xs[1]):
                    return filter_arr(ip, arr_getitem(ip, a, (Slice(None, None, None), xs[1]), node), xs[0])
                raise Unsupported('boolean mixed index')
            idx = bmulti_idx(ip, xs, node)
            shp = idx[0]
            gs = idx[1]
            for k, gk in enumerate(gs):
                v = tuple(qvar(1) for _ in shp)
                cond = Implies(in_shape(v, shp), And(le(neg(a.shape[k]), gk(v)), lt(gk(v), a.shape[k])))
                cond = norm(cond)
                if cond is not True:
                    if all(conc(norm(d)) and norm(d) <= 3 for d in shp) and len(shp) == 1:
                        cond = And(*[And(le(neg(a.shape[k]), gk((j,))), lt(gk((j,)), a.shape[k])) for j in range(norm(shp[0]))])
                        ip.defined('fancy index in range', cond, node, 'IndexError')
                    else:
                        ip.defined('fancy index in range', z3.ForAll(list(v), z(cond)), node, 'IndexError')
            g = a.snapshot()
            dims = a.shape

            def wrap(i, n):
                if conc(i):
                    return i if i >= 0 else add(n, i)
                return ite(cmp('<', i, 0), add(n, i), i)
            nfix = len(gs)
            return SArr(tuple(shp) + tuple(a.shape[nfix:]),
                        lambda i: g(tuple(wrap(gk(tuple(i[:len(shp)])), dims[k]) for k, gk in enumerate(gs)) + tuple(i[len(shp):])), a.kind)
        if len(xs) == 2 and isinstance(xs[0], Slice) and isinstance(xs[1], SArr) and len(xs[1].shape) == 1:
            s0 = arr_getitem(ip, a, (xs[0],), node)
            t = REG['numpy.transpose'](ip, [s0], {})
            return REG['numpy.transpose'](ip, [arr_getitem(ip, t, (xs[1],), node)], {})
        if len(xs) == 2 and isinstance(xs[1], Slice) and isinstance(xs[0], SArr) and len(xs[0].shape) == 1:
            rows = arr_getitem(ip, a, xs[0] if xs[0].kind == 'b' else (xs[0],), node)
            return arr_getitem(ip, rows, (Slice(None, None, None), xs[1]), node)
        raise Unsupported('advanced indexing')
    spec, shape = [], []
    for k, d in enumerate(a.shape):
        x = ix[k] if k < len(ix) else Slice(None, None, None)
        if isinstance(x, Slice):
            st, ln, step = ip.slice_bounds(x, d)
            spec.append(('s', st, step))
            shape.append(ln)
        elif is_num(x):
            if is_bool(x):
                raise Unsupported('boolean scalar index')
            spec.append(('i', ip.norm_index(x, d, node)))
        else:
            raise Unsupported('index of type %s' % type(x).__name__)
    if all(s[0] == 'i' for s in spec):
        return a.at(*[s[1] for s in spec])
    v = mkview(a, spec, shape)
    if a.fields:
        v.fields = {n: arr_getitem(ip, f, ix, node) for n, f in a.fields.items()}
    return v


def bmulti_idx(ip, xs, node):
    arrs = [x for x in xs if isinstance(x, SArr)]
    shp = bshape(ip, [x.shape for x in arrs], node)
    return shp, [bget(x, len(shp)) for x in xs]


def filter_nd(ip, a, m, node=None):
    cnt, sels, pf = nd_enum(ip, m)
    g = a.snapshot()
    sel = unpos(sels, pf)
    return SArr((cnt,) + tuple(a.shape[len(m.shape):]), lambda i: g(sel(i[0]) + tuple(i[1:])), a.kind)


def arr_setitem(ip, a, ix, v, node=None):
    if isinstance(ix, str):
        if a.fields is not None and ix in a.fields:
            f = a.fields[ix]
            arr_setitem(ip, f, Slice(None, None, None), v, node)
            return
        raise Unsupported('record field %r' % ix)
    if not isinstance(ix, tuple):
        ix = (ix,)
    if len(ix) == 1 and isinstance(ix[0], tuple):
        ix = ix[0]
    if any(x is Ellipsis for x in ix):
        k = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        ix = ix[:k] + (Slice(None, None, None),) * (len(a.shape) - len(ix) + 1) + ix[k + 1:]
    if isinstance(v, (PList, tuple)):
        v = arr(ip, v)
    if len(ix) == 1 and isinstance(ix[0], SArr) and ix[0].kind == 'b' and len(ix[0].shape) == len(a.shape):
        m = ix[0]
        gm = m.snapshot()
        if isinstance(v, SArr):
            if len(v.shape) == 0 or (len(v.shape) == 1 and norm(v.shape[0]) == 1):
                x = v.at(*([0] * len(v.shape)))
                a.write(lambda i: gm(i), lambda i: x)
                return
            # value produced by filtering with the same mask, 1-d
            if len(a.shape) == 1:
                cnt, sf, pf = mask_filter(ip, m)
                ip.defined('assigned length matches', eq(v.shape[0], cnt), node, 'ValueError')
                gv = v.snapshot()
                a.write(lambda i: gm(i), lambda i: gv((pf(z(i[0])),)))
                return
            if len(a.shape) == len(m.shape) and len(v.shape) == 1:
                cnt, sels, pf = nd_enum(ip, m)
                ip.defined('assigned length matches', eq(v.shape[0], cnt), node, 'ValueError')
                gv = v.snapshot()
                a.write(lambda i: gm(i), lambda i: gv((pf(*[z(x) for x in i]),)))
                return
            raise Unsupported('masked assignment from array')
        a.write(lambda i: gm(i), lambda i: v)
        return
    if any(isinstance(x, (SArr, PList)) for x in ix):
        xs = [arr(ip, x) if isinstance(x, PList) else x for x in ix]
        if len(xs) == 1 and len(a.shape) == 1 and len(xs[0].shape) == 1 and xs[0].kind == 'i':
            x = xs[0]
            gx = x.snapshot()
            n = norm(x.shape[0])
            q = qvar(1)
            rg = lambda j: And(le(0, gx((j,))), lt(gx((j,)), a.shape[0]))
            inv = x.props.get('inverse')
            if inv is not None and not isinstance(v, SArr):
                cond = inv
                a.write(lambda i: cond(i[0]), lambda i: v)
                return
            mem = x.props.get('shifted')
            if mem is not None and not isinstance(v, SArr):
                w = ip.ctx.int('place')
                ip.defined('index in range', Implies(mem(w), And(le(0, w), lt(w, a.shape[0]))), node, 'IndexError')
                a.write(lambda i: mem(i[0]), lambda i: v)
                return
            ip.defined('fancy index in range', forall(q, Implies(And(0 <= q, lt(q, n)), rg(q))), node, 'IndexError')
            if not isinstance(v, SArr):
                a.write(lambda i: exists(q, And(0 <= q, lt(q, n), eq(gx((q,)), i[0]))), lambda i: v)
                return
            pf = x.props.get('pos')
            if pf is not None:
                gv = v.snapshot()
                a.write(lambda i: And(le(0, pf(i[0])), lt(pf(i[0]), n), eq(gx((pf(i[0]),)), i[0])), lambda i: gv((pf(i[0]),)))
                return
        if len(xs) == len(a.shape) and all(isinstance(x, SArr) and x.props.get('where_nd') for x in xs) and \
                all(x.props['where_nd'][1:] == (xs[0].props['where_nd'][1], k) for k, x in enumerate(xs)):
            gm, pf, _ = xs[0].props['where_nd']
            if isinstance(v, SArr):
                if len(v.shape) != 1:
                    raise Unsupported('advanced assignment')
                ip.defined('assigned length matches', eq(v.shape[0], xs[0].shape[0]), node, 'ValueError')
                gv = v.snapshot()
                a.write(lambda i: gm(i), lambda i: gv((pf(*[z(x) for x in i]),)))
            else:
                a.write(lambda i: gm(i), lambda i: v)
            return
        if len(xs) == len(a.shape) and not isinstance(v, SArr) and any(isinstance(x, SArr) and x.props.get('member') for x in xs):
            conds = []
            for k, x in enumerate(xs):
                if isinstance(x, SArr):
                    mem = x.props.get('member')
                    if mem is None:
                        raise Unsupported('advanced assignment')
                    conds.append((k, mem))
                else:
                    xi = ip.norm_index(x, a.shape[k], node)
                    conds.append((k, lambda i, xi=xi: eq(i, xi)))
            a.write(lambda i: And(*[c(i[k]) for k, c in conds]), lambda i: v)
            return
        raise Unsupported('advanced assignment')
    spec = []
    wspec = []
    for k, d in enumerate(a.shape):
        x = ix[k] if k < len(ix) else Slice(None, None, None)
        if isinstance(x, Slice):
            st, ln, step = ip.slice_bounds(x, d)
            spec.append(('s', st, step, ln))
            wspec.append(('*',))
        elif is_num(x):
            j = ip.norm_index(x, d, node)
            spec.append(('i', j))
            wspec.append(('i', j))
        else:
            raise Unsupported('index of type %s' % type(x).__name__)
    if len(ix) > len(a.shape):
        raise PyRaise('IndexError', ('too many indices',), node)
    if isinstance(v, Special) and a.kind in 'ri':
        raise Unsupported('nan/inf stored')
    kept = [s for s in spec if s[0] == 's']
    vshape = tuple(s[3] for s in kept)
    if isinstance(v, SArr):
        if len(v.shape) > len(vshape):
            if all(norm(d) == 1 for d in v.shape[:len(v.shape) - len(vshape)]):
                raise Unsupported('assignment dropping axes')
            raise PyRaise('ValueError', ('could not broadcast',), node)
        for k in range(len(v.shape)):
            d, w = v.shape[k], vshape[len(vshape) - len(v.shape) + k]
            if not (conc(norm(d)) and norm(d) == 1) and not same_dim(d, w):
                ip.defined('assigned shape matches', eq(d, w), node, 'ValueError')
        gv = bget(v, len(vshape))
    else:
        if not (is_num(v) or isinstance(v, Cx)) and a.kind != 'o':
            if isinstance(v, (str, SymStr, SObj)) or v is None:
                raise Unsupported('storing %s in array' % type(v).__name__)
        gv = lambda i: v

    def inv(i):
        ok, out = [], []
        for s, x in zip(spec, i):
            if s[0] == 'i':
                ok.append(eq(x, s[1]))
            else:
                d = sub(x, s[1])
                if s[2] == 1:
                    w = d
                elif s[2] == -1:
                    w = neg(d)
                else:
                    w = floordiv(d, s[2])
                    ok.append(eq(mul(w, s[2]), d))
                full = s[2] == 1 and conc(s[1]) and s[1] == 0
                if not full:
                    ok.append(le(0, w))
                # upper bound: dropped for complete slices
                ok.append(lt(w, s[3]))
                out.append(w)
        return ok, tuple(out)

    fullslice = [s[0] == 's' and s[2] == 1 and conc(s[1]) and s[1] == 0 and same_dim(s[3], a.shape[k]) for k, s in enumerate(spec)]

    def cond(i):
        ok = []
        for k, (s, x) in enumerate(zip(spec, i)):
            if s[0] == 'i':
                ok.append(eq(x, s[1]))
            elif not fullslice[k]:
                d = sub(x, s[1])
                if s[2] == 1:
                    w = d
                elif s[2] == -1:
                    w = neg(d)
                else:
                    w = floordiv(d, s[2])
                    ok.append(eq(mul(w, s[2]), d))
                ok += [le(0, w), lt(w, s[3])]
        return And(*ok)
    a.write(cond, lambda i: gv(inv(i)[1]), wspec)


# ---------------------------------------------------------------- builtins

@model('builtins.len', 'numpy.size_of')
def b_len(ip, a, k):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, PSet):
        return len(v.items)
    if isinstance(v, SArr):
        if not v.shape:
            raise PyRaise('TypeError', ('len() of unsized object',))
        return v.shape[0]
    if isinstance(v, (Range, Iter)):
        return v.length()
    if isinstance(v, SObj):
        m = ip.find_method(v, '__len__')
        if m:
            return ip.call(m, [])
        if isinstance(v.cls, str) and v.cls + '.__len__' in ip.reg:
            return ip.reg[v.cls + '.__len__'](ip, [v], {})
    if is_num(v) or v is None:
        raise PyRaise('TypeError', ('len',))
    raise Unsupported('len of %s' % type(v).__name__)


@model('builtins.range')
def b_range(ip, a, k):
    a = [norm(x) for x in a]
    for x in a:
        if not is_int(num(x)):
            raise PyRaise('TypeError', ('range of float',))
    if len(a) == 1:
        return Range(0, a[0])
    if len(a) == 2:
        return Range(a[0], a[1])
    return Range(a[0], a[1], a[2])


@model('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs')
def b_abs(ip, a, k):
    v = a[0]
    if isinstance(v, PList):
        v = arr(ip, v)

    def f(x):
        if isinstance(x, Cx):
            return mfun('sqrt', add(mul(x.re, x.re), mul(x.im, x.im)))
        return absv(x)
    if isinstance(v, SArr):
        return ip.unary(f, v, 'r' if v.kind == 'c' else None)
    if isz(v):
        v = num(v)
        if ip.ctx.must(v >= 0):
            return v
        if ip.ctx.must(v <= 0):
            return neg(v)
    return f(v)


@model('builtins.int', 'numpy.int32', 'numpy.int64', 'numpy.int_', 'numpy.int')
def b_int(ip, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, SArr):
        if norm(v.size) == 1 or not v.shape:
            v = v.at(*([0] * len(v.shape)))
        elif not ip.ctx.must(eq(v.size, 1)):
            raise PyRaise('TypeError', ('only size-1 arrays',))
        else:
            v = v.at(*([0] * len(v.shape)))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise('ValueError', (v,))
    if is_num(v):
        if isz(v) and z3.is_real(v) and not z3.is_to_real(v):
            u = unreal(v)
            if u is not None:
                return u
            n = ip.ctx.int('int')
            if ip.ctx.must(v >= 0):
                ip.ctx.assume(toreal(n) <= v, v < toreal(n) + 1, n >= 0)
                return n
            return trunc(v)
        return trunc(v)
    if isinstance(v, Special):
        raise PyRaise('ValueError' if v is NAN else 'OverflowError', ())
    raise Unsupported('int of %s' % type(v).__name__)


@model('builtins.float', 'numpy.float64', 'numpy.float32', 'numpy.float', 'numpy.double')
def b_float(ip, a, k):
    if not a:
        return Fraction(0)
    v = a[0]
    if isinstance(v, SArr):
        if not v.shape or norm(v.size) == 1:
            v = v.at(*([0] * len(v.shape)))
        else:
            return REG['ndarray.astype'](ip, [v, ExtRef('builtins.float')], {})
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            raise PyRaise('ValueError', (v,))
        if f != f:
            return NAN
        return Fraction(v)
    if is_num(v):
        return toreal(v)
    if isinstance(v, Special):
        return v
    raise Unsupported('float of %s' % type(v).__name__)


@model('builtins.bool')
def b_bool(ip, a, k):
    if not a:
        return False
    if is_bool(a[0]):
        return a[0]
    return ip.truth(a[0])


@model('builtins.str')
def b_str(ip, a, k):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, SymStr):
        return v
    return SymStr([('fmt', '%s', v)])


@model('builtins.repr')
def b_repr(ip, a, k):
    return SymStr([('fmt', '%r', a[0])])


@model('builtins.round', 'numpy.round', 'numpy.around', 'numpy.round_', 'numpy.rint')
def b_round(ip, a, k):
    nd = a[1] if len(a) > 1 else k.get('decimals', k.get('ndigits', 0))
    isnp = isinstance(a[0], SArr)

    def f(x):
        if nd == 0 or nd is None:
            r = rnd(x)
            return r
        if not conc(nd):
            raise Unsupported('round digits')
        s = Fraction(10) ** nd
        return truediv(rnd(mul(x, s)), s)
    if isnp:
        return ip.unary(lambda x: f(x) if a[0].kind == 'i' else toreal(f(x)), a[0])
    return f(a[0])


def reduce_items(ip, v):
    s = ip.as_seq(v)
    if isinstance(s, list):
        return s
    return None


@model('builtins.max')
def b_max(ip, a, k):
    return minmax(ip, a, k, True)


@model('builtins.min')
def b_min(ip, a, k):
    return minmax(ip, a, k, False)


def minmax(ip, a, k, big):
    if k:
        raise Unsupported('max with key')
    if len(a) > 1:
        items = a
    else:
        items = reduce_items(ip, a[0])
        if items is None:
            return arr_ext(ip, arr(ip, a[0]), big)
    if not items:
        raise PyRaise('ValueError', ('max of empty',))
    r = items[0]
    for x in items[1:]:
        if isinstance(x, Special) or isinstance(r, Special):
            if x is INF:
                r = x if big else r
            elif x is NINF:
                r = r if big else x
            elif r is INF:
                r = r if big else x
            elif r is NINF:
                r = x if big else r
            else:
                raise Unsupported('max with nan')
            continue
        r = ite(cmp('>' if big else '<', x, r), x, r)
    return r


def arr_ext(ip, v, big, node=None):
    """max/min of all elements of an array"""
    dims = [norm(d) for d in v.shape]
    g = v.snapshot()
    if all(conc(d) for d in dims):
        tot = 1
        for d in dims:
            tot *= d
        if tot == 0:
            raise PyRaise('ValueError', ('zero-size array',))
        if tot <= 64:
            import itertools
            r = None
            for i in itertools.product(*[range(d) for d in dims]):
                x = g(i)
                r = x if r is None else ite(cmp('>' if big else '<', x, r), x, r)
            return r
    ctx = ip.ctx
    ip.defined('non-empty array', cmp('>', v.size, 0), ip.node_stack[-1] if ip.node_stack else None, 'ValueError')
    key = ext_key(ip, v, g, dims, big)
    tab = path_tab(ip, 'ext_tab')
    if key in tab:
        r, keep, facts = tab[key]
        for f in facts:
            if not any(f is h for h in ctx.facts):
                ctx.assume(f)
        return r
    n = len(dims)
    wit = [ctx.int('arg') for _ in dims]
    r = ctx.int('ext') if v.kind in 'ib' else ctx.real('ext')
    vs = qvar(n)
    vs = vs if isinstance(vs, list) else [vs]
    facts = [And(in_shape(wit, dims), eq(g(tuple(wit)), r)),
             forall(vs, Implies(in_shape(vs, dims), cmp('>=' if big else '<=', r, g(tuple(vs)))))]
    for f in facts:
        ctx.assume(f)
    tab[key] = (r, keepers(g, dims), facts)
    return r


def path_tab(ip, name):
    tabs = ip.ctx.__dict__.setdefault('path_tabs', {})
    tag = (ip.ctx.paths, id(ip.ctx.solver))
    if ip.ctx.__dict__.get('path_tabs_tag') != tag:
        ip.ctx.path_tabs = tabs = {}
        ip.ctx.path_tabs_tag = tag
    return tabs.setdefault(name, {})


QK = [z3.Const('key!q%d' % i, IS) for i in range(4)]


def keepers(g, dims):
    e = g(tuple(QK[:len(dims)]))
    return (e, dims)


def ext_key(ip, v, g, dims, tag):
    e = g(tuple(QK[:len(dims)]))
    if isinstance(e, Cx):
        e = (z(e.re).get_id(), z(e.im).get_id())
    else:
        e = z(e).get_id()
    return (e, tuple(z(d).get_id() for d in dims), tag)


@model('builtins.sum', 'numpy.sum', 'ndarray.sum', 'numpy.nansum')
def b_sum(ip, a, k):
    axis = k.get('axis', a[1] if len(a) > 1 and not isinstance(a[1], SArr) else None)
    v = a[0]
    if not isinstance(v, SArr):
        items = reduce_items(ip, v)
        if items is not None:
            r = 0
            for x in items:
                r = ip.binop('Add', r, x)
            return r
        v = arr(ip, v)
    if axis is None:
        return arr_sum(ip, v)
    if axis < 0:
        axis += len(v.shape)
    return along(ip, v, axis, lambda w: arr_sum(ip, w), 'i' if v.kind in 'ib' else v.kind, 'sum')


def arr_sum(ip, v):
    dims = [norm(d) for d in v.shape]
    g = v.snapshot()
    if all(conc(d) for d in dims):
        import itertools
        tot = 1
        for d in dims:
            tot *= d
        if tot <= 64:
            r = 0 if v.kind in 'ib' else Fraction(0)
            for i in itertools.product(*[range(d) for d in dims]):
                x = g(i)
                r = add(r, x) if not isinstance(x, Cx) and not isinstance(r, Cx) else Cx.of(r).add(x)
            return r
    if len(dims) != 1:
        raise Unsupported('sum of a multi-dimensional array')
    p = prefix_sum(ip, lambda i: g((i,)), dims[0], v.kind)
    return p(z(dims[0]))


def has_const(e, c, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return e.eq(c) or any(has_const(x, c, seen) for x in e.children())


def prefix_sum(ip, at, n, kind):
    """ghost function P with P(0)=0, P(k+1)=P(k)+a(k)"""
    ctx = ip.ctx
    e = at(QK[0])
    if kind not in 'ib' and isz(e) and e.decl().kind() == z3.Z3_OP_MUL:
        # a factor common to all terms is taken out of the sum
        out = [a for a in e.children() if not has_const(a, QK[0])]
        if out and len(out) < e.num_args():
            rest = [a for a in e.children() if has_const(a, QK[0])]
            body = rest[0] if len(rest) == 1 else z3.Product(rest)
            p = prefix_sum(ip, lambda i: z3.substitute(body, (QK[0], z(i))), n, kind)
            ctx.assumed['a common factor is taken out of a sum (lemma by induction)'] = 1
            return lambda k: z3.Product(out + [p(k)])
    key = (z(num(e)).get_id(), kind in 'ib')
    tab = path_tab(ip, 'prefix')
    if key in tab:
        p, keep, facts = tab[key]
        for f in facts:
            if not any(f is h for h in ctx.facts):
                ctx.assume(f)
        return p
    ints = kind in 'ib'
    p = ctx.func('prefix', IS, IS if ints else RS)
    q = qvar(1)
    x = num(at(q)) if ints else toreal(at(q))
    facts = [p(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, p(q + 1) == p(q) + z(x)), patterns=[p(q + 1)] if False else [p(q)])]
    # prefix sums of non-negative terms do not decrease
    from . import solver as sv
    b = z3.FreshConst(IS, 'b')
    xb = num(at(b)) if ints else toreal(at(b))
    if sv.discharge(ctx.facts + [z(And(0 <= b, lt(b, n)))], z(le(0, xb)), 2.0)[0] == 'proved':
        c = qvar(1)
        facts.append(z3.ForAll([q, c], z3.Implies(z(And(0 <= q, q <= c, le(c, n))), p(q) <= p(c)), patterns=[z3.MultiPattern(p(q), p(c))]))
        ctx.assumed['prefix sums of non-negative terms do not decrease (lemma by induction)'] = 1
    for f in facts:
        ctx.assume(f)
    tab[key] = (p, e, facts)
    return p


def along(ip, v, axis, f, kind, name):
    """reduction along one axis as a function of the other indices"""
    shp = tuple(d for k, d in enumerate(v.shape) if k != axis)
    n = v.shape[axis]
    g = v.snapshot()
    if conc(norm(n)) and norm(n) <= 16:
        def fn(idx):
            row = SArr((n,), lambda j: g(tuple(idx[:axis]) + (j[0],) + tuple(idx[axis:])), v.kind)
            return f(row)
        return SArr(shp, fn, kind)
    if name == 'sum':
        ints = v.kind in 'ib'
        e = g(tuple(QK[:len(v.shape)]))
        key = (z(num(e)).get_id(), axis, ints, 'along') if len(v.shape) <= len(QK) else None
        tab = path_tab(ip, 'prefix')
        if key in tab:
            P = tab[key][0]
            r = SArr(shp, lambda i: P(*[z(y) for y in i] + [z(n)]), kind)
            r.sums = P
            return r
        P = ip.ctx.func('prefix', *([IS] * (len(shp) + 1) + [IS if ints else RS]))
        vs = [qvar(1) for _ in shp]
        q = qvar(1)
        x = g(tuple(vs[:axis]) + (q,) + tuple(vs[axis:]))
        x = num(x) if ints else toreal(x)
        ip.ctx.assume(z3.ForAll(vs, P(*(vs + [z3.IntVal(0)])) == 0) if vs else P(0) == 0)
        ip.ctx.assume(z3.ForAll(vs + [q], z3.Implies(q >= 0, P(*(vs + [q + 1])) == P(*(vs + [q])) + z(x))))
        # prefix sums of non-negative terms do not decrease
        from . import solver as sv
        bs = [z3.FreshConst(IS, 'b') for _ in range(len(shp) + 1)]
        inside = lambda ks: And(*[And(0 <= k, lt(k, d)) for k, d in zip(ks, shp)])
        t = g(tuple(bs[:axis]) + (bs[-1],) + tuple(bs[axis:-1]))
        if sv.discharge(ip.ctx.facts + [z(And(inside(bs), 0 <= bs[-1], lt(bs[-1], n)))], z(le(0, num(t) if ints else toreal(t))), 2.0)[0] == 'proved':
            e = qvar(1)
            ip.ctx.assume(z3.ForAll(vs + [q, e], z(Implies(And(inside(vs), 0 <= q, q <= e, le(e, n)), P(*(vs + [q])) <= P(*(vs + [e])))),
                                    patterns=[z3.MultiPattern(P(*(vs + [q])), P(*(vs + [e])))]))
            ip.ctx.assumed['prefix sums of non-negative terms do not decrease (lemma by induction)'] = 1
        r = SArr(shp, lambda i: P(*[z(y) for y in i] + [z(n)]), kind)
        r.sums = P
        if key:
            tab[key] = (P, e)
        return r
    if name in ('max', 'min'):
        big = name == 'max'
        W = ip.ctx.func('argext', *([IS] * len(shp) + [IS]))
        vs = [qvar(1) for _ in shp]
        q = qvar(1)
        ip.defined('non-empty axis', cmp('>', n, 0), None, 'ValueError')
        mk = lambda j: g(tuple(vs[:axis]) + (j,) + tuple(vs[axis:]))
        w = W(*vs)
        ip.ctx.assume(z3.ForAll(vs, z(And(0 <= w, lt(w, n)))))
        ip.ctx.assume(forall(vs + [q], Implies(And(0 <= q, lt(q, n)), cmp('>=' if big else '<=', mk(w), mk(q)))))

        def fn(idx):
            idx = [z(y) for y in idx]
            w = W(*idx)
            return g(tuple(idx[:axis]) + (w,) + tuple(idx[axis:]))
        return SArr(shp, fn, kind)
    raise Unsupported('%s along axis' % name)


@model('builtins.isinstance')
def b_isinstance(ip, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinst(ip, v, x) for x in ts)


def isinst(ip, v, t):
    if isinstance(t, ExtRef):
        n = t.name.replace('builtins.', '')
        if n == 'str':
            return isinstance(v, (str, SymStr))
        if n in ('list',):
            return isinstance(v, PList)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'dict':
            return isinstance(v, PDict)
        if n in ('int',):
            return is_int(v) or is_bool(v)
        if n in ('float', 'numpy.float64', 'numpy.float32'):
            return is_real(v)
        if n == 'bool':
            return is_bool(v)
        if n in ('numpy.ndarray',):
            return isinstance(v, SArr)
        if n in ('numbers.Number', 'numbers.Real'):
            return is_num(v)
        if n in ('collections.Iterable', 'collections.abc.Iterable', 'typing.Iterable'):
            return isinstance(v, (str, PList, tuple, PDict, SArr))
        if isinstance(v, SObj) and isinstance(v.cls, str):
            return v.cls == n
        if is_num(v) or isinstance(v, (str, PList, tuple, SArr)) or v is None:
            return False
    if isinstance(t, ClassRef):
        if isinstance(v, SObj) and isinstance(v.cls, ClassRef):
            return t in ip.mro(v.cls)
        return False
    raise Unsupported('isinstance')


@model('builtins.hasattr')
def b_hasattr(ip, a, k):
    try:
        ip.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise


@model('builtins.getattr')
def b_getattr(ip, a, k):
    try:
        return ip.getattr(a[0], a[1])
    except PyRaise as e:
        if e.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


@model('builtins.setattr')
def b_setattr(ip, a, k):
    ip.setattr(a[0], a[1], a[2])


@model('builtins.print')
def b_print(ip, a, k):
    return None


@model('builtins.enumerate')
def b_enum(ip, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        return PList([(add(start, i), x) for i, x in enumerate(s)])
    return Iter(s.length(), lambda i: (add(start, i), seq_at(ip, s, i)))


def seq_at(ip, s, i):
    if isinstance(s, PList) and s.gen is not None:
        return s.gen(ip, i)
    return s.at(i)


@model('builtins.zip')
def b_zip(ip, a, k):
    ss = [ip.as_seq(x) for x in a]
    if all(isinstance(s, list) for s in ss):
        return PList([tuple(t) for t in zip(*ss)])
    ss = [PList(s) if isinstance(s, list) else s for s in ss]
    n = ss[0].length()
    for s in ss[1:]:
        m = s.length()
        if not same_dim(n, m):
            n = minv(n, m)
    return Iter(n, lambda i: tuple(seq_at(ip, s, i) for s in ss))


@model('builtins.list')
def b_list(ip, a, k):
    if not a:
        return PList([])
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        return PList(list(s))
    return PList(n=s.length(), fn=lambda i: s.at(i), gen=getattr(s, 'gen', None))


@model('builtins.tuple')
def b_tuple(ip, a, k):
    if not a:
        return ()
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        return tuple(s)
    return PList(n=s.length(), fn=lambda i: s.at(i))


@model('builtins.dict')
def b_dict(ip, a, k):
    d = {}
    if a:
        if isinstance(a[0], PDict):
            d.update(a[0].d)
        else:
            for kv in ip.as_seq(a[0]):
                kk, v = ip.unpack(kv, 2)
                d[kk] = v
    d.update(k)
    return PDict(d)


@model('builtins.set')
def b_set(ip, a, k):
    if not a:
        return PSet([])
    s = ip.as_seq(a[0])
    if not isinstance(s, list):
        raise Unsupported('set of symbolic sequence')
    out = []
    for x in s:
        if not any(x == y for y in out if not isz(x)):
            out.append(x)
    return PSet(out)


@model('builtins.sorted')
def b_sorted(ip, a, k):
    s = ip.as_seq(a[0])
    if isinstance(s, list) and not k and all(conc(x) for x in s):
        return PList(sorted(s))
    if isinstance(s, list) and not k and all(isinstance(x, str) for x in s):
        return PList(sorted(s))
    if not k:
        v = REG['numpy.sort'](ip, [arr(ip, a[0])], {})
        g = v.snapshot()
        return PList(n=v.shape[0], fn=lambda i: g((i,)))
    raise Unsupported('sorted')


@model('builtins.map')
def b_map(ip, a, k):
    s = ip.as_seq(a[1])
    if isinstance(s, list):
        return PList([ip.call(a[0], [x]) for x in s])
    from .maploop import map_apply
    return map_apply(ip, lambda x: ip.call(a[0], [x]), s)


@model('builtins.filter')
def b_filter(ip, a, k):
    s = ip.as_seq(a[1])
    if isinstance(s, list):
        return PList([x for x in s if ip.truth(ip.call(a[0], [x]))])
    from .maploop import filter_seq
    return filter_seq(ip, lambda x: ip.call(a[0], [x]) if a[0] is not None else x, s)


@model('builtins.any')
def b_any(ip, a, k):
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        cs = [x if is_bool(x) else ip.truth(x) for x in s]
        return Or(*cs)
    q = qvar(1)
    return exists(q, And(0 <= q, lt(q, s.length()), truthz(s.at(q))))


@model('builtins.all')
def b_all(ip, a, k):
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        return And(*[x if is_bool(x) else ip.truth(x) for x in s])
    q = qvar(1)
    return forall(q, Implies(And(0 <= q, lt(q, s.length())), truthz(s.at(q))))


def truthz(v):
    return v if is_bool(v) else cmp('!=', v, 0)


@model('builtins.slice')
def b_slice(ip, a, k):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@model('builtins.reversed')
def b_reversed(ip, a, k):
    s = ip.as_seq(a[0])
    if isinstance(s, list):
        return PList(s[::-1])
    n = s.length()
    return Iter(n, lambda i: s.at(sub(sub(n, 1), i)))


@model('builtins.next')
def b_next(ip, a, k):
    s = a[0]
    if not isinstance(s, PList) or s.inv is not None or s.gen is not None:
        raise Unsupported('next() of %r' % (s,))
    n = s.length()
    if isz(n):
        more = ip.ctx.branch(lt(0, n))
    else:
        more = n > 0
    if not more:
        if len(a) > 1:
            return a[1]
        raise PyRaise('StopIteration', ())
    if s.items is not None:
        return s.items.pop(0)
    first, fn = s.at(0), s.fn
    s.n, s.fn = sub(n, 1), lambda i: fn(add(i, 1))
    return first


@model('builtins.divmod')
def b_divmod(ip, a, k):
    return (ip.binop('FloorDiv', a[0], a[1]), ip.binop('Mod', a[0], a[1]))


@model('builtins.pow', 'numpy.power', 'math.pow')
def b_pow(ip, a, k):
    return ip.binop('Pow', a[0], a[1])


@model('builtins.callable')
def b_callable(ip, a, k):
    return isinstance(a[0], (FuncRef, Bound, Native, ExtRef, ClassRef))


@model('builtins.type')
def b_type(ip, a, k):
    v = a[0]
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, str):
        return ExtRef('builtins.str')
    if isinstance(v, PList):
        return ExtRef('builtins.list')
    if isinstance(v, PDict):
        return ExtRef('builtins.dict')
    if isinstance(v, SArr):
        return ExtRef('numpy.ndarray')
    if isinstance(v, tuple):
        return ExtRef('builtins.tuple')
    if is_bool(v):
        return ExtRef('builtins.bool')
    if is_int(v):
        return ExtRef('builtins.int')
    if is_real(v):
        return ExtRef('builtins.float')
    if v is None:
        return ExtRef('builtins.NoneType')
    raise Unsupported('type()')


@model('builtins.complex')
def b_complex(ip, a, k):
    return Cx(toreal(a[0]), toreal(a[1]) if len(a) > 1 else Fraction(0))


# ---------------------------------------------------------------- lists, dicts, strings

@model('list.append')
def l_append(ip, a, k):
    l, x = a
    if l.inv is not None:
        if l.items is None:
            l.inv(ip, x, l.n)
            l.n = add(l.n, 1)
            return None
        l.inv(ip, x, len(l.items))
    if l.items is not None:
        l.items.append(x)
        return None
    n, g = l.n, l.fn
    l.n = add(n, 1)
    l.fn = lambda i: ite(eq(i, n), x, g(i))
    return None


@model('list.extend')
def l_extend(ip, a, k):
    l, o = a
    s = ip.as_seq(o)
    if isinstance(s, list) and l.items is not None:
        for x in s:
            if l.inv is not None:
                l.inv(ip, x, len(l.items))
            l.items.append(x)
        return None
    if isinstance(s, list):
        for x in s:
            l_append(ip, [l, x], {})
        return None
    if l.inv is not None or l.gen is not None:
        if s is getattr(l, 'same', None) or (isinstance(s, PList) and s.inv is l.inv):
            l.n = add(l.length(), s.length())
            l.items = None
            return None
        raise Unsupported('extend under a data invariant')
    n, g = l.length(), l.getter() if (l.items is None or l.items) else (lambda i: None)
    g2 = s.at
    e = l.items is not None and not l.items
    l.items = None
    l.n = add(n, s.length())
    l.fn = (lambda i: g2(i)) if e else (lambda i: ite(lt(i, n), g(i), g2(sub(i, n))))
    return None


@model('list.insert')
def l_insert(ip, a, k):
    l, i, x = a
    if l.items is not None and conc(i):
        l.items.insert(i, x)
        return None
    if conc(i) and i == 0:
        g, n = l.getter(), l.length()
        l.items = None
        l.n = add(n, 1)
        l.fn = lambda j: ite(eq(j, 0), x, g(sub(j, 1)))
        return None
    raise Unsupported('insert')


@model('list.pop')
def l_pop(ip, a, k):
    l = a[0]
    i = a[1] if len(a) > 1 else -1
    n = l.length()
    if l.items is not None and conc(i):
        if not -len(l.items) <= i < len(l.items):
            raise PyRaise('IndexError', ())
        return l.items.pop(i)
    j = ip.norm_index(i, n, None)
    if l.gen is not None:
        v = l.gen(ip, j)
        l.n = sub(n, 1)
        return v
    g = l.getter()
    v = g(j)
    l.items, l.n = None, sub(n, 1)
    l.fn = lambda m: ite(lt(m, j), g(m), g(add(m, 1)))
    return v


@model('list.copy')
def l_copy(ip, a, k):
    return b_list(ip, a, k)


@model('tuple.index')
def tuple_index(ip, a, k):
    return ip.reg['list.index'](ip, [PList(list(a[0]))] + list(a[1:]), k)


@model('list.index')
def l_index(ip, a, k):
    l, x = a[0], a[1]
    if l.items is not None:
        for i, y in enumerate(l.items):
            if ip.truth(ip.equal(x, y)):
                return i
        raise PyRaise('ValueError', ())
    raise Unsupported('list.index')


@model('list.sort')
def l_sort(ip, a, k):
    r = b_sorted(ip, a, k)
    a[0].items, a[0].n, a[0].fn = r.items, r.n, r.fn


@model('list.count')
def l_count(ip, a, k):
    l, x = a
    if l.items is not None:
        r = 0
        for y in l.items:
            r = add(r, ite(ip.equal(x, y), 1, 0))
        return r
    raise Unsupported('count')


@model('list.reverse')
def l_reverse(ip, a, k):
    if a[0].items is None:
        raise Unsupported('reverse')
    a[0].items.reverse()


@model('list.remove')
def l_remove(ip, a, k):
    l, x = a
    if l.items is None:
        raise Unsupported('remove')
    for i, y in enumerate(l.items):
        if ip.truth(ip.equal(x, y)):
            del l.items[i]
            return None
    raise PyRaise('ValueError', ())


@model('dict.keys')
def d_keys(ip, a, k):
    return PList(list(a[0].d.keys()))


@model('dict.values')
def d_values(ip, a, k):
    return PList(list(a[0].d.values()))


@model('dict.items')
def d_items(ip, a, k):
    return PList([(x, y) for x, y in a[0].d.items()])


@model('dict.get')
def d_get(ip, a, k):
    if isz(a[1]) or isinstance(a[1], SymStr):
        raise Unsupported('symbolic dict key')
    return a[0].d.get(a[1], a[2] if len(a) > 2 else None)


@model('dict.pop')
def d_pop(ip, a, k):
    if a[1] in a[0].d:
        return a[0].d.pop(a[1])
    if len(a) > 2:
        return a[2]
    raise PyRaise('KeyError', ())


@model('dict.update')
def d_update(ip, a, k):
    a[0].d.update(b_dict(ip, a[1:], k).d)


@model('dict.copy')
def d_copy(ip, a, k):
    return PDict(dict(a[0].d))


@model('dict.setdefault')
def d_setdefault(ip, a, k):
    return a[0].d.setdefault(a[1], a[2] if len(a) > 2 else None)


@model('set.add')
def s_add(ip, a, k):
    if not any(x is a[1] or (not isz(x) and not isz(a[1]) and x == a[1]) for x in a[0].items):
        a[0].items.append(a[1])


def conc_str(name):
    def f(ip, a, k):
        if isinstance(a[0], str) and all(isinstance(x, (str, int)) for x in a[1:]) and not k:
            try:
                r = getattr(a[0], name)(*a[1:])
            except (ValueError, TypeError) as e:
                raise PyRaise(type(e).__name__, ())
            return PList(r) if isinstance(r, list) else r
        if name == 'format' and isinstance(a[0], str):
            return str_dot_format(ip, a[0], a[1:], k)
        if name == 'join' and isinstance(a[1], PList) and a[1].items is not None and isinstance(a[0], str):
            if all(isinstance(x, str) for x in a[1].items):
                return a[0].join(a[1].items)
            parts = []
            for i, x in enumerate(a[1].items):
                if i:
                    parts.append(a[0])
                parts.extend(x.parts if isinstance(x, SymStr) else [x])
            return mkstr(parts)
        if name in ('startswith', 'endswith') and isinstance(a[0], str) and isinstance(a[1], tuple):
            return getattr(a[0], name)(a[1])
        raise Unsupported('str.%s' % name)
    return f


def str_dot_format(ip, s, args, k):
    import re
    parts = []
    pos = 0
    auto = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(?:!(\w))?(?::([^{}]*))?\}', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(m.group(0)[0])
            continue
        key = m.group(1)
        if key == '':
            x = args[auto]
            auto += 1
        elif key.isdigit():
            x = args[int(key)]
        elif key in k:
            x = k[key]
        else:
            raise Unsupported('format field %s' % key)
        spec = m.group(3) or ''
        if isinstance(x, (str, int)) and not isinstance(x, bool):
            parts.append(format(x, spec))
        elif isinstance(x, SymStr) and not spec:
            parts.extend(x.parts)
        else:
            parts.append(('fmt', '{:%s}' % spec, x))
    parts.append(s[pos:])
    return mkstr(parts)


for _n in ('format', 'join', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'rstrip',
           'lstrip', 'zfill', 'isdigit', 'find', 'capitalize', 'title', 'splitlines', 'count', 'index', 'ljust', 'rjust',
           'rsplit', 'isspace'):
    REG['str.' + _n] = conc_str(_n)


# ---------------------------------------------------------------- math / elementwise numpy

def elementwise(name, fn, kind=None):
    def f(ip, a, k):
        v = a[0]
        if isinstance(v, (PList, tuple)):
            v = arr(ip, v)
        if isinstance(v, SArr):
            return ip.unary(fn, v, kind)
        return fn(v)
    return f


for _n, _m in (('exp', 'exp'), ('log', 'log'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
               ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan'), ('asin', 'asin'), ('acos', 'acos'),
               ('atan', 'atan'), ('cosh', 'cosh'), ('sinh', 'sinh')):
    for _p in ('math.', 'numpy.'):
        REG[_p + _n] = elementwise(_n, (lambda m: lambda x: cx_fun(m, x))(_m), 'r')


def cx_fun(m, x):
    if isinstance(x, Cx):
        if m == 'exp':
            e = mfun('exp', x.re) if not (conc(x.re) and x.re == 0) else Fraction(1)
            return Cx(mul(e, mfun('cos', x.im)), mul(e, mfun('sin', x.im)))
        raise Unsupported('complex %s' % m)
    return mfun(m, x)


@model('numpy.exp', 'math.exp')
def n_exp(ip, a, k):
    v = a[0]
    if isinstance(v, SArr):
        return ip.unary(lambda x: cx_fun('exp', x), v, 'c' if v.kind == 'c' else 'r')
    return cx_fun('exp', v)


def _sqrt(x):
    return mfun('sqrt', x)


@model('scipy.special.gamma', 'math.gamma')
def n_gamma(ip, a, k):
    f = lambda x: mfun('gamma', x)
    return ip.unary(f, a[0], 'r') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.sqrt', 'math.sqrt', 'scipy.sqrt')
def n_sqrt(ip, a, k):
    v = a[0]
    if isinstance(v, PList):
        v = arr(ip, v)
    if isinstance(v, SArr):
        return ip.unary(_sqrt, v, 'r')
    if ip.opts.get('check_sqrt', True) and isz(v):
        ip.defined('non-negative argument of sqrt', cmp('>=', v, 0), ip.node_stack[-1] if ip.node_stack else None, 'ValueError')
    elif conc(v) and v < 0:
        raise PyRaise('ValueError', ('math domain error',))
    return _sqrt(v)


@model('numpy.radians', 'math.radians', 'numpy.deg2rad')
def n_rad(ip, a, k):
    f = lambda x: mul(toreal(x), PI / 180)
    v = a[0]
    return ip.unary(f, v, 'r') if isinstance(v, SArr) else f(v)


@model('numpy.degrees', 'math.degrees', 'numpy.rad2deg')
def n_deg(ip, a, k):
    f = lambda x: truediv(mul(toreal(x), 180), PI)
    v = a[0]
    return ip.unary(f, v, 'r') if isinstance(v, SArr) else f(v)


@model('math.floor')
def m_floor(ip, a, k):
    return floor(a[0])


@model('math.ceil')
def m_ceil(ip, a, k):
    return ceil(a[0])


@model('numpy.floor')
def n_floor(ip, a, k):
    f = lambda x: toreal(floor(x))
    return ip.unary(f, a[0], 'r') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.ceil')
def n_ceil(ip, a, k):
    f = lambda x: toreal(ceil(x))
    return ip.unary(f, a[0], 'r') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.trunc', 'numpy.fix')
def n_trunc(ip, a, k):
    f = lambda x: toreal(trunc(x))
    return ip.unary(f, a[0], 'r') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.sign')
def n_sign(ip, a, k):
    if isinstance(a[0], SArr):
        return ip.unary(sign, a[0])
    v = num(a[0])
    if isz(v):
        for s, c in ((1, v > 0), (-1, v < 0)):
            if ip.ctx.must(c):
                return s if is_int(v) else Fraction(s)
    return sign(v)


@model('numpy.arctan2', 'math.atan2')
def n_atan2(ip, a, k):
    f = lambda y, x: ATAN2(z(toreal(y)), z(toreal(x)))
    return broadcast(ip, f, a[0], a[1], None, 'r')


@model('numpy.hypot')
def n_hypot(ip, a, k):
    f = lambda y, x: mfun('sqrt', add(mul(toreal(y), y), mul(toreal(x), x)))
    return broadcast(ip, f, a[0], a[1], None, 'r')


@model('numpy.angle')
def n_angle(ip, a, k):
    f = lambda v: ATAN2(z(toreal(Cx.of(v).im)), z(toreal(Cx.of(v).re)))
    return ip.unary(f, a[0], 'r') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.mod', 'numpy.remainder')
def n_mod(ip, a, k):
    return ip.binop('Mod', a[0], a[1])


def npbin(op):
    return lambda ip, a, k: ip.binop(op, _a(ip, a[0]), _a(ip, a[1]))


def _a(ip, v):
    return arr(ip, v) if isinstance(v, (PList, tuple)) else v


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('floor_divide', 'FloorDiv')):
    REG['numpy.' + _n] = npbin(_o)


@model('numpy.square')
def n_square(ip, a, k):
    return ip.binop('Mult', a[0], a[0])


@model('numpy.negative')
def n_neg(ip, a, k):
    return ip.unary(neg, a[0])


@model('numpy.maximum', 'numpy.fmax')
def n_maximum(ip, a, k):
    return broadcast(ip, lambda x, y: ite(cmp('>=', x, y), x, y), _a(ip, a[0]), _a(ip, a[1]))


@model('numpy.minimum', 'numpy.fmin')
def n_minimum(ip, a, k):
    return broadcast(ip, lambda x, y: ite(cmp('<=', x, y), x, y), _a(ip, a[0]), _a(ip, a[1]))


@model('numpy.clip', 'ndarray.clip')
def n_clip(ip, a, k):
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
    r = _a(ip, a[0])
    if lo is not None:
        r = n_maximum(ip, [r, lo], {})
    if hi is not None:
        r = n_minimum(ip, [r, hi], {})
    return r


@model('numpy.logical_and')
def n_land(ip, a, k):
    return broadcast(ip, lambda x, y: And(truthz(x), truthz(y)), _a(ip, a[0]), _a(ip, a[1]), None, 'b')


@model('numpy.logical_or')
def n_lor(ip, a, k):
    return broadcast(ip, lambda x, y: Or(truthz(x), truthz(y)), _a(ip, a[0]), _a(ip, a[1]), None, 'b')


@model('numpy.logical_not')
def n_lnot(ip, a, k):
    f = lambda x: Not(truthz(x))
    return ip.unary(f, a[0], 'b') if isinstance(a[0], SArr) else f(a[0])


@model('numpy.isfinite')
def n_isfinite(ip, a, k):
    v = a[0]
    if isinstance(v, SArr):
        return SArr(v.shape, lambda i: True, 'b')
    return not isinstance(v, Special)


@model('numpy.isnan', 'math.isnan', 'numpy.isinf')
def n_isnan(ip, a, k):
    v = a[0]
    if isinstance(v, SArr):
        return SArr(v.shape, lambda i: False, 'b')
    return isinstance(v, Special)


for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'),
               ('greater_equal', 'GtE')):
    REG['numpy.' + _n] = (lambda o: lambda ip, a, k: ip.compare(o, _a(ip, a[0]), _a(ip, a[1])))(_o)


# ---------------------------------------------------------------- array construction

def dtype_kind(d, default='r'):
    if d is None:
        return default
    if isinstance(d, ExtRef):
        n = d.name.split('.')[-1]
        if n.startswith('int') or n.startswith('uint') or n in ('long',):
            return 'i'
        if n.startswith('float') or n in ('double',):
            return 'r'
        if n.startswith('bool'):
            return 'b'
        if n.startswith('complex'):
            return 'c'
        if n in ('object', 'object_'):
            return 'o'
    if isinstance(d, str):
        c = d.lstrip('<>=|')[:1]
        if d.lower() in ('int', 'i', 'int32', 'int64', 'l') or c in 'iul':
            return 'i'
        if c == 'b':
            return 'b'
        if c in 'fd':
            return 'r'
        if c in 'O':
            return 'o'
    if isinstance(d, Opaque) and d.name == 'dtype':
        return d.kind
    raise Unsupported('dtype %r' % (d,))


def shape_of(ip, s):
    if isinstance(s, tuple):
        return tuple(int_dim(ip, x) for x in s)
    if isinstance(s, PList) and s.items is not None:
        return tuple(int_dim(ip, x) for x in s.items)
    return (int_dim(ip, s),)


def int_dim(ip, x):
    x = norm(x)
    if not is_int(num(x)):
        raise PyRaise('TypeError', ('shape must be integers',))
    x = num(x)
    if isz(x) and not ip.ctx.must(x >= 0):
        ip.defined('non-negative dimension', x >= 0, ip.node_stack[-1] if ip.node_stack else None, 'ValueError')
    return x


def zero(kind):
    return {'i': 0, 'r': Fraction(0), 'b': False, 'c': Cx(Fraction(0), Fraction(0))}.get(kind)


def one(kind):
    return {'i': 1, 'r': Fraction(1), 'b': True, 'c': Cx(Fraction(1), Fraction(0))}.get(kind)


@model('numpy.zeros')
def n_zeros(ip, a, k):
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'))
    v = zero(kd)
    return SArr(shape_of(ip, a[0] if a else k['shape']), lambda i: v, kd)


@model('numpy.ones')
def n_ones(ip, a, k):
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'))
    v = one(kd)
    return SArr(shape_of(ip, a[0] if a else k['shape']), lambda i: v, kd)


@model('numpy.empty')
def n_empty(ip, a, k):
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'))
    shp = shape_of(ip, a[0] if a else k['shape'])
    if kd == 'o':
        return SArr(shp, lambda i: None, 'o')
    return ip.fresh_array(shp, kd, 'empty')


@model('numpy.full')
def n_full(ip, a, k):
    v = a[1] if len(a) > 1 else k['fill_value']
    d = a[2] if len(a) > 2 else k.get('dtype')
    kd = dtype_kind(d, kind_of(v))
    if isinstance(v, Special):
        raise Unsupported('array of nan')
    v = conv(v, kd)
    return SArr(shape_of(ip, a[0]), lambda i: v, kd)


@model('numpy.zeros_like')
def n_zeros_like(ip, a, k):
    x = arr(ip, a[0])
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'), x.kind)
    v = zero(kd)
    return SArr(x.shape, lambda i: v, kd)


@model('numpy.ones_like')
def n_ones_like(ip, a, k):
    x = arr(ip, a[0])
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'), x.kind)
    v = one(kd)
    return SArr(x.shape, lambda i: v, kd)


@model('numpy.empty_like')
def n_empty_like(ip, a, k):
    x = arr(ip, a[0])
    return ip.fresh_array(x.shape, dtype_kind(k.get('dtype'), x.kind), 'empty')


@model('numpy.full_like')
def n_full_like(ip, a, k):
    x = arr(ip, a[0])
    v = conv(a[1], x.kind)
    return SArr(x.shape, lambda i: v, x.kind)


@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def n_array(ip, a, k):
    v = a[0]
    d = a[1] if len(a) > 1 else k.get('dtype')
    if isinstance(d, PList):
        return record_array(ip, v, d)
    if isinstance(v, SArr):
        kd = dtype_kind(d, v.kind)
        g = v.snapshot()
        if kd == v.kind:
            r = SArr(v.shape, g, kd)
        else:
            r = SArr(v.shape, lambda i: conv(g(i), kd), kd)
        r.props = dict(v.props) if v.view is None else {}
        return r
    if isinstance(v, (PList, tuple)):
        items = list(v) if isinstance(v, tuple) else v.items
        if items is None:
            n, g = v.n, v.fn
            probe = g(QK[0])
            if isinstance(probe, SArr):
                kd = dtype_kind(d, probe.kind)
                return SArr((n,) + tuple(probe.shape), lambda i: conv(g(i[0]).at(*i[1:]), kd), kd)
            if isinstance(probe, (PList, tuple)):
                w = len(probe) if isinstance(probe, tuple) else probe.length()
                kd = dtype_kind(d, 'r')
                return SArr((n, w), lambda i: conv(PList(list(g(i[0])) if isinstance(g(i[0]), tuple) else g(i[0]).items).at(i[1]), kd), kd)
            if isinstance(probe, (SObj,)):
                return SArr((n,), lambda i: g(i[0]), 'o')
            kd = dtype_kind(d, kind_of(probe))
            return SArr((n,), lambda i: conv(g(i[0]), kd), kd)
        items = [arr(ip, x) if isinstance(x, (PList, tuple)) else x for x in items]
        if items and isinstance(items[0], SArr):
            kd = items[0].kind
            for x in items[1:]:
                if not isinstance(x, SArr):
                    raise Unsupported('ragged array')
                kd = join_kind(kd, x.kind)
            kd = dtype_kind(d, kd)
            for x in items[1:]:
                if len(x.shape) != len(items[0].shape):
                    raise Unsupported('ragged array')
                for m, n in zip(x.shape, items[0].shape):
                    if not same_dim(m, n):
                        ip.defined('rows have equal length', eq(m, n), None, 'ValueError')
            gs = [x.snapshot() for x in items]

            def fn(i):
                if conc(i[0]):
                    return conv(gs[i[0]](tuple(i[1:])), kd)
                r = conv(gs[-1](tuple(i[1:])), kd)
                for j in range(len(gs) - 2, -1, -1):
                    r = ite(eq(i[0], j), conv(gs[j](tuple(i[1:])), kd), r)
                return r
            return SArr((len(items),) + tuple(items[0].shape), fn, kd)
        if any(isinstance(x, Special) for x in items):
            raise Unsupported('nan in array')
        if all(isinstance(x, (str, SymStr)) for x in items) and items:
            return SArr((len(items),), lambda i: items[i[0]], 'o')
        kd = 'r' if not items else kind_of(items[0])
        for x in items[1:]:
            kd = join_kind(kd, kind_of(x))
        kd = dtype_kind(d, kd) if d is not None else kd
        l = PList([conv(x, kd) for x in items])
        return SArr((len(items),), lambda i: l.at(i[0]), kd)
    if is_num(v) or isinstance(v, Cx):
        kd = dtype_kind(d, kind_of(v))
        return SArr((), lambda i: conv(v, kd), kd)
    if isinstance(v, (Range, Iter)):
        return arr(ip, v)
    raise Unsupported('array of %s' % type(v).__name__)


def record_array(ip, v, d):
    raise Unsupported('record array')


@model('numpy.arange')
def n_arange(ip, a, k):
    kd = k.get('dtype')
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[0], a[1], a[2]
    lo, hi, st = norm(lo), norm(hi), norm(st)
    ints = is_int(lo) and is_int(hi) and is_int(st)
    if ints and conc(st):
        n = Range(lo, hi, st).length()
    else:
        # numpy: ceil((stop - start)/step), at least 0
        d = sub(hi, lo)
        if conc(st) and conc(d):
            n = maxv(ceil(truediv(d, st)), 0)
        else:
            if isz(d):
                d = z3.simplify(d)
            n = ip.ctx.int('arange')
            up = Or(And(n == 0, cmp('<=', d, 0)), And(n >= 1, cmp('<', mul(sub(n, 1), st), d), cmp('<=', d, mul(n, st))))
            dn = Or(And(n == 0, cmp('>=', d, 0)), And(n >= 1, cmp('>', mul(sub(n, 1), st), d), cmp('>=', d, mul(n, st))))
            ip.defined('nonzero step', cmp('!=', st, 0), ip.node_stack[-1] if ip.node_stack else None, 'ZeroDivisionError')
            ip.ctx.assume(n >= 0)
            if ip.ctx.must(cmp('>', st, 0)):
                ip.ctx.assume(up)
            elif ip.ctx.must(cmp('<', st, 0)):
                ip.ctx.assume(dn)
            else:
                ip.ctx.assume(Implies(cmp('>', st, 0), up), Implies(cmp('<', st, 0), dn))
    f = lambda i: add(lo, mul(st, i[0]))
    r = SArr((n,), f, 'i' if ints else 'r')
    if not ints:
        r = SArr((n,), lambda i: toreal(f(i)), 'r')
    if kd is not None and dtype_kind(kd) != r.kind:
        g = r.snapshot()
        kk = dtype_kind(kd)
        return SArr((n,), lambda i: conv(g(i), kk), kk)
    return r


@model('numpy.linspace')
def n_linspace(ip, a, k):
    lo, hi = a[0], a[1]
    n = a[2] if len(a) > 2 else k.get('num', 50)
    return SArr((n,), lambda i: ite(eq(i[0], 0), toreal(lo), add(lo, truediv(mul(sub(hi, lo), i[0]), sub(n, 1)))), 'r')


@model('numpy.meshgrid')
def n_meshgrid(ip, a, k):
    x, y = arr(ip, a[0]), arr(ip, a[1])
    gx, gy = x.snapshot(), y.snapshot()
    if k.get('indexing', 'xy') == 'ij':
        return PList([SArr((x.shape[0], y.shape[0]), lambda i: gx((i[0],)), x.kind),
                      SArr((x.shape[0], y.shape[0]), lambda i: gy((i[1],)), y.kind)])
    return PList([SArr((y.shape[0], x.shape[0]), lambda i: gx((i[1],)), x.kind),
                  SArr((y.shape[0], x.shape[0]), lambda i: gy((i[0],)), y.kind)])


@model('numpy.transpose', 'ndarray.transpose')
def n_transpose(ip, a, k):
    v = a[0]
    axes = a[1] if len(a) > 1 else k.get('axes')
    if len(a) > 2:
        axes = tuple(a[1:])
    if isinstance(axes, PList):
        axes = tuple(axes.items)
    if isinstance(v, PList) and v.concrete and len(v.items) > 1 and all(isinstance(x, SArr) and len(x.shape) == 1 for x in v.items):
        v = n_array(ip, [v], {})
    if not isinstance(v, SArr):
        return v
    n = len(v.shape)
    if axes is None:
        axes = tuple(range(n))[::-1]
    g = v.snapshot()
    inv = [axes.index(j) for j in range(n)]
    r = SArr(tuple(v.shape[j] for j in axes), lambda i: g(tuple(i[inv[j]] for j in range(n))), v.kind)
    return r


@model('numpy.copy', 'ndarray.copy', 'copy.copy', 'copy.deepcopy')
def n_copy(ip, a, k):
    v = a[0]
    if isinstance(v, SArr):
        r = SArr(v.shape, v.snapshot(), v.kind)
        if v.fields:
            r.fields = {n: n_copy(ip, [f], {}) for n, f in v.fields.items()}
        return r
    if isinstance(v, PList) and v.items is None:
        return PList(n=v.n, fn=v.fn, gen=v.gen, inv=v.inv)
    if isinstance(v, PDict):
        return PDict({x: n_copy(ip, [y], k) if isinstance(y, (SArr, PList, PDict)) else y for x, y in v.d.items()})
    return clone(v, {})


@model('ndarray.astype')
def nd_astype(ip, a, k):
    v = a[0]
    kd = dtype_kind(a[1] if len(a) > 1 else k.get('dtype'))
    g = v.snapshot()
    return SArr(v.shape, (lambda i: conv(g(i), kd)) if kd != v.kind else g, kd)


@model('ndarray.tolist')
def nd_tolist(ip, a, k):
    v = a[0]
    g = v.snapshot()
    n = norm(v.shape[0])
    if conc(n):
        return PList([g((i,)) for i in range(n)])
    return PList(n=n, fn=lambda i: g((i,)))


@model('ndarray.fill')
def nd_fill(ip, a, k):
    a[0].fill(a[1])


@model('ndarray.item')
def nd_item(ip, a, k):
    return a[0].at(*([0] * len(a[0].shape)))


@model('ndarray.conj')
def nd_conj(ip, a, k):
    return ip.unary(lambda x: Cx(Cx.of(x).re, neg(Cx.of(x).im)), a[0])


@model('numpy.squeeze', 'ndarray.squeeze')
def n_squeeze(ip, a, k):
    v = a[0]
    keep = [j for j, d in enumerate(v.shape) if not (conc(norm(d)) and norm(d) == 1)]
    g = v.snapshot()
    n = len(v.shape)

    def fn(i):
        it = iter(i)
        return g(tuple(next(it) if j in keep else 0 for j in range(n)))
    return SArr(tuple(v.shape[j] for j in keep), fn, v.kind)


@model('numpy.atleast_1d')
def n_atleast1(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) == 0:
        x = v.at()
        return SArr((1,), lambda i: x, v.kind)
    return v


@model('numpy.vstack')
def n_vstack(ip, a, k):
    if not isinstance(a[0], tuple) and a[0].items is None:
        raise Unsupported('vstack of symbolic list')
    rows = [arr(ip, x) for x in (a[0] if isinstance(a[0], tuple) else a[0].items)]
    if not all(len(x.shape) == 1 for x in rows):
        raise Unsupported('vstack of matrices')
    for x in rows[1:]:
        ip.defined('rows of one length', eq(x.shape[0], rows[0].shape[0]), ip.node_stack[-1] if ip.node_stack else None, 'ValueError')
    return ip.reg['numpy.array'](ip, [PList(rows)], {})


@model('numpy.reshape', 'ndarray.reshape')
def n_reshape(ip, a, k):
    v = a[0]
    shp = a[1:] if len(a) > 2 else (a[1],)
    shp = shape_tuple(ip, shp)
    if len(v.shape) == len(shp) and all(same_dim(x, y) for x, y in zip(v.shape, shp)):
        return v
    return reshape(ip, v, shp)


def shape_tuple(ip, shp):
    if len(shp) == 1 and isinstance(shp[0], (tuple, PList)):
        shp = tuple(shp[0]) if isinstance(shp[0], tuple) else tuple(shp[0].items)
    return tuple(norm(x) for x in shp)


def reshape(ip, v, shp):
    g = v.snapshot()
    src = v.shape
    if any(conc(s) and s == -1 for s in shp):
        if len(shp) == 1:
            shp = (v.size,)
        else:
            raise Unsupported('reshape -1')

    def lin(i, dims):
        r = 0
        for x, d in zip(i, dims):
            r = add(mul(r, d), x)
        return r

    def unlin(l, dims):
        out = []
        for d in reversed(dims[1:]):
            out.append(mod_(ip, l, d))
            l = div_(ip, l, d)
        out.append(l)
        return tuple(reversed(out))
    return SArr(shp, lambda i: g(unlin(lin(i, shp), src) if len(src) > 1 else (lin(i, shp),)), v.kind)


def mod_(ip, a, b):
    if conc(a) and conc(b):
        return a % b
    return z(a) % z(b)


def div_(ip, a, b):
    if conc(a) and conc(b):
        return a // b
    return z(a) / z(b)


@model('ndarray.flatten')
def n_flatten(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) == 1:
        return SArr(v.shape, v.snapshot(), v.kind)
    return reshape(ip, v, (v.size,))


@model('numpy.ravel', 'ndarray.ravel')
def n_ravel(ip, a, k):
    r = n_flatten(ip, a, k)
    if isinstance(a[0], SArr) and r is not a[0]:
        r.props['ravel_of'] = a[0]      # contiguous arrays: a view, which only compiled kernels write through
    return r


@model('numpy.concatenate', 'numpy.hstack')
def n_concat(ip, a, k):
    s = a[0]
    items = list(s) if isinstance(s, tuple) else s.items
    if items is None:
        raise Unsupported('concatenate of symbolic list')
    axis = a[1] if len(a) > 1 else k.get('axis', 0)
    items = [arr(ip, x) for x in items]
    if axis != 0 or any(len(x.shape) != 1 for x in items):
        if axis == 0 and all(len(x.shape) == len(items[0].shape) for x in items):
            pass
        else:
            raise Unsupported('concatenate axis')
    kd = items[0].kind
    for x in items[1:]:
        kd = join_kind(kd, x.kind)
    n = 0
    offs = []
    for x in items:
        offs.append(n)
        n = add(n, x.shape[0])
    gs = [x.snapshot() for x in items]

    def fn(i):
        r = conv(gs[-1]((sub(i[0], offs[-1]),) + tuple(i[1:])), kd)
        for j in range(len(gs) - 2, -1, -1):
            r = ite(lt(i[0], offs[j + 1]), conv(gs[j]((sub(i[0], offs[j]),) + tuple(i[1:])), kd), r)
        return r
    return SArr((n,) + tuple(items[0].shape[1:]), fn, kd)


@model('numpy.append')
def n_append(ip, a, k):
    x, y = arr(ip, a[0]), arr(ip, a[1])
    if not y.shape:
        y = n_atleast1(ip, [y], {})
    return n_concat(ip, [(x, y)], {})


@model('numpy.insert')
def n_insert(ip, a, k):
    v, i, x = arr(ip, a[0]), a[1], a[2]
    if not is_num(x) or not conc(i):
        raise Unsupported('numpy.insert')
    g = v.snapshot()
    kd = v.kind
    return SArr((add(v.shape[0], 1),), lambda j: ite(lt(j[0], i), g(j), ite(eq(j[0], i), conv(x, kd), g((sub(j[0], 1),)))), kd)


@model('numpy.column_stack')
def n_colstack(ip, a, k):
    s = a[0]
    items = [arr(ip, x) for x in (list(s) if isinstance(s, tuple) else s.items)]
    if all(len(x.shape) == 1 for x in items):
        return n_transpose(ip, [n_array(ip, [PList(items)], {})], {})
    raise Unsupported('column_stack')


@model('numpy.flipud')
def n_flipud(ip, a, k):
    v = a[0]
    g = v.snapshot()
    n = v.shape[0]
    return SArr(v.shape, lambda i: g((sub(sub(n, 1), i[0]),) + tuple(i[1:])), v.kind)


@model('numpy.fliplr')
def n_fliplr(ip, a, k):
    v = a[0]
    g = v.snapshot()
    n = v.shape[1]
    return SArr(v.shape, lambda i: g((i[0], sub(sub(n, 1), i[1])) + tuple(i[2:])), v.kind)


@model('numpy.diff')
def n_diff(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) != 1:
        raise Unsupported('diff')
    g = v.snapshot()
    n = v.shape[0]
    return SArr((maxv(sub(n, 1), 0) if isz(n) and not ip.ctx.must(cmp('>=', n, 1)) else sub(n, 1),),
                lambda i: sub(g((add(i[0], 1),)), g(i)), 'r' if v.kind == 'r' else 'i')


@model('numpy.cumsum', 'ndarray.cumsum')
def n_cumsum(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) != 1:
        raise Unsupported('cumsum')
    g = v.snapshot()
    n = norm(v.shape[0])
    if conc(n) and n <= 64:
        acc = []
        r = 0
        for i in range(n):
            r = add(r, g((i,)))
            acc.append(r)
        l = PList(acc)
        return SArr((n,), lambda i: l.at(i[0]), v.kind if v.kind != 'b' else 'i')
    p = prefix_sum(ip, lambda i: g((i,)), n, v.kind)
    return SArr((n,), lambda i: p(z(add(i[0], 1))), 'i' if v.kind in 'ib' else v.kind)


@model('numpy.mean', 'ndarray.mean', 'numpy.average')
def n_mean(ip, a, k):
    v = arr(ip, a[0])
    s = b_sum(ip, [v] + list(a[1:]), k)
    n = v.size if not (len(a) > 1 or 'axis' in k) else v.shape[k.get('axis', a[1] if len(a) > 1 else 0)]
    return ip.binop('Div', s, n)


def red(name, big):
    def f(ip, a, k):
        v = a[0]
        if not isinstance(v, SArr):
            v = arr(ip, v)
        axis = k.get('axis', a[1] if len(a) > 1 else None)
        if axis is None:
            return arr_ext(ip, v, big)
        if axis < 0:
            axis += len(v.shape)
        return along(ip, v, axis, lambda w: arr_ext(ip, w, big), v.kind, 'max' if big else 'min')
    return f


for _n, _b in (('max', True), ('min', False), ('amax', True), ('amin', False), ('nanmax', True), ('nanmin', False)):
    REG['numpy.' + _n] = red(_n, _b)
REG['ndarray.max'] = red('max', True)
REG['ndarray.min'] = red('min', False)


@model('numpy.any', 'ndarray.any')
def n_any(ip, a, k):
    v = a[0]
    if is_num(v):
        return truthz(v)
    if isinstance(v, PList):
        return b_any(ip, [v], {})
    if 'axis' in k or len(a) > 1:
        raise Unsupported('any axis')
    return quant(ip, v, False)


@model('numpy.all', 'ndarray.all')
def n_all(ip, a, k):
    v = a[0]
    if is_num(v):
        return truthz(v)
    if isinstance(v, PList):
        return b_all(ip, [v], {})
    if 'axis' in k or len(a) > 1:
        raise Unsupported('all axis')
    return quant(ip, v, True)


def quant(ip, v, isall):
    g = v.snapshot()
    dims = [norm(d) for d in v.shape]
    if all(conc(d) for d in dims):
        import itertools
        cs = [truthz(g(i)) for i in itertools.product(*[range(d) for d in dims])]
        return And(*cs) if isall else Or(*cs)
    vs = [qvar(1) for _ in dims]
    body = truthz(g(tuple(vs)))
    if isall:
        return forall(vs, Implies(in_shape(vs, dims), body))
    return exists(vs, And(in_shape(vs, dims), body))


@model('numpy.where')
def n_where(ip, a, k):
    if len(a) == 1:
        return n_nonzero(ip, a, k)
    c, x, y = [_a(ip, v) for v in a]
    kd = join_kind(kind_of(x), kind_of(y))
    if isinstance(x, Special) or isinstance(y, Special):
        raise Unsupported('where with nan')
    return bmulti(ip, lambda p, q, r: conv(ite(truthz(p), q, r), kd), [c, x, y], kd)


@model('numpy.nonzero', 'ndarray.nonzero')
def n_nonzero(ip, a, k):
    m = arr(ip, a[0])
    if m.kind != 'b':
        g = m.snapshot()
        m = SArr(m.shape, lambda i: truthz(g(i)), 'b')
    if len(m.shape) == 1:
        cnt, sf, pf = mask_filter(ip, m)
        sel = unpos((sf,), pf)
        r = SArr((cnt,), lambda i: sel(i[0])[0], 'i')
        gm = m.snapshot()
        r.props['inverse'] = lambda i: And(le(0, i), lt(i, m.shape[0]), gm((i,)))
        r.props['member'] = r.props['inverse']
        r.props['pos'] = lambda i: pf(z(i))
        return (r,)
    cnt, sels, pf = nd_enum(ip, m)
    gm = m.snapshot()
    sel = unpos(sels, pf)
    out = []
    for j in range(len(m.shape)):
        r = SArr((cnt,), (lambda j: lambda i: sel(i[0])[j])(j), 'i')
        r.props['where_nd'] = (lambda i: gm(tuple(i)), pf, j)
        out.append(r)
    return tuple(out)


@model('numpy.flatnonzero')
def n_flatnonzero(ip, a, k):
    return n_nonzero(ip, a, k)[0]


@model('numpy.extract')
def n_extract(ip, a, k):
    return arr_getitem(ip, arr(ip, a[1]), (arr(ip, a[0]),))


@model('numpy.compress', 'ndarray.compress')
def n_compress(ip, a, k):
    c, v = arr(ip, a[0]), arr(ip, a[1])
    if isinstance(a[0], SArr) and len(a) > 1 and False:
        pass
    if c.kind != 'b':
        g = c.snapshot()
        c = SArr(c.shape, lambda i: truthz(g(i)), 'b')
    return arr_getitem(ip, v, (c,))


REG['ndarray.compress'] = lambda ip, a, k: n_compress(ip, [a[1], a[0]], k)


@model('numpy.count_nonzero')
def n_count(ip, a, k):
    m = arr(ip, a[0])
    if len(m.shape) != 1:
        raise Unsupported('count_nonzero nd')
    return n_nonzero(ip, [m], {})[0].shape[0]


@model('numpy.size')
def n_size(ip, a, k):
    v = a[0]
    if is_num(v):
        return 1
    v = arr(ip, v)
    if len(a) > 1:
        return v.shape[a[1]]
    return v.size


@model('numpy.shape')
def n_shape(ip, a, k):
    if is_num(a[0]):
        return ()
    return tuple(arr(ip, a[0]).shape)


@model('numpy.ndim')
def n_ndim(ip, a, k):
    if is_num(a[0]):
        return 0
    return len(arr(ip, a[0]).shape)


@model('numpy.isscalar')
def n_isscalar(ip, a, k):
    return is_num(a[0]) or isinstance(a[0], str)


def arg_ext(ip, v, big):
    """index of the first maximum/minimum of a 1-d array"""
    g = v.snapshot()
    n = norm(v.shape[0])
    if conc(n) and n <= 12:
        if n == 0:
            raise PyRaise('ValueError', ())
        bi, bv = 0, g((0,))
        for j in range(1, n):
            c = cmp('>' if big else '<', g((j,)), bv)
            bi, bv = ite(c, j, bi), ite(c, g((j,)), bv)
        return bi
    ip.defined('non-empty array', cmp('>', n, 0), None, 'ValueError')
    ctx = ip.ctx
    w = ctx.int('argext')
    q = qvar(1)
    ctx.assume(And(0 <= w, lt(w, n)))
    ctx.assume(forall(q, Implies(And(0 <= q, lt(q, n)), cmp('>=' if big else '<=', g((w,)), g((q,))))))
    ctx.assume(forall(q, Implies(And(0 <= q, q < w), cmp('>' if big else '<', g((w,)), g((q,))))))
    return w


for _n, _b in (('argmax', True), ('argmin', False)):
    def _mk(b):
        def f(ip, a, k):
            v = arr(ip, a[0])
            if len(a) > 1 or 'axis' in k:
                raise Unsupported('argmax axis')
            if len(v.shape) != 1:
                v = n_ravel(ip, [v], {})
            return arg_ext(ip, v, b)
        return f
    REG['numpy.' + _n] = _mk(_b)
    REG['ndarray.' + _n] = _mk(_b)


def inner_app(e, a):
    """uninterpreted application directly on the variable a inside e, usable as a trigger"""
    if not isz(e):
        return None
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(a) for c in x.children()):
            return x
        todo.extend(x.children())
    return None


def sort_perm(ip, v):
    """permutation sorting a 1-d array (ascending), with its inverse"""
    ctx = ip.ctx
    g = v.snapshot()
    n = v.shape[0]
    key = ext_key(ip, v, g, [n], 'sort')
    tab = path_tab(ip, 'sort')
    if key in tab:
        P, I, keep, facts = tab[key]
        for f in facts:
            if not any(f is h for h in ctx.facts):
                ctx.assume(f)
        return P, I
    P = ctx.func('perm', IS, IS)
    I = ctx.func('iperm', IS, IS)
    a, b = qvar(2)
    facts = [z3.ForAll([a], z(Implies(And(0 <= a, lt(a, n)), And(0 <= P(a), lt(P(a), n), I(P(a)) == a))), patterns=[P(a)]),
             z3.ForAll([a], z(Implies(And(0 <= a, lt(a, n)), And(0 <= I(a), lt(I(a), n), P(I(a)) == a))), patterns=[I(a)]),
             z3.ForAll([a, b], z(Implies(And(0 <= a, a <= b, lt(b, n)), le(g((P(a),)), g((P(b),))))), patterns=[z3.MultiPattern(P(a), P(b))])]
    pat = inner_app(g((a,)), a)
    if pat is not None:
        # every element of the array is found in the sorted one
        facts.append(z3.ForAll([a], z(Implies(And(0 <= a, lt(a, n)), And(0 <= I(a), lt(I(a), n), P(I(a)) == a))), patterns=[pat]))
    for f in facts:
        ctx.assume(f)
    tab[key] = (P, I, keepers(g, [n]), facts)
    return P, I


@model('numpy.sort')
def n_sort(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) != 1:
        return sort_nd(ip, v, k.get('axis', a[1] if len(a) > 1 else -1))
    P, I = sort_perm(ip, v)
    g = v.snapshot()
    return SArr(v.shape, lambda i: g((P(z(i[0])),)), v.kind)


def sort_nd(ip, v, axis):
    nd = len(v.shape)
    if axis is None:
        raise Unsupported('sort of flattened array')
    if axis < 0:
        axis += nd
    ctx = ip.ctx
    g = v.snapshot()
    n = v.shape[axis]
    P = ctx.func('perm', *([IS] * nd + [IS]))
    I = ctx.func('iperm', *([IS] * nd + [IS]))
    vs = [qvar(1) for _ in range(nd - 1)]
    a, b = qvar(2)
    full = lambda j: tuple(vs[:axis]) + (j,) + tuple(vs[axis:])
    ff = lambda F, j: F(*full(j))
    oth = [d for k, d in enumerate(v.shape) if k != axis]
    dom = in_shape(vs, oth)
    ok = And(dom, 0 <= a, lt(a, n))
    for X, Y in ((P, I), (I, P)):
        ctx.assume(z3.ForAll(vs + [a], z(Implies(ok, And(0 <= ff(X, a), lt(ff(X, a), n), ff(Y, ff(X, a)) == a))), patterns=[ff(X, a)]))
    ctx.assume(z3.ForAll(vs + [a, b], z(Implies(And(dom, 0 <= a, a <= b, lt(b, n)), le(g(full(ff(P, a))), g(full(ff(P, b)))))), patterns=[z3.MultiPattern(ff(P, a), ff(P, b))]))
    pat = inner_app(g(full(a)), a)
    if pat is not None and all(inner_app(pat, v) is not None for v in vs):
        ctx.assume(z3.ForAll(vs + [a], z(Implies(ok, And(0 <= ff(I, a), lt(ff(I, a), n), ff(P, ff(I, a)) == a))), patterns=[pat]))

    def fn(i):
        i = [z(x) for x in i]
        return g(tuple(i[:axis]) + (P(*i),) + tuple(i[axis + 1:]))
    return SArr(v.shape, fn, v.kind)


@model('ndarray.sort')
def nd_sort(ip, a, k):
    v = a[0]
    r = n_sort(ip, [SArr(v.shape, v.snapshot(), v.kind)] + list(a[1:]), k)
    g = r.snapshot()
    v.write(lambda i: True, lambda i: g(i))


@model('numpy.argsort', 'ndarray.argsort')
def n_argsort(ip, a, k):
    v = arr(ip, a[0])
    if len(v.shape) != 1:
        raise Unsupported('argsort nd')
    P, I = sort_perm(ip, v)
    r = SArr(v.shape, lambda i: P(z(i[0])), 'i')
    r.props['pos'] = lambda i: I(z(i))
    return r


@model('numpy.searchsorted', 'ndarray.searchsorted')
def n_searchsorted(ip, a, k):
    v, x = arr(ip, a[0]), a[1]
    side = a[2] if len(a) > 2 else k.get('side', 'left')
    ctx = ip.ctx
    g = v.snapshot()
    n = v.shape[0]
    lo, hi = ('<', '>=') if side == 'left' else ('<=', '>')
    p, q = qvar(2)
    srt = forall([p, q], Implies(And(0 <= p, p <= q, lt(q, n)), le(g((p,)), g((q,)))))
    key = ext_key(ip, v, g, [n], 'sorted')
    tab = path_tab(ip, 'sorted')
    if key not in tab:
        ip.defined('searchsorted on a sorted array', srt, ip.node_stack[-1] if ip.node_stack else None, 'Undefined')
        tab[key] = keepers(g, [n])

    def one_(y):
        w = ctx.int('ss')
        ctx.assume(And(0 <= w, le(w, n)))
        ctx.assume(forall(p, Implies(And(0 <= p, p < w), cmp(lo, g((p,)), y))))
        ctx.assume(forall(p, Implies(And(w <= p, lt(p, n)), cmp(hi, g((p,)), y))))
        return w
    if isinstance(x, PList):
        x = arr(ip, x)
    if not isinstance(x, SArr):
        return one_(x)
    gx = x.snapshot()
    if len(x.shape) == 1 and conc(norm(x.shape[0])) and norm(x.shape[0]) <= 8:
        l = PList([one_(gx((j,))) for j in range(norm(x.shape[0]))])
        return SArr(x.shape, lambda i: l.at(i[0]), 'i')
    nd = len(x.shape)
    W = ctx.func('ss', *([IS] * nd + [IS]))
    vs = [qvar(1) for _ in range(nd)]
    w = W(*vs)
    y = gx(tuple(vs))
    dom = in_shape(vs, x.shape)
    ctx.assume(forall(vs, Implies(dom, And(0 <= w, le(w, n)))))
    ctx.assume(forall(vs + [p], Implies(And(dom, 0 <= p, p < w), cmp(lo, g((p,)), y))))
    ctx.assume(forall(vs + [p], Implies(And(dom, w <= p, lt(p, n)), cmp(hi, g((p,)), y))))
    return SArr(x.shape, lambda i: W(*[z(j) for j in i]), 'i')


@model('numpy.interp')
def n_interp(ip, a, k):
    raise Unsupported('numpy.interp')


@model('numpy.take')
def n_take(ip, a, k):
    if len(a) > 2 or 'axis' in k:
        raise Unsupported('take axis')
    return arr_getitem(ip, arr(ip, a[0]), (a[1],))


REG['ndarray.take'] = n_take


@model('numpy.put')
def n_put(ip, a, k):
    if is_num(a[1]):
        a[0].write(lambda i: eq(i[0], a[1]), lambda i: a[2])
        return
    arr_setitem(ip, a[0], a[1], a[2])


REG['ndarray.put'] = n_put


@model('numpy.putmask')
def n_putmask(ip, a, k):
    if isinstance(a[1], SArr) and a[1].kind != 'b':
        g = a[1].snapshot()
        a = [a[0], SArr(a[1].shape, lambda i: truthz(g(i)), 'b'), a[2]]
    if isinstance(a[2], SArr) and len(a[2].shape) == len(a[0].shape):
        gm, gv = a[1].snapshot(), a[2].snapshot()
        a[0].write(lambda i: gm(i), lambda i: gv(i))
        return
    arr_setitem(ip, a[0], a[1], a[2])


@model('numpy.finfo')
def n_finfo(ip, a, k):
    return SObj('finfo', {'eps': Fraction(1, 2**52), 'tiny': Fraction(1, 2**1022), 'max': Fraction(2)**1023})


@model('numpy.ma.masked_values', 'numpy.ma.masked_where')
def n_ma(ip, a, k):
    raise Unsupported('masked array')


@model('numpy.ma.array')
def n_ma_array(ip, a, k):
    # no mask: an ordinary array; without copy=True the data of an array are shared
    if 'mask' in k and k['mask'] is not False:
        raise Unsupported('masked array')
    v = a[0]
    kind = dtype_kind(k.get('dtype', a[1] if len(a) > 1 else None), None)
    if isinstance(v, SArr) and k.get('copy') is not True and kind in (None, v.kind):
        return v
    if is_num(v):
        return conv(v, kind) if kind else v
    return n_array(ip, [v] + list(a[1:]), {x: y for x, y in k.items() if x in ('dtype',)})


@model('itertools.islice')
def it_islice(ip, a, k):
    s = a[0]
    if isinstance(s, (list, tuple)):
        s = PList(list(s))
    if len(a) == 2:
        lo, hi, st = 0, a[1], 1
    else:
        lo, hi, st = a[1] if a[1] is not None else 0, a[2], a[3] if len(a) > 3 and a[3] is not None else 1
    n = b_len(ip, [s], {}) if not isinstance(s, (Range, Iter)) else s.length()
    if hi is not None:
        n = ite(lt(hi, n), hi, n)
    ip.defined('islice start not negative', le(0, lo), None, 'ValueError')
    ip.defined('islice step positive', lt(0, st), None, 'ValueError')
    if all(conc(x) for x in (n, lo, st)):
        return PList([seq_at(ip, s, j) for j in range(n)[lo::st]])
    m = ip.ctx.int('islice_len')
    d = sub(n, lo)
    ip.ctx.assume(m >= 0, Implies(le(d, 0), m == 0),
                  Implies(lt(0, d), And(m >= 1, le(add(lo, mul(st, m - 1)), sub(n, 1)), le(n, add(lo, mul(st, m))))))
    return Iter(m, lambda i: seq_at(ip, s, add(lo, mul(st, i))))


@model('numpy.outer')
def n_outer(ip, a, k):
    x, y = arr(ip, a[0]), arr(ip, a[1])
    gx, gy = x.snapshot(), y.snapshot()
    return SArr((x.shape[0], y.shape[0]), lambda i: mul(gx((i[0],)), gy((i[1],))), 'r')


@model('numpy.dot')
def n_dot(ip, a, k):
    return b_sum(ip, [ip.binop('Mult', a[0], a[1])], {})


@model('numpy.prod', 'ndarray.prod')
def n_prod(ip, a, k):
    v = arr(ip, a[0])
    n = norm(v.shape[0])
    if conc(n) and len(v.shape) == 1:
        r = 1
        for i in range(n):
            r = mul(r, v.at(i))
        return r
    raise Unsupported('prod')


@model('numpy.array_equal', 'numpy.allclose')
def n_array_equal(ip, a, k):
    raise Unsupported('array_equal')


@model('numpy.ndenumerate')
def n_ndenum(ip, a, k):
    raise Unsupported('ndenumerate')


@model('numpy.seterr', 'numpy.errstate', 'numpy.set_printoptions')
def n_seterr(ip, a, k):
    return PDict({})


@model('scalar.astype')
def sc_astype(ip, a, k):
    return conv(a[0], dtype_kind(a[1]))


@model('scalar.item', 'scalar.copy')
def sc_item(ip, a, k):
    return a[0]


@model('scalar.max', 'scalar.min', 'scalar.sum')
def sc_id(ip, a, k):
    return a[0]


# ---------------------------------------------------------------- misc

@model('os.path.join', 'posixpath.join')
def os_join(ip, a, k):
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append('/')
        parts.extend(x.parts if isinstance(x, SymStr) else [x])
    return mkstr(parts)


@model('itertools.count')
def it_count(ip, a, k):
    raise Unsupported('itertools.count')


@model('itertools.chain')
def it_chain(ip, a, k):
    out = []
    for x in a:
        s = ip.as_seq(x)
        if not isinstance(s, list):
            raise Unsupported('chain')
        out += s
    return PList(out)


@model('itertools.product')
def it_product(ip, a, k):
    import itertools as it
    ss = [ip.as_seq(x) for x in a]
    if all(isinstance(s, list) for s in ss):
        return PList([tuple(t) for t in it.product(*ss)])
    if len(ss) == 2:
        ss = [PList(s) if isinstance(s, list) else s for s in ss]
        n2 = ss[1].length()
        return Iter(mul(ss[0].length(), n2), lambda i: (seq_at(ip, ss[0], div_(ip, i, n2)), seq_at(ip, ss[1], mod_(ip, i, n2))))
    raise Unsupported('itertools.product')


@model('functools.wraps')
def ft_wraps(ip, a, k):
    return Native(lambda ip, a, k: a[0])


@model('functools.reduce')
def ft_reduce(ip, a, k):
    s = ip.as_seq(a[1])
    if not isinstance(s, list):
        raise Unsupported('reduce')
    if len(a) > 2:
        r = a[2]
    else:
        if not s:
            raise PyRaise('TypeError', ())
        r, s = s[0], s[1:]
    for x in s:
        r = ip.call(a[0], [r, x])
    return r


@model('operator.add')
def op_add(ip, a, k):
    return ip.binop('Add', a[0], a[1])


@model('time.time', 'time.perf_counter', 'time.process_time')
def t_time(ip, a, k):
    return ip.ctx.real('clock')


@model('time.sleep', 'gc.collect', 'gc.disable')
def t_none(ip, a, k):
    return None


# ---------------------------------------------------------------- record arrays (columns of one length)

def record(cols, n):
    """record array with the given columns (name -> 1-d array or opaque value)"""
    r = SObj('recarray', dict(cols))
    r.attrs['dtype'] = SObj('dtype', {'names': tuple(cols)})
    r.attrs['shape'] = (n,)
    r.attrs['size'] = n
    r.cols, r.n = cols, n
    return r


@model('recarray.__len__')
def rec_len(ip, a, k):
    return a[0].n


@model('recarray.__getitem__')
def rec_getitem(ip, a, k):
    o, ix = a
    if isinstance(ix, str):
        if ix not in o.cols:
            raise PyRaise('ValueError', ('no field of name ' + ix,))
        return o.cols[ix]
    if isinstance(ix, (Slice, SArr)):
        cols = {c: (arr_getitem(ip, v, ix, None) if isinstance(v, SArr) else v) for c, v in o.cols.items()}
        first = next(v for v in cols.values() if isinstance(v, SArr))
        return record(cols, first.shape[0])
    return SObj('recrow', {c: arr_getitem(ip, v, ix, None) for c, v in o.cols.items() if isinstance(v, SArr)})
