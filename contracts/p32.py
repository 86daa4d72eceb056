"""Plane geometry of landfalls and crossings (Utilities/Intersections.py, Evaluate/longitudeCrossing.py)."""
import ast
import z3
from engine.contract import task
from engine.interp import Loop
from engine.sym import *

IN = 'Utilities/Intersections.py'
CR = IN + '::Crossings'


def point(ip, name):
    c = ip.ctx
    return SObj(ip.func(IN + '::Point'), {k: c.input(name + '.' + k, c.real(name + '.' + k)) for k in 'xy'})


def xy(p):
    return p.attrs['x'], p.attrs['y']


def cross(a, b, p):
    """twice the signed area of the triangle a, b, p: positive when p is to the left of the line from a to b"""
    (ax, ay), (bx, by), (px, py) = xy(a), xy(b), xy(p)
    return sub(mul(sub(bx, ax), sub(py, ay)), mul(sub(px, ax), sub(by, ay)))


# -- inside a polygon -------------------------------------------------------------------------------------------------------
X, Y = z3.Function('vertex.x', IS, RS), z3.Function('vertex.y', IS, RS)
COUNT, WIND = z3.Function('edges crossed', IS, IS), z3.Function('net edges crossed', IS, IS)


def vertex(ip, k):
    return SObj(ip.func(IN + '::Point'), {'x': X(z(k)), 'y': Y(z(k))})


def polygon(ip):
    c = ip.ctx
    n = c.input('vertices', c.int('vertices'))
    c.assume(n >= 1, COUNT(0) == 0, WIND(0) == 0)
    P = point(ip, 'P')
    return P, PList(n=n, fn=lambda k: vertex(ip, k)), n


def step(ip, P, k):
    """edge k is crossed by the half line from P towards larger x"""
    (px, py), a, b = xy(P), (X(z(k)), Y(z(k))), (X(z(k) + 1), Y(z(k) + 1))
    up, down = And(a[1] <= py, py < b[1]), And(b[1] <= py, py < a[1])
    t = (py - a[1]) / (b[1] - a[1])
    right = And(Or(up, down), px < a[0] + t * (b[0] - a[0]))
    return And(COUNT(z(k) + 1) == COUNT(z(k)) + ite(right, 1, 0),
               WIND(z(k) + 1) == WIND(z(k)) + ite(right, ite(up, 1, -1), 0))


def counter(ip, fn):
    """the variable whose value the function returns a condition on"""
    node = ip.func(IN + '::' + fn).node
    names = [x.id for r in ast.walk(node) if isinstance(r, ast.Return) for x in ast.walk(r) if isinstance(x, ast.Name)]
    aug = {x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    r = [x for x in names if x in aug]
    if not r:
        raise Unsupported('no counter')
    return r[0]


def odd(n):
    return eq(mod(COUNT(z(n)), 2), 1)


def pos(S):
    return S.it


@task('P32', 'crossing number', [IN + '::_cnPnPoly'])
def cn(ip):
    c = ip.ctx
    P, V, n = polygon(ip)
    v = counter(ip, '_cnPnPoly')
    ip.loops['*'] = [Loop(lambda S: [('number of edges crossed', eq(S[v], COUNT(z(S.it))))], name='edges', facts=lambda S: step(ip, P, S.it))]
    r = ip.call(ip.func(IN + '::_cnPnPoly'), [P, V])
    c.prove('post: inside iff an odd number of edges is crossed', Iff(ip.truth(r), odd(n - 1)))


@task('P32', 'winding number', [IN + '::_wnPnPoly', IN + '::_isLeft'])
def wn(ip):
    c = ip.ctx
    P, V, n = polygon(ip)
    v = counter(ip, '_wnPnPoly')
    ip.loops['*'] = [Loop(lambda S: [('net number of edges crossed', eq(S[v], WIND(z(S.it)))), ('as odd as the number of edges crossed', eq(mod(COUNT(z(S.it)), 2), mod(S[v], 2)))],
                          name='edges', facts=lambda S: step(ip, P, S.it))]
    r = ip.call(ip.func(IN + '::_wnPnPoly'), [P, V])
    c.prove('post: inside iff the net number is not zero', Iff(ip.truth(r), Not(eq(WIND(z(n - 1)), 0))))
    c.prove('post: inside when the number crossed is odd', Implies(odd(n - 1), ip.truth(r)))


def cn_contract(ip, args, kw):
    return odd(args[1].n - 1)


def wn_contract(ip, args, kw):
    c = ip.ctx
    r = z3.Not(WIND(z(args[1].n - 1)) == 0)
    c.assume(Implies(odd(args[1].n - 1), r))
    return r


@task('P32', 'inside a polygon', [IN + '::inLand'], contracts={IN + '::_cnPnPoly': cn_contract, IN + '::_wnPnPoly': wn_contract})
def inside(ip):
    c = ip.ctx
    P, V, n = polygon(ip)
    r = ip.call(ip.func(IN + '::inLand'), [P, V])
    c.prove('post: inside iff an odd number of edges is crossed', Iff(ip.truth(r), odd(n - 1)))


@task('P32', 'side of a line', [IN + '::_isLeft'])
def side(ip):
    a, b, p = [point(ip, n) for n in 'abp']
    r = ip.call(ip.func(IN + '::_isLeft'), [a, b, p])
    k = cross(a, b, p)
    ip.ctx.prove('post: positive iff left of the line', Iff(lt(0, r), lt(0, k)))
    ip.ctx.prove('post: negative iff right of the line', Iff(lt(r, 0), lt(k, 0)))


@task('P32', 'vertices', [IN + '::convert2vertex', IN + '::Point.__init__'])
def vertices(ip):
    c = ip.ctx
    n, k = c.input('n', c.int('n')), c.input('k', c.int('k'))
    c.assume(And(0 <= k, k < n))
    a, b = ip.fresh_array((n,), 'r', 'a'), ip.fresh_array((n,), 'r', 'b')
    r = ip.call(ip.func(IN + '::convert2vertex'), [a, b])
    c.prove('post: one point per pair', eq(r.length(), n))
    p = r.at(k)
    c.prove('post: points in order', And(eq(p.attrs['x'], a.at(k)), eq(p.attrs['y'], b.at(k))))
    c.prove('post: coordinates as given', And(eq(ip.call(ip.getattr(p, 'getX'), []), a.at(k)), eq(ip.call(ip.getattr(p, 'getY'), []), b.at(k))))


# -- segments ----------------------------------------------------------------------------------------------------------------
def along(a, b, u):
    return tuple(add(p, mul(u, sub(q, p))) for p, q in zip(xy(a), xy(b)))


def unit(u):
    return And(le(0, u), le(u, 1))


def same(p, q):
    return And(eq(p[0], q[0]), eq(p[1], q[1]))


def segments(ip):
    c = ip.ctx
    a1, a2, b1, b2 = [point(ip, n) for n in ('a1', 'a2', 'b1', 'b2')]
    c.assume(Not(same(xy(a1), xy(a2))), Not(same(xy(b1), xy(b2))))
    dx, dy = [sub(q, p) for p, q in zip(xy(a1), xy(a2))]
    ex, ey = [sub(q, p) for p, q in zip(xy(b1), xy(b2))]
    return a1, a2, b1, b2, sub(mul(dx, ey), mul(dy, ex))


@task('P32', 'two segments', [CR + '.LineLine', IN + '::Intersection.__init__', IN + '::Point.__init__'])
def lines(ip):
    c = ip.ctx
    a1, a2, b1, b2, det = segments(ip)
    r = ip.call(ip.getattr(SObj(ip.func(CR)), 'LineLine'), [a1, a2, b1, b2])
    st, pts = r.attrs['status'], r.attrs['points']
    s, t = c.real('s'), c.real('t')
    meet = And(unit(s), unit(t), same(along(a1, a2, s), along(b1, b2, t)))
    if st == 'Intersection':
        c.prove('post: one point', eq(pts.length(), 1))
        p = xy(pts.at(0))
        c.prove('post: the lines are not parallel', Not(eq(det, 0)))
        d = tuple(sub(x, y) for x, y in zip(xy(a1), xy(b1)))
        u = truediv(sub(mul(sub(b2.attrs['x'], b1.attrs['x']), d[1]), mul(sub(b2.attrs['y'], b1.attrs['y']), d[0])), det)
        v = truediv(sub(mul(sub(a2.attrs['x'], a1.attrs['x']), d[1]), mul(sub(a2.attrs['y'], a1.attrs['y']), d[0])), det)
        c.prove('post: the point is on the first segment', And(unit(u), same(p, along(a1, a2, u))))
        c.prove('post: the point is on the second segment', And(unit(v), same(p, along(b1, b2, v))))
    elif st == 'No Intersection':
        c.prove('post: no common point', Implies(meet, False))
        c.prove('post: no point given', eq(pts.length(), 0))
    elif st == 'Coincident':
        c.prove('post: both on one line', And(eq(cross(a1, a2, b1), 0), eq(cross(a1, a2, b2), 0)))
    else:
        c.prove('post: status', st == 'Parallel')
        c.prove('post: parallel', eq(det, 0))
        c.prove('post: no common point', Implies(meet, False))


@task('P32', 'between two points', [CR + '.lerp'])
def between(ip):
    c = ip.ctx
    a, b, u = point(ip, 'a'), point(ip, 'b'), c.input('u', c.real('u'))
    r = ip.call(ip.getattr(SObj(ip.func(CR)), 'lerp'), [a, b, u])
    c.prove('post: point at that fraction of the way', same(r, along(a, b, u)))


# -- crossings of lines of longitude ---------------------------------------------------------------------------------------
LC = 'Evaluate/longitudeCrossing.py'
FC = LC + '::LongitudeCrossing.findCrossings'
LISTS = ('lats', 'ewlats', 'welats')
LEN = z3.Function('points of track', IS, IS)
LON, LAT = z3.Function('longitude', IS, IS, RS), z3.Function('latitude', IS, IS, RS)
GATE = z3.Function('gate', IS, RS)
NUM = {k: z3.Function('crossings ' + k, IS, IS, IS, IS) for k in LISTS}       # gate, track, step: crossings before that step
VAL = {k: z3.Function('listed ' + k, IS, IS, RS) for k in LISTS}              # gate, position
HIST = {k: z3.Function('histogram ' + k, IS, IS, RS) for k in LISTS}          # gate, interval


class Cross:
    """step i of track t against gate g"""

    def __init__(self, w, g, t, i):
        i = z(i)
        self.g, self.a, self.b = GATE(z(g)), (LON(z(t), i), LAT(z(t), i)), (LON(z(t), i + 1), LAT(z(t), i + 1))
        self.lat = self.a[1] + (self.g - self.a[0]) / (self.b[0] - self.a[0]) * (self.b[1] - self.a[1])
        a, b, g = self.a[0], self.b[0], self.g
        on = And(w.low <= self.lat, self.lat <= w.high)
        self.east, self.west = And(a <= g, g <= b, a < b, on), And(b <= g, g <= a, b < a, on)

    def of(self, k):
        return {'lats': Or(self.east, self.west), 'ewlats': self.west, 'welats': self.east}[k]


def meridian(a1, a2, b1, b2):
    """where a segment meets a segment of a line of longitude, given from north to south"""
    (ax, ay), (bx, by), (g, north), (_, south) = [xy(p) for p in (a1, a2, b1, b2)]
    y = add(ay, mul(truediv(sub(g, ax), sub(bx, ax)), sub(by, ay)))
    return And(Or(And(le(ax, g), le(g, bx), lt(ax, bx)), And(le(bx, g), le(g, ax), lt(bx, ax))), le(south, y), le(y, north)), y


def upright(b1, b2):
    return And(eq(xy(b1)[0], xy(b2)[0]), lt(xy(b2)[1], xy(b1)[1]))


@task('P32', 'segment and line of longitude', [CR + '.LineLine'])
def upright_line(ip):
    c = ip.ctx
    a1, a2, b1, b2 = [point(ip, n) for n in ('a1', 'a2', 'b1', 'b2')]
    b2.attrs['x'] = b1.attrs['x']
    c.assume(upright(b1, b2), Not(same(xy(a1), xy(a2))))
    r = ip.call(ip.getattr(SObj(ip.func(CR)), 'LineLine'), [a1, a2, b1, b2])
    meets, y = meridian(a1, a2, b1, b2)
    if r.attrs['status'] == 'Intersection':
        c.prove('post: crosses the line', meets)
        c.prove('post: latitude of the crossing', And(eq(r.attrs['points'].length(), 1), eq(r.attrs['points'].at(0).attrs['y'], y)))
    else:
        c.prove('post: does not cross the line', Not(meets))


@task('P32', 'side of a line of longitude', [IN + '::_isLeft'])
def upright_side(ip):
    c = ip.ctx
    a, b, p = [point(ip, n) for n in 'abp']
    b.attrs['x'] = a.attrs['x']
    c.assume(upright(a, b))
    r = ip.call(ip.func(IN + '::_isLeft'), [a, b, p])
    c.prove('post: positive iff east of the line', Iff(lt(0, r), lt(xy(a)[0], xy(p)[0])))
    c.prove('post: negative iff west of the line', Iff(lt(r, 0), lt(xy(p)[0], xy(a)[0])))


def line_contract(ip, args, kw):
    """segment and line of longitude, as shown above"""
    _, a1, a2, b1, b2 = args
    c = ip.ctx
    c.prove('pre: line of longitude from north to south', upright(b1, b2))
    meets, y = meridian(a1, a2, b1, b2)
    if c.branch(z(meets)):
        p = SObj(ip.func(IN + '::Point'), {'x': b1.attrs['x'], 'y': y})
        return SObj(ip.func(IN + '::Intersection'), {'status': 'Intersection', 'points': PList([p])})
    return SObj(ip.func(IN + '::Intersection'), {'status': 'No Intersection', 'points': PList([])})


def left_contract(ip, args, kw):
    c = ip.ctx
    a, b, p = args
    c.prove('pre: line of longitude from north to south', upright(a, b))
    r = c.real('side')
    c.assume(Iff(lt(0, r), lt(xy(a)[0], xy(p)[0])), Iff(lt(r, 0), lt(xy(p)[0], xy(a)[0])))
    return r


class World:
    def __init__(self, ip):
        c = ip.ctx
        self.tracks, self.gates, self.m = [c.input(n, c.int(n)) for n in ('tracks', 'gates', 'm')]
        self.low, self.high = c.real('low'), c.real('high')
        self.G, self.T, self.I = [c.int(n) for n in 'GTI']
        c.assume(self.tracks >= 0, self.gates >= 1, self.m >= 2, self.low < self.high, 0 <= self.G, self.G < self.gates,
                 0 <= self.T, self.T < self.tracks, 0 <= self.I, self.I < LEN(self.T) - 1)
        q = z3.Int('q')
        c.assume(z3.ForAll([q], LEN(q) >= 1, patterns=[LEN(q)]))

    def before(self, t, i):
        """the step (T, I) is before step i of track t"""
        return Or(lt(self.T, t), And(eq(self.T, t), lt(self.I, i)))


def isgate(a):
    return isinstance(a, SArr) and 'gate' in a.props


def nested(st):
    return isinstance(st, ast.For) and sum(isinstance(x, ast.For) for x in ast.walk(st))


@task('P32', 'crossings of lines of longitude', [FC], contracts={CR + '.LineLine': line_contract, IN + '::_isLeft': left_contract},
      assumes=('the number of crossings before a step is the count defined by the rule for one step',
               'numpy.histogram depends only on the values and the interval limits', 'the latitudes of a gate increase'))
def crossings(ip):
    c = ip.ctx
    w = World(ip)

    def lists(k):
        def some(S):
            return PList(n=c.int('n.' + k), fn=lambda p, f=c.func('listed', IS, RS): f(z(p)))
        return some

    def inv(S, g, t, i):
        r = []
        for k in LISTS:
            L = S[k]
            n = NUM[k](z(g), z(w.T), z(w.I))
            r.append(('number of %s' % k, eq(L.length(), NUM[k](z(g), z(t), z(i)))))
            C = Cross(w, g, w.T, w.I)
            seen = And(w.before(t, i), C.of(k))
            r.append(('the crossing is in %s' % k, Not(seen) if L.concrete and not L.items else Implies(seen, And(le(0, n), lt(n, L.length()), eq(L.at(n), C.lat)))))
        return r

    def begin(S, g):
        return And(*[NUM[k](z(g), 0, 0) == 0 for k in LISTS])

    def count(S, g, t, i):
        C = Cross(w, g, t, i)
        return And(*[And(NUM[k](z(g), z(t), z(i) + 1) == NUM[k](z(g), z(t), z(i)) + ite(C.of(k), 1, 0), NUM[k](z(g), z(t), z(i)) >= 0) for k in LISTS])

    def following(S, g, t):
        return And(*[And(NUM[k](z(g), z(t) + 1, 0) == NUM[k](z(g), z(t), LEN(z(t)) - 1), NUM[k](z(g), z(t), 0) >= 0) for k in LISTS])
    O = lambda S: S.ip.outer
    names = ('h', 'ewh', 'weh')

    def columns(S):
        r = []
        for a, k in zip(names, LISTS):
            r.append(('columns of %s' % a, z3.ForAll([rowv], Implies(And(0 <= rowv, rowv < w.m - 1), eq(S[a].at(rowv, w.G), ite(lt(w.G, S.it), column(k, w.G, rowv), z3.RealVal(0)))))))
        return r
    rowv = z3.Int('row!')

    def column(k, g, i):
        return ite(NUM[k](z(g), z(w.tracks), 0) > 0, HIST[k](z(g), z(i)), z3.RealVal(0))
    hv = {k: lists(k) for k in LISTS}
    ip.loops['*'] = [Loop(columns, name='gates', facts=lambda S: begin(S, S.it), match=lambda t, st: nested(st) == 3),
                     Loop(lambda S: inv(S, O(S)['gates'], S.it, 0), havoc=hv, name='tracks', facts=lambda S: following(S, O(S)['gates'], S.it), match=lambda t, st: nested(st) == 2),
                     Loop(lambda S: inv(S, O(S)['gates'], O(S)['tracks'], S.it), havoc=hv, name='steps', facts=lambda S: count(S, O(S)['gates'], O(S)['tracks'], S.it), match=lambda t, st: nested(st) == 1)]

    def histogram(ip, a, kw):
        L = a[0]
        g = ip.outer['gates']
        c.prove('rates in the intervals of latitude', isgate(a[1]) and kw.get('density') is True)
        for k in LISTS:
            if isinstance(L, PList) and c.must(eq(L.length(), NUM[k](z(g), z(w.tracks), 0))):
                return SArr((w.m - 1,), lambda i, k=k, g=g: HIST[k](z(g), z(i[0])), 'r'), Opaque('bins')
        c.prove('values are all the crossings of the gate', False)
        raise Unsupported('histogram of something else')

    def extreme(v):
        def f(ip, a, k):
            if len(a) != 1 or not isgate(a[0]):
                raise Unsupported('extreme of something else')
            return v
        return f
    ip.opts['externals'] = {'numpy.histogram': histogram, **{m + n: extreme(v) for n, v in (('max', w.high), ('min', w.low)) for m in ('ndarray.', 'numpy.', 'numpy.a', 'builtins.')}}
    lats = SArr((w.m,), lambda i: c.func('gateLat', IS, RS)(z(i[0])), 'r')
    lats.props['gate'] = True
    lons = SArr((w.gates,), lambda i: GATE(z(i[0])), 'r')

    def track(k):
        return SObj(None, {n: SArr((LEN(z(k)),), lambda i, f=f: f(z(k), z(i[0])), 'r') for n, f in (('Longitude', LON), ('Latitude', LAT))})
    tr = PList(n=w.tracks, fn=track)
    o = SObj(ip.func(LC + '::LongitudeCrossing'), {'gateLats': lats, 'gateLons': lons})
    h = ip.call(ip.getattr(o, 'findCrossings'), [tr])
    i = c.int('i')
    c.assume(And(0 <= i, i < w.m - 1))
    for a, k in zip(h, LISTS):
        c.prove('post: rates of the crossings (%s)' % k, eq(a.at(i, w.G), column(k, w.G, i)))
