"""Tiles of the hazard calculation (hazard/__init__.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar

H = 'hazard/__init__.py'
TG = H + '::TileGrid'


def monotone(ip, name, n, up):
    c = ip.ctx
    a = c.input(name, ip.fresh_array((n,), 'r', name))
    p, q = qvar(2)
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p < q, q < n), lt(a.at(p), a.at(q)) if up else lt(a.at(q), a.at(p))))))
    return a


for UP in (True, False):
    @task('P01', 'points of the region, %s latitudes' % ('ascending' if UP else 'descending'), [TG + '.__init__'],
          contracts={TG + '.tileGrid': lambda ip, a, k: None},
          assumes=['longitudes ascend and latitudes are monotone in a wind field file',
                   'a point belongs to the region if its coordinate rounded to a thousandth of a degree lies between the rounded limits'])
    def region(ip, UP=UP):
        c = ip.ctx
        nx, ny = c.input('nx', c.int('nx')), c.input('ny', c.int('ny'))
        c.assume(nx >= 1, ny >= 1)
        lon, lat = monotone(ip, 'lon', nx, True), monotone(ip, 'lat', ny, UP)
        lim = {k: c.input(k, c.real(k)) for k in ('xMin', 'xMax', 'yMin', 'yMax')}
        R = lambda v: rnd(mul(v, 1000))
        inx = lambda k: And(le(R(lim['xMin']), R(lon.at(k))), le(R(lon.at(k)), R(lim['xMax'])))
        iny = lambda k: And(le(R(lim['yMin']), R(lat.at(k))), le(R(lat.at(k)), R(lim['yMax'])))
        # the region holds at least one point
        i0, j0 = c.input('i0', c.int('i0')), c.input('j0', c.int('j0'))
        c.assume(0 <= i0, i0 < nx, 0 <= j0, j0 < ny, inx(i0), iny(j0))
        o = SObj(ip.func(TG), {})
        xs, ys = c.int('xstep'), c.int('ystep')
        ip.call(ip.getattr(ip.func(TG), '__init__'), [o, PDict(dict(lim)), lon, lat, xs, ys])
        A = o.attrs
        k = c.input('k', c.int('k'))
        for nm, lo, hi, n, a, inside in (('longitude', A['imin'], A['imax'], nx, lon, inx), ('latitude', A['jmin'], A['jmax'], ny, lat, iny)):
            c.prove('post: %s range inside the grid' % nm, And(le(0, lo), le(lo, hi), lt(hi, n)))
            c.prove('post: %s of a region point in range' % nm, Implies(And(0 <= k, k < n, inside(k)), And(le(lo, k), le(k, hi))))
            c.prove('lemma: ends inside (%s)' % nm, And(inside(lo), inside(hi)))
            for p, q in ((lo, k), (k, hi)):
                u, v = a.at(p), a.at(q)
                c.prove('lemma: rounding keeps the order (%s)' % nm, And(Implies(le(u, v), le(R(u), R(v))), Implies(le(v, u), le(R(v), R(u)))))
            c.prove('lemma: order (%s)' % nm, Implies(And(le(lo, k), le(k, hi)),
                    Or(And(le(a.at(lo), a.at(k)), le(a.at(k), a.at(hi))), And(le(a.at(hi), a.at(k)), le(a.at(k), a.at(lo))))))
            c.prove('post: %s in range is of the region' % nm, Implies(And(le(lo, k), le(k, hi)), inside(k)))
        c.prove('post: size', And(eq(A['xdim'], A['imax'] - A['imin'] + 1), eq(A['ydim'], A['jmax'] - A['jmin'] + 1), eq(A['xstep'], xs), eq(A['ystep'], ys)))


def spec(g, a, b):
    """limits of the tile in tile column a and tile row b"""
    x0, y0 = a * g.xs + g.imin, b * g.ys + g.jmin
    return x0, minv((a + 1) * g.xs + g.imin, g.xdim + g.imin) - 1, y0, minv((b + 1) * g.ys + g.jmin, g.ydim + g.jmin) - 1


class G:
    pass


def numbers(ip):
    c = ip.ctx
    g = G()
    g.xdim, g.ydim, g.xs, g.ys, g.imin, g.jmin = [c.input(n, c.int(n)) for n in ('xdim', 'ydim', 'xstep', 'ystep', 'imin', 'jmin')]
    c.assume(g.xdim >= 1, g.ydim >= 1, g.xs >= 1, g.ys >= 1, g.imin >= 0, g.jmin >= 0)
    g.cols, g.rows = c.int('cols'), c.int('rows')
    c.assume((g.cols - 1) * g.xs < g.xdim, g.xdim <= g.cols * g.xs, (g.rows - 1) * g.ys < g.ydim, g.ydim <= g.rows * g.ys)
    c.prove('lemma: at least one tile', And(g.cols >= 1, g.rows >= 1))
    # tile number -> (column, row), columns outermost
    g.A, g.B = c.func('column', IS, IS), c.func('row', IS, IS)
    q = qvar()
    c.assume(z3.ForAll([q], z3.Implies(q >= 0, z3.And(q == g.A(q) * g.rows + g.B(q), 0 <= g.B(q), g.B(q) < g.rows, g.A(q) >= 0)), patterns=[g.A(q)]))
    return g


NAMES = ('x_start', 'x_end', 'y_start', 'y_end')


def filled(s, g, upto):
    q = qvar()
    o = s['self'].attrs
    vals = spec(g, g.A(q), g.B(q))
    return z3.ForAll([q], z(Implies(And(0 <= q, q < z(upto)), And(*[eq(o[n].at(q), v) for n, v in zip(NAMES, vals)]))), patterns=[g.A(q)])


@task('P01', 'limits of every tile', [TG + '.tileGrid', TG + '.getGridLimit', H + '::getTiles', H + '::getTileLimits'], deadline=400)
def tiles(ip):
    c = ip.ctx
    g = numbers(ip)
    o = SObj(ip.func(TG), {'xdim': g.xdim, 'ydim': g.ydim, 'xstep': g.xs, 'ystep': g.ys, 'imin': g.imin, 'jmin': g.jmin})

    for n, d, m in ((g.cols, g.xs, g.xdim), (g.rows, g.ys, g.ydim)):
        r = truediv(m, toreal(d))
        c.prove('lemma: quotient', And(le(r, toreal(n)), lt(toreal(n - 1), r)))
        c.prove('lemma: number of tiles rounds up', eq(n, neg(floor(neg(r)))))
    out = lambda s: s.ip.outer['columns']
    ip.loops['TileGrid.tileGrid'] = [
        Loop(inv=lambda s: [('tile number', eq(s['k'], s.it * g.rows)), ('columns', eq(s.n, g.cols)), ('tiles so far', filled(s, g, s.it * g.rows))],
             name='columns', facts=lambda s: step(s)),
        Loop(inv=lambda s: [('tile number', eq(s['k'], out(s) * g.rows + s.it)), ('rows', eq(s.n, g.rows)), ('tiles so far', filled(s, g, out(s) * g.rows + s.it))],
             name='rows', facts=lambda s: uniq(s, g))]

    def step(s):
        c.prove('lemma: columns left', Implies(lt(s.it, g.cols), And(le(0, s.it * g.rows), le(s.it * g.rows + g.rows, g.cols * g.rows), eq((s.it + 1) * g.rows, s.it * g.rows + g.rows))))
        return True

    def uniq(s, g):
        i, j = out(s), s.it
        k = i * g.rows + j
        c.prove('lemma: quotient', Implies(And(j < g.rows, j >= 0, i >= 0, g.rows >= 1), And(g.A(k) == i, g.B(k) == j)))
        return True
    ip.call(ip.getattr(o, 'tileGrid'), [])
    c.prove('post: number of tiles', eq(o.attrs['num_tiles'], g.cols * g.rows))
    t = c.input('t', c.int('t'))
    c.assume(0 <= t, t < g.cols * g.rows)
    vals = spec(g, g.A(t), g.B(t))
    for n, v in zip(NAMES, vals):
        c.prove('post: %s of tile t' % n, eq(o.attrs[n].at(t), v))
    r = ip.call(ip.getattr(o, 'getGridLimit'), [t])
    c.prove('post: limits of tile t', And(eq(r[0], vals[0]), eq(r[1], vals[1] + 1), eq(r[2], vals[2]), eq(r[3], vals[3] + 1)))
    ts = ip.call(ip.func(H + '::getTiles'), [o])
    c.prove('post: one entry per tile', eq(ts.length(), g.cols * g.rows))
    e = ts.at(t)
    c.prove('post: entry t is tile t', And(*[eq(a, b) for a, b in zip(e, r)]))


@task('P01', 'every point in exactly one tile', [TG + '.tileGrid'])
def cover(ip):
    """consequence of the limits proved above"""
    c = ip.ctx
    g = numbers(ip)
    x, y = c.input('x', c.int('x')), c.input('y', c.int('y'))
    c.assume(g.imin <= x, x < g.imin + g.xdim, g.jmin <= y, y < g.jmin + g.ydim)
    a, b = c.int('a'), c.int('b')
    # tile column and row of the point (Euclidean division)
    c.assume(a * g.xs <= x - g.imin, x - g.imin < a * g.xs + g.xs, b * g.ys <= y - g.jmin, y - g.jmin < b * g.ys + g.ys)
    c.prove('lemma: column in range', And(0 <= a, a < g.cols))
    c.prove('lemma: row in range', And(0 <= b, b < g.rows))
    c.prove('lemma: tile number in range', And(0 <= a * g.rows + b, a * g.rows + b < g.cols * g.rows))

    def inside(a, b):
        x1, x2, y1, y2 = spec(g, a, b)
        return And(x1 <= x, le(x, x2), y1 <= y, le(y, y2))
    c.prove('post: the point is in its tile', inside(a, b))
    d, e = c.input('d', c.int('d')), c.input('e', c.int('e'))
    c.assume(0 <= d, d < g.cols, 0 <= e, e < g.rows)
    c.prove('lemma: other column', Implies(d != a, Or(x < d * g.xs + g.imin, x >= (d + 1) * g.xs + g.imin)))
    c.prove('lemma: other row', Implies(e != b, Or(y < e * g.ys + g.jmin, y >= (e + 1) * g.ys + g.jmin)))
    c.prove('post: in no other tile', Implies(Or(d != a, e != b), Not(inside(d, e))))
    x1, x2, y1, y2 = spec(g, d, e)
    c.prove('lemma: tile start inside the region', And(0 <= d * g.xs, d * g.xs < g.xdim, 0 <= e * g.ys, e * g.ys < g.ydim))
    c.prove('post: tile inside the region and not empty', And(g.imin <= x1, x1 <= x2, x2 < g.imin + g.xdim, g.jmin <= y1, y1 <= y2, y2 < g.jmin + g.ydim))


from contracts import tiles as tl

for CI in (False, True):
    @task('P01', 'results stored at the points of their tile%s' % (', with confidence intervals' if CI else ''), [tl.HC + '.dumpHazardFromTiles'],
          contracts=tl.CALC, assumes=[tl.SAME])
    def store(ip, CI=CI):
        tl.serial(ip, CI)
