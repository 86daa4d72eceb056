"""Cumulative distributions and sampling from them."""
import z3
from engine.contract import task
from engine.interp import Loop
from engine.sym import *
from engine.models import qvar, forall, prefix_sum

S = 'Utilities/stats.py'
T = 'TrackGenerator/TrackGenerator.py'
P = 'StatInterface/SamplingParameters.py'
O = 'StatInterface/SamplingOrigin.py'


def density(ip, n):
    c = ip.ctx
    x, y = c.input('x', ip.fresh_array((n,), 'r', 'x')), c.input('y', ip.fresh_array((n,), 'r', 'y'))
    q = qvar()
    c.assume(n >= 2, z3.ForAll([q], z(Implies(And(0 <= q, q < n), le(0, y.at(q))))))
    c.assume(Not(eq(x.at(0), x.at(1))))
    return x, y


def index(ip, name, n, lo=0):
    k = ip.ctx.input(name, ip.ctx.int(name))
    ip.ctx.assume(lo <= k, k < n)
    return k


@task('P17', 'cdf of a density', [S + '::cdf'])
def cdf(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    x, y = density(ip, n)
    oldx, oldy = x.snapshot(), y.snapshot()
    k, l = index(ip, 'k', n), index(ip, 'l', n)
    p = prefix_sum(ip, lambda i: y.at(i), n, 'r')
    r = ip.call(ip.func(S + '::cdf'), [x, y])
    h = absv(x.at(1) - x.at(0))
    c.prove('post: one value per point', eq(r.shape[0], n))
    tot = c.real('total')
    c.assume(tot == p(n))
    mass = Implies(tot > 0, eq(mul(r.at(k), tot), p(k + 1)))
    c.prove('post: the share of the density up to the point', mass)
    c.prove('post: zero if there is no density', Implies(eq(tot, 0), eq(r.at(k), 0)))
    c.prove('post: ends at one', Implies(tot > 0, eq(r.at(n - 1), 1)))
    c.prove('lemma: shares are ordered', Implies(k <= l, le(p(k + 1), p(l + 1))))
    c.assume(k <= l)
    c.prove('post: never decreases', Implies(tot > 0, le(r.at(k), r.at(l))))
    c.prove('post: never negative', le(0, r.at(k)))
    c.prove('post: rises only where there is density', And(Implies(And(l >= 1, lt(r.at(l - 1), r.at(l))), lt(0, y.at(l))), Implies(lt(0, r.at(0)), lt(0, y.at(0)))))
    c.prove('lemma: sum above a term', Implies(lt(0, y.at(l)), And(le(0, p(l)), lt(p(l), p(l + 1)), le(p(l + 1), p(n)))))
    c.prove('post: ends at one if there is density anywhere', Implies(lt(0, y.at(l)), eq(r.at(n - 1), 1)))
    c.prove('frame: arguments unchanged', And(eq(x.at(k), oldx((k,))), eq(y.at(k), oldy((k,)))))


def table(ip, n, lo=0):
    """tabulated cumulative distribution: column 0 values, column 1 nondecreasing to one"""
    c = ip.ctx
    t = ip.fresh_array((n, 2), 'r', 'table')
    p, q = qvar(2)
    c.input('values', SArr((n,), lambda i: t.at(i[0], 0), 'r'))
    c.input('cdf', SArr((n,), lambda i: t.at(i[0], 1), 'r'))
    c.assume(n >= 1, z3.ForAll([p, q], z(Implies(And(0 <= p, p <= q, q < n), le(t.at(p, 1), t.at(q, 1))))), eq(t.at(n - 1, 1), 1), le(0, t.at(0, 1)))
    return t


def quantile(ip, name, value, vals, cum, u, n):
    """value is the tabulated value of the least index whose cumulative probability is not below u"""
    c = ip.ctx
    w = c.input('w', c.int('w'))
    q = qvar()
    c.assume(0 <= w, w < n, le(u, cum(w)), z3.ForAll([q], z(Implies(And(0 <= q, q < w), lt(cum(q), u)))))
    c.prove('post: ' + name, eq(value, vals(w)))


def rand(ip, args, kwargs):
    c = ip.ctx
    u = c.int('draw')
    us = c.ghosts.setdefault('draws', [])
    if not args:
        v = c.input('u%d' % len(us), c.real('u'))
        c.assume(0 < v, v < 1)
        us.append(v)
        return v
    v = ip.fresh_array((args[0],), 'r', 'u')
    q = qvar()
    c.assume(z3.ForAll([q], z(And(lt(0, v.at(q)), lt(v.at(q), 1)))))
    us.append(v)
    c.input('u%d' % (len(us) - 1), v)
    return v


RAND = {'numpy.random.rand': rand}
ASSUME = ['numpy.random.rand returns values strictly between 0 and 1 (the value 0 itself has probability 2**-53)']


@task('P17', 'quantile of a track parameter', [T + '::ppf'])
def ppf(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    t = table(ip, n)
    u = c.input('u', c.real('u'))
    c.assume(0 <= u, u <= 1)
    v = ip.call(ip.func(T + '::ppf'), [u, t])
    quantile(ip, 'value of the least index not below the draw', v, lambda i: t.at(i, 0), lambda i: t.at(i, 1), u, n)


@task('P17', 'one parameter sample', [P + '::SamplingParameters.generateOneSample'], opts={'externals': RAND}, assumes=ASSUME)
def one(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    t = table(ip, n)
    o = SObj(ip.func(P + '::SamplingParameters'), {'xacy': t})
    v = ip.call(ip.getattr(o, 'generateOneSample'), [])
    u = c.ghosts['draws'][0]
    c.prove('post: one uniform draw', len(c.ghosts['draws']) == 1)
    quantile(ip, 'value of the least index not below the draw', v, lambda i: t.at(i, 0), lambda i: t.at(i, 1), u, n)


@task('P17', 'many parameter samples', [P + '::SamplingParameters.generateSamples'], opts={'externals': RAND}, assumes=ASSUME)
def many(ip):
    c = ip.ctx
    n, ns = c.input('n', c.int('n')), c.input('ns', c.int('ns'))
    t = table(ip, n)
    c.assume(ns > 0)
    o = SObj(ip.func(P + '::SamplingParameters'), {'xacy': t})
    v = ip.call(ip.getattr(o, 'generateSamples'), [ns])
    u = c.ghosts['draws'][0]
    c.prove('post: as many samples as asked for', eq(v.shape[0], ns))
    k = index(ip, 'k', ns)
    quantile(ip, 'value of the least index not below its draw', v.at(k), lambda i: t.at(i, 0), lambda i: t.at(i, 1), u.at(k), n)


for R, F_, A in ((P, 'SamplingParameters', 1), (O, 'SamplingOrigin', 2)):
    @task('P17', '%s: number of samples must be positive' % F_, [R + '::%s.generateSamples' % F_], opts={'externals': RAND})
    def rej(ip, R=R, F_=F_):
        c = ip.ctx
        ns = c.input('ns', c.int('ns'))
        c.assume(ns <= 0)
        o = SObj(ip.func(R + '::' + F_), {})
        try:
            ip.call(ip.getattr(o, 'generateSamples'), [ns])
        except PyRaise as e:
            c.prove('post: ValueError', e.name == 'ValueError')
            return
        c.prove('post: rejected', False)


# ---------------------------------------------------------------- genesis location

def cdf_contract(ip, args, kwargs):
    """contract of stats.cdf, proved above"""
    c = ip.ctx
    x, y = args
    n = y.shape[0]
    q, p = qvar(2)
    inside = And(0 <= q, lt(q, n))
    c.prove('pre of cdf: density not negative', z3.ForAll([q], z(Implies(inside, le(0, y.at(q))))))
    c.prove('pre of cdf: at least two points, the first two distinct', And(eq(x.shape[0], n), le(2, n), Not(eq(x.at(0), x.at(1)))))
    r = ip.fresh_array((n,), 'r', 'cdf')
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p <= q, lt(q, n)), le(r.at(p), r.at(q))))), le(0, r.at(0)))
    c.assume(z3.ForAll([q], z(Implies(And(inside, lt(0, y.at(q))), eq(r.at(sub(n, 1)), 1)))))
    c.assume(z3.ForAll([q], z(Implies(And(inside, 1 <= q, lt(r.at(q - 1), r.at(q))), lt(0, y.at(q))))))
    c.assume(Implies(lt(0, r.at(0)), lt(0, y.at(0))))
    return r


@task('P17', 'conditional distributions of the genesis location', [O + '::SamplingOrigin._calculateCDF'],
      contracts={S + '::cdf': cdf_contract})
def calc(ip):
    c = ip.ctx
    nx, ny = c.input('nx', c.int('nx')), c.input('ny', c.int('ny'))
    c.assume(nx >= 2, ny >= 2)
    x, y = c.input('x', ip.fresh_array((nx,), 'r', 'x')), c.input('y', ip.fresh_array((ny,), 'r', 'y'))
    c.assume(Not(eq(x.at(0), x.at(1))), Not(eq(y.at(0), y.at(1))))
    d = c.input('z', ip.fresh_array((ny, nx), 'r', 'z'))
    p, q = qvar(2)
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p < ny, 0 <= q, q < nx), le(0, d.at(p, q))))))
    i0, j0 = index(ip, 'i0', nx), index(ip, 'j0', ny)
    c.assume(lt(0, d.at(j0, i0)))
    # sums over columns: positive exactly if some term is
    px = ip.call(ip.getattr(d, 'sum'), [], {'axis': 0})
    c.prove('lemma: term below the sum', And(le(0, px.sums(i0, j0)), le(px.sums(i0, j0 + 1), px.at(i0))))
    c.prove('lemma: positive sum', lt(0, px.at(i0)))
    c.induct('lemma: a positive sum has a positive term', lambda k: z3.ForAll([q], z(Implies(And(0 <= q, q < nx, lt(0, px.sums(q, k))),
             z3.Exists([p], z(And(0 <= p, lt(p, k), lt(0, d.at(p, q)))))))), ny)
    o = SObj(ip.func(O + '::SamplingOrigin'), {'x': x, 'y': y, 'z': d})
    ip.call(ip.getattr(o, '_calculateCDF'), [])
    cx, cy = o.attrs['cdfX'], o.attrs['cdfY']
    c.prove('post: shapes', And(eq(cx.shape[0], nx), eq(cy.shape[0], nx), eq(cy.shape[1], ny)))
    k, l, i = index(ip, 'k', nx), index(ip, 'l', nx), index(ip, 'i', nx)
    c.prove('post: longitude distribution never decreases', Implies(k <= l, le(cx.at(k), cx.at(l))))
    c.prove('post: longitude distribution ends at one', eq(cx.at(nx - 1), 1))
    e, f = index(ip, 'e', ny), index(ip, 'f', ny)
    c.prove('post: latitude distribution never decreases', Implies(e <= f, le(cy.at(i, e), cy.at(i, f))))
    c.assume(Or(And(eq(i, 0), lt(0, cx.at(0))), And(lt(0, i), lt(cx.at(i - 1), cx.at(i)))))
    c.prove('lemma: mass in the column', lt(0, px.at(i)))
    c.prove('post: latitude distribution ends at one where the longitude has mass', eq(cy.at(i, ny - 1), 1))


def origin(ip):
    c = ip.ctx
    nx, ny = c.input('nx', c.int('nx')), c.input('ny', c.int('ny'))
    c.assume(nx >= 2, ny >= 2)
    x, y = c.input('x', ip.fresh_array((nx,), 'r', 'x')), c.input('y', ip.fresh_array((ny,), 'r', 'y'))
    cx, cy = c.input('cdfX', ip.fresh_array((nx,), 'r', 'cdfX')), c.input('cdfY', ip.fresh_array((nx, ny), 'r', 'cdfY'))
    p, q, i = qvar(3)
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p <= q, q < nx), le(cx.at(p), cx.at(q))))), eq(cx.at(nx - 1), 1), le(0, cx.at(0)))
    c.assume(z3.ForAll([i, p, q], z(Implies(And(0 <= i, i < nx, 0 <= p, p <= q, q < ny), le(cy.at(i, p), cy.at(i, q))))))
    # a column with probability mass has a distribution that ends at one
    c.assume(z3.ForAll([i], z(Implies(And(0 <= i, i < nx, Or(And(eq(i, 0), lt(0, cx.at(0))), And(lt(0, i), lt(cx.at(i - 1), cx.at(i))))), eq(cy.at(i, ny - 1), 1)))))
    o = SObj(ip.func(O + '::SamplingOrigin'), {'x': x, 'y': y, 'cdfX': cx, 'cdfY': cy})
    return o, x, y, cx, cy, nx, ny


def two(ip, what, lon, lat, x, y, cx, cy, u1, u2, nx, ny):
    c = ip.ctx
    w, v = c.input('w', c.int('w')), c.input('v', c.int('v'))
    q, r = qvar(2)
    c.assume(0 <= w, w < nx, le(u1, cx.at(w)), z3.ForAll([q], z(Implies(And(0 <= q, q < w), lt(cx.at(q), u1)))))
    c.assume(0 <= v, v < ny, le(u2, cy.at(w, v)), z3.ForAll([r], z(Implies(And(0 <= r, r < v), lt(cy.at(w, r), u2)))))
    c.prove('post: longitude ' + what, eq(lon, x.at(w)))
    c.prove('post: latitude ' + what, eq(lat, y.at(v)))


for F_ in ('ppf', 'generateOneSample'):
    @task('P17', 'genesis location (%s)' % F_, [O + '::SamplingOrigin.' + F_], opts={'externals': RAND}, assumes=ASSUME)
    def gen(ip, F_=F_):
        c = ip.ctx
        o, x, y, cx, cy, nx, ny = origin(ip)
        if F_ == 'ppf':
            u1, u2 = c.input('u0', c.real('u')), c.input('u1', c.real('u'))
            c.assume(0 < u1, u1 < 1, 0 < u2, u2 < 1)
            lon, lat = ip.call(ip.getattr(o, F_), [u1, u2])
        else:
            lon, lat = ip.call(ip.getattr(o, F_), [])
            d = c.ghosts['draws']
            c.prove('post: two uniform draws', len(d) == 2)
            u1, u2 = d
        two(ip, 'of the least index not below the draw', lon, lat, x, y, cx, cy, u1, u2, nx, ny)


@task('P17', 'genesis locations', [O + '::SamplingOrigin.generateSamples'], opts={'externals': RAND}, assumes=ASSUME)
def gens(ip):
    c = ip.ctx
    o, x, y, cx, cy, nx, ny = origin(ip)
    ns = c.input('ns', c.int('ns'))
    c.assume(ns > 0)
    r = ip.call(ip.getattr(o, 'generateSamples'), [ns])
    c.prove('post: as many samples as asked for', And(eq(r.shape[0], ns), eq(r.shape[1], 2)))
    k = index(ip, 'k', ns)
    d = c.ghosts['draws']
    two(ip, 'of the least index not below the draw', r.at(k, 0), r.at(k, 1), x, y, cx, cy, d[0].at(k), d[1].at(k), nx, ny)


def rows_done(name):
    """the recurrence holds in the rows done, and in this row up to the column done; the edges are kept"""
    def inv(s):
        cz, st = s['cz'], s.ip.st
        st['cz'] = cz
        r = 1 + (s.it if name == 'rows' else s.ip.outer['rows'])
        p, q = qvar(2)
        rec = eq(cz.at(p, q), cz.at(p - 1, q) + cz.at(p, q - 1) - cz.at(p - 1, q - 1) + st['v'](p, q))
        done = lt(p, r) if name == 'rows' else Or(lt(p, r), And(eq(p, r), le(q, s.it)))
        return [('recurrence', z3.ForAll([p, q], z(Implies(And(1 <= p, p < st['nx'], 1 <= q, q < st['ny'], done), rec)))),
                ('first row', z3.ForAll([q], z(Implies(And(1 <= q, q < st['ny']), le(cz.at(0, q - 1), cz.at(0, q)))))),
                ('first column', z3.ForAll([p], z(Implies(And(1 <= p, p < st['nx']), le(cz.at(p - 1, 0), cz.at(p, 0)))))),
                ('corner', le(0, cz.at(0, 0)))]
    return inv


@task('P17', 'two-dimensional distribution', [S + '::cdf2d'], loops={'cdf2d': [Loop(rows_done('rows'), name='rows'), Loop(rows_done('columns'), name='columns')]})
def cdf2(ip):
    c = ip.ctx
    nx, ny = c.input('nx', c.int('nx')), c.input('ny', c.int('ny'))
    c.assume(nx >= 2, ny >= 2)
    x, y = ip.fresh_array((nx,), 'r', 'x'), ip.fresh_array((ny,), 'r', 'y')
    d = ip.fresh_array((nx, ny), 'r', 'z')
    area = c.real('area')
    c.assume(eq(area, mul(absv(sub(x.at(1), x.at(0))), absv(sub(y.at(1), y.at(0))))))
    p, q = qvar(2)
    V = lambda i, j: mul(mul(absv(sub(x.at(1), x.at(0))), absv(sub(y.at(1), y.at(0)))), d.at(i, j))
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p < nx, 0 <= q, q < ny), le(0, V(p, q))))))
    ip.st = {'nx': nx, 'ny': ny, 'v': V}
    r = ip.call(ip.func(S + '::cdf2d'), [x, y, d])
    c.prove('post: one value per point', And(eq(r.shape[0], nx), eq(r.shape[1], ny)))
    cz = ip.st['cz']
    # raw sums: what a row adds to the row above never decreases along the row
    c.induct('lemma: rows are ordered', lambda k: z3.ForAll([p], z(Implies(And(1 <= p, p < nx, lt(k, ny)), le(cz.at(p - 1, k), cz.at(p, k))))), ny - 1)
    c.induct('lemma: columns are ordered', lambda k: z3.ForAll([q], z(Implies(And(1 <= q, q < ny, lt(k, nx)), le(cz.at(k, q - 1), cz.at(k, q))))), nx - 1)
    c.induct('lemma: first column is not negative', lambda k: Implies(lt(k, nx), le(0, cz.at(k, 0))), nx - 1)
    c.induct('lemma: no sum is negative', lambda k: z3.ForAll([p], z(Implies(And(0 <= p, p < nx, lt(k, ny)), le(0, cz.at(p, k))))), ny - 1)
    tot = c.real('total')
    c.assume(eq(tot, cz.at(nx - 1, ny - 1)))
    k, l = index(ip, 'k', nx), index(ip, 'l', ny)
    c.prove('post: the share of the sums', And(Implies(lt(0, tot), eq(mul(r.at(k, l), tot), cz.at(k, l))), le(0, tot)))
    c.prove('post: ends at one', Implies(lt(0, tot), eq(r.at(nx - 1, ny - 1), 1)))
    c.prove('lemma: ordered in both directions', And(Implies(k >= 1, le(cz.at(k - 1, l), cz.at(k, l))), Implies(l >= 1, le(cz.at(k, l - 1), cz.at(k, l)))))
    c.prove('post: never decreases along the first axis', Implies(And(k >= 1, lt(0, tot)), le(r.at(k - 1, l), r.at(k, l))))
    c.prove('post: never decreases along the second axis', Implies(And(l >= 1, lt(0, tot)), le(r.at(k, l - 1), r.at(k, l))))
