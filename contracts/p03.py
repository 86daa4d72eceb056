"""Return levels of the block-maxima and peaks-over-threshold fits (hazard/evd.py, hazard/GPD.py)."""
import z3
from engine.contract import task
from engine.interp import Loop
from engine.sym import *
from engine.models import qvar

E = 'hazard/evd.py'
G = 'hazard/GPD.py'
L = 'Utilities/lmomentFit.py'


# ---------------------------------------------------------------- L-moment estimators as contracts

def samlmu(ip, args, kw):
    """any three numbers: the fit may not rely on more"""
    c = ip.ctx
    c.prove('pre of samlmu: three L-moments asked for', eq(args[1], 3))
    c.ghosts['moments'] = m = [c.input(n, c.real(n)) for n in ('l1', 'l2', 't3')]
    a = SArr((3,), lambda i: ite(eq(i[0], 0), m[0], ite(eq(i[0], 1), m[1], m[2])), 'r')
    c.ghosts['sampled'] = args[0]
    return a


def pelgev(ip, args, kw):
    """contract of pelgev, proved below: the scale is positive where the shape is"""
    c = ip.ctx
    x = args[0]
    get = (lambda i: x.at(i)) if isinstance(x, SArr) else (lambda i: x.get(i) if hasattr(x, 'get') else x[i])
    m = c.ghosts['moments']
    c.prove('pre of pelgev: second L-moment positive', lt(0, m[1]))
    c.prove('pre of pelgev: L-skewness less than one in size', And(lt(-1, m[2]), lt(m[2], 1)))
    c.ghosts['pars'] = p = [c.input(n, c.real(n)) for n in ('loc', 'scale', 'shape')]
    c.assume(Implies(lt(0, p[2]), lt(0, p[1])))
    return SArr((3,), lambda i: ite(eq(i[0], 0), p[0], ite(eq(i[0], 1), p[1], p[2])), 'r')


@task('P03', 'GEV parameters from L-moments', [L + '::pelgev'], opts={'check_div': False}, loops={'pelgev': [Loop(name='newton', inv=lambda s: [])]},
      assumes=['the gamma function is positive for positive arguments', 'denominators of the Newton iteration are not zero'])
def pel(ip):
    c = ip.ctx
    l1, l2, t3 = [c.input(n, c.real(n)) for n in ('l1', 'l2', 't3')]
    c.assume(lt(0, l2), lt(-1, t3), lt(t3, 1))
    r = ip.call(ip.func(L + '::pelgev'), [PList([l1, l2, t3])])
    c.prove('post: three parameters', eq(r.shape[0], 3))
    c.prove('post: positive scale where the shape is positive', Implies(lt(0, r.at(2)), lt(0, r.at(1))))


@task('P03', 'GEV return levels', [E + '::gevfit'], contracts={L + '::samlmu': samlmu, L + '::pelgev': pelgev},
      assumes=['the L-moment estimators return finite numbers; the lmoments package, if installed, obeys the contracts proved of Utilities/lmomentFit.py',
               'return levels are finite real numbers'])
def gev(ip):
    c = ip.ctx
    n, m = c.input('n', c.int('n')), c.input('m', c.int('m'))
    c.assume(n >= 1, m >= 1)
    data, per = c.input('data', ip.fresh_array((n,), 'r', 'data')), c.input('intervals', ip.fresh_array((m,), 'r', 'intervals'))
    nod, mr, yps = c.input('nodata', c.real('nodata')), c.input('minrecords', c.int('minrecords')), c.input('yrspersim', c.real('yrspersim'))
    q = qvar()
    c.assume(yps > 0, z3.ForAll([q], z(lt(yps, per.at(q)))), mr >= 1, nod <= 0)
    old, oldp = data.snapshot(), per.snapshot()
    w, loc, scale, shp = ip.call(ip.func(E + '::gevfit'), [data, per, nod, mr, yps])
    c.prove('post: one level per return period', eq(w.shape[0], m))
    k, l = c.input('k', c.int('k')), c.input('l', c.int('l'))
    c.assume(0 <= k, k < m, 0 <= l, l < m)
    fitted = 'pars' in c.ghosts
    if fitted:
        p = c.ghosts['pars']
        c.prove('post: parameters are those of the fit', And(eq(loc, p[0]), eq(scale, p[1]), eq(shp, p[2])))
        c.prove('post: no level for a shape that is not positive', Implies(le(p[2], 0), eq(w.at(k), nod)))
        red = lambda t: POW(z(mul(-1, mfun('log', sub(1, truediv(yps, t))))), z(p[2]))
        c.prove('post: level of the fitted distribution', Implies(lt(0, p[2]), eq(w.at(k), add(p[0], mul(truediv(p[1], p[2]), sub(1, red(per.at(k))))))))
        c.assume(lt(0, p[2]))
        tk, tl = c.real('tk'), c.real('tl')
        c.assume(eq(tk, per.at(k)), eq(tl, per.at(l)), tk < tl)
        yk, yl = c.real('yk'), c.real('yl')
        c.assume(eq(yk, sub(1, truediv(yps, tk))), eq(yl, sub(1, truediv(yps, tl))))
        c.prove('lemma: the chance of no exceedance grows with the period', And(0 < yk, yk < yl, yl < 1))
        c.prove('lemma: the reduced variate falls', lt(POW(-F['log'](yl), z(p[2])), POW(-F['log'](yk), z(p[2]))))
        c.prove('lemma: same reduced variates', And(eq(red(tk), POW(-F['log'](yk), z(p[2]))), eq(red(tl), POW(-F['log'](yl), z(p[2])))))
        c.prove('post: levels never fall with the return period', le(w.at(k), w.at(l)))
    else:
        c.prove('post: no level without a fit', eq(w.at(k), nod))
        c.prove('post: no parameters without a fit', And(eq(loc, nod), eq(scale, nod), eq(shp, nod)))
    if 'sampled' in c.ghosts:
        d = c.ghosts['sampled']
        c.prove('post: the moments are those of all records', And(eq(d.shape[0], n), z3.ForAll([q], z(Implies(And(0 <= q, q < n), eq(d.at(q), old((q,))))))))
        c.prove('post: the fit has the required number of records with wind', z3.Exists([q], z(And(0 <= q, q < n, lt(0, old((q,)))))))
    i = c.int('i')
    c.assume(0 <= i, i < n)
    c.prove('frame: records unchanged', eq(data.at(i), old((i,))))
    c.prove('frame: return periods unchanged', eq(per.at(k), oldp((k,))))


@task('P03', 'no fit without wind', [E + '::gevfit'], contracts={L + '::samlmu': samlmu, L + '::pelgev': pelgev})
def nowind(ip):
    c = ip.ctx
    n, m, k = c.input('n', c.int('n')), c.input('m', c.int('m')), c.input('k', c.int('k'))
    c.assume(n >= 1, 0 <= k, k < m)
    data, per = c.func('data', IS, RS), c.input('intervals', ip.fresh_array((m,), 'r', 'intervals'))
    f = data
    data = c.input('data', SArr((n,), lambda i: neg(absv(f(z(i[0])))), 'r'))
    nod, mr = c.input('nodata', c.real('nodata')), c.input('minrecords', c.int('minrecords'))
    q = qvar()
    c.assume(nod <= 0, z3.ForAll([q], z(lt(1, per.at(q)))))
    w, loc, scale, shp = ip.call(ip.func(E + '::gevfit'), [data, per, nod, mr])
    c.prove('post: fill value everywhere', And(eq(w.at(k), nod), eq(loc, nod), eq(scale, nod), eq(shp, nod)))


@task('P03', 'no fit with too few records', [E + '::gevfit'], contracts={L + '::samlmu': samlmu, L + '::pelgev': pelgev})
def few(ip):
    c = ip.ctx
    n, m, k = c.input('n', c.int('n')), c.input('m', c.int('m')), c.input('k', c.int('k'))
    c.assume(n >= 1, 0 <= k, k < m)
    data, per = c.input('data', ip.fresh_array((n,), 'r', 'data')), c.input('intervals', ip.fresh_array((m,), 'r', 'intervals'))
    nod, mr = c.input('nodata', c.real('nodata')), c.input('minrecords', c.int('minrecords'))
    q = qvar()
    c.assume(nod <= 0, mr > n, z3.ForAll([q], z(lt(1, per.at(q)))))
    w, loc, scale, shp = ip.call(ip.func(E + '::gevfit'), [data, per, nod, mr])
    c.prove('post: fill value everywhere', And(eq(w.at(k), nod), eq(loc, nod), eq(scale, nod), eq(shp, nod)))


# ---------------------------------------------------------------- peaks over threshold

def gpdpars(ip):
    c = ip.ctx
    mu, sh, sc, ra, ny = [c.input(n, c.real(n)) for n in ('mu', 'shape', 'scale', 'rate', 'npyr')]
    c.assume(sh != 0, sc > 0, ra > 0, ny > 0)
    return mu, sh, sc, ra, ny


@task('P03', 'recurrence interval of a return level', [G + '::gpdReturnLevel', G + '::gpdRecurrenceIntervals'])
def inv1(ip):
    c = ip.ctx
    p = gpdpars(ip)
    t = c.input('t', c.real('t'))
    c.assume(t > 0)
    v = ip.call(ip.func(G + '::gpdReturnLevel'), [t] + list(p))
    x = c.real('x')
    c.assume(x == t * p[4] * p[3])
    c.prove('lemma: exceedances in the interval', x > 0)
    lev = add(p[0], mul(truediv(p[2], p[1]), sub(POW(x, p[1]), 1)))
    c.prove('post: level of the fitted distribution', eq(v, lev))
    u = c.real('u')
    c.assume(u == lev)
    r = ip.call(ip.func(G + '::gpdRecurrenceIntervals'), [u] + list(p))
    b = c.real('b')
    c.assume(eq(b, add(mul(sub(u, p[0]), truediv(p[1], p[2])), 1)))
    c.prove('lemma: inner term', b == POW(x, p[1]))
    c.prove('lemma: root', eq(POW(b, z(truediv(1, p[1]))), x))
    c.prove('post: the interval it was computed for', eq(r, t))


@task('P03', 'return level of a recurrence interval', [G + '::gpdReturnLevel', G + '::gpdRecurrenceIntervals'])
def inv2(ip):
    c = ip.ctx
    p = gpdpars(ip)
    u, b = c.input('u', c.real('u')), c.real('b')
    c.assume(eq(b, add(mul(sub(u, p[0]), truediv(p[1], p[2])), 1)), b > 0)
    r = ip.call(ip.func(G + '::gpdRecurrenceIntervals'), [u] + list(p))
    y = c.real('y')
    c.assume(eq(y, POW(b, z(truediv(1, p[1])))))
    c.prove('post: interval of the fitted distribution', eq(mul(r, mul(p[4], p[3])), y))
    t = c.real('t')
    c.assume(eq(t, truediv(y, mul(p[4], p[3]))))
    v = ip.call(ip.func(G + '::gpdReturnLevel'), [t] + list(p))
    x = c.real('x')
    c.assume(x == t * p[4] * p[3])
    c.prove('lemma: exceedances in the interval', x == y)
    c.prove('lemma: power', POW(x, p[1]) == b)
    c.prove('post: the level it was computed for', eq(v, u))


def gpd_task(R, name):
    def percentile(ip, args, kw):
        ip.ctx.ghosts['thr'] = v = ip.ctx.real('threshold')
        return v

    def fit(ip, args, kw):
        c = ip.ctx
        sh, lo, sc = c.input('shape', c.real('shape')), c.input('location', c.real('location')), c.input('scale', c.real('scale'))
        c.ghosts['fit'] = (sh, lo, sc)
        if c.branch(c.bool('converges')):
            c.ghosts['ok'] = True
            c.assume(sh != 0)
            return (sh, lo, sc)
        raise PyRaise('Exception')

    @task('P03', '%s: rejected fits' % name, [R + '::gpdfit'], opts={'externals': {'scipy.stats.scoreatpercentile': percentile, 'scipy.stats.genpareto.fit': fit}},
          assumes=['genpareto.fit raises or returns three finite numbers with non-zero shape', 'the number of records fits the simulated days'])
    def gpd(ip):
        c = ip.ctx
        n, m, k = c.input('n', c.int('n')), c.input('m', c.int('m')), c.input('k', c.int('k'))
        c.assume(n >= 1, 0 <= k, k < m)
        data, per = c.input('data', ip.fresh_array((n,), 'r', 'data')), c.input('intervals', ip.fresh_array((m,), 'r', 'intervals'))
        nod, mr, ns = c.input('nodata', c.real('nodata')), c.input('minrecords', c.int('minrecords')), c.input('numsim', c.int('numsim'))
        c.assume(ns >= 1, n <= 365 * ns)
        ip.contracts[R + '::gpdReturnLevel'] = lev
        old = data.snapshot()
        w, loc, scale, shp = ip.call(ip.func(R + '::gpdfit'), [data, per, ns, nod, mr])
        c.prove('post: one level per return period', eq(w.shape[0], m))
        fill = And(eq(w.at(k), nod), eq(loc, nod), eq(scale, nod), eq(shp, nod))
        if not c.ghosts.get('ok'):
            c.prove('post: fill value without a fit', fill)
            c.prove('post: a fit is attempted for enough records', Implies(mr <= n, 'fit' in c.ghosts))
        else:
            sh, lo, sc = c.ghosts['fit']
            c.prove('post: too few records are not fitted', mr <= n)
            c.prove('post: fill value for a heavy tail', Implies(lt(0, sh), fill))
            c.prove('post: level and parameters of an accepted fit', Implies(lt(sh, 0), And(eq(loc, lo), eq(scale, sc), eq(shp, sh), eq(w.at(k), c.ghosts['lev'](per.at(k))))))
            a = c.ghosts['levargs']
            c.prove('post: level of the fitted parameters', And(eq(a[0], c.ghosts['thr']), eq(a[1], sh), eq(a[2], sc)))
        i = c.int('i')
        c.assume(0 <= i, i < n)
        c.prove('frame: records unchanged', eq(data.at(i), old((i,))))

    def lev(ip, args, kw):
        """contract of gpdReturnLevel: one level per interval (its formula is proved above)"""
        c = ip.ctx
        f = c.func('level', RS, RS)
        c.ghosts['lev'] = lambda t: f(z(toreal(t)))
        c.ghosts['levargs'] = args[1:]
        return SArr(args[0].shape, lambda i: f(z(toreal(args[0].at(i[0])))), 'r')


gpd_task(G, 'GPD module')
gpd_task(E, 'extreme value module')


@task('P03', 'GPD return level in the extreme value module', [E + '::gpdReturnLevel', G + '::gpdReturnLevel'])
def same(ip):
    c = ip.ctx
    p = gpdpars(ip)
    t = c.input('t', c.real('t'))
    c.assume(t > 0)
    c.prove('post: same level in both modules', eq(ip.call(ip.func(E + '::gpdReturnLevel'), [t] + list(p)), ip.call(ip.func(G + '::gpdReturnLevel'), [t] + list(p))))
    c.prove('post: same level with the default observations per year', eq(ip.call(ip.func(E + '::gpdReturnLevel'), [t] + list(p[:4])), ip.call(ip.func(G + '::gpdReturnLevel'), [t] + list(p[:4]))))
    s = c.input('s', c.real('s'))
    c.assume(t < s, p[4] == Fraction('365.25'))
    x, y = c.real('x'), c.real('y')
    c.assume(x == t * p[4] * p[3], y == s * p[4] * p[3])
    c.prove('lemma: more exceedances', And(0 < x, x < y))
    a, b = [add(p[0], mul(truediv(p[2], p[1]), sub(POW(v, p[1]), 1))) for v in (x, y)]
    c.prove('lemma: levels', And(eq(ip.call(ip.func(E + '::gpdReturnLevel'), [t] + list(p)), a), eq(ip.call(ip.func(E + '::gpdReturnLevel'), [s] + list(p)), b)))
    c.prove('lemma: powers', And(Implies(p[1] > 0, POW(x, p[1]) < POW(y, p[1])), Implies(p[1] < 0, POW(x, p[1]) > POW(y, p[1]))))
    c.prove('post: levels grow with the return period', lt(a, b))
