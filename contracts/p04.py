"""Fits per grid cell of a tile (hazard/__init__.py)."""
import z3
from engine.contract import task
from engine.sym import *
from engine.models import qvar
from engine.solver import walk

H = 'hazard/__init__.py'
E = 'hazard/evd.py'
G = 'hazard/GPD.py'
REC = z3.Function('fit.record', IS, IS, RS)          # fit, position -> record given to the fit
NUM = z3.Function('fit.records', IS, IS)
W = z3.Function('fit.levels', IS, IS, RS)            # fit, return period -> level
P = {n: z3.Function('fit.' + n, IS, RS) for n in ('loc', 'scale', 'shape')}


def bind(ip, f, args, kw, names):
    fn = ip.func(f).node.args
    formal = [a.arg for a in fn.args]
    got = dict(zip(formal, args))
    got.update(kw)
    return [got.get(n) for n in names]


def fit(f, names):
    """contract of a fit: numbers that belong to this fit; the records it was given are on file"""
    def g(ip, args, kw):
        c = ip.ctx
        data, *rest = bind(ip, f, args, kw, names)
        want = c.ghosts['args']
        for n, v in zip(names[1:], rest):
            n = {'years': 'intervals', 'missingValue': 'nodata'}.get(n, n)
            c.prove('pre of fit: %s of the run' % n, v is want[n] if not isz(want[n]) else (v is not None and eq(v, want[n])))
        q = qvar()
        fid = c.int('fit')
        c.assume(NUM(fid) == z(data.shape[0]))
        c.assume(z3.ForAll([q], z(Implies(And(0 <= q, lt(q, data.shape[0])), eq(REC(fid, q), data.at(q)))), patterns=[REC(fid, q)]))
        m = want['intervals'].shape[0]
        return (SArr((m,), lambda i: W(fid, z(i[0])), 'r'),) + tuple(P[x](fid) for x in ('loc', 'scale', 'shape'))
    return g


METHODS = {'GEV': (E + '::gevfit', ('data', 'intervals', 'nodata', 'minrecords', 'yrspersim'), ()),
           'EMP': (E + '::empfit', ('data', 'intervals', 'numsim', 'nodata', 'minrecords'), ('numsim',)),
           'GPD': (G + '::gpdfit', ('data', 'years', 'numsim', 'missingValue', 'minrecords'), ('numsim',)),
           'Power': (E + '::powerfit', ('data', 'intervals', 'numsim', 'nodata', 'minrecords'), ('numsim',))}


def apps(e, f):
    out = {}

    def visit(x):
        if z3.is_app(x) and x.decl().eq(f):
            out[x.get_id()] = x
    walk([z3.simplify(z(e))] if False else [z(e)], visit)
    return list(out.values())


for M, (FIT, NAMES, EXTRA) in METHODS.items():
    @task('P04', '%s at every cell' % M, [H + '::calculate' + M], contracts={FIT: fit(FIT, NAMES)},
          assumes=['a fit is a function of its arguments; stored values are real numbers (single precision storage is not modelled)'])
    def cell(ip, M=M, EXTRA=EXTRA):
        c = ip.ctx
        n, ny, nx, m = [c.input(x, c.int(x)) for x in ('records', 'rows', 'columns', 'periods')]
        c.assume(n >= 1, ny >= 1, nx >= 1, m >= 1)
        V = c.input('Vr', ip.fresh_array((n, ny, nx), 'r', 'Vr'))
        orig = V.snapshot()
        years = ip.fresh_array((m,), 'r', 'years')
        c.ghosts['args'] = a = {'intervals': years, 'numsim': c.int('numsim'), 'nodata': c.real('nodata'), 'minrecords': c.int('minrecords'), 'yrspersim': c.int('yrspersim')}
        args = [V, years] + [a[x] for x in EXTRA] + [a['nodata'], a['minrecords'], a['yrspersim']]
        Rp, loc, scale, shp = ip.call(ip.func(H + '::calculate' + M), args)
        c.prove('post: shapes', And(eq(Rp.shape[0], m), eq(Rp.shape[1], ny), eq(Rp.shape[2], nx), *[And(eq(x.shape[0], ny), eq(x.shape[1], nx)) for x in (loc, scale, shp)]))
        i, j, k, r = [c.input(x, c.int(x)) for x in ('i', 'j', 'k', 'r')]
        c.assume(0 <= i, i < ny, 0 <= j, j < nx, 0 <= k, k < m, 0 <= r, r < n)
        got = [('level', Rp.at(k, i, j), W), ('location', loc.at(i, j), P['loc']), ('scale', scale.at(i, j), P['scale']), ('shape', shp.at(i, j), P['shape'])]
        q = qvar()
        for name, v, f in got:
            c.prove('post: %s of a cell without wind stays zero' % name, Implies(z3.ForAll([q], z(Implies(And(0 <= q, q < n), le(orig((q, i, j)), 0)))), eq(v, 0)))
        terms = [apps(v, f) for name, v, f in got]
        if any(len(t) != 1 for t in terms):
            c.prove('post: the values stored for a cell are those of a fit', not any(len(t) == 0 for t in terms))
            raise Unsupported('several fits per cell')
        fid = terms[0][0].arg(0)
        at = lambda x: REC(fid, z(x))
        s = c.int('s')
        c.assume(0 <= s, s < n)
        wind = lt(0, orig((r, i, j)))
        for (name, v, f), t in zip(got, terms):
            c.prove('post: %s of a cell with wind is that of the fit' % name, Implies(wind, eq(v, f(fid, k) if name == 'level' else f(fid))))
        c.assume(wind)
        c.prove('post: as many records as the cell has', eq(NUM(fid), n))
        c.prove('post: a record of the fit is one of the cell', z3.Exists([q], z(And(0 <= q, q < n, eq(at(s), orig((q, i, j)))))))
        c.prove('post: a record of the cell is one of the fit', z3.Exists([q], z(And(0 <= q, q < n, eq(at(q), orig((r, i, j)))))))
        t = c.int('t')
        c.assume(0 <= t, t <= s)
        c.prove('post: records of the fit ascend', le(at(t), at(s)))
