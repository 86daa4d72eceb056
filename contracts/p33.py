"""Time steps of a storm handed on to the recorder of the wind field (wind/__init__.py, wind/writer.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar, arr, b_round
from contracts import p05

W, R = 'wind/__init__.py', 'wind/writer.py'
WR = R + '::WriteFoliationCallback'
DATE = z3.Function('date', IS, IS)


# -- time steps handed on ----------------------------------------------------------------------------------------------------
def handed(ip, domain, recorder):
    c = ip.ctx
    o, lim, lo, gm, st, n, lon, lat = p05.setting(ip, domain)
    g = ip.geo
    o.attrs['track'].attrs['Datetime'] = SArr((n,), lambda k: DATE(z(k[0])), 'i')
    seen = []
    c.ghosts['calls'], c.ghosts['closed'] = 0, 0

    def back(ip, a, k):
        if k or len(a) != 7:
            raise Unsupported('arguments of the function called at each time step')
        date, gust, u, v, p, X, Y = a
        c = ip.ctx
        s = seen[0].at(c.ghosts['calls'])
        j, i = c.int('j'), c.int('i')
        jlo, ilo = g.row(s), g.col(s)
        cell = And(0 <= j, lt(j, g.ext[0]), 0 <= i, lt(i, g.ext[1]))
        at = p05.spec(ip, s, add(jlo, j), add(ilo, i))
        c.prove('date of the time step', eq(date, DATE(z(s))))
        c.prove('coordinates for every row and column of the field', And(eq(X.shape[0], g.ext[1]), eq(Y.shape[0], g.ext[0])))
        c.prove('longitudes of the grid points the field is placed at', Implies(cell, eq(mul(100, X.at(i)), add(sub(lo['xMin'], gm), mul(add(ilo, i), st)))))
        c.prove('latitudes of the grid points the field is placed at', Implies(cell, eq(mul(100, Y.at(j)), add(sub(lo['yMin'], gm), mul(add(jlo, j), st)))))
        for name, x, y in (('gust', gust, at[1]), ('eastward component', u, at[2]), ('northward component', v, at[3]), ('pressure', p, at[5])):
            c.prove(name + ' of the time step', Implies(cell, eq(x.at(j, i), y)))
        c.ghosts['calls'] = add(c.ghosts['calls'], 1)

    def inv(S):
        if not seen:
            seen.append(S.seq)
        return [('one call for each time step so far', eq(S.ctx.ghosts['calls'], S.it)), ('file open', eq(S.ctx.ghosts['closed'], 0))]

    def close(ip, a, k):
        ip.ctx.ghosts['closed'] = add(ip.ctx.ghosts['closed'], 1)
    ip.loops['WindfieldAroundTrack.regionalExtremes'] = [Loop(inv, name='times')]
    call = SObj(ip.func(WR) if recorder else None, {'__call__': Native(back), 'ds': SObj(None, {'close': Native(close)})})
    ip.call(ip.getattr(o, 'regionalExtremes'), [PDict(lim), call])
    q, k = c.int('q'), qvar()
    here = And(0 <= q, lt(q, n), le(lim['xMin'], lon.at(q)), le(lon.at(q), lim['xMax']), le(lim['yMin'], lat.at(q)), le(lat.at(q), lim['yMax']))
    t = seen[0]
    c.prove('post: every time step in the region is handed on', Implies(here, z3.Exists([k], z(And(0 <= k, lt(k, c.ghosts['calls']), eq(t.at(k), q))))))
    a, b = c.int('a'), c.int('b')
    c.prove('post: in the order of time', Implies(And(0 <= a, lt(a, b), lt(b, c.ghosts['calls'])), lt(t.at(a), t.at(b))))
    c.prove('post: file closed after the last time step', eq(c.ghosts['closed'], 1 if recorder else 0))


KW = dict(contracts={W + '::WindfieldAroundTrack.localWindField': p05.field, 'Utilities/metutils.py::convert': lambda ip, a, k: ip.ctx.ghosts['env']},
          opts=p05.OPTS, assumes=p05.ASSUME, deadline=400)


@task('P33', 'time steps handed on, field around the storm', p05.REGION, **KW)
def bounded(ip):
    handed(ip, 'bounded', True)


@task('P33', 'time steps handed on, field over the whole region', p05.REGION, **KW)
def full(ip):
    handed(ip, 'full', False)


# -- the recorder ------------------------------------------------------------------------------------------------------------
class Map:
    """x -> a x + c, y -> e y + f"""

    def __init__(self, a, c, e, f):
        self.a, self.c, self.e, self.f = a, c, e, f

    def obj(self):
        return SObj('affine', {'m': self, '__mul__': Native(self.mul), '__invert__': Native(self.inverse)})

    def mul(self, ip, args, kw):
        b = args[0]
        if isinstance(b, SObj) and isinstance(b.attrs.get('m'), Map):
            b = b.attrs['m']
            return Map(mul(self.a, b.a), add(mul(self.a, b.c), self.c), mul(self.e, b.e), add(mul(self.e, b.f), self.f)).obj()
        if not isinstance(b, tuple) or len(b) != 2:
            raise Unsupported('affine map applied to something else')
        return (add(mul(self.a, b[0]), self.c), add(mul(self.e, b[1]), self.f))

    def inverse(self, ip, args, kw):
        ip.defined('scale not zero', And(ne(self.a, 0), ne(self.e, 0)), None, 'ZeroDivisionError')
        return Map(truediv(1, self.a), neg(truediv(self.c, self.a)), truediv(1, self.e), neg(truediv(self.f, self.e))).obj()


def ne(a, b):
    return Not(eq(a, b))


def translation(ip, a, k):
    x, y = (list(a) + [None, None])[:2]
    return Map(1, k.get('xoff', x), 1, k.get('yoff', y)).obj()


def scale(ip, a, k):
    return Map(a[0], 0, a[1] if len(a) > 1 else a[0], 0).obj()


AFF = ('an affine map is composed, inverted and applied as the package affine documents',)
OPTS = {'externals': {'affine.Affine.translation': translation, 'affine.Affine.scale': scale, 'numpy.rint': lambda ip, a, k: b_round(ip, [arr(ip, a[0])], {}),
                      'netCDF4.date2num': lambda ip, a, k: ('number', a[0], a[1] if len(a) > 1 else k.get('units')),
                      'netCDF4._netCDF4.date2num': lambda ip, a, k: ('number', a[0], a[1] if len(a) > 1 else k.get('units'))}}


def variable(ip, name, log):
    return SObj(None, {'__setitem__': Native(lambda ip, a, k: log.append((name, a[0], a[1]))), '__len__': Native(lambda ip, a, k: ip.ctx.ghosts['layers']), 'name': name})


@task('P33', 'one layer', [WR + '.__call__'], opts=OPTS, assumes=AFF)
def layer(ip):
    c = ip.ctx
    log, passed = [], []
    x0, y0, res = c.input('x0', c.real('x0')), c.input('y0', c.real('y0')), c.input('res', c.real('res'))
    i0, j0, w, h = [c.input(k, c.int(k)) for k in ('i0', 'j0', 'w', 'h')]
    t = c.ghosts['layers'] = c.input('layers', c.int('layers'))
    c.assume(And(res > 0, 0 <= i0, 0 <= j0, w >= 1, h >= 1, t >= 0))
    X = SArr((w,), lambda k: add(x0, mul(add(i0, k[0]), res)), 'r')
    Y = SArr((h,), lambda k: add(y0, mul(add(j0, k[0]), res)), 'r')
    F = [ip.fresh_array((h, w), 'r', n) for n in ('gust', 'u', 'v', 'p')]
    V = {n: variable(ip, n, log) for n in ('time', 'speed', 'Ux', 'Uy', 'P')}
    V['time'].attrs['units'] = 'units so far'
    date = SObj(None, {'strftime': Native(lambda ip, a, k: 'day ' + a[0])})
    synced = []
    o = SObj(ip.func(WR), {**V, 'affine': Map(truediv(1, res), neg(truediv(x0, res)), truediv(1, res), neg(truediv(y0, res))).obj(),
                           'ds': SObj(None, {'sync': Native(lambda ip, a, k: synced.append(len(log)))})})
    wrap = c.int('wrapped')
    given = c.branch(eq(wrap, 1))
    o.attrs['callback'] = Native(lambda ip, a, k: passed.append((a, k))) if given else None
    ip.call(o, [date] + F + [X, Y])
    if given:
        ok = len(passed) == 1 and not passed[0][1] and len(passed[0][0]) == 7 and all(p is q for p, q in zip(passed[0][0], [date] + F + [X, Y]))
        c.prove('post: handed on unchanged once', ok)
    for name, f in zip(('speed', 'Ux', 'Uy', 'P'), F):
        put = [(ix, v) for n, ix, v in log if n == name]
        ok = len(put) == 1 and isinstance(put[0][0], tuple) and len(put[0][0]) == 3 and all(isinstance(s, Slice) and s.step is None for s in put[0][0][1:]) and put[0][1] is f
        c.prove('post: %s stored once' % name, ok)
        if ok:
            k, rows, cols = put[0][0]
            c.prove('post: %s in a new layer' % name, eq(k, t))
            c.prove('post: %s at the rows of its grid points' % name, And(eq(rows.lo, j0), eq(rows.hi, add(j0, h))))
            c.prove('post: %s at the columns of its grid points' % name, And(eq(cols.lo, i0), eq(cols.hi, add(i0, w))))
    put = [(ix, v) for n, ix, v in log if n == 'time']
    u = V['time'].attrs['units']
    ok = len(put) == 1 and isinstance(put[0][1], tuple) and put[0][1][0] == 'number' and put[0][1][1] is date and put[0][1][2] is u
    c.prove('post: time of the layer', And(ok, eq(put[0][0], t)) if ok else False)
    c.prove('post: unit of time set at the first layer only', Iff(eq(t, 0), u != 'units so far'))
    c.prove('post: written to the file', synced == [5])


@task('P33', 'grid of the file', [WR + '.__init__'], opts=OPTS, assumes=AFF + ('the region and margins are a whole number of grid steps',))
def grid(ip):
    c = ip.ctx
    log, dims, made = [], {}, {}
    lim = {k: c.input(k, c.real(k)) for k in ('xMin', 'xMax', 'yMin', 'yMax')}
    res, margin = c.input('res', c.real('res')), c.input('margin', c.real('margin'))
    nx, ny = c.input('nx', c.int('nx')), c.input('ny', c.int('ny'))
    c.assume(And(res > 0, margin >= 0, nx >= 1, ny >= 1))
    c.assume(eq(lim['xMax'], add(sub(lim['xMin'], mul(2, margin)), mul(nx, res))))
    c.assume(eq(lim['yMax'], add(sub(lim['yMin'], mul(2, margin)), mul(ny, res))))
    n = {'x': nx, 'y': ny}
    known = [(k, z3.simplify(z(truediv(sub(add(lim[k + 'Max'], margin), sub(lim[k + 'Min'], margin)), res)))) for k in 'xy']

    def create(ip, a, k):
        name = a[0]
        kw = dict(k)
        names = ('varname', 'datatype', 'dimensions')
        kw.update(zip(names, a))
        made[name] = kw
        return variable(ip, name, log)

    def dimension(ip, a, k):
        dims[a[0]] = k.get('size', a[1] if len(a) > 1 else None)

    def rounded(ip, a, k):
        """number of steps in a length: the quotient, shown to be whole"""
        q = z3.simplify(z(a[0]))
        for x, e in known:
            if q.eq(e):
                c.prove('length of a side in steps', eq(a[0], n[x]))
                return n[x]
        return b_round(ip, a, k)
    root = SObj(None, {'createDimension': Native(dimension), 'createVariable': Native(create)})
    ip.opts['externals'] = {**OPTS['externals'], 'netCDF4.Dataset': lambda ip, a, k: root, 'netCDF4._netCDF4.Dataset': lambda ip, a, k: root, 'builtins.round': rounded}
    back = Native(lambda ip, a, k: None)
    o = SObj(ip.func(WR))
    ip.call(ip.func(WR + '.__init__'), [o, 'file', PDict(lim), res, margin], {'wraps': back})
    A = o.attrs
    c.prove('post: function to hand on to', A.get('callback') is back)
    c.prove('post: file kept', A.get('ds') is root)
    c.prove('post: layers without limit', dims.get('time', 0) is None)
    k = c.int('k')
    for name, x in (('lat', 'y'), ('lon', 'x')):
        put = [v for m, ix, v in log if m == name]
        ok = len(put) == 1 and isinstance(put[0], SArr)
        c.prove('post: %s written' % name, ok)
        if ok:
            v = put[0]
            c.prove('post: number of %s values' % name, And(eq(v.shape[0], add(n[x], 1)), eq(dims[name], add(n[x], 1))))
            c.prove('post: %s values are those of the grid' % name, Implies(And(0 <= k, le(k, n[x])), eq(v.at(k), add(sub(lim[x + 'Min'], margin), mul(k, res)))))
    for attr, name in (('speed', 'gust_speed'), ('Ux', 'velocity_east'), ('Uy', 'velocity_north'), ('P', 'pressure')):
        v = A.get(attr)
        c.prove('post: %s' % name, isinstance(v, SObj) and v.attrs['name'] == name and made[name].get('dimensions') == ('time', 'lat', 'lon'))
    for attr in ('time', 'lat', 'lon'):
        c.prove('post: axis %s' % attr, isinstance(A.get(attr), SObj) and A[attr].attrs['name'] == attr and made[attr].get('dimensions') == (attr,))
    m = A['affine'].attrs['m']
    X, Y = c.real('X'), c.real('Y')
    px, py = m.mul(ip, [(X, Y)], {})
    c.prove('post: column of a longitude', eq(mul(px, res), sub(X, sub(lim['xMin'], margin))))
    c.prove('post: row of a latitude', eq(mul(py, res), sub(Y, sub(lim['yMin'], margin))))


# -- from a track to its recorder --------------------------------------------------------------------------------------------
def note(what):
    def f(ip, a, k):
        ip.ctx.noted[what] = (a, k)
        return 'result' if what == 'region' else None
    return f


@task('P33', 'recorder of a track', [W + '::WindfieldGenerator.calculateExtremesFromTrack'],
      contracts={W + '::WindfieldAroundTrack.__init__': note('around'), W + '::WindfieldAroundTrack.regionalExtremes': note('region'), WR + '.__init__': note('recorder')})
def recorder(ip):
    c = ip.ctx
    c.noted = {}
    lim = PDict({k: c.real(k) for k in ('xMin', 'xMax', 'yMin', 'yMax')})
    res, margin, want = c.real('res'), c.real('margin'), c.int('want')
    conf = SObj(None, {'getboolean': Native(lambda ip, a, k: eq(want, 1) if tuple(a) == ('Timeseries', 'Windfields') else False)})
    o = SObj(ip.func(W + '::WindfieldGenerator'), {'gridLimit': lim, 'resolution': res, 'margin': margin, 'config': conf, 'domain': 'bounded', 'windfieldPath': 'path',
                                                  **{k: Opaque(k) for k in ('profileType', 'windFieldType', 'beta', 'beta1', 'beta2', 'thetaMax')}})
    track = SObj(None, {'trackId': (c.int('sim'), c.int('num'))})
    back = Native(lambda ip, a, k: None)
    given = c.branch(eq(c.int('given'), 1))
    r = ip.call(ip.getattr(o, 'calculateExtremesFromTrack'), [track, back] if given else [track])
    c.prove('post: fields of the track', isinstance(r, tuple) and r[0] is track and r[1] == 'result')
    a, k = c.noted['region']
    call = a[2] if len(a) > 2 else k.get('timeStepCallback')
    c.prove('post: the region of the generator', a[1] is lim)
    got = {n: v for n, v in zip(('self', 'track'), c.noted['around'][0])}
    got.update(c.noted['around'][1])
    c.prove('post: track, margin, resolution and domain of the generator', And(got.get('track') is track, got.get('gridLimit') is lim, got.get('domain') == 'bounded', eq(got['margin'], margin), eq(got['resolution'], res)))
    if 'recorder' in c.noted:
        a, k = c.noted['recorder']
        got = dict(zip(('self', 'filename', 'gridLimit', 'resolution', 'margin', 'maxchunk', 'wraps'), a))
        got.update(k)
        c.prove('post: recorder only on request', eq(want, 1))
        c.prove('post: time steps go to the recorder', call is got['self'])
        c.prove('post: recorder has the grid of the swath', And(got['gridLimit'] is lim, eq(got['resolution'], res), eq(got.get('margin', 0), margin)))
        c.prove('post: recorder hands on to the stations', got.get('wraps') is (back if given else None))
    else:
        c.prove('post: recorder on request', Not(eq(want, 1)))
        c.prove('post: time steps go to the stations', call is (back if given else None))
