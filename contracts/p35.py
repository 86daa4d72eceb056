"""Gridded results in files: each field under its own name, at its own coordinates (Utilities/nctools.py and the parts that save results)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from replay.names35 import CROSS, EV

N = 'Utilities/nctools.py'
ASSUME = ('netCDF files keep what is written to them, in the precision of the type named',)
SAVE = N + '::ncSaveGrid'


class Part:
    """something of an entry, known by the entry's number"""

    def __init__(self, what, k):
        self.what, self.k = what, k


def entry(ip, k, dim):
    """description of dimension or variable k"""
    c = ip.ctx
    has, lsd = z3.Function('has values', IS, z3.BoolSort()), z3.Function('has digits', IS, z3.BoolSort())
    keys = ['name', 'values', 'dtype', 'atts'] + ([] if dim else ['dims'])

    def get(ip, a, kw):
        x = a[0]
        if x == 'dims' and not dim:
            o = SObj('dims', {'k': k, '__len__': Native(lambda ip, a, kw: z3.Function('number of dims', IS, IS)(z(k)))})
            return o
        if x == 'values':
            if not dim and not ip.ctx.branch(has(z(k))):
                return None
            return SObj('values', {'k': k, 'ndim': z3.Function('number of axes', IS, IS)(z(k))})
        if x in keys:
            return SObj(x, {'k': k})
        if x == 'least_significant_digit':
            return SObj('digits', {'k': k})
        raise PyRaise('KeyError', (x,))
    return SObj('entry', {'__getitem__': Native(get), 'keys': Native(lambda ip, a, kw: PList(list(keys))),
                          '__contains__': Native(lambda ip, a, kw: lsd(z(k)) if a[0] == 'least_significant_digit' and not dim else a[0] in keys)})


def is_part(v, what, k):
    return eq(v.attrs['k'], k) if isinstance(v, SObj) and v.cls == what else False


def make_array(ip, a, k):
    t = k.get('dtype', a[1] if len(a) > 1 else None)
    if not isinstance(a[0], SObj) or a[0].cls != 'values' or not isinstance(t, SObj) or t.cls != 'dtype':
        raise Unsupported('array of something else')
    return SObj('stored', {'k': a[0].attrs['k'], 't': t.attrs['k']})


NAMES = SObj('names', {'__add__': Native(lambda ip, a, k: NAMES)})


def dim_made(ip, a, k):
    """contract of ncCreateDim"""
    c = ip.ctx
    names = ['ncobj', 'name', 'values', 'dtype', 'atts']
    b = dict(zip(names, a), **k)
    c.ghosts['dims made'] = add(c.ghosts['dims made'], 1)
    i = b['name'].attrs['k']
    c.prove('dimension made of its own entry', And(b['ncobj'] is c.nc, eq(i, sub(c.ghosts['dims made'], 1)), *[is_part(b.get(x), x, i) for x in names[1:]]))


@task('P35', 'any file', [SAVE], contracts={N + '::ncCreateDim': dim_made}, assumes=ASSUME)
def anyfile(ip):
    c = ip.ctx
    D, V = c.input('D', c.int('D')), c.input('V', c.int('V'))
    c.assume(And(D >= 0, V >= 0))
    has = z3.Function('has values', IS, z3.BoolSort())
    axes, dims = z3.Function('number of axes', IS, IS), z3.Function('number of dims', IS, IS)
    FILLED = z3.Function('variables with values', IS, IS)
    c.assume(FILLED(0) == 0)
    c.ghosts['dims made'] = c.ghosts['vars made'] = c.ghosts['filled'] = c.ghosts['closings'] = 0
    nodata = c.real('nodata')

    def variable(ip, a, k):
        c = ip.ctx
        b = dict(zip(['name', 'dtype', 'dims'], a), **{{'datatype': 'dtype', 'dimensions': 'dims', 'varname': 'name'}.get(x, x): y for x, y in k.items()})
        i = c.ghosts['vars made']
        c.ghosts['vars made'] = add(i, 1)
        c.prove('variable made of its own entry', And(is_part(b.get('name'), 'name', i), is_part(b.get('dtype'), 'dtype', i), is_part(b.get('dims'), 'dims', i)))
        c.prove('missing values marked as asked', b.get('fill_value') is nodata)

        def put(ip, a, k):
            c = ip.ctx
            whole = isinstance(a[0], Slice) and a[0].lo is None and a[0].hi is None and a[0].step is None
            c.prove('variable holds its own values', And(whole, eq(a[1].attrs['k'], i), eq(a[1].attrs['t'], i)) if isinstance(a[1], SObj) and a[1].cls == 'stored' else False)
            c.ghosts['filled'] = add(c.ghosts['filled'], 1)
        return SObj('variable', {'__setitem__': Native(put), 'setncatts': Native(lambda ip, a, k: ip.ctx.prove('attributes of its own entry', is_part(a[0], 'atts', i)))})
    c.nc = SObj('file', {'createVariable': Native(variable), 'setncatts': Native(lambda ip, a, k: None), 'setncattr': Native(lambda ip, a, k: None), 'close': Native(lambda ip, a, k: ip.ctx.ghosts.__setitem__('closings', add(ip.ctx.ghosts['closings'], 1)))})
    opened = []
    ip.opts['names'] = {(N, 'Dataset'): Native(lambda ip, a, k: (opened.append(a), ip.ctx.nc)[1])}
    ip.opts['externals'] = {'numpy.array': make_array, 'time.strftime': lambda ip, a, k: 'now', 'time.localtime': lambda ip, a, k: None, 'getpass.getuser': lambda ip, a, k: 'me'}
    coll = lambda n, dim: SObj('entries', {'values': Native(lambda ip, a, k: PList(n=n, fn=lambda i: entry(ip, i, dim))), '__len__': Native(lambda ip, a, k: n)})

    def dinv(S):
        g = S.ctx.ghosts
        return [('file open', eq(g['closings'], 0)), ('one dimension per entry', eq(g['dims made'], S.it)), ('no variable yet', And(eq(g['vars made'], 0), eq(g['filled'], 0)))]

    def vinv(S):
        g = S.ctx.ghosts
        return [('file open', eq(g['closings'], 0)), ('one variable per entry', eq(g['vars made'], S.it)), ('all dimensions there', eq(g['dims made'], D)), ('values of all so far', eq(g['filled'], FILLED(z(S.it))))]
    ip.loops['*'] = [Loop(dinv, name='dimensions', match=lambda txt, st: 'ncCreateDim' in txt, havoc={'dims': lambda S: NAMES}),
                     Loop(vinv, name='variables', match=lambda txt, st: 'createVariable' in txt,
                          facts=lambda S: FILLED(z(add(S.it, 1))) == FILLED(z(S.it)) + z3.If(has(z(S.it)), 1, 0))]
    try:
        ip.call(ip.func(SAVE), ['file', coll(D, True), coll(V, False)], {'nodata': nodata, 'gatts': PDict({})})
    except PyRaise as e:
        if e.name != 'ValueError':
            raise
        c.prove('post: refused only with values of another number of axes', And(has(z(c.ghosts['vars made'])), axes(z(c.ghosts['vars made'])) != dims(z(c.ghosts['vars made']))))
        c.prove('post: file closed when refused', eq(c.ghosts['closings'], 1))
        return
    c.prove('post: a new file of the name given', len(opened) == 1 and opened[0][0] == 'file' and opened[0][1] == 'w')
    c.prove('post: every dimension, variable and value', And(eq(c.ghosts['dims made'], D), eq(c.ghosts['vars made'], V), eq(c.ghosts['filled'], FILLED(z(V)))))
    c.prove('post: file closed', eq(c.ghosts['closings'], 1))


@task('P35', 'a dimension', [N + '::ncCreateDim', N + '::ncCreateVar'], assumes=ASSUME)
def dimension(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 0)
    x = ip.fresh_array((n,), 'r', 'x')
    dims, made, put = {}, [], []
    atts = PDict({'units': 'm'})
    seen = []
    var = SObj('variable', {'__setitem__': Native(lambda ip, a, k: put.append(a[1])), 'setncatts': Native(lambda ip, a, k: seen.append(a[0]))})
    nc = SObj('file', {'createDimension': Native(lambda ip, a, k: dims.__setitem__(a[0], a[1])), 'createVariable': Native(lambda ip, a, k: (made.append(list(a) + [k.get('dimensions')]), var)[1])})
    ip.call(ip.func(N + '::ncCreateDim'), [nc, 'lat', x, 'f', atts])
    k = c.int('k')
    c.prove('post: as long as its values', And(list(dims) == ['lat'], eq(dims.get('lat', -1), n)))
    c.prove('post: one variable of the same name over it', len(made) == 1 and made[0][0] == 'lat' and made[0][1] == 'f' and tuple(made[0][2] or ()) == ('lat',))
    c.prove('post: holds the values', len(put) == 1 and isinstance(put[0], SArr))
    c.prove('post: values', And(eq(put[0].shape[0], n), Implies(And(0 <= k, k < n), eq(put[0].at(k), x.at(k)))))
    c.prove('post: attributes', seen == [atts])


@task('P35', 'a variable with values', [N + '::ncCreateVar'], assumes=ASSUME)
def variable(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 0)
    x = ip.fresh_array((n,), 'r', 'x')
    made, put = [], []
    var = SObj('variable', {'__setitem__': Native(lambda ip, a, k: put.append(a[1])), 'setncatts': Native(lambda ip, a, k: None)})
    nc = SObj('file', {'createVariable': Native(lambda ip, a, k: (made.append(a), var)[1])})
    r = ip.call(ip.func(N + '::ncCreateVar'), [nc, 'wspd', ('lat',), 'f', x])
    k = c.int('k')
    c.prove('post: variable returned', r is var)
    c.prove('post: made as asked', len(made) == 1 and made[0][0] == 'wspd' and made[0][1] == 'f' and tuple(made[0][2]) == ('lat',))
    c.prove('post: values written', len(put) == 1 and isinstance(put[0], SArr))
    c.prove('post: values', And(eq(put[0].shape[0], n), Implies(And(0 <= k, k < n), eq(put[0].at(k), x.at(k)))))


# -- parts that save results --------------------------------------------------------------------------------------------------
def record(ip, a, k):
    """contract of ncSaveGrid as seen by a caller: the entries given"""
    b = dict(zip(['filename', 'dimensions', 'variables', 'nodata'], a), **k)
    d, v = b['dimensions'], b['variables']
    if not isinstance(d, PDict) or not isinstance(v, PDict):
        raise Unsupported('entries')
    ip.ctx.prove('values are written and the file closed', k.get('writedata', True) is True and k.get('keepfileopen', False) is False)
    for e in list(d.d.values()) + list(v.d.values()):
        ip.ctx.prove('entry complete', all(x in e.d for x in ('name', 'values', 'dtype', 'atts')))
    for e in v.d.values():
        ip.ctx.prove('entry names its dimensions', 'dims' in e.d)
    ip.ctx.files.append((b['filename'], [(e.d['name'], e.d['values'], e.d['dtype']) for e in d.d.values()], {e.d['name']: (e.d['values'], tuple(e.d['dims']), e.d['dtype']) for e in v.d.values()}, len(v.d)))


FLOAT = ('f', 'd', 'f4', 'f8', 'float', 'float32', 'float64')


def compare(ip, coords, fields):
    """coords: {name: (length, fn)}; fields: {name: (dims, fn of the indices in the order of dims)}"""
    c = ip.ctx
    c.prove('post: one file', len(c.files) == 1)
    name, dims, vs, nv = c.files[0]
    c.prove('post: dimensions', sorted(n for n, v, t in dims) == sorted(coords))
    ix = {n: c.int('at ' + n) for n in coords}
    inside = And(*[And(0 <= ix[n], lt(ix[n], l)) for n, (l, f) in coords.items()])
    for n, v, t in dims:
        l, f = coords[n]
        v = ip.reg['numpy.array'](ip, [v], {}) if isinstance(v, PList) else v
        c.prove('post: coordinates %s' % n, And(t in FLOAT, eq(v.shape[0], l), Implies(inside, eq(v.at(ix[n]), f(ix[n])))))
    names = [n for n in fields if n in vs]
    c.prove('post: every field is there', names == list(fields) and nv == len(vs))
    for n in names:
        order, f = fields[n]
        v, d, t = vs[n]
        c.prove('post: field %s has the dimensions of the grid' % n, And(len(v.shape) == len(d), *[eq(s, coords[x][0]) for s, x in zip(v.shape, d)]) if set(d) == set(order) else False)
        c.prove('post: field %s as calculated' % n, And(t in FLOAT or n == 'cell', Implies(inside, eq(v.at(*[ix[x] for x in d]), f(*[ix[x] for x in order])))))


def arrays(ip, names, shape):
    return {x: ip.fresh_array(shape, 'r', x) for x in names}


def sizes(ip, *names):
    r = [ip.ctx.input(x, ip.ctx.int(x)) for x in names]
    ip.ctx.assume(And(*[x >= 1 for x in r]))
    return r


EXT = {'numpy.min': lambda ip, a, k: ip.ctx.real('min'), 'numpy.max': lambda ip, a, k: ip.ctx.real('max'), 'ndarray.min': lambda ip, a, k: ip.ctx.real('min'),
       'ndarray.max': lambda ip, a, k: ip.ctx.real('max'), 'numpy.savetxt': lambda ip, a, k: None}
FIX = {SAVE: record}
MASTER = ('the decorator disableOnWorkers runs the method on the master',)
HZ = 'hazard/__init__.py::HazardCalculator.saveHazard'


@task('P35', 'hazard file', [HZ, 'hazard/__init__.py::TileGrid.getDomainExtent'], contracts=FIX, opts={'externals': EXT}, assumes=MASTER)
def hazard(ip):
    c = ip.ctx
    c.files = []
    Y, H, W, a, b = sizes(ip, 'Y', 'H', 'W', 'rows', 'columns')
    i0, j0 = c.int('imin'), c.int('jmin')
    c.assume(And(i0 >= 0, j0 >= 0, i0 + W <= b, j0 + H <= a))
    lat, lon, years = ip.fresh_array((a,), 'r', 'lat'), ip.fresh_array((b,), 'r', 'lon'), ip.fresh_array((Y,), 'r', 'years')
    g = SObj(ip.func('hazard/__init__.py::TileGrid'), {'wf_lon': lon, 'wf_lat': lat, 'imin': i0, 'imax': i0 + W - 1, 'jmin': j0, 'jmax': j0 + H - 1})
    f2, f3 = {'loc': 'loc', 'scale': 'scale', 'shp': 'shp'}, {'wspd': 'Rp', 'wspdupper': 'RPupper', 'wspdlower': 'RPlower'}
    A = dict(arrays(ip, f2.values(), (H, W)), **arrays(ip, f3.values(), (Y, H, W)))
    o = SObj(ip.func('hazard/__init__.py::HazardCalculator'), dict(A, tilegrid=g, years=years, outputPath='out', nodata=-9999, global_atts=PDict({})))
    ip.call(ip.getattr(o, 'saveHazard'), [])
    fields = {n: (('lat', 'lon'), A[x].at) for n, x in f2.items()}
    fields.update({n: (('ari', 'lat', 'lon'), A[x].at) for n, x in f3.items()})
    compare(ip, {'ari': (Y, years.at), 'lat': (H, lambda j: lat.at(j0 + j)), 'lon': (W, lambda i: lon.at(i0 + i))}, fields)


def coefficients(ip, n):
    return arrays(ip, ['mu', 'alpha', 'sig', 'min', 'lmu', 'lalpha', 'lsig', 'lmin', 'phi', 'lphi'], (n,))


def cells(ip):
    """grid of cells: limits and steps with a whole number of rows and columns"""
    c = ip.ctx
    nx, ny = sizes(ip, 'nx', 'ny')
    x0, y1, dx, dy = c.real('xMin'), c.real('yMax'), c.real('dx'), c.real('dy')
    c.assume(And(dx > 0, dy > 0))

    def span(ip, a, k):
        """numpy.arange over the limits of the grid: a whole number of steps"""
        if len(a) == 3:
            if a[0] is x0 and ip.ctx.must(eq(sub(a[1], x0), mul(nx, dx))) and ip.ctx.must(eq(a[2], dx)):
                return SArr((nx,), lambda i: add(x0, mul(dx, i[0])), 'r')
            if a[0] is y1 and ip.ctx.must(eq(sub(y1, a[1]), mul(ny, dy))) and ip.ctx.must(eq(a[2], neg(dy))):
                return SArr((ny,), lambda i: sub(y1, mul(dy, i[0])), 'r')
        return ip.reg['numpy.arange'](ip, a, k)
    ip.opts['externals'] = dict(EXT, **{'numpy.arange': span})
    lim = PDict({'xMin': x0, 'xMax': add(x0, mul(nx, dx)), 'yMax': y1, 'yMin': sub(y1, mul(ny, dy))})
    coords = {'lat': (ny, lambda j: sub(y1, mul(dy, j))), 'lon': (nx, lambda i: add(x0, mul(dx, i)))}
    return nx, ny, lim, PDict({'x': dx, 'y': dy}), coords


@task('P35', 'statistics of the cells', ['StatInterface/generateStats.py::GenerateStats.save'], contracts=FIX, assumes=('the limits of the grid are a whole number of cells apart',))
def statistics(ip):
    c = ip.ctx
    c.files = []
    nx, ny, lim, step, coords = cells(ip)
    n = mul(nx, ny)
    A = coefficients(ip, n)
    log = SObj('log', {x: Native(lambda ip, a, k: None) for x in ('debug', 'info', 'warning')})
    o = SObj(ip.func('StatInterface/generateStats.py::GenerateStats'), {'gridLimit': lim, 'gridSpace': step, 'maxCell': sub(n, 1), 'coeffs': SObj(None, A), 'logger': log, 'missingValue': c.real('missing')})
    ip.call(ip.getattr(o, 'save'), ['file', 'speed'])
    fields = {x: (('lat', 'lon'), lambda j, i, x=x: A[x].at(add(mul(j, nx), i))) for x in A}
    fields['cell'] = (('lat', 'lon'), lambda j, i: add(mul(j, nx), i))
    compare(ip, coords, fields)
    c.prove('post: file of the name given', c.files[0][0] == 'file')


@task('P35', 'coefficients of the track model', ['TrackGenerator/TrackGenerator.py::TrackGenerator.dumpAllCellCoefficients'], contracts=FIX, assumes=('the limits of the grid are a whole number of cells apart',))
def model(ip):
    c = ip.ctx
    c.files = []
    nx, ny, lim, step, coords = cells(ip)
    A = {p: coefficients(ip, mul(nx, ny)) for p in ('v', 'b', 'p', 'dp')}
    st = {p + 'Stats': SObj(None, {'coeffs': SObj(None, A[p])}) for p in A}
    o = SObj(ip.func('TrackGenerator/TrackGenerator.py::TrackGenerator'), dict(st, gridLimit=lim, gridSpace=step, processPath='process', missingValue=c.real('missing')))
    ip.call(ip.getattr(o, 'dumpAllCellCoefficients'), [])
    compare(ip, coords, {p + x: (('lat', 'lon'), lambda j, i, x=x, p=p: A[p][x].at(add(mul(j, nx), i))) for p in A for x in ('mu', 'alpha', 'sig', 'min', 'lmu', 'lalpha', 'lsig', 'lmin')})


def evaluation(mod):
    cls, names, less, _ = EV[mod]

    def t(ip):
        c = ip.ctx
        c.files = []
        H, W = sizes(ip, 'H', 'W')
        lat, lon = ip.fresh_array((H + less,), 'r', 'lat'), ip.fresh_array((W + less,), 'r', 'lon')
        A = arrays(ip, names.values(), (W, H))
        o = SObj(ip.func('Evaluate/%s.py::%s' % (mod, cls)), dict(A, lat_range=lat, lon_range=lon, dataPath='data', histMinCP=None, synMinCP=None))
        ip.call(ip.getattr(o, 'save'), [])
        compare(ip, {'lat': (H, lat.at), 'lon': (W, lon.at)}, {n: (('lon', 'lat'), A[x].at) for n, x in names.items()})
    return t


for _m in sorted(EV):
    task('P35', 'evaluation, ' + _m, ['Evaluate/%s.py::%s.save' % (_m, EV[_m][0])], contracts=FIX, opts={'externals': EXT}, assumes=MASTER)(evaluation(_m))

@task('P35', 'evaluation, crossings', ['Evaluate/longitudeCrossing.py::LongitudeCrossing.save'], contracts=FIX, opts={'externals': EXT}, assumes=MASTER)
def crossings(ip):
    c = ip.ctx
    c.files = []
    H, W = sizes(ip, 'H', 'W')
    lat, lon = ip.fresh_array((H + 1,), 'r', 'lat'), ip.fresh_array((W,), 'r', 'lon')
    A = arrays(ip, CROSS.values(), (H, W))
    o = SObj(ip.func('Evaluate/longitudeCrossing.py::LongitudeCrossing'), dict(A, gateLats=lat, gateLons=lon, dataPath='data', gatts=PDict({})))
    ip.call(ip.getattr(o, 'save'), [])
    compare(ip, {'lat': (H, lat.at), 'lon': (W, lon.at)}, {n: (('lat', 'lon'), A[x].at) for n, x in CROSS.items()})


PDF, CDF = z3.Function('kde.pdf', RS, RS, RS), z3.Function('kde.cdf', RS, RS, RS)


def estimate(F):
    def f(ip, a, k):
        xy = k.get('data_predict', a[0] if a else None)
        g = xy.snapshot()
        return SArr((xy.shape[1],), lambda i: F(z(g((0, i[0]))), z(g((1, i[0])))), 'r')
    return Native(f)


def origin(which):
    def t(ip):
        c = ip.ctx
        c.files = []
        H, W = sizes(ip, 'H', 'W')
        y, x = ip.fresh_array((H,), 'r', 'y'), ip.fresh_array((W,), 'r', 'x')
        kde = SObj('kde', {'pdf': estimate(PDF), 'cdf': estimate(CDF)})
        ip.opts['names'] = {('StatInterface/KDEOrigin.py', 'KDEMultivariate'): Native(lambda ip, a, k: kde)}
        o = SObj(ip.func('StatInterface/KDEOrigin.py::KDEOrigin'), {'x': x, 'y': y, 'kde': kde, 'lonLat': None, 'bw': None, 'processPath': 'process', 'outputPath': 'out'})
        F = PDF if which == 'generateKDE' else CDF
        r = ip.call(ip.getattr(o, which), [], {'save': True})
        compare(ip, {'lat': (H, y.at), 'lon': (W, x.at)}, {'gpdf' if F is PDF else 'gcdf': (('lat', 'lon'), lambda j, i: F(z(x.at(i)), z(y.at(j))))})
    return t


for _w in ('generateKDE', 'generateCdf'):
    task('P35', 'origins, ' + ('density' if _w == 'generateKDE' else 'cumulative'), ['StatInterface/KDEOrigin.py::KDEOrigin.' + _w], contracts=FIX, opts={'externals': EXT},
         assumes=('the estimate of the density takes the points as columns of longitude and latitude',))(origin(_w))
