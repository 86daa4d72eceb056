"""Statistics on their way from the observations to the simulation: every quantity from its own data (StatInterface, DataProcess, TrackGenerator)."""
import z3
from engine.contract import task
from engine.interp import ExtRef, Loop, Native
from engine.sym import *
from engine.models import qvar
from replay.names37 import CDF, HELD, STATS, USED

SI, TG, GD, GS, DP = ('StatInterface/StatInterface.py::StatInterface', 'TrackGenerator/TrackGenerator.py::TrackGenerator', 'StatInterface/GenerateDistributions.py::GenerateDistributions',
                      'StatInterface/generateStats.py::GenerateStats', 'DataProcess/DataProcess.py::DataProcess')
T = 'TrackGenerator/TrackGenerator.py'
ASSUME = ('files keep what is written to them until they are read', 'statistics and distributions of the values handed over are those of properties P16 and P17')


def bind(names, args, kw, what):
    if len(args) > len(names) or any(k not in names for k in kw):
        raise Unsupported('arguments of ' + what)
    return {**dict(zip(names, args)), **kw}


def params(ip, key):
    return [a.arg for a in ip.func(key).node.args.args][1:]


def grid(ip):
    return {x: PDict({'what': x}) for x in ('gridLimit', 'gridSpace', 'gridInc')}


# -- statistics of cells ---------------------------------------------------------------------------------------------------------
@task('P37', 'statistics made', [SI + '.calcCellStatistics'], assumes=ASSUME)
def made(ip):
    c = ip.ctx
    G = grid(ip)
    o = SObj(ip.func(SI), {**G, 'processPath': 'out/process', 'outputPath': 'out'})
    least = c.input('least number of observations', c.int('minSample'))
    saved = {}

    def stats(ip, a, k):
        got = bind(params(ip, GS + '.__init__'), a, k, 'statistics')

        def save(ip, a, k):
            g = bind(['filename', 'description'], a, k, 'saving')
            saved.setdefault(g['filename'], []).append(got)
        return SObj('stats', {'plotStatistics': Native(lambda ip, a, k: None), 'save': Native(save)})
    ip.contracts[GS] = stats
    ip.call(ip.func(SI + '.calcCellStatistics'), [o, least])
    for q, (src, angle) in STATS.items():
        got = saved.get('out/process/%s_stats.nc' % q, [])
        c.prove('%s: statistics saved once' % q, len(got) == 1)
        g = got[0] if got else {}
        c.prove('%s: from the observations of it' % q, g.get('parameter') == 'out/process/' + src)
        c.prove('%s: at the positions of the observations' % q, g.get('lonLat') == 'out/process/all_lon_lat')
        c.prove('%s: angles as angles' % q, bool(g.get('angular', False)) == angle)
        c.prove('%s: on the grid of the run' % q, all(g.get(x) is G[x] for x in G))
        c.prove('%s: with the least number of observations asked for' % q, 'minSample' in g and eq(g['minSample'], least))
        c.prove('%s: calculated now' % q, not g.get('calculateLater', False))


@task('P37', 'statistics used', [TG + '.loadCellStatistics'], assumes=ASSUME)
def used(ip):
    c = ip.ctx
    G = grid(ip)
    o = SObj(ip.func(TG), {**G, 'processPath': 'out/process'})
    loaded = []

    def stats(ip, a, k):
        got = bind(params(ip, GS + '.__init__'), a, k, 'statistics')
        s = SObj('stats', {'load': Native(lambda ip, a, k: loaded.append((s, bind(['filename'], a, k, 'loading')['filename'])))})
        s.got = got
        return s
    ip.contracts[GS] = stats
    ip.call(ip.func(TG + '.loadCellStatistics'), [o])
    for x, q in USED.items():
        s = o.attrs.get(x)
        c.prove('%s: statistics held' % q, isinstance(s, SObj) and s.cls == 'stats')
        g = getattr(s, 'got', {})
        c.prove('%s: the statistics saved for it' % q, [f for t, f in loaded if t is s][-1:] == ['out/process/%s_stats.nc' % q])
        c.prove('%s: on the grid of the run' % q, all(g.get(y) is G[y] for y in G))
        c.prove('%s: angles as angles' % q, bool(g.get('angular', False)) == STATS[q][1])
        c.prove('%s: not calculated again' % q, g.get('calculateLater') is True)


@task('P37', 'statistics read', [GS + '.load'], assumes=ASSUME)
def read(ip):
    c = ip.ctx
    names = ['lat', 'lon'] + [x + s for x in ('mu', 'alpha', 'sig', 'min', 'phi') for s in ('', 'l')][:]
    ny, nx = c.int('ny'), c.int('nx')
    c.assume(And(1 <= ny, 1 <= nx))
    arrs = {x: ip.fresh_array((ny, nx) if x not in ('lat', 'lon') else (ny if x == 'lat' else nx,), 'r', x) for x in names}
    opened = []

    def dataset(ip, a, k):
        opened.append(a[0])
        return SObj('file', {'variables': PDict(dict(arrs)), 'close': Native(lambda ip, a, k: None)})
    coeffs = SObj('coeffs')
    o = SObj(ip.func(GS), {'coeffs': coeffs, 'logger': SObj('logger', {n: Native(lambda ip, a, k: None) for n in ('info', 'debug', 'warning')})})
    ip.opts['externals'] = {'netCDF4.Dataset': dataset}
    ip.call(ip.func(GS + '.load'), [o, 'the file'])
    c.prove('post: the file asked for', opened == ['the file'])
    for x in names[2:]:
        v = coeffs.attrs.get(x)
        c.prove('post: %s held' % x, isinstance(v, SArr) and len(v.shape) == 1)
        i, j = c.int('i'), c.int('j')
        c.prove('post: %s of every cell, row by row' % x, And(eq(v.shape[0], mul(ny, nx)), Implies(And(0 <= i, i < ny, 0 <= j, j < nx), eq(v.at(add(mul(i, nx), j)), arrs[x].at(i, j)))))


# -- distributions of initial values ----------------------------------------------------------------------------------------------
for _q, (_m, _pos, _val, _ang, _per) in CDF.items():
    @task('P37', 'distribution made, ' + _q, [SI + '.' + _m], assumes=ASSUME)
    def dist(ip, q=_q, m=_m, pos=_pos, val=_val, ang=_ang, per=_per):
        c = ip.ctx
        seen = []

        def make(ip, a, k):
            seen.append(bind(params(ip, GD + '.allDistributions'), a, k, 'distributions'))
        step = c.input('step', c.real('kdeStep'))
        o = SObj(ip.func(SI), {'processPath': 'out/process', 'outputPath': 'out', 'kdeStep': step, 'kdeType': 'gau', 'generateDist': SObj('dist', {'allDistributions': Native(make)})})
        ip.contracts['StatInterface/KDEParameters.py::KDEParameters'] = lambda ip, a, k: SObj('kde')
        ip.call(ip.func(SI + '.' + m), [o])
        c.prove('post: made once', len(seen) == 1)
        g = seen[0] if seen else {}
        c.prove('post: under the name it is looked up by', g.get('parameterName') == q)
        c.prove('post: from the values of it', g.get('parameterList') == 'out/process/' + val)
        c.prove('post: at the positions of those values', g.get('lonLat') == 'out/process/' + pos)
        c.prove('post: angles as angles', bool(g.get('angular', False)) == ang)
        c.prove('post: days repeat every year', g.get('periodic', False) == per)
        if not ang and not per:
            c.prove('post: at the configured steps', 'kdeStep' in g and eq(g['kdeStep'], step))


@task('P37', 'distributions used', [TG + '.loadInitialConditionDistributions'], assumes=ASSUME)
def initial(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 1)
    tab = {q: {x: ip.fresh_array((n,), 'r', q + '.' + x) for x in ('cell', 'x', 'CDF')} for q in CDF}
    there = {q: c.branch(c.bool('file of %s' % q)) for q in ('init_bearing', 'init_rmax')}
    old = {q: c.branch(c.bool('old file of %s' % q)) if not there.get(q, True) else True for q in there}
    base = {'out/process/all_cell_cdf_' + q: q for q in CDF}

    def isfile(ip, a, k):
        f = a[0]
        if not f.endswith('.nc') or f[:-3] not in base:
            raise Unsupported('file looked for')
        return there.get(base[f[:-3]], True)

    def opened(ip, a, k):
        q = base.get(a[0][:-3]) if a[0].endswith('.nc') else None
        c.prove('a file of distributions opened', q is not None)
        return SObj('file', {'variables': PDict(dict(tab[q])), 'close': Native(lambda ip, a, k: None)})

    def text(ip, a, k):
        got = bind(['filename', 'comments', 'delimiter', 'skiprows'], a, k, 'reading')
        q = base.get(got['filename'])
        c.prove('a file of distributions read, columns apart', q is not None and got.get('delimiter') == ',')
        if not old.get(q, True):
            raise PyRaise('OSError', ())
        t = tab[q]
        return SArr((n, 3), lambda i: ite(eq(i[1], 0), t['cell'].at(i[0]), ite(eq(i[1], 1), t['x'].at(i[0]), t['CDF'].at(i[0]))), 'r')
    o = SObj(ip.func(TG), {'processPath': 'out/process', 'sizeMean': c.real('mean'), 'sizeStdDev': c.real('dev')})
    ip.opts['externals'] = {'os.path.isfile': isfile}
    ip.opts['names'] = {(T, 'netcdf_file'): Native(opened)}
    ip.contracts['Utilities/files.py::flLoadFile'] = text
    sizes = []

    def lognormal(ip, a, k):
        g = bind(['mean', 'sig', 'maxrad'], a, k, 'sizes')
        c.prove('sizes of the configured mean and spread', And(eq(g['mean'], o.attrs['sizeMean']), eq(g['sig'], o.attrs['sizeStdDev'])))
        sizes.append(1)
        return (ip.fresh_array((n,), 'r', 'size'), ip.fresh_array((n,), 'r', 'pdf'), ip.fresh_array((n,), 'r', 'cdf'))
    ip.contracts['Utilities/stats.py::rMaxDist'] = lognormal
    try:
        ip.call(ip.func(TG + '.loadInitialConditionDistributions'), [o])
    except PyRaise as e:
        c.prove('post: refused only without a distribution of the bearing', not there['init_bearing'] and not old['init_bearing'])
        return
    c.prove('post: never without a distribution of the bearing', there['init_bearing'] or old['init_bearing'])
    i = c.int('i')
    for x, q in HELD.items():
        if q == 'init_rmax' and not (there[q] or old[q]):
            c.prove('post: sizes of the model in place of a distribution', sizes == [1] and 'cdfSize' in o.attrs)
            continue
        v = o.attrs.get(x)
        c.prove('post: %s held' % q, isinstance(v, SArr) and len(v.shape) == 2)
        row = And(0 <= i, lt(i, n))
        c.prove('post: %s, a row for each' % q, And(eq(v.shape[0], n), eq(v.shape[1], 3)))
        for k, y in enumerate(('cell', 'x', 'CDF')):
            c.prove('post: %s, column %d' % (q, k), Implies(row, eq(v.at(i, k), tab[q][y].at(i))))


KX, KY, ROWS, OFF = z3.Function('kde.x', IS, IS, RS), z3.Function('kde.cdf', IS, IS, RS), z3.Function('kde.rows', IS, IS), z3.Function('first row', IS, IS)


def rows_inv(S):
    r = S['results'] if S.has('results') else None
    if not isinstance(r, SArr):
        return [('no rows before the first cell', eq(S.it, 0))]
    q, i = qvar(), qvar()
    ok = And(0 <= q, lt(q, S.it), 0 <= i, lt(i, ROWS(q)))
    row = add(OFF(q), i)
    return [('as many rows as the cells so far have', Implies(le(1, S.it), eq(r.shape[0], OFF(z(S.it))))),
            ('rows of a cell before those of the next', z3.ForAll([q], z(Implies(And(0 <= q, lt(q, S.it)), And(le(0, OFF(q)), le(add(OFF(q), ROWS(q)), OFF(z(S.it)))))), patterns=[OFF(q)])),
            ('number, value and distribution of every row of a cell', z3.ForAll([q, i], z(Implies(ok, And(eq(r.at(row, 0), q), eq(r.at(row, 1), KX(q, i)), eq(r.at(row, 2), KY(q, i))))),
                                                                               patterns=[z3.MultiPattern(OFF(q), KX(q, i))]))]


def numbers(S):
    x = S['cellNum']
    return PList(n=S.ctx.int('numbers.n'), fn=lambda k: x)


def numbers_inv(S):
    l = S['cellNumlist']
    k = qvar()
    return [('one number a row', eq(l.length(), S.it)), ('number of the cell', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, S.it)), eq((l.at(k) if l.n is not None or l.items else S['cellNum']), S['cellNum'])))))]


def rows_havoc(S):
    c = S.ctx
    n = c.int('results.n')
    c.assume(n >= 0)
    return S.ip.fresh_array((n, 3), 'r', 'results')


for _save in (True, False):
    @task('P37', 'distributions of all cells, ' + ('saved' if _save else 'handed back'), [GD + '.allDistributions'], assumes=ASSUME, deadline=300,
          loops={'GenerateDistributions.allDistributions': [Loop(rows_inv, name='cells', havoc={'results': rows_havoc}, match=lambda txt, st: 'generateKDE' in txt),
                                                            Loop(numbers_inv, name='numbers', havoc={'cellNumlist': numbers}, match=lambda txt, st: 'generateKDE' not in txt)]})
    def cells(ip, saved=_save):
        c = ip.ctx
        n, last = c.input('observations', c.int('n')), c.input('last cell', c.int('last'))
        c.assume(And(n >= 1, last >= 0))
        c.assume(eq(OFF(0), 0))
        pos, val = ip.fresh_array((n, 3), 'r', 'lonLat'), ip.fresh_array((n,), 'r', 'values')
        step, ang, per = c.real('step'), SObj('angular'), SObj('periodic')
        G = grid(ip)
        files = {'positions': pos, 'parameters': val}

        def load(ip, a, k):
            g = bind(['filename', 'comments', 'delimiter', 'skiprows'], a, k, 'reading')
            c.prove('positions read column by column', g['filename'] != 'positions' or g.get('delimiter') == ',')
            return files[g['filename']]

        def extract(ip, a, k):
            o, cell = a
            c.prove('sample from the positions and values given', And(o.attrs['lonLat'].at(0, 0) is not None, eq(o.attrs['lonLat'].shape[0], n), eq(o.attrs['pList'].shape[0], n)))
            i = c.int('obs')
            c.prove('sample from the values at their positions', Implies(And(0 <= i, i < n), And(eq(o.attrs['lonLat'].at(i, 0), pos.at(i, 0)), eq(o.attrs['lonLat'].at(i, 1), pos.at(i, 1)), eq(o.attrs['pList'].at(i), val.at(i)))))
            o.attrs['parameter'] = SObj('sample', {'cell': cell, 'size': c.int('size')})

        def kde(ip, a, k):
            g = bind(['parameters', 'kdeStep', 'kdeParameters', 'angular', 'periodic', 'missingValue'], a, k, 'the estimate')
            s = g['parameters']
            if not (isinstance(s, SObj) and s.cls == 'sample'):
                raise Unsupported('values of the estimate')
            c.prove('estimate at the steps asked for', eq(g['kdeStep'], step))
            c.prove('estimate of angles or periods as asked for', g.get('angular') is ang and g.get('periodic') is per)
            x = s.attrs['cell']
            m, f = ROWS(z(x)), z3.Function('kde.pdf', IS, IS, RS)
            c.assume(m >= 1, eq(OFF(z(add(x, 1))), add(OFF(z(x)), m)))
            return SArr((m, 3), lambda i: ite(eq(i[1], 0), KX(z(x), z(i[0])), ite(eq(i[1], 1), f(z(x), z(i[0])), KY(z(x), z(i[0])))), 'r')
        o = SObj(ip.func(GD), {**G, 'outputPath': 'out', 'kdeParameter': SObj('kde', {'generateKDE': Native(kde)}), 'logger': SObj('logger', {x: Native(lambda ip, a, k: None) for x in ('info', 'debug', 'critical')})})
        ip.contracts.update({'Utilities/files.py::flLoadFile': load, GD + '.extractParameter': extract, 'Utilities/stats.py::maxCellNum': lambda ip, a, k: last})
        out, closed = {}, []

        def text(ip, a, k):
            g = bind(['filename', 'data', 'header', 'delimiter', 'fmt'], a, k, 'writing')
            out['text'] = g

        def variable(ip, a, k):
            name, dims = a[0], a[2]

            def put(ip, a, k):
                c.prove('the whole of %s written' % name, isinstance(a[0], Slice) and a[0].lo is None and a[0].hi is None and a[0].step is None)
                out[name] = a[1]
            return SObj('variable', {'__setitem__': Native(put)})

        def dataset(ip, a, k):
            out['file'] = a[0]
            return SObj('file', {'createDimension': Native(lambda ip, a, k: out.update(dim=a)), 'createVariable': Native(variable), 'close': Native(lambda ip, a, k: closed.append(1))})
        ip.contracts['Utilities/files.py::flSaveFile'] = text
        ip.opts['externals'] = {'netCDF4.Dataset': dataset}
        r = ip.call(ip.func(GD + '.allDistributions'), [o, 'positions', 'parameters'] + (['the name'] if saved else []), {'kdeStep': step, 'angular': ang, 'periodic': per})
        x, i = c.int('cell'), c.int('row')
        ok = And(0 <= x, le(x, last), 0 <= i, lt(i, ROWS(x)))
        at = add(OFF(x), i)
        if saved:
            c.prove('post: file of the quantity', out.get('file') == 'out/process/all_cell_cdf_the name.nc' and closed == [1])
            cols = [out.get(name) for name in ('cell', 'x', 'CDF')]
            if not all(isinstance(v, SArr) for v in cols):
                raise Unsupported('variables of the file')
            c.prove('post: a row for every row of every cell in the file', And(*[eq(v.shape[0], OFF(z(add(last, 1)))) for v in cols]))
            c.prove('post: number, value and distribution of every row in the file', Implies(ok, And(eq(cols[0].at(at), x), eq(cols[1].at(at), KX(x, i)), eq(cols[2].at(at), KY(x, i)))))
            r = out.get('text', {}).get('data')
            c.prove('post: text file of the quantity', out.get('text', {}).get('filename') == 'out/process/all_cell_cdf_the name' and out['text'].get('delimiter') == ',')
        if not isinstance(r, SArr):
            raise Unsupported('table of distributions')
        c.prove('post: rows of all cells', eq(r.shape[0], OFF(z(add(last, 1)))))
        c.prove('post: number, value and distribution of every row', Implies(ok, And(eq(r.at(at, 0), x), eq(r.at(at, 1), KX(x, i)), eq(r.at(at, 2), KY(x, i)))))


# -- observations written for the steps above -------------------------------------------------------------------------------------
LAND = z3.Function('land', RS, RS, RS)


def land_inv(S):
    f, lon, lat = S['lsflag'], S['lon'], S['lat']
    k = qvar()
    return [('flag of every position so far', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, f.shape[0])), eq(f.at(k), ite(And(lt(k, S.it), LAND(toreal(lon.at(k)), toreal(lat.at(k))) > 0), 1, 0))))))]


def day_inv(S):
    d, y, old = S['jdays'], S['years'], S.ip.day0
    k = qvar()
    return [('days so far', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, d.shape[0])), eq(d.at(k), ite(And(lt(k, S.it), eq(mod(y.at(k), 4), 0), le(60, old.at(k))), sub(old.at(k), 1), old.at(k)))))))]


def processor(ip, files):
    c = ip.ctx

    def save(ip, a, k):
        g = bind(['filename', 'data', 'header', 'delimiter', 'fmt'], a, k, 'writing')
        files[g['filename']] = (g['data'], g.get('delimiter', ' '))
    ip.contracts['Utilities/files.py::flSaveFile'] = save
    return SObj(ip.func(DP), {'logger': SObj('logger', {n: Native(lambda ip, a, k: None) for n in ('info', 'debug', 'warning')}), 'ncflag': False, 'data': PDict({}), 'processPath': 'out/process',
                              'landmask': SObj('mask', {'sampleGrid': Native(lambda ip, a, k: LAND(toreal(a[0]), toreal(a[1])))})})


def chosen(ip, mask):
    from engine.models import mask_filter, truthz
    g = mask.snapshot()
    cnt, sel, pos = mask_filter(ip, SArr(mask.shape, lambda i: truthz(g(i)), 'b'))
    return cnt, sel


def same(ip, files, name, cols, n, rows=None, delim=None):
    """file `name` has these columns, of all observations or of those chosen"""
    c = ip.ctx
    got, d = files.get('out/process/' + name, (None, None))
    if not isinstance(got, SArr):
        raise Unsupported('file %s %r' % (name, got))
    cnt, sel = (n, lambda k: k) if rows is None else rows
    k = c.int('row')
    ok = And(0 <= k, lt(k, cnt))
    flat = len(got.shape) == 1
    c.prove('%s: a row for each' % name, eq(got.shape[0], cnt))
    for j, (what, col) in enumerate(cols):
        c.prove('%s: %s' % (name, what), Implies(ok, eq(got.at(k) if flat else got.at(k, j), col(sel(k)))))
    if delim:
        c.prove('%s: columns apart' % name, d == delim)


@task('P37', 'positions written', [DP + '._lonLat'], assumes=ASSUME, loops={'DataProcess._lonLat': [Loop(land_inv, name='positions')]})
def positions(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 1)
    lon, lat = [ip.fresh_array((n,), 'r', x) for x in ('lon', 'lat')]
    ind, more = [ip.fresh_array((n,), 'i', x) for x in ('indicator', 'initIndex')]
    files = {}
    o = processor(ip, files)
    ip.call(ip.func(DP + '._lonLat'), [o, lon, lat, ind, more])
    cols = [('longitude', lon.at), ('latitude', lat.at), ('land flag', lambda j: ite(LAND(toreal(lon.at(j)), toreal(lat.at(j))) > 0, 1, 0))]
    same(ip, files, 'all_lon_lat', cols, n, delim=',')
    same(ip, files, 'origin_lon_lat', cols, n, chosen(ip, ind), ',')
    same(ip, files, 'init_lon_lat', cols, n, chosen(ip, more), ',')
    same(ip, files, 'cyclone_tracks', [('first of a storm', ind.at)] + cols, n, delim=',')


for _q, _unit in (('pressure', 'hPa'), ('rmax', 'km')):
    @task('P37', _q + ' written', [DP + '._' + _q], assumes=ASSUME)
    def values(ip, q=_q):
        c = ip.ctx
        n = c.input('n', c.int('n'))
        c.assume(n >= 1)
        val, ind = ip.fresh_array((n,), 'r', q), ip.fresh_array((n,), 'i', 'indicator')
        files = {}
        o = processor(ip, files)
        ip.call(ip.func(DP + '._' + q), [o, val, ind])
        same(ip, files, 'all_' + q, [(q, val.at)], n)
        same(ip, files, 'init_' + q, [(q, val.at)], n, chosen(ip, ind))
        rest, j = files.get('out/process/%s_no_init' % q, (None,))[0], qvar()
        if not isinstance(rest, SArr):
            raise Unsupported('file of later observations')
        k = c.int('k')
        c.prove('later observations: each one of a storm, known', Implies(And(0 <= k, lt(k, rest.shape[0])), z3.Exists([j], z(And(0 <= j, lt(j, n), eq(ind.at(j), 0), eq(rest.at(k), val.at(j)))))))


@task('P37', 'days written', [DP + '._juliandays'], assumes=ASSUME, loops={'DataProcess._juliandays': [Loop(day_inv, name='days')]})
def days(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 1)
    day, year, ind = [ip.fresh_array((n,), 'i', x) for x in ('jdays', 'years', 'indicator')]
    old = day.snapshot()
    ip.day0 = SArr((n,), old, 'i')
    files = {}
    o = processor(ip, files)
    seen = []

    def histogram(ip, a, k):
        g = bind(['a', 'bins'], a, k, 'the histogram')
        h = SObj('histogram', {'of': g['a']})
        seen.append((g['a'], g['bins']))
        return ip.fresh_array((sub(g['bins'].shape[0], 1),), 'i', 'counts'), g['bins']
    ip.opts['externals'] = {'numpy.histogram': histogram}
    ip.call(ip.func(DP + '._juliandays'), [o, day, ind, year])
    new = lambda j: ite(And(eq(mod(year.at(j), 4), 0), le(60, old((j,)))), sub(old((j,)), 1), old((j,)))
    same(ip, files, 'jdays', [('day of the year without the leap day', new)], n, chosen(ip, ind))


# -- observations read ------------------------------------------------------------------------------------------------------------
BIG = 2 ** 63 - 1
LD, MP, MU = 'Utilities/loadData.py', 'Utilities/maputils.py', 'Utilities/metutils.py'


def table(cols):
    from engine.models import arr_getitem

    def get(ip, a, k):
        x = a[0]
        if isinstance(x, str):
            if x not in cols:
                raise PyRaise('ValueError', ())
            return cols[x]
        if isinstance(x, SArr):
            return table({n: arr_getitem(ip, v, (x,)) for n, v in cols.items()})
        raise Unsupported('index of the input')
    t = SObj('table', {'__getitem__': Native(get)})
    t.cols = cols
    return t


@task('P37', 'observations handed on', [DP + '.processData'], assumes=ASSUME + ('input with dates, seasons, positions, pressures, wind speeds and radii', 'contracts of reading dates, times, distances (property P18) and units (property P19)'), deadline=300)
def observations(ip):
    from engine.models import mask_filter
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 2)
    raw = {x: ip.fresh_array((n,), 'r' if x != 'season' else 'i', x) for x in ('lat', 'lon', 'pressure', 'vmax', 'rmax', 'season')}
    start = ip.fresh_array((n,), 'i', 'starts')
    first = c.input('first season', c.int('startSeason'))
    inp = table(raw)
    cnt, sel, pos = mask_filter(ip, SArr((n,), lambda i: le(first, raw['season'].at(i[0])), 'b'))
    c.assume(cnt >= 2)
    at = lambda x, i: raw[x].at(sel(i))
    got, files = {}, {}
    cfg = SObj('config', {'read': Native(lambda ip, a, k: None), 'has_option': Native(lambda ip, a, k: a[1] == 'InputFile'), 'get': Native(lambda ip, a, k: a[1] if a[1] == 'Source' else 'in/' + a[1] if a[1] == 'InputFile' else a[1]),
                          'getint': Native(lambda ip, a, k: first if a[1] == 'StartSeason' else c.int(a[1]))})
    UNIT = {u: z3.Function(u, RS, RS) for u in ('hPa', 'mps', 'km')}
    FROM = {'hPa': 'PressureUnits', 'mps': 'SpeedUnits', 'km': 'LengthUnits'}

    def convert(ip, a, k):
        v, src, dst = a
        c.prove('converted from the units of the input', FROM.get(dst) == src)
        g = v.snapshot()
        return SArr(v.shape, lambda i: UNIT[dst](toreal(g(i))), 'r')
    DT, JD = [ip.fresh_array((cnt,), 'r', x) for x in ('dt', 'jdays')]
    D5 = [ip.fresh_array((cnt,), 'i', x) for x in ('year', 'month', 'day', 'hour', 'minute')]
    i = c.int('i')
    c.assume(And(0 <= i, lt(i, cnt)))

    def dates(ip, a, k):
        c.prove('dates of the observations kept', And(eq(a[0].cols['lat'].shape[0], cnt), eq(a[0].cols['lat'].at(i), at('lat', i)), eq(a[1].at(i), start.at(sel(i)))))
        return tuple(D5) + (SObj('datetimes'),)

    def times(what, r):
        def f(ip, a, k):
            c.prove('%s from the dates' % what, len(a) == 5 and all(x is y for x, y in zip(a, D5)))
            return r
        return f
    AZ, DI = [ip.fresh_array((sub(cnt, 1),), 'r', x) for x in ('azimuth', 'distance')]
    lonOf = lambda k: mod(at('lon', k), 360)

    def azi(ip, a, k):
        g = bind(['lat', 'lon', 'ieast', 'azimuth', 'wantXY'], a, k, 'distances')
        c.prove('distances between the positions', And(eq(g['lat'].at(i), at('lat', i)), eq(g['lon'].at(i), lonOf(i)), eq(g['lat'].shape[0], cnt), eq(g['lon'].shape[0], cnt)))
        return AZ, DI

    def part(name):
        def f(ip, a, k):
            f_ = ip.func(DP + '.' + name)
            got[name] = {x: (v.snapshot() if isinstance(v, SArr) else v) for x, v in bind([p.arg for p in f_.node.args.args], a, k, name).items()}
            for x, v in got[name].items():
                if callable(v):
                    c.prove('a value for every observation', eq((a[[p.arg for p in f_.node.args.args].index(x)] if x not in k else k[x]).shape[0], cnt))
        return f
    PARTS = ('_lonLat', '_bearing', '_bearingRate', '_speed', '_speedRate', '_pressure', '_pressureRate', '_windSpeed', '_rmax', '_rmaxRate', '_frequency', '_juliandays')

    def save(ip, a, k):
        g = bind(['filename', 'data', 'header', 'delimiter', 'fmt'], a, k, 'writing')
        files[g['filename']] = g['data']
    ip.opts['externals'] = {'os.path.dirname': lambda ip, a, k: 'in'}
    ip.contracts.update({DP + '.' + x: part(x) for x in PARTS})
    ip.contracts.update({'Utilities/config.py::ConfigParser': lambda ip, a, k: cfg, 'Utilities/columns.py::colReadCSV': lambda ip, a, k: inp, LD + '::getInitialPositions': lambda ip, a, k: SArr((n,), start.snapshot(), 'i'),
                         LD + '::parseDates': dates, LD + '::getTimeDelta': times('time between observations', DT), LD + '::julianDays': times('days of the year', JD),
                         MP + '::latLon2Azi': azi, MU + '::convert': convert, 'Utilities/files.py::flSaveFile': save, 'Utilities/files.py::flModuleName': lambda ip, a, k: 'module'})
    o = SObj(ip.func(DP), {'logger': SObj('logger', {x: Native(lambda ip, a, k: None) for x in ('info', 'debug', 'warning')}), 'ncflag': False, 'data': PDict({}), 'processPath': 'out/process', 'configFile': 'file',
                           'progressbar': None, 'origin_year': 'the seasons', 'tcrm_input_dir': 'input'})
    ip.call(ip.func(DP + '.processData'), [o])
    jump = lambda k: And(le(1, k), Or(lt(15, sub(lonOf(k), lonOf(sub(k, 1)))), lt(5, sub(at('lat', k), at('lat', sub(k, 1))))))
    ind = lambda k: ite(jump(k), 1, start.at(sel(k)))
    for name in PARTS:
        c.prove('every quantity handed on', name in got)
        g = got.get(name, {})
        if 'indicator' in g:
            c.prove('first observations of storms, as given or after a jump', eq(g['indicator']((i,)), ind(i)))
        if 'dt' in g:
            c.prove('time between observations', eq(g['dt']((i,)), DT.at(i)))
        if 'initIndex' in g:
            c.prove('first of the storms that have a second', Iff(eq(g['initIndex']((i,)), 1), And(lt(i, sub(cnt, 1)), lt(0, ind(i)), Not(lt(0, ind(add(i, 1)))))))
        if 'pressure' in g:
            p = UNIT['hPa'](toreal(at('pressure', i)))
            good = And(Not(eq(at('pressure', i), BIG)), le(600, p), le(p, 1100))
            c.prove('pressure in hPa, or none', eq(g['pressure']((i,)), ite(good, p, BIG)))
        if 'rmax' in g:
            c.prove('radius in km, or none', eq(g['rmax']((i,)), ite(eq(at('rmax', i), BIG), BIG, UNIT['km'](toreal(at('rmax', i))))))
        if 'windSpeed' in g:
            c.prove('wind speed in metres per second, or none', eq(g['windSpeed']((i,)), ite(eq(at('vmax', i), BIG), BIG, UNIT['mps'](toreal(at('vmax', i))))))
        if 'lon' in g:
            c.prove('positions', And(eq(g['lon']((i,)), lonOf(i)), eq(g['lat']((i,)), at('lat', i))))
        for x, v in (('bear', AZ), ('dist', DI)):
            if x in g:
                c.prove('%s since the observation before' % x, Implies(le(1, i), eq(g[x]((i,)), v.at(sub(i, 1)))))
        if 'years' in g:
            c.prove('years', eq(g['years']((i,)), D5[0].at(i)))
        if 'jdays' in g:
            c.prove('days', eq(g['jdays']((i,)), JD.at(i)))
    c.prove('seasons of the storms saved', 'the seasons' in files)


# -- dates read -------------------------------------------------------------------------------------------------------------------
PARTS = ('year', 'month', 'day', 'hour', 'minute')
PART = {x: z3.Function('date.' + x, IS, IS) for x in PARTS}


class Text:
    """the text of the date of record k, and the date"""

    def __init__(self, k):
        self.k = k


@task('P37', 'dates read, one column', [LD + '::parseDates', LD + '::date2ymdh'], assumes=ASSUME + ('datetime.strptime gives the date of a text in the format it is given',))
def date_column(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 1)
    ind = ip.fresh_array((n,), 'i', 'starts')

    def strptime(ip, a, k):
        t = a[0]
        if not isinstance(t, Text):
            raise Unsupported('text of a date')
        c.prove('the format asked for', a[1] == FMT)
        return SObj('datetime', {x: PART[x](z(t.k)) for x in PARTS})
    FMT = '%Y/%m/%d'
    from engine.models import REG

    def empty(ip, a, k):
        if len(a) > 1 and isinstance(a[1], ExtRef) and a[1].name.endswith('datetime'):
            return SObj('datetimes', {'__setitem__': Native(lambda ip, a, k: c.prove('the date of the record', isinstance(a[1], SObj) and a[1].cls == 'datetime'))})
        return REG['numpy.empty'](ip, a, k)
    ip.opts['externals'] = {'re.compile': lambda ip, a, k: SObj('pattern', {'search': Native(lambda ip, b, k: True if a[0] in b[0] else None)}), 'datetime.datetime.strptime': strptime, 'builtins.str': lambda ip, a, k: a[0], 'numpy.empty': empty}
    dates = PList(n=n, fn=lambda i: Text(i))
    r = ip.call(ip.func(LD + '::parseDates'), [table({'date': dates}), ind, FMT])
    i = c.int('i')
    c.assume(And(0 <= i, lt(i, n)))
    for x, v in zip(PARTS, r):
        c.prove('%s of every record' % x, And(eq(v.shape[0], n), eq(v.at(i), PART[x](z(i)))))


for _cols in (PARTS, PARTS[:4]):
    @task('P37', 'dates read, %d columns' % len(_cols), [LD + '::parseDates'], assumes=ASSUME)
    def date_columns(ip, cols=_cols):
        c = ip.ctx
        n = c.input('n', c.int('n'))
        c.assume(n >= 1)
        ind = ip.fresh_array((n,), 'i', 'starts')
        raw = {x: ip.fresh_array((n,), 'i', x) for x in cols}
        ip.opts['externals'] = {'datetime.datetime': lambda ip, a, k: SObj('datetime', dict(zip(PARTS, a)))}
        i = c.int('i')
        c.assume(And(0 <= i, lt(i, n)))
        r = ip.call(ip.func(LD + '::parseDates'), [table(dict(raw)), ind])
        for x, v in zip(PARTS, r):
            if x in cols and (x != 'hour' or 'minute' in cols):
                c.prove('%s of every record' % x, And(eq(v.shape[0], n), eq(v.at(i), raw[x].at(i))))
        if 'minute' not in cols:
            h, m, t = r[3].at(i), r[4].at(i), raw['hour'].at(i)
            c.prove('hour and minute of every record', And(eq(r[3].shape[0], n), eq(r[4].shape[0], n), Or(And(eq(h, t), eq(m, 0), lt(t, 100)), And(eq(add(mul(100, h), m), t), le(0, m), lt(m, 100)))))
