"""Station time series (Utilities/timeseries.py, Utilities/dynarray.py)."""
import ast
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import qvar, model, REG
from contracts.mpi import upd

DY, TS, MU = 'Utilities/dynarray.py', 'Utilities/timeseries.py', 'Utilities/maputils.py'
DR = DY + '::DynamicRecArray'
ASSUME = ('a record is kept as it is by an array of its type (text longer than 16 characters is cut)',)


# -- growing array; records are represented by integers ----------------------------------------------------------------------
def empty(ip, a, k):
    return ip.fresh_array((a[0],), 'i', 'empty')


def resize(ip, a, k):
    old, n = a[0], a[1]
    f, m = old.snapshot(), old.shape[0]
    return SArr((n,), lambda i: f((ite(lt(i[0], m), i[0], mod(i[0], m)),)), 'i')


EXT = {'numpy.empty': empty, 'numpy.resize': resize, 'numpy.dtype': lambda ip, a, k: Opaque('dtype')}


def array(ip):
    """any array that satisfies its invariant"""
    c = ip.ctx
    n, size = c.input('length', c.int('length')), c.input('size', c.int('size'))
    c.assume(And(0 <= n, n <= size, size >= 2))
    return SObj(ip.func(DR), {'dtype': Opaque('dtype'), 'length': n, 'size': size, '_data': ip.fresh_array((size,), 'i', 'data')})


def invariant(o):
    A = o.attrs
    return And(le(0, A['length']), le(A['length'], A['size']), le(2, A['size']), eq(A['_data'].shape[0], A['size']))


@task('P24', 'new array', [DR + '.__init__', DR + '.data'], opts={'externals': EXT}, assumes=ASSUME)
def new(ip):
    c = ip.ctx
    o = ip.call(ip.func(DR), [Opaque('dtype')])
    c.prove('post: invariant of the array', invariant(o))
    c.prove('post: no records', And(eq(ip.getattr(o, 'data').shape[0], 0), eq(ip.call(ip.func(DR + '.__len__'), [o]), 0)))


def appended(ip, o, old, n, added, m):
    c = ip.ctx
    d = ip.getattr(o, 'data')
    c.prove('post: invariant of the array', invariant(o))
    c.prove('post: as many records more as were given', And(eq(d.shape[0], add(n, m)), eq(ip.call(ip.func(DR + '.__len__'), [o]), add(n, m))))
    i = c.int('i')
    c.prove('post: earlier records are kept, in order', Implies(And(0 <= i, lt(i, n)), eq(d.at(i), old((i,)))))
    c.prove('post: new records follow', Implies(And(0 <= i, lt(i, m)), eq(d.at(add(n, i)), added(i))))


@task('P24', 'append', [DR + '.append', DR + '.data', DR + '.__len__'], opts={'externals': EXT}, assumes=ASSUME)
def append(ip):
    o = array(ip)
    old, n, r = o.attrs['_data'].snapshot(), o.attrs['length'], ip.ctx.int('record')
    ip.call(ip.func(DR + '.append'), [o, r])
    appended(ip, o, old, n, lambda i: r, 1)


def ext_append(ip, a, k):
    """contract of append"""
    o, r = a
    A = o.attrs
    n, f = A['length'], A['_data'].snapshot()
    size = ip.ctx.int('size')
    A['length'] = add(n, 1)
    A['size'] = size
    ip.ctx.assume(And(le(A['length'], size), le(2, size)))
    A['_data'] = SArr((size,), lambda i: ite(eq(i[0], n), r, f(i)), 'i')


def ext_inv(s):
    A = s['self'].attrs
    st = s.ip.st
    i = qvar()
    return [('array', invariant(s['self'])), ('length', eq(A['length'], add(st['n'], s.it))), ('earlier records', z3.ForAll([i], z(Implies(And(0 <= i, lt(i, st['n'])), eq(A['_data'].at(i), st['old']((i,))))))),
            ('new records', z3.ForAll([i], z(Implies(And(0 <= i, lt(i, s.it)), eq(A['_data'].at(add(st['n'], i)), st['added'](i))))))]


def any_data(s):
    n = s.ctx.int('any.size')
    return s.ip.fresh_array((n,), 'i', 'data')


_EL = [Loop(ext_inv, name='records', havoc={'._data': any_data})]


@task('P24', 'extend', [DR + '.extend', DR + '.data'], contracts={DR + '.append': ext_append}, loops={'DynamicRecArray.extend': _EL, 'extend': _EL}, opts={'externals': EXT}, assumes=ASSUME)
def extend(ip):
    c = ip.ctx
    o = array(ip)
    m = c.input('m', c.int('m'))
    c.assume(m >= 0)
    f = c.func('added', IS, IS)
    ip.st = {'n': o.attrs['length'], 'old': o.attrs['_data'].snapshot(), 'added': lambda i: f(z(i))}
    ip.call(ip.func(DR + '.extend'), [o, PList(n=m, fn=lambda i: f(z(i)))])
    appended(ip, o, ip.st['old'], ip.st['n'], ip.st['added'], m)


# -- sampling ----------------------------------------------------------------------------------------------------------------
FIELDS = ('spd', 'uu', 'vv', 'prs')


def grid(ip):
    c = ip.ctx
    nx, ny = c.int('nx'), c.int('ny')
    c.assume(And(nx >= 1, ny >= 1))
    x, y = ip.fresh_array((nx,), 'r', 'gridx'), ip.fresh_array((ny,), 'r', 'gridy')
    return nx, ny, x, y, [ip.fresh_array((ny, nx), 'r', n) for n in FIELDS]


@task('P24', 'nearest grid point', [TS + '::Timeseries.sample', MU + '::find_index'])
def sample(ip):
    c = ip.ctx
    nx, ny, x, y, F = grid(ip)
    lon, lat = c.input('lon', c.real('lon')), c.input('lat', c.real('lat'))
    ang = z3.Function('angle', RS, RS, RS)
    ip.opts = dict(ip.opts, externals={'numpy.arctan2': lambda ip, a, k: ang(toreal(a[0]), toreal(a[1]))})
    r = ip.call(ip.func(TS + '::Timeseries.sample'), [SObj(ip.func(TS + '::Timeseries'), {}), lon, lat] + F + [x, y])
    i, j = [c.int(n) for n in 'ij']
    k, m = qvar(2)
    near = z3.Exists([k, m], z(And(0 <= k, lt(k, ny), 0 <= m, lt(m, nx), eq(r[0], F[0].at(k, m)), eq(r[1], F[1].at(k, m)), eq(r[2], F[2].at(k, m)), eq(r[4], F[3].at(k, m)),
                                   le(absv(sub(y.at(k), lat)), absv(sub(y.at(i), lat))), le(absv(sub(x.at(m), lon)), absv(sub(x.at(j), lon))))))
    c.prove('post: speed, components and pressure of the grid point nearest to the station', Implies(And(0 <= i, lt(i, ny), 0 <= j, lt(j, nx)), near))


def ex_inv(s):
    G = s.ctx.ghosts['series'].attrs
    k = qvar()
    return [('one record for each station', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, s.ip.st['n'])), eq(G['count'].at(k), ite(lt(k, s.it), 1, 0))))))]


_XL = [Loop(ex_inv, name='stations')]


@task('P24', 'one record each time step', [TS + '::Timeseries.extract', TS + '::Station.insideGrid'], loops={'Timeseries.extract': _XL, 'extract': _XL})
def extract(ip):
    c = ip.ctx
    nx, ny, x, y, F = grid(ip)
    n = c.input('n', c.int('n'))
    c.assume(n >= 0)
    LON, LAT = [z3.Function('station.' + w, IS, RS) for w in ('lon', 'lat')]
    VAL = [z3.Function('sampled.' + w, RS, RS, RS) for w in ('speed', 'u', 'v', 'bearing', 'pressure')]
    c.ghosts['series'] = SObj(None, {'count': SArr((n,), lambda i: 0, 'i')})
    ip.st = {'n': n}
    dt = '2001-01-01 00:00'

    def put(k):
        def f(ip, a, kw):
            rec = a[0]
            G = ip.ctx.ghosts['series'].attrs
            lon, lat = LON(z(k)), LAT(z(k))
            i, j = qvar(2)
            inside = And(z3.Exists([i], z(And(0 <= i, lt(i, nx), le(x.at(i), lon)))), z3.Exists([i], z(And(0 <= i, lt(i, nx), le(lon, x.at(i))))),
                         z3.Exists([i], z(And(0 <= i, lt(i, ny), le(y.at(i), lat)))), z3.Exists([i], z(And(0 <= i, lt(i, ny), le(lat, y.at(i))))))
            c.prove('append: time and place of the station', And(isinstance(rec[0], SObj) and rec[0].attrs.get('k') is k, rec[1] == dt, eq(rec[2], lon), eq(rec[3], lat), len(rec) == 9))
            vals = And(*[eq(rec[4 + q], VAL[q](lon, lat)) for q in range(5)])
            none = And(*[eq(rec[q], 0) for q in range(4, 8)])
            c.prove('append: the values sampled, or no wind outside the grid', And(Implies(inside, vals), Implies(Not(inside), none)))
            upd(G, 'count', k, add(G['count'].at(k), 1))
        return Native(f)

    def station(k):
        return SObj(ip.func(TS + '::Station'), {'id': SObj('id', {'k': k}), 'lon': LON(z(k)), 'lat': LAT(z(k)), 'data': SObj(None, {'append': put(k)})})

    def con(ip, a, k):
        """contract of sample: a function of the place"""
        c.prove('sample: from the fields of this time step', all(p is q for p, q in zip(a[3:7], F)) and a[7] is x and a[8] is y)
        return tuple(v(toreal(a[1]), toreal(a[2])) for v in VAL)
    ip.contracts = {TS + '::Timeseries.sample': con}
    ip.opts = dict(ip.opts, externals={'builtins.str': lambda ip, a, k: a[0]})
    ip.call(ip.func(TS + '::Timeseries.extract'), [SObj(ip.func(TS + '::Timeseries'), {'stations': PList(n=n, fn=station)}), dt] + F + [x, y])
    k = c.int('k')
    c.prove('post: every station has one more record', Implies(And(0 <= k, k < n), eq(c.ghosts['series'].attrs['count'].at(k), 1)))


# -- extremes ----------------------------------------------------------------------------------------------------------------
LEN = z3.Function('samples', IS, IS)
REC = z3.Function('record', IS, IS, IS)                              # station, time step -> record
OWN, STEP = z3.Function('station.of', IS, IS), z3.Function('step.of', IS, IS)
FIELD = {n: z3.Function('field.' + n, IS, RS) for n in ('Speed', 'Pressure')}


@model('series.__getitem__')
def series_get(ip, a, k):
    o, ix = a
    st = o.attrs['k']
    if isinstance(ix, str):
        return SArr((LEN(z(st)),), lambda i: FIELD[ix](REC(z(st), z(i[0]))), 'r')
    ip.ctx.prove('record inside the series', And(le(0, ix), lt(ix, LEN(z(st)))))
    return SObj('rec', {'id': REC(z(st), z(ix))})


def collected(s, name):
    return s.ctx.ghosts[name].attrs


def sh_inv(s):
    st = s.ip.st
    J = st['J']
    r = []
    windy = st['windy']
    for name, field, better in (('max', 'Speed', lambda a, b: le(b, a)), ('min', 'Pressure', lambda a, b: le(a, b))):
        G = s.ctx.ghosts[name].attrs
        x = G['ids'].at(G['at'])
        i = qvar()
        r.append(('%s: record of the station is there once it is past' % name, Implies(And(lt(J, s.it), windy), And(le(0, G['at']), lt(G['at'], G['n']), eq(OWN(x), J), le(0, STEP(x)), lt(STEP(x), LEN(J)),
                  eq(x, REC(J, STEP(x))), z3.ForAll([i], z(Implies(And(0 <= i, lt(i, LEN(J))), better(FIELD[field](x), FIELD[field](REC(J, i))))))))))
        r.append(('%s: length' % name, le(0, G['n'])))
        r.append(('%s: one record for the station' % name, eq(G['of'], ite(And(lt(J, s.it), windy), 1, 0))))
    return r


def order(node):
    """which of the two arrays is created first, by the files they are written to"""
    var = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and ast.unparse(x.func).endswith('savetxt') and len(x.args) > 1 and ast.unparse(x.args[0]) in ('self.maxfile', 'self.minfile'):
            var[ast.unparse(x.args[1]).split('.')[0]] = ast.unparse(x.args[0])[5:8]
    made = [x.targets[0].id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id in var and isinstance(x.value, ast.Call)]
    if len(made) != 2:
        raise Unsupported('arrays of extremes not recognised')
    return [var[m] for m in made]


_SL = [Loop(sh_inv, name='stations')]


@task('P24', 'extremes', [TS + '::Timeseries.shutdown'], loops={'Timeseries.shutdown': _SL, 'shutdown': _SL}, opts={'enter': lambda ip, cm: cm}, assumes=ASSUME)
def extremes(ip):
    c = ip.ctx
    n, J = c.input('n', c.int('n')), c.input('J', c.int('J'))
    c.assume(And(0 <= J, J < n))
    i, j = qvar(2)
    c.assume(z3.ForAll([i, j], z(And(eq(OWN(REC(i, j)), i), eq(STEP(REC(i, j)), j)))), z3.ForAll([i], LEN(i) >= 0))
    windy = z3.Exists([i], z(And(0 <= i, lt(i, LEN(J)), lt(0, FIELD['Speed'](REC(J, i))))))
    ip.st = {'J': J, 'windy': windy, 'saved': []}
    names = order(ip.func(TS + '::Timeseries.shutdown').node)

    def new(ip, a, k):
        # contract of the growing array; which of the two is decided by the file it is written to
        nm = names.pop(0) if names else None
        c.ghosts[nm] = SObj(None, {'ids': SArr((c.int('cap'),), lambda i: 0, 'i'), 'n': 0, 'at': -1, 'of': 0})

        def app(ip, a, k):
            G = c.ghosts[nm].attrs
            r = a[0].attrs['id']
            upd(G, 'ids', G['n'], r)
            mine = eq(OWN(z(r)), J)
            G['at'] = ite(mine, G['n'], G['at'])
            G['of'] = add(G['of'], ite(mine, 1, 0))
            G['n'] = add(G['n'], 1)
        return SObj(None, {'append': Native(app), 'data': Opaque(nm)})

    def save(ip, a, k):
        f, d = a[0], a[1]
        if isinstance(d, Opaque):
            if not c.mute:
                ip.st['saved'].append((f, d.name if hasattr(d, 'name') else str(d)))
        else:
            c.prove('file: the whole series of its station', isinstance(d, SObj) and d.cls == 'series' and isinstance(f, SObj) and f.attrs['k'] is d.attrs['k'])
    ip.contracts = {DR: new}
    ip.opts = dict(ip.opts, externals={'numpy.savetxt': save, 'builtins.tuple': lambda ip, a, k: a[0], 'builtins.str': lambda ip, a, k: a[0] if isinstance(a[0], SObj) else str(a[0]),
                                       'builtins.open': lambda ip, a, k: ip.st['file'], 'numpy.array': lambda ip, a, k: a[0] if isinstance(a[0], SObj) else REG['numpy.array'](ip, a, k),
                                       'os.path.join': lambda ip, a, k: 'path'})

    def station(k):
        ip.st['file'] = SObj('file', {'k': k})
        return SObj(ip.func(TS + '::Station'), {'id': 'id', 'data': SObj(None, {'data': SObj('series', {'k': k})})})
    o = SObj(ip.func(TS + '::Timeseries'), {'stations': PList(n=n, fn=station), 'maxfile': 'maxima', 'minfile': 'minima', 'outputPath': 'out'})
    ip.call(ip.func(TS + '::Timeseries.shutdown'), [o])
    c.prove('post: both files are written', sorted(ip.st['saved']) == [('maxima', 'max'), ('minima', 'min')])
    for name, field, better in (('max', 'Speed', lambda a, b: le(b, a)), ('min', 'Pressure', lambda a, b: le(a, b))):
        G = c.ghosts[name].attrs
        x = G['ids'].at(G['at'])
        t = c.int('t')
        c.prove('post: %s: one record for the station if it has wind' % name, eq(G['of'], ite(windy, 1, 0)))
        c.prove('post: %s: of its own series' % name, Implies(windy, And(le(0, G['at']), lt(G['at'], G['n']), eq(x, REC(J, STEP(x))), le(0, STEP(x)), lt(STEP(x), LEN(J)))))
        c.prove('post: %s: of the step with the extreme %s' % (name, field.lower()), Implies(And(windy, 0 <= t, t < LEN(J)), better(FIELD[field](x), FIELD[field](REC(J, t)))))
