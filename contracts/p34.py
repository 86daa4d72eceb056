"""Tracks written to a track file and read back; tracks that reach the wind field (Utilities/track.py, wind/__init__.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar

T, W = 'Utilities/track.py', 'wind/__init__.py'
NAMES = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')
COL = {n: z3.Function('track.' + n, IS, IS, RS) for n in NAMES}       # Datetime: the date, as a number
LEN, ID = z3.Function('track.length', IS, IS), z3.Function('track.id', IS, IS)
NUM, DATE = z3.Function('date2num', RS, IS, IS, RS), z3.Function('num2date', RS, IS, IS, RS)
FORMAT = '%Y-%m-%d %H:%M:%S'
ASSUME = ('netCDF files keep what is written to them, groups in the order they are made', 'a date converted to a number and back with the same unit and calendar is the same date to the second',
          'a track identity written as text and evaluated is the same identity', 'all tracks of a file have the same columns')


class Code:
    """a text or kind of number known by a number"""

    def __init__(self, code):
        self.code = code


def table(ip, n, cols, dates=None, held=False):
    """array of records: columns as functions of the row; dates: 'date' objects or numbers (unit, calendar)"""
    o = SObj('records', {})
    o.n, o.cols, o.dates = n, dict(cols), dates

    def get(ip, a, k):
        if not isinstance(a[0], str) or a[0] not in o.cols:
            raise Unsupported('column %r' % (a[0],))
        f = o.cols[a[0]]
        r = SArr((n,), lambda i: f(i[0]), 'r')
        if a[0] == 'Datetime':
            r.props['dates'] = o.dates
        return r

    def put(ip, a, k):
        if held:
            ip.ctx.ghosts['changed'] = add(ip.ctx.ghosts.get('changed', 0), 1)
        if isinstance(a[0], Slice) and isinstance(a[1], SObj) and hasattr(a[1], 'cols'):
            o.cols, o.dates = dict(a[1].cols), a[1].dates
            return
        if not isinstance(a[0], str) or a[0] not in o.cols:
            raise Unsupported('column %r' % (a[0],))
        v = a[1]
        if isinstance(v, PList):
            g = v.getter()
            ip.ctx.prove('as many values as records', eq(v.length(), n))
            o.cols[a[0]] = lambda i: g(i)
            if a[0] == 'Datetime':
                o.dates = 'date'
            return
        if not isinstance(v, SArr):
            raise Unsupported('column set to something else')
        ip.ctx.prove('as many values as records', eq(v.shape[0], n))
        g = v.snapshot()
        o.cols[a[0]] = lambda i: g((i,))
        if a[0] == 'Datetime':
            o.dates = v.props.get('dates')

    def astype(ip, a, k):
        if not isinstance(a[0], Code):
            raise Unsupported('conversion of records')
        ip.ctx.prove('times are numbers when stored', o.dates != 'date')
        return table(ip, n, o.cols, o.dates)
    o.attrs.update({'__getitem__': Native(get), '__setitem__': Native(put), '__len__': Native(lambda ip, a, k: n), 'astype': Native(astype),
                    'copy': Native(lambda ip, a, k: table(ip, n, o.cols, o.dates)), 'dtype': SObj('dtype', {'names': NAMES})})
    return o


def dtype(ip, a, k):
    """dtype of records: names, and the list of (name, type) that is changed for the times"""
    v = a[0]
    if isinstance(v, PList):
        ip.ctx.prove('times stored as double precision numbers', v.items[NAMES.index('Datetime')] == ('Datetime', 'f8'))
        return Code('stored')
    if isinstance(v, PDict):
        if v.d.get('names') != NAMES:
            raise Unsupported('columns of a track')
        return SObj('dtype', {'names': NAMES})
    return SObj('dtype', {'names': NAMES, 'descr': PList([(x, 'type of ' + x) for x in NAMES])})


def date2num(ip, a, k):
    d, u, c = (list(a) + [None] * 3)[:3]
    u, c = k.get('units', u), k.get('calendar', c)
    if not isinstance(u, Code) or not isinstance(c, Code):
        ip.ctx.prove('unit and calendar as given', False)
        raise Unsupported('unit of time')
    if d.props.get('dates') != 'date':
        raise Unsupported('dates expected')
    f = d.snapshot()
    r = SArr(d.shape, lambda i: NUM(z(f(i)), z(u.code), z(c.code)), 'r')
    r.props['dates'] = (u, c)
    return r


def track(ip, k):
    return SObj(None, {'data': table(ip, LEN(z(k)), {n: (lambda i, n=n: COL[n](z(k), z(i))) for n in NAMES}, 'date', True), 'trackId': SObj('id', {'k': ID(z(k))}), 'k': k})


def same(t, k, i, ip):
    """columns of a table are those of track k"""
    return [(n, eq(t.cols[n](i), COL[n](z(k), z(i)))) for n in NAMES if n != 'Datetime']


@task('P34', 'write', [T + '::ncSaveTracks'], assumes=ASSUME)
def write(ip):
    c = ip.ctx
    N = c.input('tracks', c.int('N'))
    c.assume(N >= 0)
    q = qvar()
    c.assume(z3.ForAll([q], LEN(q) >= 0, patterns=[LEN(q)]))
    COUNT = z3.Function('tracks that are not empty', IS, IS)
    c.assume(COUNT(0) == 0)
    unit, cal = Code(c.int('unit')), Code(c.int('calendar'))
    made, closed = [], []
    c.ghosts['groups'] = c.ghosts['changed'] = 0

    def variable(ip, a, k):
        g = made[-1]
        v = SObj('variable', {'__setitem__': Native(lambda ip, b, kw: g['put'].append((a[0], b[0], b[1])))})
        g['var'][a[0]] = v
        return v

    def group(ip, a, k):
        x = [p for p in a[0].parts if isinstance(p, tuple)] if isinstance(a[0], SymStr) else []
        if len(x) != 1:
            raise Unsupported('name of a group')
        n, done = x[0][2], ip.ctx.ghosts['groups']
        ip.ctx.prove('name of a group given to no other', Or(eq(n, now['it']), eq(n, add(now['it'], 1)), eq(n, done), eq(n, add(done, 1))))
        g = {'var': {}, 'put': []}
        made.append(g)
        ip.ctx.ghosts['groups'] = add(ip.ctx.ghosts['groups'], 1)
        return SObj('group', {'createCompoundType': Native(lambda ip, b, kw: Code('stored')), 'createDimension': Native(lambda ip, b, kw: None), 'createVariable': Native(variable)})
    top = SObj('group', {'createGroup': Native(group)})

    def root(ip, a, k):
        if a[0] != 'tracks':
            ip.ctx.prove('group of tracks', False)
        return top
    nc = SObj('file', {'createGroup': Native(root), 'setncatts': Native(lambda ip, a, k: None), 'close': Native(lambda ip, a, k: closed.append(1))})
    opened = []
    ip.opts['names'] = {(T, 'Dataset'): Native(lambda ip, a, k: (opened.append(a), nc)[1]), (T, 'date2num'): Native(date2num)}
    ip.opts['externals'] = {'numpy.dtype': dtype, 'time.strftime': lambda ip, a, k: 'now', 'time.localtime': lambda ip, a, k: None, 'getpass.getuser': lambda ip, a, k: 'me',
                            'builtins.repr': lambda ip, a, k: ('text', a[0])}
    tracks = PList(n=N, fn=lambda k: track(ip, k))
    now = {}

    def inv(S):
        c = S.ctx
        r = [('one group for every track that is not empty', eq(c.ghosts['groups'], COUNT(z(S.it)))), ('tracks in memory unchanged', eq(c.ghosts['changed'], 0))]
        if made:
            some = []
            g, k = made[-1], now['it']
            i = c.int('row')
            at = And(0 <= i, lt(i, LEN(z(k))))
            tv, tm = g['var'].get('track'), g['var'].get('time')
            put = {n: v for n, ix, v in g['put']}
            ok = tv is not None and tm is not None and isinstance(put.get('track'), SObj) and hasattr(put['track'], 'cols') and isinstance(put.get('time'), SArr)
            some.append(('track and its times written', bool(ok)))
            if ok:
                d = put['track']
                some.append(('all records written', And(eq(d.n, LEN(z(k))), eq(put['time'].shape[0], LEN(z(k))))))
                for n, e in same(d, k, i, ip):
                    some.append(('column %s as in the track' % n, Implies(at, e)))
                num = NUM(COL['Datetime'](z(k), z(i)), z(unit.code), z(cal.code))
                some.append(('dates as numbers in the unit and calendar given', Implies(at, And(eq(d.cols['Datetime'](i), num), eq(put['time'].at(i), num)))))
                some.append(('unit and calendar of the times are kept', tm.attrs.get('units') is unit and tm.attrs.get('calendar') is cal))
                tid = tv.attrs.get('trackId')
                some.append(('identity of the track', And(isinstance(tid, tuple) and tid[0] == 'text', eq(tid[1].attrs['k'], ID(z(k)))) if isinstance(tid, tuple) else False))
            r += [(n, Implies(lt(0, LEN(z(k))), e)) for n, e in some]
        return r

    def facts(S):
        return And(COUNT(z(add(S.it, 1))) == COUNT(z(S.it)) + z3.If(LEN(z(S.it)) > 0, 1, 0), COUNT(z(S.it)) >= 0)
    plain = tracks.fn

    def fn(k):
        t = plain(k)
        now['it'] = k
        return t
    tracks.fn = fn
    ip.loops['*'] = [Loop(inv, name='tracks', facts=facts, match=lambda txt, st: 'createGroup' in txt)]
    ip.call(ip.func(T + '::ncSaveTracks'), ['file', tracks, unit, cal], {'attributes': PDict({})})
    if opened:
        c.prove('post: file of the name given, made anew', len(opened) == 1 and opened[0][0] == 'file' and opened[0][1] == 'w')
        c.prove('post: one group for every track that is not empty', eq(c.ghosts['groups'], COUNT(z(N))))
        c.prove('post: file closed', closed == [1])
    else:
        c.prove('post: no file only if there are no tracks', eq(N, 0))


def moment(v):
    return SObj('moment', {'strftime': Native(lambda ip, a, kw: SObj('text', {'v': v, 'fmt': a[0] if a else FORMAT}))})


def num2date(ip, a, k):
    d, u, c = (list(a) + [None] * 3)[:3]
    u, c = k.get('units', u), k.get('calendar', c)
    if not isinstance(u, Code) or not isinstance(c, Code):
        raise Unsupported('unit of time')
    f = d.snapshot()

    def date(i):
        v = z(f((i,)))
        if z3.is_app(v) and v.decl().eq(NUM) and v.arg(1).eq(z(u.code)) and v.arg(2).eq(z(c.code)):
            return v.arg(0)
        return DATE(v, z(u.code), z(c.code))
    return PList(n=d.shape[0], fn=lambda i: moment(date(i)))


def strptime(ip, a, k):
    t, fmt = a
    if not isinstance(t, SObj) or t.cls != 'text':
        raise Unsupported('date from something else')
    ip.ctx.prove('date read in the format it was written', t.attrs['fmt'] == fmt)
    return t.attrs['v']


@task('P34', 'read', [T + '::ncReadTrackData', T + '::Track.__init__'], assumes=ASSUME)
def read(ip):
    c = ip.ctx
    G = c.input('groups', c.int('G'))
    c.assume(G >= 0)
    q = qvar()
    c.assume(z3.ForAll([q], LEN(q) >= 1, patterns=[LEN(q)]))
    unit, cal = Code(c.int('unit')), Code(c.int('calendar'))

    def group(k):
        cols = {n: (lambda i, n=n: COL[n](z(k), z(i))) for n in NAMES}
        cols['Datetime'] = lambda i: NUM(COL['Datetime'](z(k), z(i)), z(unit.code), z(cal.code))
        d = table(ip, LEN(z(k)), cols, (unit, cal))
        tv = SObj('variable', {'__getitem__': Native(lambda ip, a, kw: table(ip, d.n, d.cols, d.dates)), 'trackId': ('text', ID(z(k)))})
        tm = SObj('variable', {'units': unit, 'calendar': cal})
        return SObj('group', {'variables': PDict({'track': tv, 'time': tm})})
    groups = SObj('groups', {'items': Native(lambda ip, a, k: PList(n=G, fn=lambda i: (Opaque('name'), group(i)))), '__len__': Native(lambda ip, a, k: G)})
    closed = []
    nc = SObj('file', {'groups': PDict({'tracks': SObj('group', {'groups': groups})}), 'close': Native(lambda ip, a, k: closed.append(1))})

    def kept(ip, t, pos):
        c = ip.ctx
        d = t.attrs.get('data')
        if not hasattr(d, 'cols'):
            raise Unsupported('data of a track')
        i = c.int('row')
        at = And(0 <= i, lt(i, LEN(z(pos))))
        c.prove('read: as many records as written', eq(d.n, LEN(z(pos))))
        for n in NAMES:
            c.prove('read: %s as written' % n, Implies(at, eq(d.cols[n](i), COL[n](z(pos), z(i)))))
        c.prove('read: dates', d.dates == 'date')
        tid = t.attrs.get('trackId')
        c.prove('read: identity', eq(tid, ID(z(pos))) if isz(tid) else False)

    def zeros(ip, a, k):
        return table(ip, a[0], {n: (lambda i: 0) for n in NAMES}, None)
    ip.opts['names'] = {(T, 'Dataset'): Native(lambda ip, a, k: nc), (T, 'num2date'): Native(num2date)}
    ip.opts['externals'] = {'numpy.dtype': dtype, 'numpy.zeros': zeros, 'datetime.datetime.strptime': strptime, 'builtins.eval': lambda ip, a, k: a[0][1], 'numpy.min': lambda ip, a, k: ip.ctx.real('least')}

    def fresh(S):
        n = S.ctx.int('kept')
        S.ctx.assume(n >= 0)
        return PList(n=n, inv=kept)

    def inv(S):
        return [('as many tracks as groups so far', eq(S['tracks'].length(), S.it))]
    ip.loops['*'] = [Loop(inv, name='groups', havoc={'list': fresh, 'tracks': fresh}, match=lambda txt, st: '.append' in txt)]
    r = ip.call(ip.func(T + '::ncReadTrackData'), ['file'])
    c.prove('post: every track of the file', eq(r.length(), G))
    c.prove('post: file closed', closed == [1])


# -- tracks that reach the wind field ----------------------------------------------------------------------------------------
@task('P34', 'tracks near the region', [W + '::inRegion'])
def near(ip):
    c = ip.ctx
    n, k = c.input('n', c.int('n')), c.input('k', c.int('k'))
    c.assume(And(0 <= k, k < n))
    lon, lat = ip.fresh_array((n,), 'r', 'lon'), ip.fresh_array((n,), 'r', 'lat')
    lim = {x: c.input(x, c.real(x)) for x in ('xMin', 'xMax', 'yMin', 'yMax')}
    m = c.input('margin', c.real('margin'))
    r = ip.call(ip.func(W + '::inRegion'), [SObj(None, {'Longitude': lon, 'Latitude': lat}), PDict(lim), m])
    r = ip.truth(r)
    x, y = lon.at(k), lat.at(k)
    c.prove('post: a track with a position near the region is near', Implies(And(le(sub(lim['xMin'], m), x), le(x, add(lim['xMax'], m)), le(sub(lim['yMin'], m), y), le(y, add(lim['yMax'], m))), r))
    j = qvar()
    far = lambda f: z3.ForAll([j], z(Implies(And(0 <= j, lt(j, n)), f)))
    c.prove('post: a track beyond one side of the region is not', Implies(Or(far(lt(lon.at(j), sub(lim['xMin'], m))), far(lt(add(lim['xMax'], m), lon.at(j))),
                                                                           far(lt(lat.at(j), sub(lim['yMin'], m))), far(lt(add(lim['yMax'], m), lat.at(j)))), Not(r)))


NEAR = z3.Function('near the region', IS, z3.BoolSort())


@task('P34', 'tracks kept', [W + '::filterTracks'], contracts={W + '::inRegion': lambda ip, a, k: NEAR(z(a[0].attrs['k'])) if a[1] is ip.ctx.ghosts['lim'] and a[2] is ip.ctx.ghosts['margin'] else ip.ctx.bool('other')})
def kept(ip):
    c = ip.ctx
    N, k = c.input('N', c.int('N')), c.input('k', c.int('k'))
    c.assume(And(N >= 0, 0 <= k, k < N))
    c.ghosts['lim'], c.ghosts['margin'] = PDict({x: c.real(x) for x in ('xMin', 'xMax', 'yMin', 'yMax')}), c.real('margin')
    tracks = PList(n=N, fn=lambda i: SObj(None, {'k': i}))
    r = ip.call(ip.func(W + '::filterTracks'), [tracks, None, c.ghosts['margin']])
    c.prove('post: all tracks without a region', r is tracks)
    r = ip.call(ip.func(W + '::filterTracks'), [tracks, c.ghosts['lim'], c.ghosts['margin']])
    m, g = r.length(), (r.getter() if isinstance(r, PList) else r.at)
    p, a, b = qvar(), c.int('a'), c.int('b')
    at = lambda i: g(i).attrs['k']
    c.prove('post: every track near the region is kept', Implies(NEAR(z(k)), z3.Exists([p], z(And(0 <= p, lt(p, m), eq(at(p), k))))))
    c.prove('post: only tracks near the region', Implies(And(0 <= a, lt(a, m)), And(NEAR(z(at(a))), 0 <= at(a), lt(at(a), N))))
    c.prove('post: each once, in order', Implies(And(0 <= a, lt(a, b), lt(b, m)), lt(at(a), at(b))))
