"""Quantities derived from the observations of input tracks (Utilities/loadData.py, DataProcess/DataProcess.py)."""
from fractions import Fraction
import sys
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import qvar, model, REG
from contracts.mpi import upd

LD, DP, MU = 'Utilities/loadData.py', 'DataProcess/DataProcess.py', 'Utilities/maputils.py'
D = DP + '::DataProcess'
BIG = sys.maxsize
DIST, BEAR = [z3.Function(n, RS, RS, RS, RS, RS) for n in ('distance', 'bearing')]
ASSUME = ('values that are not numbers (0 / 0) are left out: the time between two observations of a storm is above zero', 'the first observation is the first of a storm', 'the indicator of a first observation is 0 or 1')


def obs(ip, *names):
    """observations: indicator, time since the one before, and further arrays"""
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 2)
    ind, dt = ip.fresh_array((n,), 'i', 'indicator'), ip.fresh_array((n,), 'r', 'dt')
    i = qvar()
    c.assume(eq(ind.at(0), 1), z3.ForAll([i], z(Implies(And(0 <= i, lt(i, n)), Or(eq(ind.at(i), 0), eq(ind.at(i), 1))))))
    c.assume(z3.ForAll([i], z(Implies(And(0 <= i, lt(i, n), eq(ind.at(i), 0)), lt(0, dt.at(i))))))
    return (n, ind, dt) + tuple(ip.fresh_array((n,), 'r', x) for x in names)


def later(c, n, ind):
    """any observation other than the first of its storm"""
    i = c.int('i')
    return i, And(1 <= i, lt(i, n), eq(ind.at(i), 0))


def first(c, n, ind):
    i = c.int('first')
    return i, And(0 <= i, lt(i, n), eq(ind.at(i), 1))


def azi(ip, a, k):
    """contract of latLon2Azi: a function of each position and the one before"""
    lat, lon = a[0].snapshot(), a[1].snapshot()
    n = a[0].shape[0]
    g = lambda f: SArr((sub(n, 1),), lambda i: f(*[z(toreal(v)) for v in (lat(i), lon(i), lat((add(i[0], 1),)), lon((add(i[0], 1),)))]), 'r')
    return g(BEAR), g(DIST)


def agreeing(ip, x, n, places):
    """any array that has the same values at these places"""
    f, g = x.snapshot(), ip.fresh_array((n,), x.kind, 'other').snapshot()

    def at(j):
        v = g(j)
        for p in places:
            v = ite(eq(j[0], p), f((p,)), v)
        return v
    return SArr((n,), at, x.kind)


# -- from the positions --------------------------------------------------------------------------------------------------------
@task('P18', 'distance and bearing', [MU + '::latLon2Azi', MU + '::latLon2XY', MU + '::xy2r', MU + '::theta2bearing'], opts={'check_div': False})
def position(ip):
    c = ip.ctx
    n, i = c.input('n', c.int('n')), c.int('i')
    c.assume(And(n >= 2, 0 <= i, i < n - 1))
    A = [ip.fresh_array((n,), 'r', x) for x in ('lat', 'lon')]
    B = [agreeing(ip, x, n, (i, i + 1)) for x in A]
    R = [ip.call(ip.func(MU + '::latLon2Azi'), X + [1], {'azimuth': 0}) for X in (A, B)]
    for k, name in enumerate(('bearing', 'distance')):
        p, q = [REG['numpy.array'](ip, [r[k]], {}) if isinstance(r[k], PList) else r[k] for r in R]
        c.prove('post: one %s less than positions' % name, eq(p.shape[0], n - 1))
        c.prove('post: the %s depends on two consecutive positions only' % name, eq(p.at(i), q.at(i)))


def speed_of(lat, lon, dt, i):
    return truediv(DIST(*[z(toreal(v)) for v in (lat.at(i - 1), lon.at(i - 1), lat.at(i), lon.at(i))]), dt.at(i))


@task('P18', 'speed and bearing', [LD + '::getSpeedBearing'], contracts={MU + '::latLon2Azi': azi}, opts={'check_div': False}, assumes=ASSUME)
def speed(ip):
    c = ip.ctx
    n, ind, dt, lon, lat = obs(ip, 'lon', 'lat')
    miss = c.real('missing')
    s, b = ip.call(ip.func(LD + '::getSpeedBearing'), [ind, lon, lat, dt], {'missingValue': miss})
    i, cond = later(c, n, ind)
    j, fcond = first(c, n, ind)
    v = speed_of(lat, lon, dt, i)
    c.prove('post: as many as observations', And(eq(s.shape[0], n), eq(b.shape[0], n)))
    c.prove('post: speed from the observation before, in the same storm', Implies(And(cond, le(0, v), le(v, 200)), eq(s.at(i), v)))
    c.prove('post: no speed that cannot be', Implies(And(cond, Or(lt(v, 0), lt(200, v))), eq(s.at(i), miss)))
    c.prove('post: bearing from the observation before, in the same storm', Implies(cond, eq(b.at(i), BEAR(*[z(toreal(v)) for v in (lat.at(i - 1), lon.at(i - 1), lat.at(i), lon.at(i))]))))
    c.prove('post: none for the first of a storm', Implies(fcond, And(eq(s.at(j), miss), eq(b.at(j), miss))))


def sb_con(ip, a, k):
    """contract of getSpeedBearing: speed from two consecutive observations of a storm, missing for the first"""
    ind, lon, lat, dt = a[:4]
    miss = a[5] if len(a) > 5 else k.get('missingValue', BIG)
    n, gi, glon, glat, gdt = ind.shape[0], ind.snapshot(), lon.snapshot(), lat.snapshot(), dt.snapshot()
    f = c_f()

    def at(g):
        return lambda i: ite(truth(gi(i)), toreal(miss), g(*[z(toreal(v)) for v in (glat((sub(i[0], 1),)), glon((sub(i[0], 1),)), glat(i), glon(i), gdt(i))]))
    return SArr((n,), at(f[0]), 'r'), SArr((n,), at(f[1]), 'r')


def truth(v):
    return Not(eq(v, 0))


def c_f():
    return [z3.Function(n, RS, RS, RS, RS, RS, RS) for n in ('speed.of', 'bearing.of')]


@task('P18', 'maximum wind speed', [LD + '::maxWindSpeed', 'Utilities/metutils.py::convert'], contracts={LD + '::getSpeedBearing': sb_con}, opts={'check_div': False}, assumes=ASSUME)
def wind(ip):
    c = ip.ctx
    n, i = c.input('n', c.int('n')), c.int('i')
    c.assume(And(n >= 2, 0 <= i, i < n))
    ind = ip.fresh_array((n,), 'i', 'indicator')
    start = c.branch(Not(eq(ind.at(i), 0)))
    if not start:
        c.assume(i >= 1)
    A = [ind] + [ip.fresh_array((n,), 'r', x) for x in ('dt', 'lon', 'lat', 'pressure', 'penv')]
    B = [agreeing(ip, x, n, (i,) if start else (i, i - 1)) for x in A]
    out = [ip.call(ip.func(LD + '::maxWindSpeed'), list(X)) for X in (A, B)]
    c.prove('post: as many as observations', eq(out[0].shape[0], n))
    c.prove('post: depends on the observation and the one before in the same storm only', eq(out[0].at(i), out[1].at(i)))


# -- starts of storms ----------------------------------------------------------------------------------------------------------
KINDS = {'indicator in the file': ('index',), 'serial number': ('tcserialno',), 'season and number': ('season', 'num'), 'number': ('num',)}


def start_inv(s):
    ip = s.ip
    ind = s['indicator']
    j = qvar()
    return [('length', eq(ind.shape[0], ip.st['n'])), ('starts so far', z3.ForAll([j], z(Implies(And(0 <= j, lt(j, add(s.it, 1))), eq(ind.at(j), ip.st['want'](j)))))),
            ('others', z3.ForAll([j], z(Implies(And(lt(s.it, j), lt(j, ip.st['n'])), eq(ind.at(j), 1)))))]


_ST = [Loop(start_inv, name='starts', match=lambda txt, st: True), Loop(start_inv, name='starts', match=lambda txt, st: True)]

for _k, _v in KINDS.items():
    @task('P18', 'starts of storms by ' + _k, [LD + '::getInitialPositions'], loops={'getInitialPositions': _ST})
    def starts(ip, fields=_v):
        c = ip.ctx
        n = c.input('n', c.int('n'))
        c.assume(n >= 1)
        arrs = {f: ip.fresh_array((n,), 'i', f) for f in fields}
        old = {f: a.snapshot() for f, a in arrs.items()}
        if fields == ('index',):
            want = lambda j: old['index']((j,))
        else:
            want = lambda j: ite(And(le(1, j), *[eq(g((j,)), g((sub(j, 1),))) for g in old.values()]), 0, 1)
        ip.st = {'n': n, 'want': want}
        r = ip.call(ip.func(LD + '::getInitialPositions'), [PDict(dict(arrs))])
        j = c.int('j')
        c.prove('post: one for each observation', eq(r.shape[0], n))
        c.prove('post: a storm starts where its name changes', Implies(And(0 <= j, j < n), eq(r.at(j), want(j))))


# -- times -----------------------------------------------------------------------------------------------------------------------
TIME = z3.Function('time', IS, IS, IS, IS, IS, RS)                   # hours


def when(ip, a, k):
    return moment(TIME(*[z(v) for v in a[:5]]))


def moment(t):
    return SObj('moment', {'t': t})


def minus(ip, op, a, b):
    if op == 'Sub' and isinstance(a, SObj) and isinstance(b, SObj) and a.cls == b.cls == 'moment':
        return span(sub(a.attrs['t'], b.attrs['t']))
    return NotImplemented


ROUND = z3.Function('round', RS, IS)


def span(h):
    """difference of two times; days and seconds add up to it"""
    d, s = z3.Function('days', RS, IS)(z(h)), z3.Function('seconds', RS, IS)(z(h))
    o = SObj('span', {'h': h, 'days': d, 'seconds': s})
    return o


@model('span.total_seconds')
def total_seconds(ip, a, k):
    return mul(a[0].attrs['h'], 3600)


FIRST = z3.Function('first', IS, IS)


def el_facts(s):
    k, ind = z(s.it), s.ip.st['ind']
    return And(eq(FIRST(k), ite(eq(ind((k,)), 1), k, FIRST(k - 1))))


def el_inv(s):
    ip = s.ip
    t = ip.st['t']
    k = s.it
    L = s['timeElapsed']
    j = qvar()
    r = [('one age for each', eq(L.length(), k))]
    st = s['start'] if s.has('start') else None
    if L.items is None:
        r.append(('ages', z3.ForAll([j], z(Implies(And(0 <= j, lt(j, k)), eq(L.at(j), sub(t(j), t(FIRST(j)))))))))
    if isinstance(st, SObj) and 't' in st.attrs:
        r.append(('start of the storm', Implies(lt(0, k), eq(st.attrs['t'], t(FIRST(z(sub(k, 1))))))))
    return r


DATES = {'binop': minus, 'externals': {'datetime.datetime': when, 'builtins.round': lambda ip, a, k: ROUND(z(toreal(a[0])))}}


def dates(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 2)
    return n, [ip.fresh_array((n,), 'i', x) for x in ('year', 'month', 'day', 'hour', 'minute')]


@task('P18', 'time between observations', [LD + '::getTimeDelta'], opts=DATES, assumes=('differences of times as numbers of hours, days and seconds of the standard library add up to them',))
def delta(ip):
    c = ip.ctx
    n, A = dates(ip)
    t = lambda i: TIME(*[z(x.at(i)) for x in A])
    r = ip.call(ip.func(LD + '::getTimeDelta'), A)
    i = c.int('i')
    h = t(i) - t(i - 1)
    d, s = z3.Function('days', RS, IS)(h), z3.Function('seconds', RS, IS)(h)
    c.prove('post: as many as observations', eq(r.shape[0], n))
    c.prove('post: hours since the observation before', Implies(And(1 <= i, lt(i, n)), eq(r.at(i), ROUND(z(add(mul(toreal(d), 24), truediv(toreal(s), 3600)))))))
    c.prove('post: none for the first', eq(r.at(0), 0))


def ages(s):
    f = s.ctx.func('ages', IS, RS)
    return PList(n=s.ctx.int('ages.n'), fn=lambda i: f(z(i)))


_EL = [Loop(el_inv, name='observations', facts=el_facts, havoc={'timeElapsed': ages, 'start': lambda s: moment(s.ctx.real('start'))})]


@task('P18', 'age of a storm', [LD + '::getTimeElapsed'], opts=DATES, loops={'getTimeElapsed': _EL}, assumes=('differences of times as numbers of hours', 'the first observation is the first of a storm'))
def age(ip):
    c = ip.ctx
    n, A = dates(ip)
    ind = ip.fresh_array((n,), 'i', 'indicator')
    c.assume(eq(ind.at(0), 1))
    t = lambda i: TIME(*[z(x.at(i)) for x in A])
    ip.st = {'ind': ind.snapshot(), 't': t, 'n': n}
    r = ip.call(ip.func(LD + '::getTimeElapsed'), [ind] + A)
    i = c.int('i')
    c.prove('post: as many as observations', eq(r.shape[0], n))
    c.prove('post: hours since the first observation of the same storm', Implies(And(0 <= i, lt(i, n)), eq(r.at(i), sub(t(i), t(FIRST(i))))))


# -- processed input -------------------------------------------------------------------------------------------------------------
def processor(ip, nc):
    c = ip.ctx
    ip.st = dict(getattr(ip, 'st', None) or {}, saved=[])

    def save(ip, a, k):
        ip.st['saved'].append(a[1])
    ip.opts = dict(ip.opts, externals=dict(ip.opts.get('externals', {}), **{'os.path.join': lambda ip, a, k: '/'.join(x for x in a if isinstance(x, str))}))
    ip.contracts = dict(ip.contracts, **{'Utilities/files.py::flSaveFile': lambda ip, a, k: ip.st.setdefault('files', {}).update({a[0].split('/')[-1]: a[1]}),
                                         'Utilities/columns.py::flSaveFile': save})
    return SObj(ip.func(D), {'logger': SObj('logger', {n: Native(lambda ip, a, k: None) for n in ('info', 'debug', 'warning')}), 'ncflag': nc, 'data': PDict({}), 'processPath': 'process'})


def derived(ip, o, nc, key, file):
    return o.attrs['data'].d.get(key) if nc else ip.st.get('files', {}).get(file)


RATES = {'pressure': ('_pressureRate', 'pressureRate', 'pressure_rate'), 'rmax': ('_rmaxRate', 'rmaxRate', 'rmax_rate')}


def out(ip, o, nc, key, file, n):
    r = derived(ip, o, nc, key, file)
    if not isinstance(r, SArr):
        raise Unsupported('result not found')
    ip.ctx.prove('post: as many as observations', eq(r.shape[0], n))
    return r


for _nc in (True, False):
    _w = ' (kept)' if _nc else ' (written)'
    for _q, (_m, _k, _f) in RATES.items():
        @task('P18', 'rate of %s%s' % (_q, _w), [D + '.' + _m], opts={'check_div': False}, assumes=ASSUME)
        def rate(ip, q=_q, m=_m, key=_k, file=_f, nc=_nc):
            c = ip.ctx
            n, ind, dt, p = obs(ip, q)
            o = processor(ip, nc)
            old = p.snapshot()
            ip.call(ip.func(D + '.' + m), [o, p, dt, ind])
            r = out(ip, o, nc, key, file, n)
            i, cond = later(c, n, ind)
            j, fcond = first(c, n, ind)
            v = truediv(sub(old((i,)), old((i - 1,))), dt.at(i))
            lim = 10 if q == 'pressure' else BIG
            ok = And(lt(old((i,)), BIG), le(v, 10), le(-10, v)) if q == 'pressure' else And(lt(old((i,)), BIG), lt(v, BIG), lt(-BIG, v))
            c.prove('post: change since the observation before, in the same storm', Implies(And(cond, ok), eq(r.at(i), v)))
            c.prove('post: none without an observation or where it cannot be', Implies(And(cond, Not(ok)), eq(r.at(i), BIG)))
            c.prove('post: none for the first of a storm', Implies(fcond, eq(r.at(j), BIG)))

    @task('P18', 'speed' + _w, [D + '._speed'], opts={'check_div': False}, assumes=ASSUME)
    def dspeed(ip, nc=_nc):
        c = ip.ctx
        n, ind, dt, dist = obs(ip, 'dist')
        o = processor(ip, nc)
        init = initial(ip, n, ind)
        ip.call(ip.func(D + '._speed'), [o, dist, dt, ind, init])
        r = out(ip, o, nc, 'speed', 'all_speed', n)
        i, cond = later(c, n, ind)
        j, fcond = first(c, n, ind)
        v = truediv(dist.at(i), dt.at(i))
        ok = And(le(0, v), le(v, 200))
        c.prove('post: speed since the observation before, in the same storm', Implies(cond, eq(r.at(i), ite(ok, v, BIG))))
        c.prove('post: none for the first of a storm', Implies(fcond, eq(r.at(j), BIG)))
        groups(ip, r, n, ind, derived(ip, o, nc, 'init_speed', 'init_speed'), derived(ip, o, nc, 'speed_no_init', 'speed_no_init'))

    @task('P18', 'bearing' + _w, [D + '._bearing'], opts={'check_div': False}, assumes=ASSUME)
    def dbear(ip, nc=_nc):
        c = ip.ctx
        n, ind, dt, bear = obs(ip, 'bear')
        o = processor(ip, nc)
        init = initial(ip, n, ind)
        old = bear.snapshot()
        ip.call(ip.func(D + '._bearing'), [o, bear, ind, init])
        r = out(ip, o, nc, 'bearing', 'all_bearing', n)
        i, cond = later(c, n, ind)
        j, fcond = first(c, n, ind)
        c.prove('post: bearing from the observation before, in the same storm', Implies(cond, eq(r.at(i), old((i,)))))
        c.prove('post: none for the first of a storm, in what is used later too', Implies(fcond, And(eq(r.at(j), BIG), eq(bear.at(j), BIG))))
        groups(ip, r, n, ind, derived(ip, o, nc, 'init_bearing', 'init_bearing'), derived(ip, o, nc, 'bearing_no_init', 'bearing_no_init'))

    @task('P18', 'rate of bearing' + _w, [D + '._bearingRate'], opts={'check_div': False}, assumes=ASSUME + ('bearings from 0 to 360 degrees',))
    def brate(ip, nc=_nc):
        c = ip.ctx
        n, ind, dt, b = obs(ip, 'bear')
        k = qvar()
        c.assume(z3.ForAll([k], z(Implies(And(0 <= k, lt(k, n), eq(ind.at(k), 0)), And(le(0, b.at(k)), le(b.at(k), 360))))))
        c.assume(z3.ForAll([k], z(Implies(And(0 <= k, lt(k, n), eq(ind.at(k), 1)), eq(b.at(k), BIG)))))
        o = processor(ip, nc)
        ip.call(ip.func(D + '._bearingRate'), [o, b, dt, ind])
        r = out(ip, o, nc, 'bearingRate', 'bearing_rate', n)
        i, cond = later(c, n, ind)
        j, fcond = first(c, n, ind)
        d = sub(b.at(i), b.at(i - 1))
        turn = ite(lt(180, d), sub(d, 360), ite(lt(d, -180), add(d, 360), d))
        v = truediv(turn, dt.at(i))
        third = And(cond, eq(ind.at(i - 1), 0))
        c.prove('post: turn since the observation before, in the same storm', Implies(And(third, lt(v, BIG), lt(-BIG, v)), eq(r.at(i), v)))
        c.prove('post: none for the first and the second of a storm', And(Implies(fcond, eq(r.at(j), BIG)), Implies(And(cond, eq(ind.at(i - 1), 1)), eq(r.at(i), BIG))))

    @task('P18', 'rate of speed' + _w, [D + '._speedRate'], opts={'check_div': False}, assumes=ASSUME)
    def srate(ip, nc=_nc):
        c = ip.ctx
        n, ind, dt, dist = obs(ip, 'dist')
        o = processor(ip, nc)
        ip.call(ip.func(D + '._speedRate'), [o, dist, dt, ind])
        r = out(ip, o, nc, 'speedRate', 'speed_rate', n)
        i, cond = later(c, n, ind)
        j, fcond = first(c, n, ind)
        s = lambda k: truediv(dist.at(k), dt.at(k))
        good = lambda k: And(le(0, s(k)), le(s(k), 200))
        v = truediv(sub(s(i), s(i - 1)), dt.at(i))
        third = And(cond, eq(ind.at(i - 1), 0))
        c.prove('post: change of speed since the observation before, in the same storm', Implies(And(third, good(i), good(i - 1), lt(v, BIG), lt(-BIG, v)), eq(r.at(i), v)))
        c.prove('post: none where a speed cannot be', Implies(And(third, Not(And(good(i), good(i - 1)))), eq(r.at(i), BIG)))
        c.prove('post: none for the first and the second of a storm', And(Implies(fcond, eq(r.at(j), BIG)), Implies(And(cond, eq(ind.at(i - 1), 1)), eq(r.at(i), BIG))))


def initial(ip, n, ind):
    """first observations of storms that have more than one"""
    g = ind.snapshot()
    return SArr((n,), lambda i: ite(And(lt(i[0], sub(n, 1)), eq(g(i), 1), eq(g((add(i[0], 1),)), 0)), 1, 0), 'i')


def groups(ip, r, n, ind, init, rest):
    """values of second observations, and of all later ones"""
    c = ip.ctx
    for name, a, second in (('second observations', init, True), ('later observations', rest, False)):
        if not isinstance(a, SArr):
            raise Unsupported('%s not found' % name)
        k, j = c.int('k'), qvar()
        c.prove('post: the values of %s of storms are kept apart' % name, Implies(And(0 <= k, lt(k, a.shape[0])),
                z3.Exists([j], z(And(1 <= j, lt(j, n), eq(ind.at(j), 0), eq(ind.at(sub(j, 1)), 1 if second else 0), eq(a.at(k), r.at(j)))))))


# -- reading a track file ----------------------------------------------------------------------------------------------------------
@model('table.__getitem__')
def table_get(ip, a, k):
    o, ix = a
    if isinstance(ix, str):
        if ix not in o.attrs['cols']:
            raise PyRaise('ValueError', ())
        return o.attrs['cols'][ix]
    if isinstance(ix, SArr) and ix.kind == 'b':
        return SObj('part', {'mask': ix.snapshot(), 'of': o.attrs['cols']})
    raise Unsupported('index of a table')


@model('table.__setitem__')
def table_set(ip, a, k):
    a[0].attrs['cols'][a[1]] = a[2]


def tracks_inv(s):
    L = s['tracks']
    return [('one track each', eq(L.length(), s.it))]


_TL = [Loop(tracks_inv, name='tracks', havoc={'tracks': lambda s: PList(n=s.ctx.int('tracks.n'), fn=lambda i: SObj('track', {}))}, match=lambda txt, st: 'Track(' in txt or 'TCID' in txt)]


@task('P18', 'reading a track file', [LD + '::loadTrackFile'], loops={'loadTrackFile': _TL}, opts={'check_div': False},
      assumes=ASSUME + ('input with dates, environmental pressure and pressure of the outermost isobar; values of other columns are of no interest here', 'contracts of the functions above'))
def load(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 2)
    cols = {x: ip.fresh_array((n,), 'r', x) for x in ('lat', 'lon', 'pressure', 'vmax', 'rmax', 'penv', 'poci', 'season')}
    inp = SObj('table', {'cols': cols, 'dtype': SObj(None, {'names': tuple(cols)})})
    ind0 = ip.fresh_array((n,), 'i', 'starts')
    i, j = c.int('i'), qvar()
    c.assume(And(0 <= i, i < n), eq(ind0.at(0), 1), z3.ForAll([j], z(Implies(And(0 <= j, lt(j, n)), Or(eq(ind0.at(j), 0), eq(ind0.at(j), 1))))))
    D5 = [ip.fresh_array((n,), 'i', x) for x in ('year', 'month', 'day', 'hour', 'minute')]
    times = Opaque('datetimes')
    used, res = {}, {}

    def seen(name, pos, kind='r', outs=1, datepos=None):
        def con(ip, a, k):
            used[name] = a[pos].snapshot()
            r = [ip.fresh_array((n,), kind, name) for _ in range(outs)]
            res[name] = r
            return r[0] if outs == 1 else tuple(r)
        return con

    def whole(name):
        def con(ip, a, k):
            r = ip.fresh_array((n,), 'r', name)
            res[name] = [r]
            return r
        return con
    U = LD + '::'
    cfg = SObj('config', {'read': Native(lambda ip, a, k: None), 'get': Native(lambda ip, a, k: SObj('option', {'name': a[1]})), 'getboolean': Native(lambda ip, a, k: False)})
    table = SObj('table', {'cols': {}})

    def track(ip, a, k):
        d = a[0]
        it = ip.outer.get('tracks')
        if it is None or not (isinstance(d, SObj) and d.cls == 'part'):
            raise Unsupported('records of a track')
        c.prove('a track has the records of one storm', Iff(d.attrs['mask']((i,)), eq(COUNT(i), add(it, 1))))
        return SObj('track', {'data': d})

    def empty(ip, a, k):
        if isinstance(k.get('dtype'), PDict):
            c.prove('a record for each observation', eq(a[0], n))
            return table
        return REG['numpy.empty'](ip, a, k)
    ip.contracts = {'Utilities/columns.py::colReadCSV': lambda ip, a, k: inp, 'Utilities/config.py::ConfigParser': lambda ip, a, k: cfg, U + 'getInitialPositions': lambda ip, a, k: ind0,
                    U + 'parseDates': lambda ip, a, k: tuple(D5) + (times,), U + 'getTimeElapsed': seen('age', 0), U + 'getTimeDelta': whole('dt'), U + 'julianDays': whole('jdays'),
                    U + 'filterPressure': lambda ip, a, k: a[0], 'Utilities/metutils.py::convert': lambda ip, a, k: ip.fresh_array(a[0].shape, 'r', 'converted'),
                    U + 'getSpeedBearing': seen('speed', 0, outs=2), U + 'maxWindSpeed': seen('wind', 0), 'Utilities/track.py::Track': track,
                    U + 'getMinPressure': lambda ip, a, k: None, U + 'getMaxWind': lambda ip, a, k: None}
    COUNT = c.func('storms', IS, IS)

    def cumsum(ip, a, k):
        used['number'] = a[0].snapshot()
        r = SArr((n,), lambda q: COUNT(z(q[0])), 'i')
        res['number'] = [r]
        q = qvar()
        ip.ctx.assume(z3.ForAll([q], z(Implies(And(0 <= q, lt(q, n)), And(COUNT(q) >= 1, COUNT(q) <= COUNT(n - 1))))))
        return r
    ip.opts = dict(ip.opts, externals={'numpy.empty': empty, 'numpy.cumsum': cumsum, 'numpy.max': lambda ip, a, k: COUNT(z(n - 1))})
    ip.st = {'i': i}
    ip.call(ip.func(LD + '::loadTrackFile'), [Opaque('config'), Opaque('file'), SObj('option', {'name': 'source'})], {'missingValue': 0})
    out = table.attrs['cols']
    final = out['Indicator'].snapshot()
    for name, key, what in (('age', 'TimeElapsed', 'ages count from the start of the storm as recorded'), ('speed', 'Speed', 'speeds and bearings use the starts of storms as recorded'),
                            ('wind', 'WindSpeed', 'wind speeds use the starts of storms as recorded'), ('number', 'CycloneNumber', 'storms are numbered by the starts as recorded')):
        ok = name in used and out.get(key) is res[name][0]
        c.prove('post: ' + what, ok and eq(used[name]((i,)), final((i,))))
    c.prove('post: bearing', out.get('Bearing') is res['speed'][1])
    c.prove('post: a start in the input remains one', Implies(eq(ind0.at(i), 1), eq(final((i,)), 1)))
