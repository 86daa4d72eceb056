"""Acceptance of synthetic tracks (TrackGenerator.generateTracks)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar, record

T = 'TrackGenerator/TrackGenerator.py'
COLS = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')


def real(name):
    return lambda ip, a, k: ip.ctx.real(name)


def single(ip, args, kw):
    """contract of _singleTrack: ten columns of one length (which values they hold is property P12)"""
    c = ip.ctx
    n = c.int('steps')
    c.assume(n >= 0)
    return tuple(Opaque('dates') if x == 'Datetime' else ip.fresh_array((n,), 'r', x) for x in COLS)


def as_array(ip, args, kw):
    if isinstance(args[0], tuple) and len(args[0]) == len(COLS):
        return args[0]
    if isinstance(args[0], PList):
        return Opaque('point')
    raise Unsupported('numpy.array')


def fromarrays(ip, args, kw):
    cols, names = args[0], args[1] if len(args) > 1 else kw['dtype']
    names = names.d['names'] if isinstance(names, PDict) else names
    d = dict(zip(names, cols))
    return record(d, d['Longitude'].shape[0])


def rounding(ip, args, kw):
    """rounding to d decimals: a function that never reverses order"""
    c = ip.ctx
    d = args[1] if len(args) > 1 else kw.get('decimals', 0)
    a, g = args[0], z3.Function('round%s' % d, z3.RealSort(), z3.RealSort())
    x, y = z3.Reals('x! y!')
    c.assume(z3.ForAll([x, y], z3.Implies(x <= y, g(x) <= g(y)), patterns=[z3.MultiPattern(g(x), g(y))]))
    if isinstance(a, SArr):
        return SArr(a.shape, lambda i: g(toreal(a.at(i))), 'r')
    return g(toreal(a))


def column(t, name):
    return t.attrs['data'].cols[name]


def accepted(ip, t, pos):
    """data invariant of the list of accepted tracks"""
    c = ip.ctx
    sim = c.ghosts['simId']
    g = lambda name: column(t, name)
    n = g('Longitude').shape[0]
    k = c.int('k')
    at = And(0 <= k, lt(k, n))
    tid = t.attrs.get('trackId')
    c.prove('kept track: numbered consecutively within the simulation', isinstance(tid, tuple) and And(len(tid) == 2, eq(tid[0], pos), eq(tid[1], sim)))
    c.prove('kept track: not empty', lt(0, n))
    c.assume(lt(0, n))
    c.prove('kept track: lasts at least twelve hours', le(12, g('TimeElapsed').at(sub(n, 1))))
    c.prove('kept track: starts with a deficit of more than 1 hPa', lt(1, sub(g('EnvPressure').at(0), g('CentralPressure').at(0))))
    c.prove('kept track: deeper than its surroundings at every step', Implies(at, lt(g('CentralPressure').at(k), g('EnvPressure').at(k))))
    c.prove('kept track: radius above 5 km at every step', Implies(at, lt(5, g('rMax').at(k))))
    c.prove('kept track: radius below 500 km at every step', Implies(at, lt(g('rMax').at(k), 500)))
    c.prove('kept track: radius below 100 km at genesis', lt(g('rMax').at(0), 100))
    lim = c.ghosts['inner']
    if lim is not None:
        c.prove('kept track: inside the inner region at every step',
                Implies(at, And(lt(lim['xMin'], g('Longitude').at(k)), lt(g('Longitude').at(k), lim['xMax']), lt(lim['yMin'], g('Latitude').at(k)), lt(g('Latitude').at(k), lim['yMax']))))


def fresh_list(S):
    n = S.ctx.int('kept')
    S.ctx.assume(n >= 0)
    return PList(n=n, inv=accepted)


def inv(S):
    res, j = S['results'], S['j']
    return [('as many tracks as counted', eq(res.length(), j)), ('no more than asked for', le(j, S.ctx.ghosts['n']))]


def is_outer(txt, st):
    return '_singleTrack' in txt


LOOPS = {'TrackGenerator.generateTracks': [Loop(inv, name='tracks', havoc={'list': fresh_list, 'results': fresh_list}, match=is_outer),
                                           Loop(lambda S: [], name='radius', match=lambda txt, st: not is_outer(txt, st) and txt.startswith('while'))]}


class Region(PDict):
    pass


def table():
    """a distribution table: only sampled from, so its entries are not looked at"""
    t = SObj('table', {})
    t.attrs.update({'__eq__': Native(lambda ip, a, k: Opaque('rows')), '__getitem__': Native(lambda ip, a, k: t), 'searchsorted': Native(lambda ip, a, k: ip.ctx.int('ix'))})
    return t


def setup(ip, inner):
    c = ip.ctx
    n, sim = c.input('nTracks', c.int('nTracks')), c.int('simId')
    c.assume(n >= 0)
    lim = PDict({k: c.real(k) for k in ('xMin', 'xMax', 'yMin', 'yMax')}) if inner else None
    c.ghosts.update(n=n, simId=sim, inner=lim.d if inner else None)
    o = SObj(ip.func(T + '::TrackGenerator'), {
        'innerGridLimit': lim, 'gridLimit': PDict({k: c.real(k) for k in ('xMin', 'xMax', 'yMin', 'yMax')}), 'gridSpace': PDict({'x': c.int('gx'), 'y': c.int('gy')}),
        'dt': c.real('dt'), 'rmwEps': c.real('eps'), 'allCDFInitSize': None,
        'originSampler': SObj(None, {'ppf': Native(lambda ip, a, k: (ip.ctx.real('lon'), ip.ctx.real('lat')))}),
        'mslp': SObj(None, {'get_pressure': Native(lambda ip, a, k: ip.ctx.real('mslp'))})})
    for x in ('Bearing', 'Speed', 'Day', 'Pressure'):
        o.attrs['allCDFInit' + x] = table()
    o.attrs['cdfSize'] = table()
    return o, n, sim


CONTRACTS = {T + '::TrackGenerator._singleTrack': single, T + '::uniform': real('uniform'), T + '::normal': real('normal'), T + '::ppf': real('sample'),
             'Utilities/stats.py::getCellNum': lambda ip, a, k: ip.ctx.int('cell'), 'Utilities/maputils.py::bear2LatLon': lambda ip, a, k: (ip.ctx.real('nextLon'), ip.ctx.real('nextLat')),
             'TrackGenerator/trackSize.py::rmax': real('rmax')}
EXT = {'numpy.array': as_array, 'numpy.dtype': lambda ip, a, k: a[0], 'numpy.core.records.fromarrays': fromarrays, 'datetime.datetime.strptime': lambda ip, a, k: Opaque('time'), 'numpy.random.normal': real('normal'), 'numpy.round': rounding}
ASSUME = ['rounding to a number of decimals never reverses the order of two numbers',
          'values drawn, sampled or interpolated are arbitrary real numbers; columns of a track are read by name from the record array',
          'the rejection loops for the radius and for the tracks end (with probability one); only the answer after they end is proved',
          'single precision storage is not modelled']

for INNER in (False, True):
    @task('P11', 'tracks kept%s' % (' with an inner region' if INNER else ''), [T + '::TrackGenerator.generateTracks', 'Utilities/track.py::Track'],
          contracts=CONTRACTS, opts={'externals': EXT, 'definedness': False}, loops=LOOPS, assumes=ASSUME)
    def keep(ip, INNER=INNER):
        c = ip.ctx
        o, n, sim = setup(ip, INNER)
        r = ip.call(ip.getattr(o, 'generateTracks'), [n, sim])
        c.prove('post: as many tracks as asked for', isinstance(r, PList) and eq(r.length(), n))
        c.prove('post: every track obeys the rules', r.inv is accepted or r.items == [])
