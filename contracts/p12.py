"""Evolution of one synthetic track (TrackGenerator._singleTrack and the step models)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native, const_ghost, mk_ghost
from engine.sym import *
from engine.models import qvar

T = 'TrackGenerator/TrackGenerator.py'
R4 = [RS] * 4
BLON, BLAT = z3.Function('bear.lon', *R4, RS), z3.Function('bear.lat', *R4, RS)
LAND = z3.Function('on.land', RS, RS, BS)
CELL = z3.Function('cell.of', RS, RS, IS)
POCI = z3.Function('poci.of', RS, RS, RS, RS, RS, RS)
MSLP = z3.Function('mslp.at', RS, RS, RS, RS)
EXP = z3.Function('exp', RS, RS)
NAN = z3.Function('is.nan', RS, BS)
DP = z3.Function('rate', IS, RS)
PMIN, PSIG = z3.Function('cell.min', IS, RS), z3.Function('cell.sig', IS, RS)


def r(*a):
    return [toreal(x) for x in a]


def bear(ip, args, kw):
    a = r(*args)
    return (BLON(*a), BLAT(*a))


def step_of(attr, name):
    """contract of a step model: updates its own attributes, at the cell, step and surface of this step"""
    def g(ip, args, kw):
        c = ip.ctx
        o, cell, i, land = args
        gh = c.ghosts
        c.prove('pre of %s: once per step, in order' % name, eq(i, add(gh[attr], 1)))
        gh[attr] = add(gh[attr], 1)
        c.assume(eq(gh[attr], i))
        lon, lat = gh['pos']
        c.prove('pre of %s: cell of the new position' % name, eq(cell, CELL(lon, lat)))
        c.prove('pre of %s: surface below the new position' % name, eq(land, LAND(lon, lat)))
        v = DP(z(i)) if attr == 'dp' else c.real(attr)
        o.attrs[attr] = v
        o.attrs['%sChi' % {'dp': 'dp', 'theta': 'b', 'v': 'v'}[attr]] = c.real('chi')
    return g


def cell(ip, args, kw):
    c = ip.ctx
    lon, lat = r(*args[:2])
    c.ghosts['pos'] = (lon, lat)
    g = c.ghosts['grid']
    c.assume(CELL(lon, lat) >= 0, CELL(lon, lat) < g)
    return CELL(lon, lat)


def empty(ip, args, kw):
    n = args[0]
    dt = args[1] if len(args) > 1 else kw.get('dtype', 'd')
    if isinstance(dt, str):
        return ip.fresh_array((n,), 'i' if dt == 'i' else 'r', 'empty')
    return dates(n)


def time():
    return SObj(None, {'__add__': Native(lambda ip, a, k: time())})


def dates(n):
    """array of dates: what it holds is not looked at, only its length"""
    def get(ip, a, k):
        if not isinstance(a[0], Slice):
            return time()
        if a[0].lo is not None or a[0].step is not None:
            raise Unsupported('slice of the dates')
        return dates(a[0].hi if a[0].hi is not None else n)
    return SObj('dates', {'shape': (n,), '__getitem__': Native(get), '__setitem__': Native(lambda ip, a, k: None)})


EXT = {'numpy.empty': empty, 'numpy.exp': lambda ip, a, k: EXP(toreal(a[0])), 'datetime.timedelta': lambda ip, a, k: SObj('time', {}), 'numpy.isnan': lambda ip, a, k: NAN(toreal(a[0])),
       'numpy.array': lambda ip, a, k: a[0]}


def mslp(ip, a, k):
    day, lat, lon = [x.items[0] for x in a[0].items]
    return MSLP(*r(day, lat, lon))


def poci(ip, a, k):
    return POCI(*r(*a))


def off(name, value):
    """ghost: the value at the last step over sea (or at genesis)"""
    def init(S):
        return const_ghost(value(S, 0), (IS, RS))

    def upd(pre, post):
        i, g = add(pre.it, 1), pre.g[name]
        land = LAND(*r(post['lon'].at(i), post['lat'].at(i)))
        return mk_ghost(lambda k: ite(eq(k, i), ite(land, g(sub(i, 1)), value(post, i)), g(k)), (IS, RS))
    return init, upd


def tol_ghost():
    def upd(pre, post):
        i, g = add(pre.it, 1), pre.g['tol']
        land = LAND(*r(post['lon'].at(i), post['lat'].at(i)))
        dt = post['self'].attrs['dt']
        return mk_ghost(lambda k: ite(eq(k, i), ite(land, add(g(sub(i, 1)), dt), g(sub(i, 1))), g(k)), (IS, RS))
    return (lambda S: const_ghost(Fraction(0), (IS, RS))), upd


def law():
    """ghost: pressure at a step over land, from the values at the last sea step and the time over land"""
    def upd(pre, post):
        i, g = add(pre.it, 1), pre.g
        p = sub(i, 1)
        deltap = sub(g['offq'](p), g['offp'](p))
        alpha = add(add(add(Fraction(3515, 100000), mul(Fraction(435, 10 ** 6), deltap)), mul(Fraction(2865, 10 ** 6), g['offv'](p))), pre['lfeps'])
        tol = add(g['tol'](p), pre['self'].attrs['dt'])
        v = sub(pre['poci'].at(p), mul(deltap, EXP(toreal(mul(neg(alpha), tol)))))
        return mk_ghost(lambda k: ite(eq(k, i), v, g['law'](k)), (IS, RS))
    return (lambda S: const_ghost(Fraction(0), (IS, RS))), upd


GHOST = {'law': law(), 'offp': off('offp', lambda S, i: toreal(S['pressure'].at(i))), 'offq': off('offq', lambda S, i: toreal(S['poci'].at(i))),
         'offv': off('offv', lambda S, i: toreal(S['speed'].at(i))), 'tol': tol_ghost()}


def rows(S, n):
    """rules of the rows 0..n-1 of the columns, each for one arbitrary row k"""
    o = S['self'].attrs
    lon, lat, age, speed, bearing, dist, pressure, poci = [S[x] for x in ('lon', 'lat', 'age', 'speed', 'bearing', 'dist', 'pressure', 'poci')]
    g, dt, lim = S.g, o['dt'], o['gridLimit'].d
    k = qvar()
    p = sub(k, 1)
    row = And(1 <= k, lt(k, n))

    def all_(cond):
        return z3.ForAll([k], z(Implies(row, cond)))
    xy = (lon.at(k), lat.at(k))
    land = LAND(*r(*xy))
    move = r(bearing.at(p), dist.at(p), lon.at(p), lat.at(p))
    rate = DP(k)
    plain = add(pressure.at(p), mul(rate, dt))
    low = lt(plain, sub(PMIN(CELL(*r(*xy))), mul(4, PSIG(CELL(*r(*xy))))))
    deficit = sub(poci.at(k), pressure.at(k))
    return [('longitude reached from the previous row', all_(eq(lon.at(k), BLON(*move)))), ('latitude reached from the previous row', all_(eq(lat.at(k), BLAT(*move)))),
            ('age grows by one step', all_(eq(age.at(k), add(age.at(p), dt)))),
            ('distance is speed times step', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, n)), eq(dist.at(k), mul(dt, speed.at(k))))))),
            ('inside the domain', all_(And(le(lim['xMin'], xy[0]), lt(xy[0], lim['xMax']), lt(lim['yMin'], xy[1]), le(xy[1], lim['yMax'])))),
            ('deep enough for its age', all_(ite(lt(12, age.at(k)), le(5, deficit), le(2, deficit)))),
            ('outer pressure is a number', all_(Not(NAN(toreal(poci.at(k)))))),
            ('speed not negative', all_(le(0, speed.at(k)))),
            ('over sea the pressure changes at the rate', all_(Implies(Not(land), eq(pressure.at(k), ite(low, add(pressure.at(p), mul(absv(rate), dt)), plain))))),
            ('over land the pressure decays from the last sea values', all_(Implies(land, eq(pressure.at(k), g['law'](k)))))]


def absv(x):
    return ite(le(0, x), x, neg(x))


def inv(S):
    o = S['self'].attrs
    g, it = S.g, S.it
    out = rows(S, add(it, 1))
    init = S.ctx.ghosts['init']
    out += [('first row: ' + n, eq(S[n].at(0), v)) for n, v in init.items()]
    for n, a in (('offp', 'offshorePressure'), ('offq', 'offshorePoci'), ('offv', 'landfallSpeed')):
        out.append(('%s is that of the last sea step' % a, eq(o[a], g[n](it))))
    out.append(('time over land', eq(S['tol'], g['tol'](it))))
    for n in ('dp', 'theta', 'v'):
        out.append(('one step of the %s model per row' % n, eq(S.ctx.ghosts[n], it)))
    return out


COL = ('index', 'dates', 'age', 'lon', 'lat', 'speed', 'bearing', 'pressure', 'poci', 'rmax')


@task('P12', 'one track', [T + '::TrackGenerator._singleTrack', T + '::TrackGenerator._notValidTrackStep'],
      contracts={'Utilities/maputils.py::bear2LatLon': bear, 'Utilities/stats.py::getCellNum': cell, 'Utilities/loadData.py::getPoci': poci,
                 T + '::TrackGenerator._stepPressureChange': step_of('dp', 'pressure step'), T + '::TrackGenerator._stepBearing': step_of('theta', 'bearing step'),
                 T + '::TrackGenerator._stepSpeed': step_of('v', 'speed step'), T + '::normal': lambda ip, a, k: ip.ctx.real('eps'), T + '::lognorm': lambda ip, a, k: ip.ctx.real('eps'),
                 'TrackGenerator/trackSize.py::rmax': lambda ip, a, k: ip.ctx.real('rmax')},
      opts={'externals': EXT}, loops={'TrackGenerator._singleTrack': [Loop(inv, name='steps', ghost=GHOST)]}, deadline=400)
def track(ip):
    c = ip.ctx
    n, dt = c.input('maxTimeSteps', c.int('n')), c.real('dt')
    c.assume(n >= 1, dt > 0)
    lim = {k: c.real(k) for k in ('xMin', 'xMax', 'yMin', 'yMax')}
    cells = c.int('cells')
    c.assume(cells >= 1)
    q = {x: c.real(x) for x in ('lon', 'lat', 'speed', 'bearing', 'pressure')}
    c.assume(And(le(lim['xMin'], q['lon']), lt(q['lon'], lim['xMax']), lt(lim['yMin'], q['lat']), le(q['lat'], lim['yMax'])), q['speed'] >= 0)
    c.ghosts.update(grid=cells, dp=0, theta=0, v=0, pos=(q['lon'], q['lat']), init=dict(q, age=0))
    coeffs = SObj(None, {'min': SArr((cells,), lambda i: PMIN(z(i[0])), 'r'), 'sig': SArr((cells,), lambda i: PSIG(z(i[0])), 'r')})
    o = SObj(ip.func(T + '::TrackGenerator'), {
        'maxTimeSteps': n, 'dt': dt, 'gridLimit': PDict(lim), 'gridSpace': Opaque('space'), 'allCDFInitSize': None, 'rmwEps': c.real('rmweps'),
        'pStats': SObj(None, {'coeffs': coeffs}), 'mslp': SObj(None, {'get_pressure': Native(mslp)}),
        'landfall': SObj(None, {'onLand': Native(lambda ip, a, k: LAND(*r(*a)))})})
    t0 = SObj(None, {'strftime': Native(lambda ip, a, k: ip.ctx.int('day')), 'hour': c.int('hour'), '__add__': Native(lambda ip, a, k: time())})
    res = ip.call(ip.getattr(o, '_singleTrack'), [c.int('number'), q['lon'], q['lat'], q['speed'], q['bearing'], q['pressure'], c.real('penv'), c.real('rmax'), t0])
    col = dict(zip(COL, res))
    m = col['lon'].shape[0] if isinstance(col['lon'], SArr) else None
    c.prove('post: ten columns', len(res) == 10)
    for x in COL:
        sh = col[x].attrs['shape'][0] if isinstance(col[x], SObj) else col[x].shape[0]
        c.prove('post: column %s as long as the others' % x, eq(sh, m))
    c.prove('post: at least the genesis row, at most the largest number of steps', And(1 <= m, le(m, n)))
    for x, v in q.items():
        c.prove('post: first row holds the initial %s' % x, eq(col[x].at(0), v))
    k = c.int('k')
    c.assume(1 <= k, lt(k, m))
    p = k - 1
    move = r(col['bearing'].at(p), mul(dt, col['speed'].at(p)), col['lon'].at(p), col['lat'].at(p))
    c.prove('post: longitude reached from the previous row', eq(col['lon'].at(k), BLON(*move)))
    c.prove('post: latitude reached from the previous row', eq(col['lat'].at(k), BLAT(*move)))
    c.prove('post: age grows by one step', eq(col['age'].at(k), add(col['age'].at(p), dt)))
    c.prove('post: inside the domain', And(le(lim['xMin'], col['lon'].at(k)), lt(col['lon'].at(k), lim['xMax']), lt(lim['yMin'], col['lat'].at(k)), le(col['lat'].at(k), lim['yMax'])))
    d = sub(col['poci'].at(k), col['pressure'].at(k))
    c.prove('post: deep enough for its age', ite(lt(12, col['age'].at(k)), le(5, d), le(2, d)))
    c.prove('post: outer pressure is a number', Not(NAN(toreal(col['poci'].at(k)))))
    rate, cl = DP(k), CELL(*r(col['lon'].at(k), col['lat'].at(k)))
    pl = add(col['pressure'].at(p), mul(rate, dt))
    c.prove('post: over sea the pressure changes at the rate', Implies(Not(LAND(*r(col['lon'].at(k), col['lat'].at(k)))),
            eq(col['pressure'].at(k), ite(lt(pl, sub(PMIN(cl), mul(4, PSIG(cl)))), add(col['pressure'].at(p), mul(absv(rate), dt)), pl))))


MODELS = {'_stepPressureChange': ('dpStats', 'dpChi', 'dp'), '_stepBearing': ('bStats', 'bChi', 'theta'), '_stepSpeed': ('vStats', 'vChi', 'v'), '_stepSizeChange': ('dsStats', 'dsChi', 'ds')}
DEG = z3.Function('degrees', RS, RS)

for NAME, (ST, CHI, X) in MODELS.items():
    @task('P12', 'step model %s' % NAME, [T + '::TrackGenerator.' + NAME], contracts={T + '::logistic': lambda ip, a, k: ip.ctx.ghosts['draw'](ip, a, k)},
          opts={'externals': {'math.degrees': lambda ip, a, k: DEG(toreal(a[0]))}}, assumes=['conversion to degrees and reduction to a full turn are taken as given (property P27)'])
    def step(ip, NAME=NAME, ST=ST, CHI=CHI, X=X):
        c = ip.ctx
        n, cellno, i, land = c.int('cells'), c.int('cell'), c.int('i'), c.input('onLand', c.bool('onLand'))
        c.assume(0 <= cellno, cellno < n, i >= 1)
        co = {x: ip.fresh_array((n,), 'r', x) for x in ('alpha', 'phi', 'mu', 'sig', 'lalpha', 'lphi', 'lmu', 'lsig')}
        chi, x0, u = c.real('chi'), c.real('x0'), c.real('draw')
        calls = []

        def draw(ip, a, k):
            calls.append(tuple(a))
            return u
        c.ghosts['draw'] = draw
        o = SObj(ip.func(T + '::TrackGenerator'), {ST: SObj(None, {'coeffs': SObj(None, dict(co))}), CHI: chi, X: x0})
        ip.call(ip.getattr(o, NAME), [cellno, i, land])
        v = lambda p: ite(land, co['l' + p].at(cellno), co[p].at(cellno))
        c.prove('post: exactly one standard draw', len(calls) == 1 and calls[0] == ())
        new = add(mul(v('alpha'), chi), mul(v('phi'), u))
        c.prove('post: residual follows its recursion with the coefficients of the surface', eq(o.attrs[CHI], new))
        first, later = mul(v('sig'), new), add(v('mu'), mul(v('sig'), new))
        if X == 'theta':
            t = o.attrs[X]
            want = ite(eq(i, 1), add(x0, DEG(toreal(first))), DEG(toreal(later)))
            c.prove('post: bearing within one turn', And(le(0, t), lt(t, 360)))
            c.prove('post: bearing follows the model up to whole turns', eq(t, mod(want, 360)))
        elif X == 'v':
            c.prove('post: speed follows the model', eq(o.attrs[X], ite(eq(i, 1), add(x0, absv(first)), absv(later))))
        else:
            c.prove('post: rate follows the model', eq(o.attrs[X], ite(eq(i, 1), add(x0, first), later)))


@task('P12', 'moved position', ['Utilities/maputils.py::bear2LatLon'], assumes=['the earth is a sphere of radius 6367 km'])
def moved(ip):
    """the end of the great circle arc of that length and initial bearing"""
    c = ip.ctx
    b, d, x, y = (c.input(n, c.real(n)) for n in ('bearing', 'distance', 'lon', 'lat'))
    lon, lat = ip.call(ip.func('Utilities/maputils.py::bear2LatLon'), [b, d, x, y])
    rad = lambda v: mul(v, PI / 180)
    deg = lambda v: truediv(mul(v, 180), PI)
    sn, cs = lambda v: mfun('sin', v), lambda v: mfun('cos', v)
    a = truediv(d, Fraction(6367))
    nl = mfun('asin', add(mul(sn(rad(y)), cs(a)), mul(mul(cs(rad(y)), sn(a)), cs(rad(b)))))
    c.prove('post: latitude', eq(lat, deg(nl)))
    turn = ATAN2(z(mul(mul(sn(rad(b)), sn(a)), cs(rad(y)))), z(sub(cs(a), mul(sn(rad(y)), sn(nl)))))
    c.prove('post: longitude', eq(lon, deg(add(rad(x), turn))))
