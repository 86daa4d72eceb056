"""Real single tracks over random fields, coefficients and land masks; every row checked against the previous one."""
import datetime
import math
import types
import numpy as np
from TrackGenerator import TrackGenerator as tgm

COL = ('index', 'dates', 'age', 'lon', 'lat', 'speed', 'bearing', 'pressure', 'poci', 'rmax')
NAMES = ('alpha', 'phi', 'mu', 'sig', 'min')


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), steps=rng.choice([1, 2, 5, 30, 90]), dt=rng.choice([1., 0.5, 3., 6.]), land=rng.choice(['none', 'stripes', 'stripes', 'half', 'all']),
                   south=rng.random() < 0.7, near=rng.choice(['mid', 'edge', 'corner']), weak=rng.random() < 0.3, low=rng.random() < 0.3, nan=rng.random() < 0.15)


def from_model(task, obl, m):
    return []


def move(b, d, lon, lat):
    """destination on a sphere of radius 6367 km, by rotating vectors"""
    b, lon, lat, t = math.radians(b), math.radians(lon), math.radians(lat), d / 6367.
    p = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    e = np.array([-math.sin(lon), math.cos(lon), 0.])
    n = np.cross(p, e)
    q = p * math.cos(t) + (n * math.cos(b) + e * math.sin(b)) * math.sin(t)
    return math.degrees(math.atan2(q[1], q[0])) % 360., math.degrees(math.asin(q[2]))


def check(c):
    r = np.random.RandomState(c['seed'])
    y0 = -30 if c['south'] else 5
    lim = dict(xMin=140, xMax=170, yMin=y0, yMax=y0 + 25)
    tg = tgm.TrackGenerator.__new__(tgm.TrackGenerator)
    tg.gridLimit, tg.gridSpace = lim, dict(x=5, y=5)
    tg.dt, tg.maxTimeSteps, tg.allCDFInitSize, tg.rmwEps, tg.innerGridLimit = c['dt'], c['steps'], None, 0.1, None
    ncell = 30

    def stats(scale, mu):
        s = types.SimpleNamespace()
        for p in ('', 'l'):
            setattr(s, p + 'alpha', r.uniform(0.2, 0.9, ncell))
            setattr(s, p + 'phi', r.uniform(0.2, 0.8, ncell))
            setattr(s, p + 'mu', mu + scale * r.uniform(-1, 1, ncell))
            setattr(s, p + 'sig', scale * r.uniform(0.1, 1, ncell))
            setattr(s, p + 'min', np.full(ncell, 975. if c['low'] else 900.) + r.uniform(0, 5, ncell))
        return types.SimpleNamespace(coeffs=s)
    tg.vStats, tg.bStats, tg.dpStats, tg.pStats = stats(15., 20.), stats(1.5, 3.), stats(2.5 if c['weak'] else 0.6, 0.), stats(2., 0.)
    tg.dsStats = stats(1., 0.)

    def land(x, y):
        return {'none': False, 'all': True, 'half': x > 155, 'stripes': math.floor(x * 2) % 2 == 0}[c['land']]
    seen = []

    class Fall:
        tol = 0

        def onLand(self, x, y):
            seen.append((float(x), float(y), land(x, y)))
            return seen[-1][2]
    tg.landfall = Fall()
    penv = 1010.

    class Mslp:
        def get_pressure(self, a):
            return penv + (-60. if c['nan'] and r.rand() < 0.1 else 0.)
    tg.mslp = Mslp()
    tgm.PRNG = tgm.random.Random(seed=c['seed'], stream=3)
    draws, eps, log = [], {}, []
    orig = tgm.logistic, tgm.lognorm

    def logistic(*a, **k):
        draws.append((a, k, orig[0](*a, **k)))
        return draws[-1][2]

    def lognorm(*a, **k):
        eps['lf'] = orig[1](*a, **k)
        return eps['lf']
    for f in ('_stepPressureChange', '_stepBearing', '_stepSpeed'):
        def wrap(f=f):
            g = getattr(tg, f)

            def h(cell, i, onland):
                n = len(draws)
                g(cell, i, onland)
                log.append((f, int(cell), int(i), bool(onland), draws[n:], tg.dp, tg.theta, tg.v))
            setattr(tg, f, h)
        wrap()
    tgm.logistic, tgm.lognorm = logistic, lognorm
    lon0 = {'mid': 155., 'edge': 140.05, 'corner': 169.9}[c['near']]
    lat0 = {'mid': y0 + 12., 'edge': y0 + 12., 'corner': y0 + 24.8}[c['near']]
    v0, b0, p0 = r.uniform(1, 40), r.uniform(0, 360), r.uniform(940, 1000)
    t0 = datetime.datetime(2001, 2, 3, 4)
    try:
        res = tg._singleTrack(3, lon0, lat0, v0, b0, p0, penv, 30., t0)
    finally:
        tgm.logistic, tgm.lognorm = orig
    t = dict(zip(COL, res))
    n = len(t['lon'])
    if any(len(x) != n for x in res):
        return 'columns of different lengths %r' % [len(x) for x in res]
    if not 1 <= n <= c['steps']:
        return 'track of %d rows, largest number of steps %d' % (n, c['steps'])
    if abs(t['age'][0]) > 0 or abs(t['lon'][0] - lon0) > 1e-4 or abs(t['lat'][0] - lat0) > 1e-4 or abs(t['speed'][0] - v0) > 1e-4 or abs(t['bearing'][0] - b0) > 1e-3 \
            or abs(t['pressure'][0] - p0) > 1e-3:
        return 'first row does not hold the initial conditions'
    by = {}
    for f, cell, i, onl, dr, dp, th, v in log:
        if (f, i) in by:
            return '%s called twice at step %d' % (f, i)
        by[(f, i)] = (cell, onl, dr, dp, th, v)
    chi = {'_stepPressureChange': 0., '_stepBearing': 0., '_stepSpeed': 0.}
    offp, offq, offv, tol = p0, float(t['poci'][0]), v0, 0.
    close = lambda a, b, e: abs(a - b) <= e
    for k in range(1, n):
        x, y = float(t['lon'][k]), float(t['lat'][k])
        if not (lim['xMin'] <= x < lim['xMax'] and lim['yMin'] < y <= lim['yMax']):
            return 'row %d at (%s, %s) outside the domain %r' % (k, x, y, lim)
        wx, wy = move(float(t['bearing'][k - 1]), c['dt'] * float(t['speed'][k - 1]), float(t['lon'][k - 1]), float(t['lat'][k - 1]))
        if not (close(x, wx, 2e-3) and close(y, wy, 2e-3)):
            return 'row %d at (%s, %s); the previous row moved by its bearing and speed gives (%s, %s)' % (k, x, y, wx, wy)
        if not close(float(t['age'][k]) - float(t['age'][k - 1]), c['dt'], 1e-3):
            return 'age grows by %s at row %d, time step %s' % (t['age'][k] - t['age'][k - 1], k, c['dt'])
        d = (t['dates'][k] - t0).total_seconds() / 3600.
        if not close(d, k * c['dt'], 1e-2):
            return 'date of row %d is %s h after genesis, expected %s' % (k, d, k * c['dt'])
        deficit = float(t['poci'][k]) - float(t['pressure'][k])
        age = float(t['age'][k])
        if math.isnan(deficit):
            return 'row %d has no outer pressure' % k
        if deficit < (5. if age > 12 else 2.) - 1e-3:
            return 'row %d of age %s kept with a deficit of %s' % (k, age, deficit)
        onl = land(np.float32(x), np.float32(y))
        cell = tgm.stats.getCellNum(t['lon'][k], t['lat'][k], lim, tg.gridSpace)
        dt = c['dt']
        for f, st in (('_stepPressureChange', tg.dpStats), ('_stepBearing', tg.bStats), ('_stepSpeed', tg.vStats)):
            if (f, k) not in by:
                return '%s not called at step %d' % (f, k)
            cl, ol, dr, dp, th, v = by[(f, k)]
            if cl != cell or ol != onl:
                return '%s at step %d used cell %d, land %s; the position is in cell %d, land %s' % (f, k, cl, ol, cell, onl)
            if len(dr) != 1:
                return '%s drew %d numbers' % (f, len(dr))
            g = lambda nm: getattr(st.coeffs, ('l' if onl else '') + nm)[cell]
            chi[f] = g('alpha') * chi[f] + g('phi') * dr[0][2]
            first, later = g('sig') * chi[f], g('mu') + g('sig') * chi[f]
            if f == '_stepPressureChange':
                rate = dp
                want, got = (first if k == 1 else later), dp
            elif f == '_stepBearing':
                want, got = (b0 + math.degrees(first) if k == 1 else math.degrees(later)) % 360., th
                if close(abs(want - got), 360., 1e-6):
                    got = want
                if not close(float(t['bearing'][k]), th, 1e-3):
                    return 'bearing of row %d is %s, model gives %s' % (k, t['bearing'][k], th)
            else:
                want, got = (v0 + abs(first) if k == 1 else abs(later)), v
                if not close(float(t['speed'][k]), abs(v), 1e-3):
                    return 'speed of row %d is %s, model gives %s' % (k, t['speed'][k], v)
            if not close(want, got, 1e-6 * max(1, abs(want))):
                return '%s at step %d gives %s, its recursion gives %s' % (f, k, got, want)
        prev = float(t['pressure'][k - 1])
        if onl:
            tol += dt
            dlt = offq - offp
            want = float(t['poci'][k - 1]) - dlt * math.exp(-(0.03515 + 0.000435 * dlt + 0.002865 * offv + eps['lf']) * tol)
            if not close(float(t['pressure'][k]), want, 2e-2):
                return 'pressure over land at row %d is %s, landfall decay gives %s' % (k, t['pressure'][k], want)
        else:
            want = prev + rate * dt
            floor = tg.pStats.coeffs.min[cell] - 4 * tg.pStats.coeffs.sig[cell]
            alt = prev + abs(rate) * dt
            got = float(t['pressure'][k])
            if not (close(got, want, 1e-2) and want >= floor - 1e-3 or close(got, alt, 1e-2) and want <= floor + 1e-3):
                return 'pressure over sea at row %d is %s; rate of change gives %s (floor %s)' % (k, got, want, floor)
            offp, offq, offv = got, float(t['poci'][k]), float(t['speed'][k])
    return None
