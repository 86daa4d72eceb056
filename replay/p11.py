"""Real generateTracks with candidate tracks on and around every validity limit."""
import datetime
import numpy as np
from TrackGenerator import TrackGenerator as tgm

N = ('index', 'dates', 'age', 'lon', 'lat', 'speed', 'bearing', 'pressure', 'poci', 'rmax')


class Stuck(Exception):
    pass


def cases(rng, tier):
    while True:
        yield dict(n=rng.choice([0, 1, 1, 2, 3, 5]), sim=rng.randint(0, 40), inner=rng.random() < 0.5, seed=rng.randrange(10 ** 6), good=rng.choice([0.15, 0.4, 0.8]),
                   given=rng.random() < 0.2)


def from_model(task, obl, m):
    n = m.get('nTracks')
    return [dict(n=min(max(int(n), 0), 6), sim=3, inner='inner' in task, seed=s, good=0.4, given=False) for s in range(4)] if n is not None else []


def candidate(r, good, lim):
    """columns of one candidate; one rule is put on or beyond its limit unless the candidate is good"""
    m = r.randint(2, 30)
    age = np.arange(m) * r.choice([1., 3., 6.])
    while age[-1] < 12:
        age = np.append(age, age[-1] + 1)
    m = len(age)
    lon = 150 + r.uniform(-4.9, 4.9, m)
    lat = -15 + r.uniform(-4.9, 4.9, m)
    poci = 1010 + r.uniform(-3, 3, m)
    pr = poci - r.uniform(2, 80, m)
    rmax = r.uniform(5.5, 490, m)
    rmax[0] = r.uniform(6, 99)
    k = r.choice([0, m - 1, r.randint(m)])
    what = 'good'
    if r.rand() > good:
        what = r.choice(['empty', 'short', 'short', 'init', 'equal', 'shallow', 'nan', 'small', 'large', 'genesis', 'lon', 'lat', 'pair'])
        if what == 'empty':
            age, lon, lat, poci, pr, rmax = [x[:0] for x in (age, lon, lat, poci, pr, rmax)]
        elif what == 'short':
            age = np.linspace(0, r.choice([11.99, 11., 6., 0.]), m)
        elif what == 'init':
            pr[0] = poci[0] - r.choice([1.0, 0.9, 0.5, 0.])
        elif what == 'equal':
            pr[k] = poci[k]
        elif what == 'shallow':
            pr[k] = poci[k] + r.choice([0.1, 1., 20.])
        elif what == 'nan':
            pr[k] = np.nan
        elif what == 'small':
            rmax[k] = r.choice([5., 4.99, 1., 0., -3.])
        elif what == 'large':
            rmax[max(k, 1)] = r.choice([500., 500.01, 900.])
        elif what == 'genesis':
            rmax[0] = r.choice([100., 100.5, 300.])
        elif what == 'lon':
            lon[k] = r.choice([lim['xMin'], lim['xMax'], lim['xMin'] - 1, lim['xMax'] + 0.5])
        elif what == 'lat':
            lat[k] = r.choice([lim['yMin'], lim['yMax'], lim['yMin'] - 1, lim['yMax'] + 0.5])
        else:
            pr[k], rmax[k] = poci[k] + 2, 2.
    n = len(age)
    dates = np.array([datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=float(h)) for h in age], dtype=object)
    return what, (np.ones(n, dtype=int), dates, age, lon, lat, np.full(n, 20.), np.full(n, 200.), pr, poci, rmax)


class Cdf:
    def ppf(self, a, b):
        return 150., -15.


class Mslp:
    def get_pressure(self, c):
        return 1010.


def check(c):
    r = np.random.RandomState(c['seed'])
    lim = dict(xMin=145., xMax=155., yMin=-20., yMax=-10.)
    tg = tgm.TrackGenerator.__new__(tgm.TrackGenerator)
    tg.gridLimit = dict(xMin=130, xMax=170, yMin=-30, yMax=0)
    tg.gridSpace = dict(x=5, y=5)
    tg.innerGridLimit = dict(lim) if c['inner'] else None
    tg.dt, tg.rmwEps = 1., 0.1
    tg.originSampler, tg.mslp = Cdf(), Mslp()
    cell = tgm.stats.getCellNum(150., -15., tg.gridLimit, tg.gridSpace)
    mk = lambda vals: np.array([[cell, v, (i + 1.) / len(vals)] for i, v in enumerate(vals)])
    tg.allCDFInitBearing, tg.allCDFInitSpeed, tg.allCDFInitDay = mk([100., 200., 300.]), mk([10., 20., 40.]), mk([10., 50., 60.])
    tg.allCDFInitPressure, tg.allCDFInitSize, tg.cdfSize = mk([960., 980., 990.]), None, mk([20., 30., 40.])
    made, calls = [], [0]

    def single(*a, **k):
        calls[0] += 1
        if calls[0] > 400 * (c['n'] + 1):
            raise Stuck()
        what, cols = candidate(r, c['good'], lim)
        made.append((what, [np.array(x) for x in cols]))
        return cols
    tg._singleTrack = single
    tgm.PRNG = tgm.random.Random(seed=c['seed'], stream=1)
    kw = dict(initLon=150., initLat=-15., initSpeed=20., initBearing=120., initPressure=970., initEnvPressure=1010., initRmax=30.) if c['given'] else {}
    try:
        res = tg.generateTracks(c['n'], c['sim'], **kw)
    except Stuck:
        return 'no end after %d candidate tracks for %d requested (%d of them valid)' % (calls[0], c['n'], sum(w == 'good' for w, _ in made))
    if len(res) != c['n']:
        return '%d tracks returned, %d requested' % (len(res), c['n'])
    for j, t in enumerate(res):
        if tuple(t.trackId) != (j, c['sim']):
            return 'track %d of simulation %d is numbered %r' % (j, c['sim'], t.trackId)
        if len(t.Longitude) == 0:
            return 'empty track kept'
        if not t.TimeElapsed[-1] >= 12:
            return 'track lasting %s h kept' % t.TimeElapsed[-1]
        if not t.EnvPressure[0] - t.CentralPressure[0] > 1:
            return 'initial deficit of %s hPa kept' % (t.EnvPressure[0] - t.CentralPressure[0])
        if not np.all(t.CentralPressure < t.EnvPressure):
            return 'a step not deeper than its surroundings was kept'
        if not np.all((t.rMax > 5) & (t.rMax < 500)):
            return 'radius %s .. %s kept' % (t.rMax.min(), t.rMax.max())
        if not t.rMax[0] < 100:
            return 'genesis radius %s kept' % t.rMax[0]
        if c['inner'] and not np.all((t.Longitude > lim['xMin']) & (t.Longitude < lim['xMax']) & (t.Latitude > lim['yMin']) & (t.Latitude < lim['yMax'])):
            return 'track leaving the inner region kept'
        src = [cols for w, cols in made if len(cols[0]) == len(t.Longitude) and np.array_equal(cols[3], t.Longitude) and np.array_equal(cols[9], t.rMax) and np.array_equal(cols[7], t.CentralPressure)]
        if not src:
            return 'a kept track is none of the candidates generated'
    return None
