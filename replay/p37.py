"""Real files passed from the observations to the simulation, with recording stand-ins for the estimates between them."""
import logging
import os
import shutil
import sys
import tempfile
import types
import numpy as np
import DataProcess.DataProcess as D
import StatInterface.StatInterface as S
import TrackGenerator.TrackGenerator as T
from StatInterface.GenerateDistributions import GenerateDistributions
from StatInterface.generateStats import GenerateStats
from replay.names37 import CDF, HELD, STATS, USED

BIG = sys.maxsize


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(kind=['stats', 'dist', 'obs', 'process', 'process', 'dates'][k % 6], seed=rng.randrange(10 ** 6), n=rng.choice([3, 10, 40]), gone=rng.choice(['', '', 'init_rmax', 'init_speed']))


def from_model(task, obl, m):
    kind = 'process' if 'handed on' in task else 'dates' if 'dates read' in task else 'stats' if 'statistics' in task else 'obs' if 'written' in task else 'dist'
    return [dict(kind=kind, seed=s, n=(3, 20, 40)[s % 3], gone=('', 'init_rmax', 'init_speed')[s % 3]) for s in range(24)]


class Stats:
    log = []

    def __init__(self, parameter, lonLat, gridLimit, gridSpace, gridInc, minSample=100, angular=False, missingValue=BIG, progressbar=None, prefix='', calculateLater=False):
        self.k = dict(parameter=parameter, lonLat=lonLat, grid=(gridLimit, gridSpace, gridInc), angular=bool(angular), later=calculateLater)

    def plotStatistics(self, *a):
        pass

    def save(self, f, d=''):
        Stats.log.append((f, self.k))

    def load(self, f):
        self.f = f


def stats(c, r, work):
    G = dict(gridLimit={'a': 1}, gridSpace={'b': 2}, gridInc={'c': 3})
    o, t = S.StatInterface.__new__(S.StatInterface), T.TrackGenerator.__new__(T.TrackGenerator)
    for x in (o, t):
        x.__dict__.update(G, processPath='out/process', outputPath='out')
    Stats.log = []
    old = S.GenerateStats, T.GenerateStats
    S.GenerateStats = T.GenerateStats = Stats
    try:
        o.calcCellStatistics(int(r.randint(5, 200)))
        t.loadCellStatistics()
    finally:
        S.GenerateStats, T.GenerateStats = old
    made = dict(Stats.log)
    for q, (src, angle) in STATS.items():
        k = made.get('out/process/%s_stats.nc' % q)
        if k is None:
            return 'no statistics of %s saved: %r' % (q, sorted(made))
        if k['parameter'] != 'out/process/' + src or k['lonLat'] != 'out/process/all_lon_lat' or k['angular'] != angle or k['later'] or any(a is not b for a, b in zip(k['grid'], G.values())):
            return 'statistics saved for %s are calculated from %r' % (q, k)
    for x, q in USED.items():
        s = getattr(t, x)
        if s.f != 'out/process/%s_stats.nc' % q or s.k['angular'] != STATS[q][1] or any(a is not b for a, b in zip(s.k['grid'], G.values())) or not s.k['later']:
            return 'statistics used for %s: %r from %s' % (q, s.k, s.f)


class Kde:
    """a made-up estimate that can be told from any other"""

    def generateKDE(self, v, step, angular=False, periodic=False, **k):
        m = 2 + int(abs(np.sum(v)) * 7) % 5
        x = np.arange(m) + np.sum(v)
        return np.transpose([x, x * 2, np.arange(1, m + 1) / m])


def dist(c, r, work):
    lim, space, inc = dict(xMin=100, xMax=115, yMin=-15, yMax=0), dict(x=5, y=5), dict(x=1, y=1)
    p = os.path.join(work, 'process')
    os.makedirs(p)
    data = {}
    for q, (m, pos, val, ang, per) in CDF.items():
        if pos not in data:
            k = c['n'] + (0 if pos == 'init_lon_lat' else 2)
            data[pos] = np.round(np.column_stack([r.uniform(100, 115, k), r.uniform(-15, 0, k), r.randint(0, 2, k)]), 2)
            np.savetxt(os.path.join(p, pos), data[pos], delimiter=',', fmt='%.2f', header='%', comments='%')
        data[val] = np.round(r.uniform(0, 1000, len(data[pos])), 2)
        np.savetxt(os.path.join(p, val), data[val], fmt='%.2f', header='%', comments='%')
    g = GenerateDistributions.__new__(GenerateDistributions)
    g.__dict__.update(logger=logging.getLogger(), outputPath=work, gridLimit=lim, gridSpace=space, gridInc=inc, kdeParameter=Kde(), missingValue=BIG, minSamplesCell=1)
    seen = []

    def extract(self, cell):
        self.parameter = np.array([self.pList.sum() + 0.5 * self.lonLat[:, 0].sum() + cell])
    o = S.StatInterface.__new__(S.StatInterface)
    o.__dict__.update(processPath=p, outputPath=work, kdeStep=0.1, kdeType='gau', generateDist=g)
    old = GenerateDistributions.extractParameter
    plain = GenerateDistributions.allDistributions
    GenerateDistributions.extractParameter = extract

    def record(self, *a, **k):
        names = ('lonLat', 'parameterList', 'parameterName', 'kdeStep', 'angular', 'periodic', 'plotParam')
        seen.append({**dict(zip(names, a)), **k})
        return plain(self, *a, **k)
    GenerateDistributions.allDistributions = record
    try:
        for q, (m, *_) in CDF.items():
            getattr(o, m)()
    finally:
        GenerateDistributions.extractParameter, GenerateDistributions.allDistributions = old, plain
    for q, (m, pos, val, ang, per) in CDF.items():
        k = [s for s in seen if s.get('parameterName') == q]
        if len(k) != 1 or bool(k[0].get('angular', False)) != ang or k[0].get('periodic', False) != per:
            return 'distribution of %s made as %r' % (q, k)
    gone = c['gone']
    for f in ([gone] if gone else []):
        os.remove(os.path.join(p, 'all_cell_cdf_%s.nc' % f))
        if f == 'init_rmax':
            os.remove(os.path.join(p, 'all_cell_cdf_' + f))
    t = T.TrackGenerator.__new__(T.TrackGenerator)
    t.__dict__.update(processPath=p, sizeMean=46.5, sizeStdDev=0.5)
    t.loadInitialConditionDistributions()
    for x, q in HELD.items():
        if gone == q == 'init_rmax':
            continue
        m, pos, val, ang, per = CDF[q]
        want = []
        for cell in range(9):
            v = np.array([data[val].sum() + 0.5 * data[pos][:, 0].sum() + cell])
            k = Kde().generateKDE(v, 1)
            want += [(cell, a, b) for a, b in zip(k[:, 0], k[:, 2])]
        got = np.array(getattr(t, x))
        if got.shape != (len(want), 3) or not np.allclose(got, want, rtol=1e-4, atol=1e-4):
            return 'distribution of %s used by the simulation: %r instead of %r' % (q, got[:2].tolist(), want[:2])


def near(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(np.asarray(b, float))
    return a.shape == b.shape and np.allclose(a, b, atol=0.006)


def processor(work):
    o = D.DataProcess.__new__(D.DataProcess)
    o.__dict__.update(logger=logging.getLogger(), ncflag=False, data={}, processPath=work, configFile='x', progressbar=None, origin_year=os.path.join(work, 'origin_year'), tcrm_input_dir=work,
                      landmask=types.SimpleNamespace(sampleGrid=lambda x, y: float(x + y > 100)))
    return o


def obs(c, r, work):
    n = c['n']
    o = processor(work)
    lon, lat, p, rm = [np.round(r.uniform(a, b, n), 2) for a, b in ((100, 115), (-15, 0), (900, 1000), (10, 60))]
    ind = (r.rand(n) < 0.4).astype(int)
    ind[0] = 1
    more = np.array([int(ind[i] and i + 1 < n and not ind[i + 1]) for i in range(n)])
    year, day = r.randint(1999, 2009, n), r.randint(1, 366, n)
    p[r.rand(n) < 0.1] = BIG
    first = ind.astype(bool)
    old = day.copy()
    o._lonLat(lon, lat, ind, more)
    o._pressure(p, ind)
    o._rmax(rm, ind)
    o._juliandays(day, ind, year)
    load = lambda f, d=None: np.loadtxt(os.path.join(work, f), comments='%', delimiter=d, ndmin=2 if d else 1)
    flag = (lon + lat > 100).astype(float)
    cols = np.column_stack([lon, lat, flag])
    leap = np.array([d - 1 if y % 4 == 0 and d >= 60 else d for d, y in zip(old, year)])
    for f, d, want in (('all_lon_lat', ',', cols), ('origin_lon_lat', ',', cols[first]), ('init_lon_lat', ',', cols[more.astype(bool)]), ('cyclone_tracks', ',', np.column_stack([ind, cols])),
                       ('all_pressure', None, p), ('init_pressure', None, p[first]), ('all_rmax', None, rm), ('init_rmax', None, rm[first]), ('jdays', None, leap[first])):
        if len(want) == 0:
            continue
        got = load(f, d)
        if not near(got, want):
            return '%s holds %r instead of %r' % (f, got[:4].tolist(), want[:4].tolist())


def process(c, r, work):
    n = c['n']
    season = r.randint(1980, 1990, n)
    dt = [(k, 'f8') for k in ('lat', 'lon', 'pressure', 'vmax', 'rmax')] + [(k, 'i4') for k in ('season',)] + [('date', 'U20')]
    inp = np.zeros(n, dt)
    for k, a, b in (('lat', -25, 25), ('lon', -180, 360), ('pressure', 500, 1200), ('vmax', 0, 90), ('rmax', 5, 80)):
        inp[k] = np.round(r.uniform(a, b, n), 2)
    base = r.uniform(90, 170)
    near_ = r.rand(n) < 0.8
    inp['lon'][near_] = np.round(base + r.uniform(-4, 4, near_.sum()), 2)
    for k in ('pressure', 'vmax', 'rmax'):
        inp[k][r.rand(n) < 0.1] = BIG
    inp['season'] = season
    inp['date'] = ['%d-%02d-%02d %02d:00:00' % (y, a, b, h) for y, a, b, h in zip(season, r.randint(1, 13, n), r.randint(1, 28, n), r.randint(0, 24, n))]
    start = (r.rand(n) < 0.3).astype(int)
    start[0] = 1
    first = 1983
    keep = season >= first
    if keep.sum() < 2:
        return None
    o = processor(work)
    got = {}

    class Config:
        def read(self, f):
            pass

        def has_option(self, a, b):
            return b in ('InputFile', 'Source')

        def get(self, a, b, **k):
            return {'InputFile': 'in/file', 'Source': 'source', 'SpeedUnits': 'kph', 'PressureUnits': 'kPa', 'LengthUnits': 'm'}[b]

        def getint(self, a, b):
            return first

    def convert(v, a, b):
        f = {('kph', 'mps'): 2., ('kPa', 'hPa'): 1., ('m', 'km'): 3.}[(a, b)]
        return np.ma.array(v, dtype=float) * f
    names = ('_lonLat', '_bearing', '_bearingRate', '_speed', '_speedRate', '_pressure', '_pressureRate', '_windSpeed', '_rmax', '_rmaxRate', '_frequency', '_juliandays')
    for k in names:
        code = getattr(D.DataProcess, k).__code__
        args = code.co_varnames[1:code.co_argcount]
        setattr(o, k, lambda *a, k=k, args=args, **kw: got.__setitem__(k, {x: np.array(v) for x, v in {**dict(zip(args, a)), **kw}.items()}))
    old = D.ConfigParser, D.colReadCSV, D.loadData.getInitialPositions, D.metutils.convert, D.loadData.getTimeDelta, D.loadData.julianDays
    D.ConfigParser, D.colReadCSV, D.loadData.getInitialPositions, D.metutils.convert = Config, lambda *a: inp, lambda d: start.copy(), convert
    m = keep.sum()
    dts, days = r.uniform(1, 12, m), r.randint(1, 366, m)
    D.loadData.getTimeDelta, D.loadData.julianDays = lambda *a: dts, lambda *a: days
    try:
        o.processData()
    finally:
        D.ConfigParser, D.colReadCSV, D.loadData.getInitialPositions, D.metutils.convert, D.loadData.getTimeDelta, D.loadData.julianDays = old
    x = {k: inp[k][keep].astype('f4').astype(float) if k in ('lat', 'lon', 'pressure', 'vmax') else inp[k][keep].astype(float) for k in ('lat', 'lon', 'pressure', 'vmax', 'rmax')}
    lon, lat = np.mod(x['lon'], 360.), x['lat']
    ind = start[keep].copy()
    ind[1:][(np.diff(lon) > 15) | (np.diff(lat) > 5)] = 1
    if (np.abs(np.diff(lon) - 15) < 1e-3).any() or (np.abs(np.diff(lat) - 5) < 1e-3).any():
        return None
    bad = lambda v, f: np.where(v >= 1e18, BIG, v * f)
    pr = np.where((x['pressure'] < 600) | (x['pressure'] > 1100), BIG, x['pressure'])
    az, di = D.maputils.latLon2Azi(lat, lon, 1, azimuth=0)
    want = dict(lon=lon, lat=lat, indicator=ind, initIndex=np.array([int(ind[i] > 0 and i + 1 < m and ind[i + 1] == 0) for i in range(m)]), pressure=pr, windSpeed=bad(x['vmax'], 2.), rmax=bad(x['rmax'], 3.),
                dt=dts, jdays=days, years=season[keep], bear=np.concatenate([[0], az]), dist=np.concatenate([[0], di]))
    for k in names:
        if k not in got:
            return '%s not handed on' % k
        for y, v in got[k].items():
            w = np.asarray(want[y], float)
            s = slice(1, None) if y in ('bear', 'dist') else slice(None)
            if v.shape != w.shape or not np.allclose(np.asarray(v, float)[s], w[s], rtol=1e-5, atol=2e-3):
                return '%s: %s is %r instead of %r' % (k, y, v[:6].tolist(), w[:6].tolist())
    with open(o.origin_year) as f:
        years = [int(float(z)) for z in f.read().split() if z[0].isdigit()]
    if years != season[keep][ind > 0].tolist():
        return 'seasons of the storms: %r instead of %r' % (years, season[keep][ind > 0].tolist())


def dates(c, r, work):
    n = c['n']
    d = [r.randint(a, b, n) for a, b in ((1950, 2020), (1, 13), (1, 28), (0, 24), (0, 60))]
    cols = ('year', 'month', 'day', 'hour', 'minute')
    t = np.zeros(n, [(x, 'i4') for x in cols])
    u = np.zeros(n, [(x, 'i4') for x in cols[:4]])
    for x, v in zip(cols, d):
        t[x] = v
        if x in cols[:4]:
            u[x] = v
    w = u.copy()
    w['hour'] = d[3] * 100 + d[4]
    text = np.array([('%04d-%02d-%02d %02d:%02d:00' % x,) for x in zip(*d)], [('date', 'U20')])
    for what, data, want in (('date', text, d), ('five columns', t, d), ('four columns', u, d[:4] + [0 * d[0]]), ('hours and minutes in one', w, d)):
        if what == 'hours and minutes in one' and w['hour'].max() < 100:
            continue
        got = D.loadData.parseDates(data, np.ones(n, int))
        for x, a, b in zip(cols, got, want):
            if not np.array_equal(a, b):
                return 'dates in %s: %s read as %r instead of %r' % (what, x, list(a[:4]), list(b[:4]))
        if [(z.year, z.month, z.day, z.hour, z.minute) for z in got[5]] != list(zip(*[x.tolist() for x in want])):
            return 'dates in %s: %r' % (what, got[5][:3])


def check(c):
    r = np.random.RandomState(c['seed'])
    work = tempfile.mkdtemp(prefix='p37-')
    try:
        return globals()[c['kind']](c, r, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
