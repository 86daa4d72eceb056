"""Real derivation of rates, ages and tracks from random observations of random storms."""
import os
import shutil
import sys
import tempfile
from datetime import datetime, timedelta
import logging
import numpy as np
from Utilities import loadData as L
from Utilities import maputils, config
from DataProcess.DataProcess import DataProcess

BIG = float(sys.maxsize)


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(kind=['rates', 'file', 'starts', 'process', 'wind'][k % 5], seed=rng.randrange(10 ** 6), storms=rng.randint(1, 8), jump=rng.random() < 0.3)


def from_model(task, obligation, model):
    kinds = ['file'] if 'file' in task else ['starts'] if 'starts' in task else ['wind', 'rates', 'file'] if 'wind' in task or 'speed' in task else ['rates', 'process', 'file', 'starts']
    for s in range(60):
        yield dict(kind=kinds[s % len(kinds)], seed=s, storms=1 + s % 6, jump=s % 2 == 0)


def storms(case):
    """lists of observations of each storm"""
    r = np.random.RandomState(case['seed'])
    out = []
    t = datetime(2000, 1, 1) + timedelta(hours=int(r.randint(0, 5000)))
    for s in range(case['storms']):
        n = int(r.choice([1, 1, 2, 3, 5, 9, 14]))
        lon, lat, p = r.uniform(90, 170), r.uniform(-25, -8), r.uniform(940, 1005)
        o = []
        for k in range(n):
            o.append(dict(t=t, lon=round(lon, 2), lat=round(lat, 2), p=round(p, 1), rmax=round(r.uniform(10, 60), 1), penv=1010.0, v=round(r.uniform(10, 60), 1)))
            t = t + timedelta(hours=int(r.choice([1, 3, 6, 6, 6, 12])))
            lon += r.uniform(-1.5, 1.5)
            lat += r.uniform(-1.2, 1.2)
            p = min(1008, max(900, p + r.uniform(-9, 9)))
            if case['jump'] and k and k == n // 2:
                lat += 7.0 if lat < 0 else 6.5
        out.append(o)
        t = t + timedelta(hours=int(r.randint(-2000, 4000)))
    return out


def flat(st):
    ind = np.concatenate([[1] + [0] * (len(o) - 1) for o in st]).astype('i')
    f = lambda k: np.array([x[k] for o in st for x in o])
    times = [x['t'] for o in st for x in o]
    dt = np.array([0.0] + [(b - a).total_seconds() / 3600. for a, b in zip(times[:-1], times[1:])], 'f')
    return ind, dt, f('lon'), f('lat'), f('p'), f('rmax'), times


def near(a, b, tol=2e-3):
    if abs(b) >= 1e18 or abs(a) >= 1e18:
        return abs(a) >= 1e18 and abs(b) >= 1e18
    return abs(a - b) <= tol * max(1.0, abs(b))


def each(name, got, want, tol=2e-3):
    if len(got) != len(want):
        return '%s: %d values for %d observations' % (name, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if not near(float(a), float(b), tol):
            return '%s: observation %d has %r, expected %r' % (name, i, float(a), float(b))
    return None


def expected(ind, dt, lon, lat, p, rmax, missing=BIG):
    """every quantity from observations of one storm at a time"""
    n = len(ind)
    starts = list(np.flatnonzero(ind)) + [n]
    E = {k: np.full(n, missing) for k in ('speed', 'bearing', 'pressureRate', 'rmaxRate', 'bearingRate', 'speedRate')}
    E['age'] = np.zeros(n)
    second, rest = [], []
    for a, b in zip(starts[:-1], starts[1:]):
        prev = None
        for i in range(a + 1, b):
            E['age'][i] = E['age'][i - 1] + dt[i]
            bear, dist = maputils.latLon2Azi(lat[i - 1:i + 1], lon[i - 1:i + 1], 1, azimuth=0)
            s = dist[0] / dt[i]
            good = 0 <= s <= 200
            E['bearing'][i] = bear[0]
            if good:
                E['speed'][i] = s
            v = (p[i] - p[i - 1]) / dt[i]
            if abs(v) <= 10:
                E['pressureRate'][i] = v
            E['rmaxRate'][i] = (rmax[i] - rmax[i - 1]) / dt[i]
            if i >= a + 2:
                d = bear[0] - prev[0]
                d = d - 360 if d > 180 else d + 360 if d < -180 else d
                E['bearingRate'][i] = d / dt[i]
                if good and prev[2]:
                    E['speedRate'][i] = (s - prev[1]) / dt[i]
            (second if i == a + 1 else rest).append(i)
            prev = (bear[0], s, good)
    return E, second, rest


def blank():
    o = DataProcess.__new__(DataProcess)
    o.logger, o.progressbar, o.ncflag, o.data = logging.getLogger('p18'), None, True, {}
    o.processPath = '/nonexistent'
    return o


def rates(case):
    ind, dt, lon, lat, p, rmax, times = flat(storms(case))
    n = len(ind)
    if n < 2:
        return None
    E, second, rest = expected(ind, dt, lon, lat, p, rmax)
    o = blank()
    r = np.random.RandomState(case['seed'] + 1)
    bear, dist = r.uniform(-50, 400, n), r.uniform(-50, 400, n)         # what is there for the first observation does not matter
    b, d = maputils.latLon2Azi(lat, lon, 1, azimuth=0)
    bear[1:], dist[1:] = b, d
    init = np.concatenate([np.where(np.diff(np.where(ind > 0, 1, 0)) == -1, 1, 0), [0]])
    with np.errstate(all='ignore'):
        o._bearing(bear, ind, init)
        o._bearingRate(bear, dt, ind)
        o._speed(dist, dt, ind, init)
        o._speedRate(dist, dt, ind)
        o._pressureRate(p.copy(), dt, ind)
        o._rmaxRate(rmax.copy(), dt, ind)
        s, bb = L.getSpeedBearing(ind, lon, lat, dt)
    for k in ('speed', 'bearing', 'pressureRate', 'rmaxRate', 'bearingRate', 'speedRate'):
        m = each(k, o.data[k], E[k])
        if m:
            return m
    for k, key, sel in (('init_speed', 'speed', second), ('speed_no_init', 'speed', rest), ('init_bearing', 'bearing', second), ('bearing_no_init', 'bearing', rest)):
        m = each(k, o.data[k], E[key][sel])
        if m:
            return m
    m = each('speed of getSpeedBearing', s, E['speed']) or each('bearing of getSpeedBearing', bb, E['bearing'])
    if m:
        return m
    ymd = [np.array([getattr(t, k) for t in times]) for k in ('year', 'month', 'day', 'hour', 'minute')]
    return each('age', L.getTimeElapsed(ind, *ymd), E['age']) or each('time between', L.getTimeDelta(*ymd)[1:], dt[1:])


def wind(case):
    st = storms(case)
    r = np.random.RandomState(case['seed'] + 2)
    whole = flat(st)
    if len(whole[0]) < 2:
        return None
    pos = 0
    with np.errstate(all='ignore'):
        def v(a):
            ind, dt, lon, lat, p, rmax, times = a
            return np.ma.filled(L.maxWindSpeed(ind, dt, lon, lat, p, np.full(len(ind), 1010.0) - 0.1 * np.abs(lat)), 0.0)
        a = v(whole)
        for k, o in enumerate(st):
            if len(o) > 1:
                alone = v(flat([o]))
                m = each('maximum wind of storm %d alone and among others' % k, a[pos:pos + len(o)], alone)
                if m:
                    return m
            pos += len(o)
    return None


def starts(case):
    r = np.random.RandomState(case['seed'])
    st = storms(case)
    num, season, serial = [], [], []
    n0, s0 = 1, 1990
    for o in st:
        num += [n0] * len(o)
        season += [s0] * len(o)
        serial += ['S%d-%d' % (s0, n0)] * len(o)
        if r.rand() < 0.4:
            s0 += 1
            n0 = n0 if r.rand() < 0.5 else 1
            n0 = n0 if r.rand() < 0.7 else n0 + 1
        else:
            n0 += 1
    ind = flat(st)[0]
    for data in ({'tcserialno': np.array(serial)}, {'num': np.array(num), 'season': np.array(season)}, {'index': ind}):
        m = each('starts by %s' % sorted(data), L.getInitialPositions(data), ind)
        if m:
            return m
    want = np.array([1] + [int(a != b) for a, b in zip(num[:-1], num[1:])])
    return each('starts by number', L.getInitialPositions({'num': np.array(num)}), want)


INI = """[DataProcess]
InputFile=%(file)s
Source=TEST
StartSeason=1900
FilterSeasons=False
[TEST]
Columns=tcserialno,season,date,lat,lon,pressure,vmax,rmax,penv,poci
FieldDelimiter=,
NumberOfHeadingLines=1
PressureUnits=hPa
LengthUnits=km
SpeedUnits=mps
DateFormat=%%Y-%%m-%%d %%H:%%M:%%S
[Output]
Path=%(work)s
[Input]
LandMask=none
"""


def write(work, st):
    config.reset()
    f = os.path.join(work, 'tracks.csv')
    with open(f, 'w') as h:
        h.write('header\n')
        for k, o in enumerate(st):
            for x in o:
                h.write('S%d,%d,%s,%.2f,%.2f,%.1f,%.1f,%.1f,%.1f,%.1f\n' % (k, 2000, x['t'].strftime('%Y-%m-%d %H:%M:%S'), x['lat'], x['lon'], x['p'], x['v'], x['rmax'], x['penv'], 1005.0))
    ini = os.path.join(work, 'c.ini')
    with open(ini, 'w') as h:
        h.write(INI % dict(file=f, work=work))
    return f, ini


def resplit(st, dlon):
    """storms as the code separates them: at jumps to the east or north too"""
    out = []
    prev = None
    for o in st:
        for k, x in enumerate(o):
            if k == 0 or x['lat'] - prev['lat'] > 5 or x['lon'] - prev['lon'] > dlon:
                out.append([])
            out[-1].append(x)
            prev = x
    return out


def file(case):
    st = storms(case)
    if sum(len(o) for o in st) < 2:
        return None
    work = tempfile.mkdtemp(prefix='p18-')
    try:
        f, ini = write(work, st)
        with np.errstate(all='ignore'):
            tracks = L.loadTrackFile(ini, f, 'TEST', missingValue=0, calculateWindSpeed=bool(case['seed'] % 2))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    want = resplit(st, 10)
    if len(tracks) != len(want):
        return '%d tracks of %d storms' % (len(tracks), len(want))
    for k, (t, o) in enumerate(zip(tracks, want)):
        ind, dt, lon, lat, p, rmax, times = flat([o])
        E, a, b = expected(ind, dt, lon, lat, p, rmax, missing=0.0)
        for name, got, w in (('longitude', t.Longitude, lon), ('latitude', t.Latitude, lat), ('speed', t.Speed, E['speed']), ('bearing', t.Bearing, E['bearing']), ('age', t.TimeElapsed, E['age']), ('pressure', t.CentralPressure, p)):
            m = each('storm %d of the file: %s' % (k, name), got, w)
            if m:
                return m
    return None


class Sea:
    def sampleGrid(self, x, y):
        return 0.0


def process(case):
    st = storms(case)
    if sum(len(o) for o in st) < 2:
        return None
    work = tempfile.mkdtemp(prefix='p18-')
    try:
        f, ini = write(work, st)
        os.mkdir(os.path.join(work, 'process'))
        o = blank()
        o.configFile, o.outputPath, o.processPath, o.ncflag = ini, work, os.path.join(work, 'process'), False
        o.tcrm_input_dir, o.landmask, o.origin_year = work, Sea(), os.path.join(work, 'process', 'origin_year')
        with np.errstate(all='ignore'):
            o.processData()
        read = lambda n: np.genfromtxt(os.path.join(work, 'process', n), comments='%', delimiter=',', ndmin=1)
        res = {n: read(n) for n in ('all_speed', 'all_bearing', 'speed_rate', 'bearing_rate', 'pressure_rate', 'rmax_rate', 'init_speed', 'speed_no_init', 'init_bearing', 'bearing_no_init')}
        org = np.atleast_2d(read('origin_lon_lat'))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    want = resplit(st, 15)
    ind, dt, lon, lat, p, rmax, times = flat(want)
    # the file keeps single precision of positions
    lon, lat = lon.astype('float32'), lat.astype('float32')
    E, second, rest = expected(ind, dt, lon, lat, p, rmax)
    rmaxInd = None
    for n, key, sel in (('all_speed', 'speed', None), ('all_bearing', 'bearing', None), ('speed_rate', 'speedRate', None), ('bearing_rate', 'bearingRate', None), ('pressure_rate', 'pressureRate', None),
                        ('rmax_rate', 'rmaxRate', None), ('init_speed', 'speed', second), ('speed_no_init', 'speed', rest), ('init_bearing', 'bearing', second), ('bearing_no_init', 'bearing', rest)):
        w = E[key] if sel is None else E[key][sel]
        got = res[n]
        if len(w) == 0:
            continue
        if len(got) != len(w):
            return '%s: %d values, expected %d' % (n, len(got), len(w))
        for i, (a, b) in enumerate(zip(got, w)):
            if not (near(a, b, 0.0) or abs(a - b) <= 0.02 + 1e-3 * abs(b)):
                return '%s: value %d is %r, expected %r' % (n, i, a, b)
    if len(org) != len(want):
        return 'origin_lon_lat: %d origins of %d storms' % (len(org), len(want))
    return None


def check(case):
    return {'rates': rates, 'file': file, 'starts': starts, 'process': process, 'wind': wind}[case['kind']](case)
