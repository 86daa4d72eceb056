"""Real stations fed with random fields; files read back and compared with what was put in."""
import csv
import os
import shutil
import tempfile
import warnings
import numpy as np
warnings.filterwarnings('ignore')
from Utilities.timeseries import Timeseries, Station
from Utilities.dynarray import DynamicRecArray


def cases(rng, tier):
    while True:
        yield dict(kind=rng.choice(['array', 'array', 'series']), seed=rng.randrange(10 ** 6), n=rng.choice([0, 1, 9, 10, 11, 15, 16, 40, 200]), stations=rng.randint(1, 4), blocks=rng.randint(1, 4))


def from_model(task, obl, m):
    for s in range(30):
        yield dict(kind='series' if task in ('extremes', 'one record each time step', 'nearest grid point') else 'array', seed=s, n=[1, 9, 10, 11, 16, 40][s % 6], stations=1 + s % 3, blocks=1 + s % 3)


def check(c):
    r = np.random.RandomState(c['seed'])
    if c['kind'] == 'array':
        d = DynamicRecArray(dtype={'names': ('a', 'b'), 'formats': ['i8', '|U16']})
        want = []
        for b in range(c['blocks']):
            recs = [(int(r.randint(10 ** 9)), 'r%d' % r.randint(1000)) for _ in range(int(r.randint(0, c['n'] + 1)))]
            if r.uniform() < 0.5:
                d.extend(recs)
            else:
                for x in recs:
                    d.append(x)
            want += recs
            got = [tuple(x) for x in d.data]
            if got != want or len(d) != len(want):
                k = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))
                return '%d records appended: array of %d, record %d is %r instead of %r' % (len(want), len(got), k, got[k:k + 1], want[k:k + 1])
        return None
    work = tempfile.mkdtemp(prefix='p24-')
    try:
        return series(c, r, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def series(c, r, work):
    ny, nx = int(r.randint(2, 7)), int(r.randint(2, 7))
    gx, gy = 140 + 0.5 * np.arange(nx), -20 + 0.25 * np.arange(ny)
    t = Timeseries.__new__(Timeseries)
    t.outputPath, t.maxfile, t.minfile, t.meta = work, os.path.join(work, 'maxima.csv'), os.path.join(work, 'minima.csv'), False
    t.stations = [Station('s%d' % k, float(np.round(r.uniform(gx[0] - 0.3, gx[-1] + 0.3), 3)), float(np.round(r.uniform(gy[0] - 0.2, gy[-1] + 0.2), 3))) for k in range(c['stations'])]
    want = [[] for _ in t.stations]
    calm = r.uniform() < 0.2
    for step in range(max(1, min(c['n'], 40))):
        dt = '2001-01-%02d %02d:00' % (1 + step // 24, step % 24)
        spd, uu, vv, prs = np.round(r.uniform(0, 80, (ny, nx)), 2), np.round(r.uniform(-60, 60, (ny, nx)), 2), np.round(r.uniform(-60, 60, (ny, nx)), 2), np.round(r.uniform(900, 1010, (ny, nx)), 2)
        if calm:
            spd *= 0
        t.extract(dt, spd, uu, vv, prs, gx, gy)
        for k, s in enumerate(t.stations):
            inside = gx[0] <= s.lon <= gx[-1] and gy[0] <= s.lat <= gy[-1]
            if inside:
                dx, dy = np.abs(gx - s.lon), np.abs(gy - s.lat)
                js, is_ = np.where(dx <= dx.min() + 1e-9)[0], np.where(dy <= dy.min() + 1e-9)[0]
                opts = [(spd[i, j], uu[i, j], vv[i, j], prs[i, j]) for i in is_ for j in js]
            else:
                opts = [(0., 0., 0., None)]
            want[k].append((dt, opts))
    for k, s in enumerate(t.stations):
        d = s.data.data
        if len(d) != len(want[k]):
            return '%d time steps, station %d has %d records' % (len(want[k]), k, len(d))
        for i, (dt, opts) in enumerate(want[k]):
            x = d[i]
            if x['Station'] != s.id or x['Time'] != dt or abs(x['Longitude'] - s.lon) > 1e-9 or abs(x['Latitude'] - s.lat) > 1e-9:
                return 'station %r, step %d: record %r' % (s.id, i, x)
            if not any(abs(x['Speed'] - o[0]) + abs(x['UU'] - o[1]) + abs(x['VV'] - o[2]) + (abs(x['Pressure'] - o[3]) if o[3] is not None else 0) < 1e-9 for o in opts):
                return 'station at (%r, %r), grid %r %r, step %d: record %r, the field has %r' % (s.lon, s.lat, gx.tolist(), gy.tolist(), i, x, opts)
            if x['Speed'] > 0 and abs((np.degrees(np.arctan2(-x['UU'], -x['VV'])) - x['Bearing'] + 180) % 360 - 180) > 1e-6:
                return 'components %r %r: bearing %r' % (x['UU'], x['VV'], x['Bearing'])
    t.shutdown()
    for name, field, pick in (('maxima.csv', 'Speed', max), ('minima.csv', 'Pressure', min)):
        rows = list(csv.DictReader(open(os.path.join(work, name))))
        windy = [s for s in t.stations if (s.data.data['Speed'] > 0).any()]
        if [q['Station'] for q in rows] != [s.id for s in windy]:
            return '%s: stations %r, with wind are %r' % (name, [q['Station'] for q in rows], [s.id for s in windy])
        for q, s in zip(rows, windy):
            d = s.data.data
            if abs(float(q[field]) - pick(d[field])) > 0.006:
                return '%s: station %s has %s %s, of its series %r is the extreme' % (name, s.id, field, q[field], pick(d[field]))
            if not any(x['Time'] == q['Time'] and abs(x['Speed'] - float(q['Speed'])) < 0.006 and abs(x['Pressure'] - float(q['Pressure'])) < 0.006 for x in d):
                return '%s: record %r is not one of the series of station %s' % (name, dict(q), s.id)
            ts = list(csv.DictReader(open(os.path.join(work, 'ts.%s.csv' % s.id))))
            if [x['Time'] for x in ts] != [x['Time'] for x in d] or any(abs(float(x['Speed']) - y['Speed']) > 0.006 for x, y in zip(ts, d)):
                return 'file of station %s: %d lines for %d records' % (s.id, len(ts), len(d))
