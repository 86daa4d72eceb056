"""The real loops over real gust files, run as threads over a message-passing stand-in; records compared with the nearest grid points."""
import os
import random
import shutil
import sqlite3
import tempfile
import threading
import types
import numpy as np
from netCDF4 import Dataset
import database
from Utilities.maputils import find_index
from replay import fakempi
from Utilities import parallel

parallel.MPI = types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(size=1, rank=0))
READ = threading.Lock()        # the netCDF library is not for concurrent threads


def cases(rng, tier):
    while True:
        kind = rng.choice(['index', 'index', 'events', 'events', 'tracks', 'hazard', 'stored'])
        yield dict(kind=kind, seed=rng.randrange(10 ** 6), files=rng.choice([0, 1, 2, 3, 5, 8]), size=rng.choice([1, 2, 3, 4, 6, 9]), locs=rng.choice([0, 1, 4, 9]),
                   shape=(rng.randint(1, 7), rng.randint(1, 7)), down=rng.random() < 0.5)


def from_model(task, obl, m):
    size = m.get('size', 1)
    return [dict(kind='stored' if 'columns' in task or 'domain' in task else 'hazard' if 'hazard' in task else 'tracks' if 'track' in task else 'index' if 'index' in task else 'events', seed=s, files=f, size=k, locs=3, shape=(4, 5), down=s % 2 == 0)
            for s in range(3) for f in (0, 1, 2, 4) for k in ((1, 2, 4, 7) if 'one process' not in task else (1,))]


def axis(r, n, lo, down=False):
    a = lo + np.cumsum(r.choice([0.25, 0.5, 1.0], n))
    return a[::-1].copy() if down else a


def is_nearest(a, v, x):
    return abs(a[x] - v) <= np.min(np.abs(a - v)) + 1e-9


def write(path, r, c):
    h, w = c['shape']
    with Dataset(path, 'w') as d:
        d.createDimension('lat', h)
        d.createDimension('lon', w)
        d.track_file, d.track_file_date, d.tcrm_version = 'tracks.nc', '2020-01-02 03:04:05', 'v'
        out = {}
        for n, a in (('lat', axis(r, h, -20., c['down'])), ('lon', axis(r, w, 140.))):
            d.createVariable(n, 'f8', (n,))[:] = a
            out[n] = a
        for n in ('vmax', 'ua', 'va', 'slp'):
            out[n] = r.uniform(1, 90, (h, w)).astype('f4')
            v = d.createVariable(n, 'f4', ('lat', 'lon'))
            v[:] = out[n]
            v.actual_range = (out[n].min(), out[n].max())
    return out


def places(r, c, near=None):
    out = []
    for k in range(c['locs']):
        x, y = 140 + r.uniform(-0.5, 6), -20 + r.uniform(-0.5, 6)
        out.append((100 + 7 * k, 'place %d' % k, x, y))
    return out


def check(c):
    r = np.random.RandomState(c['seed'])
    if c['kind'] == 'index':
        n = r.randint(1, 40)
        a = [axis(r, n, -20., c['down']), r.uniform(-50, 50, n), np.round(r.uniform(-5, 5, n)), np.arange(n) * 1.0][r.randint(4)]
        v = [r.uniform(-60, 60), float(a[r.randint(n)]), float(a[r.randint(n)]) + 0.5, -1000., 1000.][r.randint(5)]
        x = find_index(a, v)
        if not 0 <= x < n:
            return 'index %r for an array of %d' % (x, n)
        if not is_nearest(a, v, x):
            return 'index %r (value %r) is not the nearest of %r to %r' % (x, a[x], list(a), v)
        return None
    work = tempfile.mkdtemp(prefix='p23-')
    try:
        return {'hazard': hazard, 'stored': stored}.get(c['kind'], run)(c, r, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def bare(work, locs):
    """stands for the database connection: the real methods, inserts recorded"""
    cls = database._HazardDatabase
    o = types.SimpleNamespace(windfieldPath=work, trackPath=work, hazardPath=work, rows=[], events=[], tracks=[], locs=locs)
    o.getLocations = lambda: locs
    o.insertEvents = lambda p: o.events.append(p)
    o.insertWindSpeeds = lambda p: o.rows.append(p)
    o.insertTracks = lambda p: o.tracks.append(p)
    o.executemany = lambda sql, p: o.rows.append(list(p))
    o.commit = lambda: None
    for n in ('processEvent', 'processEvents', 'processTracks', 'processHazard'):
        f = getattr(cls, n)
        setattr(o, n, types.MethodType(f, o))
    return o


def run(c, r, work):
    locs = places(r, c)
    data = {}
    for k in range(c['files']):
        sim, num = int(r.randint(0, 3)), k + 10
        if c['kind'] == 'events':
            data['%03d-%05d' % (sim, num)] = write(os.path.join(work, 'gust.%03d-%05d.nc' % (sim, num)), r, c)
        else:
            open(os.path.join(work, 'tracks.%05d.nc' % num), 'w').close()
    if c['kind'] == 'events' and c['seed'] % 2:
        os.mkdir(os.path.join(work, 'plots'))
    elif c['kind'] == 'tracks':
        open(os.path.join(work, 'other.nc'), 'w').close()
    dbs = [bare(work, locs) for _ in range(c['size'])]
    done = []
    keep = database.processTrack, getattr(database, 'MPI', None), getattr(database, 'comm', None)

    def setcomm(m, cm):
        database.MPI, database.comm = m, cm

    def fake(f, l):
        done.append(f)
        if l != locs:
            raise AssertionError('locations %r' % (l,))
        return [] if c['seed'] % 5 == 0 else [(f, l[0] if l else None)]

    def one(rank):
        o = dbs[rank]
        if c['kind'] == 'events':
            real = o.processEvent

            def p(f, l, n):
                done.append(f)
                with READ:
                    return real(f, l, n)
            o.processEvent = p
            o.processEvents()
        else:
            o.processTracks()
    database.processTrack = fake
    try:
        res, err, cm = fakempi.run(c['size'], random.Random(c['seed']), setcomm, one)
    finally:
        database.processTrack = keep[0]
        database.MPI, database.comm = keep[1:]
    where = '%d files, %d processes, arrival seed %d' % (c['files'], c['size'], c['seed'])
    for k, e in enumerate(err):
        if e is not None:
            return '%s: process %d: %s: %s' % (where, k, type(e).__name__, e)
    if len(done) != c['files'] or len(set(done)) != c['files']:
        return '%s: files processed %r' % (where, sorted(done))
    for k in range(1, c['size']):
        stops = sum(1 for s, d, t, o in cm.sent if d == k and o is None)
        if stops != 1:
            return '%s: worker %d was sent %d stop messages' % (where, k, stops)
    if cm.box:
        return '%s: %d messages never received' % (where, len(cm.box))
    o = dbs[0]
    if any(x.rows or x.events or x.tracks for x in dbs[1:]):
        return '%s: a worker wrote to the database' % where
    if c['kind'] == 'tracks':
        got = sorted(x[0][0] for x in o.tracks if x)
        if c['seed'] % 5 and got != sorted(done):
            return '%s: tracks stored of %r' % (where, got)
        return None
    if sorted(e[1] for e in o.events) != sorted(data):
        return '%s: events stored %r, files of %r' % (where, [e[1] for e in o.events], sorted(data))
    if len({e[0] for e in o.events}) != len(data):
        return '%s: event numbers %r' % (where, [e[0] for e in o.events])
    if len(o.rows) != len(data):
        return '%s: wind speeds stored of %d events, %d files' % (where, len(o.rows), len(data))
    for rows in o.rows:
        if len(rows) != len(locs):
            return '%s: %d records for %d locations' % (where, len(rows), len(locs))
        for row, l in zip(rows, locs):
            if row[0] != l[0] or row[1] not in data:
                return '%s: record %r for location %r' % (where, row[:2], l)
            f = data[row[1]]
            ok = [(j, i) for j in range(len(f['lat'])) for i in range(len(f['lon'])) if is_nearest(f['lat'], l[3], j) and is_nearest(f['lon'], l[2], i)]
            if not any(all(abs(row[2 + q] - f[n][j, i]) < 1e-3 for q, n in enumerate(('vmax', 'ua', 'va', 'slp'))) for j, i in ok):
                return '%s: record %r of location %r; the nearest grid point has %r' % (where, row[2:6], l, [[float(f[n][j, i]) for n in ('vmax', 'ua', 'va', 'slp')] for j, i in ok])


class Connection(database._HazardDatabase):
    """the real class on a database in the scratch folder, without a configuration file"""

    def __init__(self, work, domain):
        self.outputPath = self.windfieldPath = self.trackPath = self.hazardPath = work
        self.locationDB, self.domain = os.path.join(work, 'locations.db'), domain
        sqlite3.Connection.__init__(self, os.path.join(work, 'hazard.db'), detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)


def stored(c, r, work):
    """events, locations and hazard written to and read back from a real database"""
    lo, hi = 140 + r.uniform(0, 2), 140 + r.uniform(3, 5)
    bot, top = -20 + r.uniform(0, 2), -20 + r.uniform(3, 5)
    locs = places(r, dict(c, locs=c['locs'] + 3))
    locs += [(900, 'corner', lo, bot), (901, 'other corner', hi, top)]
    src = sqlite3.connect(os.path.join(work, 'locations.db'))
    src.execute(database.TBLLOCATIONDEF)
    src.executemany('insert into tblLocations (locId, locCode, locName, locLon, locLat) values (?,?,?,?,?)', [(l[0], 'code', l[1], l[2], l[3]) for l in locs])
    src.commit()
    src.close()
    inside = {l[0]: l for l in locs if lo <= l[2] <= hi and bot <= l[3] <= top}
    db = Connection(work, dict(xMin=lo, xMax=hi, yMin=bot, yMax=top))
    try:
        db.createDatabase()
        db.setLocations()
        got = {int(x[0]): tuple(x) for x in db.getLocations()}
        if set(got) != set(inside) or any(abs(got[k][2] - inside[k][2]) + abs(got[k][3] - inside[k][3]) > 1e-9 or got[k][1] != inside[k][1] for k in inside):
            return 'locations read back %r; in the domain are %r' % (sorted(got.values()), sorted(inside.values()))
        data = {}
        for k in range(c['files'] % 4):
            num = '000-%05d' % k
            f = write(os.path.join(work, 'gust.%s.nc' % num), r, c)
            data[num] = f
            ev, ws = db.processEvent('gust.%s.nc' % num, db.getLocations(), k)
            db.insertEvents(ev)
            db.insertWindSpeeds(ws)
        db.rollback()               # what was not committed is lost
        rows = db.execute('select eventId, eventMaxWind, eventMinPressure from tblEvents').fetchall()
        want = sorted((e, float(f['vmax'].max()), float(f['slp'].min())) for e, f in data.items())
        if len(rows) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) + abs(a[2] - b[2]) > 1e-3 for a, b in zip(sorted(rows), want)):
            return 'events read back %r, expected %r' % (sorted(rows), want)
        rows = db.execute('select locId, eventId, wspd, umax, vmax, pmin from tblWindSpeed').fetchall()
        if sorted(x[:2] for x in rows) != sorted((k, e) for k in inside for e in data):
            return 'wind speeds read back for %r' % sorted(x[:2] for x in rows)
        for row in rows:
            f, l = data[row[1]], inside[row[0]]
            ok = [(j, i) for j in range(len(f['lat'])) for i in range(len(f['lon'])) if is_nearest(f['lat'], l[3], j) and is_nearest(f['lon'], l[2], i)]
            if not any(all(abs(row[2 + q] - f[n][j, i]) < 1e-3 for q, n in enumerate(('vmax', 'ua', 'va', 'slp'))) for j, i in ok):
                return 'read back %r for location %r; the nearest grid point has %r' % (row, l, [[float(f[n][j, i]) for n in ('vmax', 'ua', 'va', 'slp')] for j, i in ok])
        return hazard(c, r, work, db, sorted(inside.values()))
    finally:
        db.close()


def hazard(c, r, work, db=None, locs=None):
    locs = places(r, c) if locs is None else locs
    h, w = c['shape']
    n = 1 + c['files'] % 3
    with Dataset(os.path.join(work, 'hazard.nc'), 'w') as d:
        d.tcrm_version = 'v'
        f = {}
        for nm, a in (('lat', axis(r, h, -20., c['down'])), ('lon', axis(r, w, 140.)), ('ari', np.arange(1, n + 1) * 10)):
            d.createDimension(nm, len(a))
            d.createVariable(nm, 'f8', (nm,))[:] = a
            f[nm] = a
        for nm in ('wspd', 'wspdupper', 'wspdlower', 'loc', 'scale', 'shp'):
            dims = (('ari',) if nm.startswith('wspd') else ()) + ('lat', 'lon')
            f[nm] = r.uniform(1, 90, tuple(len(f[x]) for x in dims))
            d.createVariable(nm, 'f8', dims)[:] = f[nm]
    o = db or bare(work, locs)
    o.processHazard()
    if db:
        db.rollback()
    rows = o.rows[0] if not db else db.execute('select locId, returnPeriod, wspd, wspdUpper, wspdLower, loc, scale, shape from tblHazard').fetchall()
    want = [(y, l) for y in range(n) for l in locs]
    if len(rows) != len(want):
        return 'hazard: %d records, expected %d' % (len(rows), len(want))
    for row in rows:
        l = [x for x in locs if x[0] == row[0]]
        y = [k for k in range(n) if f['ari'][k] == row[1]]
        if not l or not y:
            return 'hazard: record of location %r, return period %r' % row[:2]
        ok = [(j, i) for j in range(h) for i in range(w) if is_nearest(f['lat'], l[0][3], j) and is_nearest(f['lon'], l[0][2], i)]
        val = lambda j, i: [f[x][y[0], j, i] for x in ('wspd', 'wspdupper', 'wspdlower')] + [f[x][j, i] for x in ('loc', 'scale', 'shp')]
        if not any(np.allclose(row[2:8], val(j, i)) for j, i in ok):
            return 'hazard: record %r of location %r; the nearest grid point has %r' % (row[:8], l[0], [val(j, i) for j, i in ok])
