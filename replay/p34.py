"""Real track files written and read back; tracks near a region picked by the real code."""
import datetime
import os
import shutil
import tempfile
import types
import numpy as np
import Utilities.track as ut
import wind

UNITS = ('hours since 1900-01-01 00:00', 'days since 1970-01-01 00:00', 'minutes since 2000-01-01 00:00', 'seconds since 1980-06-01 00:00', 'hours since 1950-03-01 06:00')
CALENDARS = ('standard', 'gregorian', 'proleptic_gregorian')


def cases(rng, tier):
    for k in range(6):
        yield dict(what='file', tracks=(1, 2, 3, 12, 4, 7)[k], seed=k, unit=k % len(UNITS), calendar=k % 3, default=k % 2 == 0)
    while True:
        if rng.random() < 0.7:
            yield dict(what='region', tracks=rng.randint(0, 8), seed=rng.randrange(10 ** 6))
        else:
            yield dict(what='file', tracks=rng.randint(0, 8), seed=rng.randrange(10 ** 6), unit=rng.randrange(len(UNITS)), calendar=rng.randrange(3), default=rng.random() < 0.5)


def from_model(task, obl, m):
    if 'tracks' in task:
        return [dict(what='region', tracks=5, seed=s) for s in range(200)]
    return [dict(what='file', tracks=(1, 3, 6, 11)[s % 4], seed=s, unit=s % len(UNITS), calendar=s % 3, default=s % 2 == 0) for s in range(24)]


def track(r):
    n = int(r.choice([0, 1, 2, 9, 40], p=[.15, .1, .15, .3, .3]))
    d = np.zeros(n, dtype={'names': ut.TCRM_COLS, 'formats': ut.TCRM_FMTS})
    for f in ut.TCRM_COLS:
        if f != 'Datetime':
            d[f] = r.randint(1, 500, n) if f == 'CycloneNumber' else r.uniform(-100, 1000, n)
    day = datetime.datetime(1950 + int(r.randint(150)), int(r.randint(1, 13)), int(r.randint(1, 28)), int(r.randint(24)), int(r.randint(60)), int(r.choice([0, 0, 30, 59])))
    d['Datetime'] = [day + datetime.timedelta(minutes=int(r.choice([10, 60, 360]) * k)) for k in range(n)]
    t = ut.Track(d)
    t.trackId = (int(r.randint(1, 100)), int(r.randint(1, 100))) if r.rand() < .7 else ('%03d' % r.randint(999),)
    return t


def region(c):
    r = np.random.RandomState(c['seed'])
    lim = dict(xMin=100., yMin=-20., xMax=100. + r.randint(1, 12), yMax=-20. + r.randint(1, 12))
    margin = float(r.choice([0, 1, 2.5, 5]))
    pick = lambda a, b, n: np.where(r.rand(n) < .4, r.choice([a, b, a - margin, b + margin], n), r.uniform(a - 8, b + 8, n))
    tracks = []
    for k in range(c['tracks']):
        n = int(r.randint(1, 5))
        tracks.append(types.SimpleNamespace(Longitude=pick(lim['xMin'], lim['xMax'], n), Latitude=pick(lim['yMin'], lim['yMax'], n)))
    got = list(wind.filterTracks(list(tracks), dict(lim), margin))
    if [id(t) for t in got] != [id(t) for t in tracks if any(t is g for g in got)]:
        return 'tracks out of order or repeated'
    for t in tracks:
        x, y = t.Longitude, t.Latitude
        here = any(t is g for g in got)
        inside = (x >= lim['xMin'] - margin) & (x <= lim['xMax'] + margin) & (y >= lim['yMin'] - margin) & (y <= lim['yMax'] + margin)
        if inside.any() and not here:
            k = int(np.argmax(inside))
            return 'track with a position (%r, %r) within %r of %r left out' % (x[k], y[k], margin, lim)
        out = x.max() < lim['xMin'] - margin or x.min() > lim['xMax'] + margin or y.max() < lim['yMin'] - margin or y.min() > lim['yMax'] + margin
        if out and here:
            return 'track at %r, %r kept for %r with a margin of %r' % (x.tolist(), y.tolist(), lim, margin)
    if list(wind.filterTracks(list(tracks), None, margin)) != tracks:
        return 'tracks left out without a region'


def check(c):
    if c['what'] == 'region':
        return region(c)
    r = np.random.RandomState(c['seed'])
    tracks = [track(r) for k in range(c['tracks'])]
    before = [t.data.copy() for t in tracks]
    ids = [t.trackId for t in tracks]
    work = tempfile.mkdtemp(prefix='p34-')
    try:
        name = os.path.join(work, 'tracks.nc')
        args = [] if c['default'] else [UNITS[c['unit']], CALENDARS[c['calendar']]]
        ut.ncSaveTracks(name, tracks, *args, attributes={})
        for t, b, i in zip(tracks, before, ids):
            if t.trackId != i or len(t.data) != len(b) or not (t.data == b).all():
                return 'track %r changed by saving it: dates %r, were %r' % (i, list(t.data['Datetime'][:2]), list(b['Datetime'][:2]))
        if os.path.exists(name) != (len(tracks) > 0):
            return '%d tracks, file written: %r' % (len(tracks), os.path.exists(name))
        if not tracks:
            return None
        got = list(ut.loadTracks(name))
        want = [(b, i) for b, i in zip(before, ids) if len(b)]
        if len(got) != len(want):
            return '%d tracks with records saved, %d read' % (len(want), len(got))
        for k, (g, (b, i)) in enumerate(zip(got, want)):
            if g.trackId != i:
                return 'track %d saved as %r, read as %r' % (k, i, g.trackId)
            if len(g.data) != len(b):
                return 'track %r saved with %d records, read with %d' % (i, len(b), len(g.data))
            for f in ut.TCRM_COLS:
                bad = [j for j in range(len(b)) if g.data[f][j] != b[f][j]]
                if bad:
                    return '%s of record %d of track %r: saved %s, read %s (times in %s)' % (f, bad[0], i, b[f][bad[0]], g.data[f][bad[0]], args or 'the usual unit')
    finally:
        shutil.rmtree(work, ignore_errors=True)
