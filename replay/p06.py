"""Real restarts over real gust files in a scratch folder: some missing, empty, cut short, without some variable, or complete."""
import os
import shutil
import tempfile
import types
import numpy as np
from configparser import ConfigParser
from netCDF4 import Dataset
from wind import WindfieldGenerator

NEEDED = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp')
STATES = ('missing', 'empty', 'cut', 'text', 'folder', 'complete', 'complete', 'extra') + tuple('no ' + x for x in NEEDED)


def cases(rng, tier):
    while True:
        ids = list({(rng.choice([0, 1, 2, 11, 12, 111, 1000]), rng.choice([0, 1, 2, 11, 12, 111, 1234, 99999, 100000])) for _ in range(rng.choice([1, 3, 6, 10]))})
        yield dict(seed=rng.randrange(10 ** 6), ids=ids, states=[rng.choice(STATES) for _ in ids], callback=rng.random() < 0.3)


def from_model(task, obl, m):
    return [dict(seed=k, ids=[(1, 2), (1, 12), (11, 2)], states=[s, 'missing', 'complete'], callback=cb) for k, s in enumerate(STATES) for cb in (False, True)]


def put(path, state, rng):
    if state == 'missing':
        return
    if state == 'empty':
        open(path, 'w').close()
        return
    if state == 'folder':
        os.mkdir(path)
        return
    if state == 'text':
        with open(path, 'w') as f:
            f.write('not a gust file\n' * 20)
        return
    with Dataset(path, 'w') as d:
        d.createDimension('lat', 3)
        d.createDimension('lon', 4)
        for n in NEEDED + (('crs', 'note') if state == 'extra' else ()):
            if state == 'no ' + n:
                continue
            v = d.createVariable(n, 'f4', (n,) if n in ('lat', 'lon') else ('lat', 'lon'))
            v[:] = 7.
    if state == 'cut':
        size = os.path.getsize(path)
        with open(path, 'r+b') as f:
            f.truncate(rng.choice([1, 8, size // 8, size // 2]))


def fields(k, h=5, w=4):
    r = np.random.RandomState(k)
    return tuple(r.uniform(1, 80, (h, w)) for _ in range(5)) + (np.linspace(110, 112, w) + k, np.linspace(-20, -18, h) - k)


def check(c):
    import random
    rng = random.Random(c['seed'])
    work = tempfile.mkdtemp(prefix='p06-')
    try:
        tf = os.path.join(work, 'tracks.csv')
        open(tf, 'w').close()
        out = os.path.join(work, 'windfield')
        os.mkdir(out)
        conf = ConfigParser()
        conf.read_string('[A]\nx = 1\n')
        g = WindfieldGenerator(conf, gridLimit=dict(xMin=0, xMax=1, yMin=0, yMax=1), windfieldPath=out)
        tracks = [types.SimpleNamespace(trackId=i, trackfile=tf, k=k) for k, i in enumerate(c['ids'])]
        names = [g.gustFilename(out, t) for t in tracks]
        if len(set(names)) != len(names):
            return 'storms %r share gust files: %r' % (c['ids'], names)
        keep = {}
        for n, s in zip(names, c['states']):
            put(n, s, rng)
            if os.path.isfile(n):
                with open(n, 'rb') as f:
                    keep[n] = f.read()
        done = []

        def calc(track, callback=None):
            if c['callback'] != (callback is not None):
                raise AssertionError('station callback %s' % ('lost' if c['callback'] else 'appeared'))
            done.append(track.k)
            return track, fields(track.k)
        g.calculateExtremesFromTrack = calc
        skip = [s in ('complete', 'extra') for s in c['states']]
        for k, (n, s) in enumerate(zip(names, c['states'])):
            if bool(g.gustFileComplete(n)) != skip[k]:
                return 'file of storm %r (%s) is taken as %s' % (c['ids'][k], s, 'complete' if not skip[k] else 'incomplete')
        # a folder in place of the file cannot be replaced by the writer
        use = [t for t, s in zip(tracks, c['states']) if s != 'folder']
        try:
            g.dumpGustsFromTracks(use, out, *([lambda *a: None] if c['callback'] else []))
        except AssertionError as e:
            return str(e)
        for t in use:
            k, n, s = t.k, names[t.k], c['states'][t.k]
            if skip[k]:
                if k in done:
                    return 'storm %r has a complete file but was recomputed' % (t.trackId,)
                with open(n, 'rb') as f:
                    if f.read() != keep[n]:
                        return 'the complete file of storm %r was changed' % (t.trackId,)
                continue
            if done.count(k) != 1:
                return 'storm %r (file %s) was recomputed %d times' % (t.trackId, s, done.count(k))
            if not g.gustFileComplete(n):
                return 'after the restart the file of storm %r (%s before) is not complete' % (t.trackId, s)
            gust, br, U, V, P, lon, lat = fields(k)
            with Dataset(n) as d:
                la, lo = np.array(d.variables['lat'][:]), np.array(d.variables['lon'][:])
                for name, a in (('vmax', gust), ('ua', U), ('va', V), ('slp', P)):
                    b = np.array(d.variables[name][:])
                    for j in range(len(la)):
                        for i in range(len(lo)):
                            jj, ii = int(np.argmin(abs(lat - la[j]))), int(np.argmin(abs(lon - lo[i])))
                            if abs(lat[jj] - la[j]) > 1e-5 or abs(lon[ii] - lo[i]) > 1e-5:
                                return 'storm %r: saved coordinates (%r, %r) are not those of the field' % (t.trackId, la[j], lo[i])
                            if abs(b[j, i] - a[jj, ii]) > 1e-3:
                                return 'storm %r: %s saved at (%r, %r) is %r, the field has %r there' % (t.trackId, name, la[j], lo[i], b[j, i], a[jj, ii])
    finally:
        shutil.rmtree(work, ignore_errors=True)
