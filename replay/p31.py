"""The real loops over track files run as threads over a message-passing stand-in with random arrival order."""
import importlib
import os
import random
import shutil
import tempfile
import types
import numpy as np
from replay import fakempi
from Utilities import parallel

KINDS = {'trackDensity': 'TrackDensity', 'longitudeCrossing': 'LongitudeCrossing', 'pressureDistribution': 'PressureDistribution', 'landfallRates': 'LandfallRates'}
TITLE = {'density': 'trackDensity', 'longitude': 'longitudeCrossing', 'pressure': 'pressureDistribution', 'landfall': 'landfallRates'}
MODS = {k: importlib.import_module('Evaluate.' + k) for k in KINDS}


def cases(rng, tier):
    for size in (1, 2, 3, 4, 7):
        for n in (0, 1, 2, 3, 6):
            for k in sorted(KINDS):
                yield dict(kind=k, files=n, size=size, seed=rng.randrange(10 ** 6))
    while True:
        yield dict(kind=rng.choice(sorted(KINDS)), files=rng.randint(0, 12), size=rng.randint(1, 9), seed=rng.randrange(10 ** 6))


def from_model(task, obl, m):
    kind = [v for k, v in TITLE.items() if task.startswith(k)][0]
    n, size = m.get('N', m.get('files', 3)), m.get('size', 3)
    return [dict(kind=kind, files=f, size=s, seed=q) for f in ([n] if 0 <= n < 15 else []) + [0, 1, 2, 5] for s in ([1] if 'one process' in task else ([size] if 2 <= size < 12 else []) + [2, 4, 7]) for q in range(3)]


def number(t):
    return float(int(os.path.basename(t).split('.')[1]) + 1)


def make(kind, work, shape, done, out):
    mod = MODS[kind]
    cls = getattr(mod, KINDS[kind])
    o = cls.__new__(cls)
    a, b = shape
    o.trackPath = work
    o.lon_range = o.gateLons = np.arange(a) * 1.0
    o.lat_range = o.gateLats = np.arange(b) * 1.0
    o.gates = list(range(a))
    o.synNumYears = 4

    def end(*args):
        out.append(args)

    def seen(t, n, sh):
        return tuple(np.full(sh, number(t) * 10 + k) for k in range(n))

    def load(t):
        done.append(t)
        return t
    mod.loadTracks = load
    if kind == 'trackDensity':
        o.calculate = lambda t: seen(t, 1, (a - 1, b - 1))[0] * o.synNumYears
        o.calculateMeans = lambda: end(o.synHist)
    elif kind == 'longitudeCrossing':
        o.findCrossings = lambda t: seen(t, 3, (b - 1, a))
        o.calcStats = end
    elif kind == 'pressureDistribution':
        o.calculate = lambda t: seen(t, 4, (a - 1, b - 1))
        o.calcMinPressure = lambda t: (np.full(33, number(t) * 10 + 4), np.array([number(t)] * int(number(t))))
        o.calculateMeans = lambda mean, low, med, high, dist: end(mean, low, high, med, dist, o.synMinCP)
    else:
        o.processTracks = lambda t: seen(t, 2, (a - 1,))
        o.calculateStats = lambda: end(o.synLandfall, o.synOffshore)
    return o


def check(c):
    r = np.random.RandomState(c['seed'])
    shape = int(r.randint(2, 6)), int(r.randint(2, 6))
    work = tempfile.mkdtemp(prefix='p31-')
    keep = {k: m.loadTracks for k, m in MODS.items()}, parallel.__dict__.get('MPI')
    try:
        names = ['tracks.%05d.nc' % k for k in range(c['files'])]
        for n in names + ['other.nc']:
            open(os.path.join(work, n), 'w').close()
        done, outs = [], [[] for _ in range(c['size'])]
        objs = [make(c['kind'], work, shape, done, outs[k]) for k in range(c['size'])]

        def setcomm(m, cm):
            MODS[c['kind']].MPI, MODS[c['kind']].comm = m, cm
            parallel.MPI = m
        res, err, cm = fakempi.run(c['size'], random.Random(c['seed']), setcomm, lambda k: objs[k].synthetic())
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for k, m in MODS.items():
            m.loadTracks = keep[0][k]
        parallel.MPI = keep[1] or types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(size=1, rank=0))
    where = '%s, %d files, %d processes, arrival seed %d' % (c['kind'], c['files'], c['size'], c['seed'])
    for k, e in enumerate(err):
        if e is not None:
            return '%s: process %d: %s: %s' % (where, k, type(e).__name__, e)
    if sorted(os.path.basename(t) for t in done) != names:
        return '%s: files processed %r' % (where, sorted(os.path.basename(t) for t in done))
    for k in range(1, c['size']):
        stops = sum(1 for s, d, t, o in cm.sent if d == k and o is None)
        if stops != 1:
            return '%s: worker %d was sent %d stop messages' % (where, k, stops)
    if cm.box:
        return '%s: %d messages never received' % (where, len(cm.box))
    if len(outs[0]) != 1 or any(outs[1:]):
        return '%s: statistics calculated %r times' % (where, [len(x) for x in outs])
    arrs = [np.ma.filled(x, np.nan) for x in outs[0][0]]
    if c['kind'] == 'pressureDistribution':
        low = arrs.pop()
        if sorted(low) != sorted(x for k in range(c['files']) for x in [k + 1.0] * (k + 1)):
            return '%s: lowest pressures kept %r' % (where, sorted(low))
    for q, a in enumerate(arrs):
        if len(a) != c['files']:
            return '%s: %d results of %d files' % (where, len(a), c['files'])
        got = sorted(tuple(np.unique(x)) for x in a)
        if got != [((k + 1) * 10.0 + q,) for k in range(c['files'])]:
            return '%s: results kept are %r' % (where, got)
    for k in range(c['files']):
        if any(a[k].flat[0] - q != arrs[0][k].flat[0] for q, a in enumerate(arrs)):
            return '%s: row %d mixes results of several files' % (where, k)
