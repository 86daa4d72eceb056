"""Real runs of the track generator over small synthetic tables, split between processes in several ways."""
import math
import types
import numpy as np
from TrackGenerator import TrackGenerator as tgm

REAL = tgm.TrackGenerator
LIM = dict(xMin=140, xMax=160, yMin=-25, yMax=-5)
SPACE = dict(x=5, y=5)


def cases(rng, tier):
    while True:
        yield dict(sims=rng.choice([1, 2, 3, 5]), seed=rng.choice([0, 1, rng.randrange(10 ** 6)]), size=rng.choice([1, 2, 3]), freq=rng.choice([0.3, 1.0, 1.6]),
                   tab=rng.randrange(10 ** 6), season=rng.randint(1, 10 ** 6), land=rng.random() < 0.5)


def from_model(task, obl, m):
    i, j, s = m.get('first'), m.get('second'), m.get('seed')
    if i is not None and j is not None and s is not None:
        return [dict(pair=(int(s) % 10 ** 9, int(i) % 10 ** 6, int(j) % 10 ** 6))]
    return []


def generator(c):
    """track generator with small tables in place of the files"""
    r = np.random.RandomState(c['tab'])
    tg = REAL.__new__(REAL)
    tg.gridLimit, tg.gridSpace, tg.innerGridLimit = dict(LIM), dict(SPACE), None
    tg.dt, tg.maxTimeSteps, tg.allCDFInitSize = 3., 25, None
    n = 16
    mk = lambda lo, hi: np.array([[cell, v, (k + 1) / 5.] for cell in range(n) for k, v in enumerate(np.sort(r.uniform(lo, hi, 5)))])
    tg.allCDFInitBearing, tg.allCDFInitSpeed, tg.allCDFInitDay = mk(0, 360), mk(5, 15), np.floor(mk(1, 360) * [1, 1, 1e9]) / [1, 1, 1e9]
    tg.allCDFInitPressure, tg.cdfSize = mk(940, 990), mk(20, 40)

    def stats(scale, mu):
        s = types.SimpleNamespace()
        for p in ('', 'l'):
            for nm, lo, hi in (('alpha', 0.3, 0.9), ('phi', 0.2, 0.6), ('mu', mu - scale, mu + scale), ('sig', 0.1 * scale, scale), ('min', 930, 940)):
                setattr(s, p + nm, r.uniform(lo, hi, n))
        return types.SimpleNamespace(coeffs=s)
    tg.vStats, tg.bStats, tg.dpStats, tg.pStats, tg.dsStats = stats(3., 10.), stats(1., 3.), stats(0.3, -0.1), stats(2., 960.), stats(1., 0.)
    xs, ys = r.uniform(142, 158, 8), r.uniform(-23, -7, 8)
    tg.originSampler = types.SimpleNamespace(ppf=lambda a, b: (xs[min(int(a * 8), 7)], ys[min(int(b * 8), 7)]))
    tg.mslp = types.SimpleNamespace(get_pressure=lambda a: 1010.)
    tg.loadInitialConditionDistributions = lambda: None
    tg.loadCellStatistics = lambda: None
    return tg


class Config:
    def __init__(self, c):
        self.v = {'NumSimulations': c['sims'], 'NumTimeSteps': 25, 'TimeStep': 3., 'Format': 'nc', 'SeasonSeed': c['season'], 'TrackSeed': c['seed'], 'YearsPerSimulation': 1,
                  'Frequency': c['freq'], 'gridLimit': LIM, 'GridSpace': SPACE, 'GridInc': SPACE, 'Path': '/nowhere'}

    def read(self, f):
        pass

    def get(self, s, n, *a):
        return self.v.get(n, 'none')

    getint = getfloat = geteval = get

    def has_option(self, s, n):
        return n in self.v

    def set(self, s, n, v):
        self.v[n] = v


class Mask:
    def sampleGrid(self, x, y):
        return 1. if math.floor(x) % 4 == 0 else 0.


def run(c, rank, size):
    saved = {}
    seeded = []
    names = ('ConfigParser', 'SamplePressure', 'attemptParallel', 'TrackGenerator', 'ncSaveTracks', 'trackLandfall', 'random', 'PRNG')
    old = {n: getattr(tgm, n) for n in names}
    oldmpi = getattr(tgm, 'MPI', None)

    def save(f, tracks, **k):
        if f in saved:
            raise AssertionError('file %s written twice' % f)
        saved[f] = [dict((n, np.array(t.data[n])) for n in ('TimeElapsed', 'Longitude', 'Latitude', 'Speed', 'Bearing', 'CentralPressure', 'EnvPressure', 'rMax')) for t in tracks]

    class Random(old['random'].Random):
        def __init__(self, *a, **k):
            old['random'].Random.__init__(self, *a, **k)
            st = self.PRNG.bit_generator.state['state']
            seeded.append((tuple(int(x) for x in st['key']), tuple(int(x) for x in st['counter'])))
    try:
        fall = old['trackLandfall'].LandfallDecay.__new__(old['trackLandfall'].LandfallDecay)
        fall.landMask, fall.tol, fall.dt = Mask(), 0, 3.
        fixed = types.SimpleNamespace(onLand=lambda x, y: False)

        def make(*a, **k):
            tg = generator(c)
            tg.landfall = fall if c['land'] else fixed
            return tg
        tgm.ConfigParser = lambda: Config(c)
        tgm.SamplePressure = lambda *a, **k: None
        tgm.trackLandfall = types.SimpleNamespace(LandfallDecay=lambda *a, **k: fall)
        tgm.attemptParallel = lambda: types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(size=size, rank=rank, barrier=lambda: None, bcast=lambda v, root=0: v))
        tgm.TrackGenerator, tgm.ncSaveTracks = make, save
        mod = types.SimpleNamespace(**{n: getattr(old['random'], n) for n in dir(old['random']) if not n.startswith('__')})
        mod.Random = Random
        tgm.random = mod
        tgm.run('settings.ini')
    finally:
        for n, v in old.items():
            setattr(tgm, n, v)
        if oldmpi is not None:
            tgm.MPI = oldmpi
    return saved, seeded


def same(a, b):
    return len(a) == len(b) and all(len(x['Longitude']) == len(y['Longitude']) and all(np.array_equal(x[n], y[n]) for n in x) for x, y in zip(a, b))


def check(c):
    if 'pair' in c:
        s, i, j = c['pair']
        st = [tgm.random.Random(seed=s, stream=k).uniform() for k in (i, j)]
        return None if i == j or st[0] != st[1] else 'simulations %d and %d with seed %d have the same stream' % (i, j, s)
    if c['season'] == 0 or c['seed'] == 0:
        c = dict(c, size=1) if c['size'] > 1 else c
    ref, keys = run(c, 0, 1)
    if len(ref) != c['sims']:
        return '%d simulations run, %d asked for: %r' % (len(ref), c['sims'], sorted(ref))
    if len(set(keys)) < c['sims']:
        return 'simulations share a stream: keys %r' % (keys,)
    np.random.seed(12345)
    parts = {}
    for rank in range(c['size']):
        p, _ = run(c, rank, c['size'])
        parts.update(p)
    for f in ref:
        if f not in parts:
            return 'simulation of %s not run by any of %d processes' % (f, c['size'])
        if not same(ref[f], parts[f]):
            return 'tracks in %s differ between a run on one process and on %d' % (f, c['size'])
    # a simulation on its own: the same stream, nothing run before
    for k in range(c['sims']):
        f = [x for x in ref if 'tracks.%05d' % k in x][0]
        tg = generator(c)
        fall = tgm.trackLandfall.LandfallDecay.__new__(tgm.trackLandfall.LandfallDecay)
        fall.landMask, fall.tol, fall.dt = Mask(), 0, 3.
        tg.landfall = fall if c['land'] else types.SimpleNamespace(onLand=lambda x, y: False)
        tgm.PRNG = tgm.random.Random(seed=c['seed'], stream=k)
        np.random.seed(k + 77)
        res = tg.generateTracks(len(ref[f]), k)
        alone = [dict((n, np.array(t.data[n])) for n in ref[f][j]) for j, t in enumerate(res)] if ref[f] else []
        if not same(ref[f], alone):
            return 'tracks of simulation %d differ from those of the simulation run on its own' % k
    return None
