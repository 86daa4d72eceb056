"""Shares of every process for random numbers of processes and items: disjoint, complete, in each module;
tracks given to each process for random sets of track files."""
import numpy as np
import wind
from TrackGenerator import TrackGenerator as tg

try:
    from Evaluate import windFieldValidation as wv
except Exception:
    wv = None


class Comm:
    def __init__(self, n, r):
        self.size, self.rank = n, r

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def barrier(self):
        pass


class MPI:
    def __init__(self, n, r):
        self.COMM_WORLD = Comm(n, r)


class Track:
    def __init__(self, ident, lon, lat):
        self.trackId = ident
        self.Longitude, self.Latitude = np.array(lon), np.array(lat)


def cases(rng, tier):
    for P in range(1, 6):
        for n in range(0, 12):
            yield dict(kind='balanced', P=P, n=n, iter=bool(n % 2))
    while True:
        if rng.random() < .3:
            yield dict(kind='balanced', P=rng.randint(1, 40), n=rng.randint(0, 120), iter=rng.random() < .5)
        else:
            nf = rng.choice([1, 1, 2, 2, 3, 5, 9])
            yield dict(kind='files', P=rng.choice([1, 2, 3, 4, 7]), grid=rng.random() < .5,
                       files=[[(rng.uniform(90, 130), rng.uniform(-30, 0)) for _ in range(rng.choice([0, 1, 2, 3, 8]))] for _ in range(nf)])


def from_model(task, obl, m):
    P = int(m.get('size', 2))
    if 'n' in m and 1 <= P < 500 and 0 <= int(m['n']) < 3000:
        return [dict(kind='balanced', P=P, n=int(m['n']), iter=False)]
    return []


def shares(mod, c):
    items = [object() for _ in range(c['n'])]
    out = []
    for r in range(c['P']):
        mod.MPI = MPI(c['P'], r)
        out.append(list(mod.balanced(iter(items) if c['iter'] else items)))
    got = [id(x) for s in out for x in s]
    if sorted(got) != sorted(id(x) for x in items):
        return '%s: the shares of %d processes of %d items hold %d items, %d distinct' % (mod.__name__, c['P'], c['n'], len(got), len(set(got)))


def check(c):
    if c['kind'] == 'balanced':
        for mod in (wind, tg, wv):
            if mod is None:
                continue
            msg = shares(mod, c)
            if msg:
                return msg
        return None
    grid = dict(xMin=100., xMax=120., yMin=-20., yMax=-5.) if c['grid'] else None
    margin = 1.
    names = ['tracks.%05d.nc' % k for k in range(len(c['files']))]
    data = {f: [Track((k, j), [x, x + 1.5], [y, y - 1.]) for j, (x, y) in enumerate(c['files'][k])] for k, f in enumerate(names)}
    keep = wind.ncReadTrackData
    wind.ncReadTrackData = lambda f: data[f]
    got = []
    try:
        for r in range(c['P']):
            wind.MPI = MPI(c['P'], r)
            got += [t.trackId for t in wind.loadTracksFromFiles(list(names), grid, margin)]
    finally:
        wind.ncReadTrackData = keep
    want = [t.trackId for f in names for t in data[f] if grid is None or
            (t.Longitude.max() >= 99. and t.Longitude.min() <= 121. and t.Latitude.max() >= -21. and t.Latitude.min() <= -4.)]
    if sorted(got) != sorted(want):
        return '%d processes process tracks %r, expected %r' % (c['P'], sorted(got), sorted(want))
