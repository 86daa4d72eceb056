"""Real swaths of storms with made-up local fields, compared with cell-by-cell maxima; several storms combined; real local fields for the layout."""
import math
import types
import numpy as np
import wind
from wind import WindfieldAroundTrack, WindfieldGenerator
from configparser import ConfigParser


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), n=rng.choice([0, 1, 2, 5, 12, 30]), res=rng.choice([0.25, 0.5, 0.5]), margin=rng.choice([0.5, 0.5, 1.0]),
                   storms=rng.choice([1, 1, 1, 2, 3, 5]), domain=rng.choice(['bounded', 'bounded', 'full']), real=rng.random() < 0.15, zero=rng.random() < 0.3,
                   speed=rng.choice(['tie', 'real', 'real', 'zero']), gf=rng.choice([1.0, 1.38, 0.9]))


def from_model(task, obl, m):
    return [dict(seed=s, n=8, res=0.25, margin=1.0, storms=3 if 'several' in task else 1, domain='full' if 'whole' in task else 'bounded', real=False, zero=False,
                 speed='real', gf=1.3) for s in range(6)]


def track(r, c, lim, k):
    n = c['n'] if c['storms'] == 1 else max(c['n'], 1)
    if k % 2 and c['storms'] > 1:
        n = 1
    lon = r.uniform(lim['xMin'] - 1.5, lim['xMax'] + 1.5, n)
    lat = r.uniform(lim['yMin'] - 1.5, lim['yMax'] + 1.5, n)
    if n > 2:
        lon[0], lat[0], lon[1], lat[1] = lim['xMin'], lim['yMin'], lim['xMax'], lim['yMax']
        lon[2], lat[2] = round(lon[2], 2), round(lat[2], 2)
    pe = r.uniform(1000., 1015., n)
    t = types.SimpleNamespace(Longitude=lon, Latitude=lat, EnvPressure=pe, CentralPressure=pe - r.uniform(5, 60, n), rMax=r.uniform(15, 60, n), Speed=r.uniform(0, 40, n),
                              Bearing=r.uniform(0, 360, n), TimeElapsed=np.arange(n), Datetime=np.arange(n), data=np.arange(n), trackId=(k, 1), k=k)
    return t


class Fields:
    """a made-up local field of the right shape for every storm and time step"""

    def __init__(self, c, shape):
        self.c, self.shape, self.made = c, shape, {}

    def get(self, k, i):
        if (k, i) not in self.made:
            r = np.random.RandomState(self.c['seed'] * 31 + k * 101 + i)
            u, v = r.uniform(-50, 50, self.shape), r.uniform(-50, 50, self.shape)
            if self.c['speed'] == 'tie':
                a = r.uniform(0, 2 * math.pi, self.shape)
                u, v = np.round(u / 50) * 30, np.round(v / 50) * 30
            elif self.c['speed'] == 'zero':
                z = r.uniform(size=self.shape) < 0.5
                u[z] = v[z] = 0.
            self.made[k, i] = (u, v, r.uniform(90000., 102000., self.shape))
        return self.made[k, i]


def near(a, b, tol=1e-4):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def swath(c, f, tracks, lim, shape, results, gf):
    """compare with the maxima recomputed from the fields, cell by cell"""
    gust, br, U, V, P, lon, lat = results
    s100, m100 = round(100 * c['res']), round(100 * c['margin'])
    x0, y0 = int(100 * lim['xMin']) - m100, int(100 * lim['yMin']) - m100
    want = {}
    low = {}
    for t in tracks:
        for i in range(len(t.Longitude)):
            if not (lim['xMin'] <= t.Longitude[i] <= lim['xMax'] and lim['yMin'] <= t.Latitude[i] <= lim['yMax']):
                continue
            u, v, p = f.get(t.k, i)
            if c['domain'] == 'full':
                j0 = i0 = 0
            else:
                j0 = (int(100. * t.Latitude[i]) - m100 - y0) // s100
                i0 = (int(100. * t.Longitude[i]) - m100 - x0) // s100
            for a in range(u.shape[0]):
                for b in range(u.shape[1]):
                    k = (j0 + a, i0 + b)
                    if k[0] >= gust.shape[0] or k[1] >= gust.shape[1]:
                        return 'the field of a time step does not fit in the region'
                    want.setdefault(k, [])
                    low.setdefault(k, 1e9)
                    # a field undefined at the very centre gives no gust there
                    if np.isfinite(u[a, b]) and np.isfinite(v[a, b]):
                        want[k].append((u[a, b] * gf, v[a, b] * gf))
                    if np.isfinite(p[a, b]):
                        low[k] = min(low[k], p[a, b])
    env = min((t.EnvPressure[0] * 100. for t in tracks if len(t.EnvPressure)), default=np.nan)
    for j in range(gust.shape[0]):
        for i in range(gust.shape[1]):
            got = want.get((j, i))
            w = 'cell (%d, %d)' % (j, i)
            if got is None:
                if gust[j, i] != 0 or U[j, i] != 0 or V[j, i] != 0 or br[j, i] != 0:
                    return '%s was reached by no time step but has gust %r, components %r %r, bearing %r' % (w, gust[j, i], U[j, i], V[j, i], br[j, i])
                if len(tracks) == 1 and len(tracks[0].EnvPressure) and not near(P[j, i], env):
                    return '%s was reached by no time step but has pressure %r instead of %r' % (w, P[j, i], env)
                continue
            g = max([0.] + [math.hypot(*x) for x in got])
            if not near(gust[j, i], g):
                return '%s: gust %r, largest of its time steps %r' % (w, gust[j, i], g)
            lo = min(low[j, i], env)
            if not near(P[j, i], lo, 1e-6):
                return '%s: pressure %r, lowest of its time steps %r' % (w, P[j, i], lo)
            if g == 0:
                continue
            best = [x for x in got if near(math.hypot(*x), g, 1e-5)]
            if not any(near(U[j, i], x[0]) and near(V[j, i], x[1]) for x in best):
                return '%s: components %r %r belong to no time step with the gust %r (%r)' % (w, U[j, i], V[j, i], g, best[:3])
            if not any(abs((br[j, i] - math.degrees(math.atan2(-x[0], -x[1])) + 180) % 360 - 180) < 1e-2 and near(U[j, i], x[0]) for x in best):
                return '%s: bearing %r is not that of the reported components %r %r' % (w, br[j, i], U[j, i], V[j, i])
    for j in range(len(lat)):
        if abs(lat[j] * 100 - (y0 + j * s100)) > 1e-6:
            return 'latitude %d of the grid is %r' % (j, lat[j])
    for i in range(len(lon)):
        if abs(lon[i] * 100 - (x0 + i * s100)) > 1e-6:
            return 'longitude %d of the grid is %r' % (i, lon[i])
    if gust.shape != (len(lat), len(lon)):
        return 'field of shape %r on a grid of %d by %d' % (gust.shape, len(lat), len(lon))


def check(c):
    r = np.random.RandomState(c['seed'])
    y = 0 if c['zero'] else int(r.randint(-20, -4))
    lim = dict(xMin=int(r.randint(100, 150)), yMin=y - int(r.randint(1, 4)), yMax=y)
    lim['xMax'] = lim['xMin'] + int(r.randint(1, 4))
    if c['zero'] and c['seed'] % 2:
        lim.update(xMin=0, xMax=2)
    k = round(2 * c['margin'] / c['res'])
    shape = (k + 1, k + 1)
    if c['domain'] == 'full':
        shape = tuple(round((lim[a + 'Max'] - lim[a + 'Min'] + 2 * c['margin']) / c['res']) + 1 for a in 'yx')
    tracks = [track(r, c, lim, q) for q in range(c['storms'])]
    f = Fields(c, shape)
    kw = dict(margin=c['margin'], resolution=c['res'], domain=c['domain'])
    if c['real']:
        kw.update(profileType='holland', windFieldType='kepert')
    calls = []

    def local(self, i):
        if c['real']:
            u, v, p = plain(self, i)
            if u.shape != shape:
                raise AssertionError('local field of shape %r where the region has room for %r' % (u.shape, shape))
            f.made[self.track.k, int(i)] = (u.copy(), v.copy(), p.copy())
        else:
            u, v, p = f.get(self.track.k, int(i))
        calls.append(int(i))
        return u.copy(), v.copy(), p.copy()
    plain = WindfieldAroundTrack.localWindField
    load = wind.loadTracks
    WindfieldAroundTrack.localWindField = local
    try:
        if c['storms'] == 1:
            w = WindfieldAroundTrack(tracks[0], gustFactor=c['gf'], gridLimit=lim, **kw)
            gf = c['gf']
            got = []
            back = (lambda t, g, u, v, p, lon, lat: got.append((t, g.copy(), u.copy(), v.copy(), len(lon), len(lat)))) if c['seed'] % 3 == 0 else None
            res = w.regionalExtremes(lim, back)
            inside = [i for i in range(len(tracks[0].Longitude)) if lim['xMin'] <= tracks[0].Longitude[i] <= lim['xMax'] and lim['yMin'] <= tracks[0].Latitude[i] <= lim['yMax']]
            if sorted(calls) != inside:
                return 'wind field computed for time steps %r; those in the region are %r' % (calls, inside)
        else:
            conf = ConfigParser()
            conf.add_section('Timeseries')
            g = WindfieldGenerator(conf, gridLimit=lim, **kw)
            wind.loadTracks = lambda name: iter(tracks)
            gf = WindfieldAroundTrack(tracks[0], gridLimit=lim, **kw).gustFactor
            res = g.calculateExtremesFromTrackfile('none')
    except AssertionError as e:
        return str(e)
    finally:
        WindfieldAroundTrack.localWindField, wind.loadTracks = plain, load
    return swath(c, f, tracks, lim, shape, res, gf)
