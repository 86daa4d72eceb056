"""Random non-negative densities, with zeros, on uniform grids; uniform draws at and between the cumulative values."""
import numpy as np
from Utilities import stats
from StatInterface.SamplingParameters import SamplingParameters
from StatInterface.SamplingOrigin import SamplingOrigin
from StatInterface.KDEParameters import KDEParameters
from TrackGenerator import TrackGenerator as TG

SKIP = ()


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        nx, ny = rng.randint(2, 9), rng.randint(2, 7)
        zero = rng.choice([0, 0.2, 0.6])
        den = lambda: 0.0 if rng.random() < zero else rng.choice([1.0, 2.0, rng.random(), 10 * rng.random()])
        y = [den() for _ in range(nx)]
        z = [[den() for _ in range(nx)] for _ in range(ny)]
        if rng.random() < 0.3:
            k = rng.randrange(nx)
            for r in z:
                r[k] = 0.0
        us = [rng.random() for _ in range(12)] + [1e-9, 1 - 1e-12]
        yield dict(x0=rng.uniform(-5, 120), h=rng.choice([0.5, 1.0, 2.0, 0.1, -1.0]), y=y, z=z, us=us, kde=(i % 40 == 1))


def from_model(task, obl, m):
    if 'z' in m and 'nx' in m:
        return [dict(x0=0.0, h=1.0, y=[1.0, 0.0], z=m['z'], us=[0.3, 0.7, 1e-9])]
    if 'y' in m and 'n' in m:
        return [dict(x0=m['x'][0], h=m['x'][1] - m['x'][0], y=m['y'], z=[[1.0, 0.0], [0.0, 1.0]], us=[0.3, 0.7])]
    if 'cdf' in m:
        return [dict(table=[m['values'], m['cdf']], us=[u for k, u in m.items() if k.startswith('u') and isinstance(u, float)])]
    return []


class Draws:
    """stands in for the uniform generators of numpy while a sampler runs"""
    names = ('rand', 'random', 'random_sample', 'uniform')

    def __init__(self, values):
        self.values, self.i = list(values), 0

    def take(self, *shape, **kw):
        if shape and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = shape or ((kw['size'],) if kw.get('size') is not None else ())
        n = int(np.prod(shape)) if shape else 1
        v = [self.values[(self.i + k) % len(self.values)] for k in range(n)]
        self.i += n
        return np.array(v).reshape(shape) if shape else v[0]

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.names}
        for n in self.names:
            setattr(np.random, n, (lambda lo=0.0, hi=1.0, size=None: lo + (hi - lo) * self.take(*(() if size is None else (size,)))) if n == 'uniform' else self.take)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def least(cum, u):
    for i, c in enumerate(cum):
        if c >= u:
            return i


def cdfcheck(x, y, r, what):
    r = np.asarray(r)
    if r.shape != np.shape(y):
        return '%s: shape %r' % (what, r.shape)
    tot = float(np.sum(y))
    if tot == 0:
        return None if (r == 0).all() else '%s of no density is %r' % (what, r)
    if (np.diff(r) < 0).any() or (r < 0).any():
        return '%s decreases: %r for density %r' % (what, r, list(y))
    if r[-1] != 1.0:
        return '%s ends at %r for density %r' % (what, r[-1], list(y))
    want = np.cumsum(y) / tot
    if not np.allclose(r, want, rtol=0, atol=1e-9):
        return '%s is %r, expected %r' % (what, r, want)


def sampling(vals, cum, us):
    t = np.column_stack([vals, cum])
    sp = SamplingParameters(t)
    for u in us:
        i = least(cum, u)
        v = TG.ppf(u, t)
        if v != vals[i]:
            return 'ppf(%r) is %r, expected %r of cdf %r' % (u, v, vals[i], list(cum))
        with Draws([u]) as d:
            v = sp.generateOneSample()
        if d.i == 1 and v != vals[i]:
            return 'sample for draw %r is %r, expected %r of cdf %r' % (u, v, vals[i], list(cum))
    with Draws(us) as d:
        v = sp.generateSamples(len(us))
    want = [vals[least(cum, u)] for u in us]
    if d.i == len(us) and list(v) != want:
        return 'samples for draws %r are %r, expected %r' % (us, list(v), want)
    for ns in (0, -1, -100):
        for s in (sp,):
            try:
                s.generateSamples(ns)
            except ValueError:
                continue
            return '%d samples asked for: no error' % ns


def check(c):
    if 'table' in c:
        return sampling(np.array(c['table'][0], float), np.array(c['table'][1], float), c['us'])
    y, z = np.array(c['y']), np.array(c['z'])
    x = c['x0'] + c['h'] * np.arange(len(y))
    y0, x0 = y.copy(), x.copy()
    r = stats.cdf(x, y)
    m = cdfcheck(x, y, r, 'cumulative distribution')
    if m:
        return m
    if (y != y0).any() or (x != x0).any():
        return 'cdf changed its arguments'
    if y.sum() > 0:
        us = list(c['us']) + [float(v) for v in r if 0 < v < 1] + [float(v) * (1 - 1e-12) for v in r if 0 < v]
        m = sampling(x * 3 + 1, r, us)
        if m:
            return m
    if z.sum() > 0:
        lons, lats = c['x0'] + 0.5 * np.arange(z.shape[1]), -20 + 2.0 * np.arange(z.shape[0])
        # two-dimensional distribution, x along the first axis
        cz = stats.cdf2d(lons, lats, z.T.copy())
        want = z.T.cumsum(axis=0).cumsum(axis=1) / z.sum()
        if cz.shape != want.shape or cz[-1, -1] != 1.0 or not np.allclose(cz, want, rtol=0, atol=1e-9):
            return 'two-dimensional distribution of %r is %r' % (z.T.tolist(), cz.tolist())
        so = SamplingOrigin(z.copy(), lons, lats)
        m = cdfcheck(lons, z.sum(axis=0), so.cdfX, 'longitude distribution')
        if m:
            return m
        for i in range(len(lons)):
            m = cdfcheck(lats, z[:, i], so.cdfY[i], 'latitude distribution at longitude %d' % i)
            if m:
                return m
        us = [u for u in c['us'] if 0 < u < 1] + [float(v) for v in so.cdfX if 0 < v < 1]
        pairs = [(u, w) for u in us for w in us[::3]]
        want = []
        for u, w in pairs:
            i = least(so.cdfX, u)
            j = least(so.cdfY[i], w)
            want.append((lons[i], lats[j]))
            v = so.ppf(u, w)
            if tuple(v) != want[-1]:
                return 'location for draws %r is %r, expected %r' % ((u, w), tuple(v), want[-1])
            with Draws([u, w]) as d:
                v = so.generateOneSample()
            if d.i == 2 and tuple(v) != want[-1]:
                return 'one location for draws %r is %r, expected %r' % ((u, w), tuple(v), want[-1])
        with Draws([p[0] for p in pairs] + [p[1] for p in pairs]) as d:
            v = so.generateSamples(len(pairs))
        if d.i == 2 * len(pairs) and [tuple(a) for a in v] != want:
            k = [tuple(a) != b for a, b in zip(v, want)].index(True)
            return 'sample %d for draws %r is %r, expected %r' % (k, pairs[k], tuple(v[k]), want[k])
        for ns in (0, -1, -100):
            try:
                so.generateSamples(ns)
            except ValueError:
                continue
            return '%d locations asked for: no error' % ns
    if c.get('kde'):
        obs = np.array([1.0, 2.5, 2.7, 3.1, 8.0, 9.5, 9.7] + list(10 * np.array(c['us'])))
        for per in (False, 10):
            t = KDEParameters('gau').generateKDE(obs.copy(), 0.25, periodic=per)
            m = cdfcheck(t[:, 0], t[:, 1], t[:, 2], 'distribution of a parameter')
            if m:
                return m
