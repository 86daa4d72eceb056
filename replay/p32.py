"""The real geometry functions on integer coordinates, against exact arithmetic."""
import math
from fractions import Fraction as F
import numpy as np
from Utilities import Intersections as Int
from Evaluate import longitudeCrossing as lc


def pts(rng, n, m):
    return [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]


def cases(rng, tier):
    while True:
        m = rng.choice([2, 3, 5, 40])
        yield dict(kind='lines', p=pts(rng, 4, m))
        yield dict(kind='side', p=pts(rng, 3, m))
        n = rng.randint(3, 8)
        yield dict(kind='inside', v=pts(rng, n, m), p=pts(rng, 1, m)[0])
        yield dict(kind='star', r=[rng.randint(1, m) for _ in range(n)], cw=rng.random() < .5, p=pts(rng, 1, m)[0])
        yield dict(kind='cross', tracks=[pts(rng, rng.randint(1, 6), m) for _ in range(rng.randint(0, 4))], lons=sorted(rng.sample(range(-m, m + 1), min(3, m))), lats=sorted(rng.sample(range(-m, m + 1), rng.randint(2, 3))))


def from_model(task, obl, m):
    import random
    rng = random.Random(1)
    out = []
    if 'a1.x' in m:
        q = [(m[k + '.x'], m[k + '.y' if k + '.y' in m else k + '.x']) for k in ('a1', 'a2', 'b1') if k + '.x' in m]
        if len(q) == 3:
            q.append((m.get('b2.x', q[2][0]), m.get('b2.y', 0)))
            out.append(dict(kind='lines', p=q))
    kind = 'lines' if 'segment' in task else 'side' if 'side' in task or task.startswith('between') else 'cross' if 'crossings' in task else 'inside'
    g = cases(rng, 'quick')
    while len(out) < 400:
        c = next(g)
        if c['kind'] == kind or kind == 'inside' and c['kind'] == 'star':
            out.append(c)
    return out


def P(p):
    return Int.Point(p[0], p[1])


def sign(v):
    return (v > 0) - (v < 0)


def meet(a1, a2, b1, b2):
    """exact: None when parallel, else (u, v, point)"""
    a1, a2, b1, b2 = [tuple(F(x) for x in p) for p in (a1, a2, b1, b2)]
    d, e = (a2[0] - a1[0], a2[1] - a1[1]), (b2[0] - b1[0], b2[1] - b1[1])
    w = (b1[0] - a1[0], b1[1] - a1[1])
    det = d[0] * e[1] - d[1] * e[0]
    if det == 0:
        return None
    u, v = (w[0] * e[1] - w[1] * e[0]) / det, (w[0] * d[1] - w[1] * d[0]) / det
    return u, v, (a1[0] + u * d[0], a1[1] + u * d[1])


def odd(p, v):
    n = 0
    for a, b in zip(v, v[1:]):
        if (a[1] <= p[1]) != (b[1] <= p[1]) and p[0] < a[0] + F(p[1] - a[1], b[1] - a[1]) * (b[0] - a[0]):
            n += 1
    return n % 2 == 1


def lines(c):
    a1, a2, b1, b2 = c['p']
    if tuple(a1) == tuple(a2) or tuple(b1) == tuple(b2):
        return None
    r = Int.Crossings().LineLine(*[P(p) for p in c['p']])
    e = meet(*c['p'])
    if e is None:
        one = (F(a2[0]) - F(a1[0])) * (F(b1[1]) - F(a1[1])) == (F(a2[1]) - F(a1[1])) * (F(b1[0]) - F(a1[0]))
        want = 'Coincident' if one else 'Parallel'
    else:
        want = 'Intersection' if 0 <= e[0] <= 1 and 0 <= e[1] <= 1 else 'No Intersection'
    if r.status != want:
        return 'segments %r: %s, expected %s' % (c['p'], r.status, want)
    if len(r.points) != (want == 'Intersection'):
        return 'segments %r: %d points' % (c['p'], len(r.points))
    if want == 'Intersection' and (abs(r.points[0].x - float(e[2][0])) > 1e-9 or abs(r.points[0].y - float(e[2][1])) > 1e-9):
        return 'segments %r: meet at %r, expected %r' % (c['p'], (r.points[0].x, r.points[0].y), tuple(float(x) for x in e[2]))


def side(c):
    a, b, p = c['p']
    k = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
    if sign(Int._isLeft(P(a), P(b), P(p))) != sign(k):
        return 'side of %r: %r, expected sign %d' % (c['p'], Int._isLeft(P(a), P(b), P(p)), sign(k))
    for u in (0, .25, .5, 1, 2):
        r = Int.Crossings().lerp(P(a), P(b), u)
        if tuple(r) != (a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u):
            return 'fraction %g from %r to %r: %r' % (u, a, b, r)
    v = Int.convert2vertex([x for x, _ in c['p']], [y for _, y in c['p']])
    if [(q.x, q.y, q.getX(), q.getY()) for q in v] != [(x, y, x, y) for x, y in c['p']]:
        return 'vertices of %r' % c['p']


def inside(c):
    if c['kind'] == 'star':
        n = len(c['r'])
        v = [(round(r * math.cos(2 * math.pi * k / n), 6), round(r * math.sin(2 * math.pi * k / n), 6)) for k, r in enumerate(c['r'])]
        v = v[::-1] if c['cw'] else v
    else:
        v = list(c['v'])
    v = [(F(x), F(y)) for x, y in v + v[:1]]
    p = [F(x) for x in c['p']]
    if any((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]) for a, b in zip(v, v[1:])):
        return None         # on the boundary: rounding decides
    got = Int.inLand(P(c['p']), [P(q) for q in v])
    want = odd(p, v)
    if bool(got) != want:
        return 'point %r in polygon %r: %r, expected %r' % (tuple(c['p']), [(float(x), float(y)) for x, y in v], bool(got), want)


class T:
    def __init__(self, p):
        self.Longitude, self.Latitude = np.array([x for x, _ in p], float), np.array([y for _, y in p], float)


def crossings(c):
    o = lc.LongitudeCrossing.__new__(lc.LongitudeCrossing)
    o.gateLons, o.gateLats = np.array(c['lons'], float), np.array(c['lats'], float)
    seen = {}
    keep = lc.np.histogram

    def hist(v, bins, density=None):
        v = tuple(sorted(round(float(x), 9) for x in v))
        assert density is True and list(bins) == list(o.gateLats)
        seen[len(seen) + 1] = v
        return np.full(len(bins) - 1, len(seen)), bins
    lc.np.histogram = hist
    try:
        h = o.findCrossings([T(p) for p in c['tracks']])
    finally:
        lc.np.histogram = keep
    for n, g in enumerate(c['lons']):
        west, east = [], []
        for p in c['tracks']:
            for a, b in zip(p, p[1:]):
                e = meet(a, b, (g, max(c['lats'])), (g, min(c['lats'])))
                if e and 0 <= e[0] <= 1 and 0 <= e[1] <= 1:
                    (east if b[0] > a[0] else west).append(round(float(e[2][1]), 9))
        for name, arr, want in (('all', h[0], west + east), ('westward', h[1], west), ('eastward', h[2], east)):
            col = set(arr[:, n])
            got = seen.get(int(col.pop()), ()) if len(col) == 1 else None
            if got != tuple(sorted(want)):
                return '%s crossings of longitude %g by %r between %r: %r, expected %r' % (name, g, c['tracks'], (min(c['lats']), max(c['lats'])), got, sorted(want))


def check(c):
    return {'lines': lines, 'side': side, 'inside': inside, 'star': inside, 'cross': crossings}[c['kind']](c)
