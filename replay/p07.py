"""Random and edge-case storms and distances, both hemispheres, for every profile: mirrored wind is the
negative, the wind outside the core is cyclonic, and the Jelesnianski and Rankine maxima hold."""
import numpy as np
from wind import windmodels as wm

PROFILES = ('JelesnianskiWindProfile', 'RankineWindProfile', 'NewHollandWindProfile', 'HollandWindProfile',
            'WilloughbyWindProfile', 'SchloemerWindProfile', 'PowellWindProfile')


def cases(rng, tier):
    k = 0
    while True:
        P = PROFILES[k % len(PROFILES)]
        k += 1
        pe = rng.choice([1010., 1013.25, 1005., 101325., 100800., rng.uniform(990, 1020)])
        pah = pe > 10000
        dp = rng.choice([rng.uniform(0.2, 5), rng.uniform(5, 100), rng.uniform(5, 100), rng.uniform(100, 140)])
        if P in ('WilloughbyWindProfile',):
            dp = max(dp, 5.)
        pc = pe - dp * (100 if pah else 1)
        if rng.random() < 0.2:
            pc = pc / 100. if pah else pc * 100.
        rm = rng.choice([rng.uniform(5000, 20000), rng.uniform(20000, 150000), 40000.])
        lat = rng.choice([rng.uniform(0.01, 1), rng.uniform(1, 40), rng.uniform(5, 25), rng.uniform(40, 60), 12.5])
        r = [rm, rm * (1 - 1e-9), rm * (1 + 1e-9), rm / 2, 2 * rm, rm * 50, 1.0] + [rng.uniform(1, 8 * rm) for _ in range(5)]
        yield {'P': P, 'pe': pe, 'pc': pc, 'rMax': rm, 'lat': lat, 'lon': rng.uniform(0, 360), 'beta': rng.uniform(0.7, 2.5),
               'rGale': rm * rng.uniform(1.5, 8), 'r': r, 'neg': rng.random() < 0.5}


def from_model(task, obligation, m):
    P = task.split(':')[0].split()[0]
    ps = [P] if P in PROFILES else ['HollandWindProfile']
    for p in ps:
        c = dict(P=p, pe=m.get('pe', 101000.), pc=m.get('pc', 95000.), rMax=m.get('rMax', 40000.), lat=m.get('lat', 15.), lon=m.get('lon', 0.),
                 beta=m.get('beta', 1.3), rGale=m.get('rGale', 150000.), r=[m.get('r', 50000.)], neg=False)
        if not (80000 <= c['pc'] < c['pe'] <= 110000 and c['pe'] - c['pc'] < 20000 and c['rMax'] > 1000 and 0 < c['lat'] <= 60 and
                0 < c['beta'] < 5 and all(1 <= x < 1e7 for x in c['r'])):
            continue
        yield c


def field(c, lat):
    a = [lat, c['lon'], c['pe'], c['pc'], c['rMax']]
    if c['P'] == 'HollandWindProfile':
        a.append(c['beta'])
    if c['P'] == 'NewHollandWindProfile':
        a.append(c['rGale'])
    p = getattr(wm, c['P'])(*a)
    if getattr(p, 'beta', 1) <= 0:
        return p, 'out of range'
    R = np.array([c['r'], c['r'][::-1]])
    keep = R.copy()
    try:
        v = p.velocity(R)
    except AssertionError:
        return p, None
    if not np.array_equal(R, keep):
        return p, 'changed'
    return p, v


def check(c):
    s = -1 if c['neg'] else 1
    p, v = field(c, s * c['lat'])
    p2, v2 = field(c, -s * c['lat'])
    if isinstance(v, str):
        return None if v == 'out of range' else 'the distances passed in were modified'
    if (v is None) != (v2 is None):
        return 'storm rejected in one hemisphere only'
    if v is None:
        return None
    R = np.array([c['r'], c['r'][::-1]])
    tol = 1e-9 * np.maximum(1, np.abs(v))
    bad = ~((np.abs(v + v2) <= tol) | (np.isnan(v) & np.isnan(v2)))
    if bad.any():
        return 'wind %r, mirrored storm %r at distance %r' % (v[bad][0], v2[bad][0], R[bad][0])
    out = R > c['rMax'] * (1 + 1e-12) if c['P'] not in PROFILES[:2] else R > 0
    w = s * v[out]
    if (w < -1e-9).any():
        return 'anticyclonic wind %r at distance %r' % (float(w.min()), R[out][np.argmin(w)])
    if c['P'] in PROFILES[:2]:
        vm = p.vMax
        if (np.abs(v) > vm * (1 + 1e-9)).any():
            return 'wind %r above the maximum wind %r' % (float(np.abs(v).max()), vm)
        at = R == c['rMax']
        if (np.abs(np.abs(v[at]) - vm) > 1e-9 * vm).any():
            return 'wind %r at the radius of maximum wind, maximum is %r' % (v[at][0], vm)
    return None
