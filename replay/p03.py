"""Random annual maxima (with calm years, ties, few records, heavy and light tails) for the block-maxima fit; random
threshold parameters and records for the peaks-over-threshold fit."""
import math
import numpy as np
import hazard.evd as evd
import hazard.GPD as GPD
import Utilities.lmomentFit as lm


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        n = rng.choice([3, 5, 10, 30, 50, 51, 120])
        kind = rng.choice(['light', 'light', 'light', 'heavy', 'calm', 'ties', 'zero', 'neg', 'lognormal'])
        per = sorted(set(rng.choice([[2, 5, 10, 20, 25, 50, 100, 200, 250, 500, 1000, 2000, 2500, 5000, 10000], [round(rng.uniform(1.01, 3000), 2) for _ in range(6)], [2], [1.5, 40]])))
        if rng.random() < 0.3:
            rng.shuffle(per)
        yield dict(n=n, kind=kind, seed=rng.randrange(10 ** 6), zeros=rng.choice([0, 0, 0.1, 0.5, 0.9]), per=per,
                   minrec=rng.choice([1, 3, 10, 50, n, n + 1, max(1, n - 2)]), nodata=rng.choice([-9999., -9999, 0.0, -1.0]),
                   yps=rng.choice([1, 1, 1, 10]), gpd=(i % 3 == 0),
                   par=[rng.uniform(10, 60), rng.choice([-1, 1, -1]) * rng.choice([0.5, 0.1, 0.9, 1e-2, rng.random() + 1e-3]), rng.uniform(0.5, 30), rng.uniform(1e-3, 0.9)],
                   lmom=[rng.uniform(-10, 60), rng.choice([0.0, -1.0, 1e-3, rng.uniform(0.1, 20)]), rng.uniform(-1, 1) if rng.random() < 0.9 else rng.choice([1.0, -1.0, -0.98, -0.99, 0.0])],
                   ts=[rng.uniform(0.1, 2000) for _ in range(4)])


def from_model(task, obl, m):
    if 'mu' in m and 't' in m:
        return [dict(only='pot', par=[m['mu'], m['shape'], m['scale'], m['rate']], ts=[m['t']], npyr=m.get('npyr', 365.25))]
    if 'data' in m and 'minrecords' in m and isinstance(m['data'], list):
        return [dict(records=m['data'], per=m.get('intervals') or [2., 5.], minrec=int(m['minrecords']), nodata=m.get('nodata', -9999.), yps=m.get('yrspersim', 1), par=[30., -.1, 5., .1], ts=[10.], lmom=[30., 5., .1])]
    return []


def records(c):
    if 'records' in c:
        return np.array(c['records'], float)
    r = np.random.RandomState(c['seed'])
    n = c['n']
    u = r.rand(n)
    d = {'light': lambda: 30 + 20 * (1 - (-np.log(u)) ** 0.4), 'heavy': lambda: 20 + 5 * ((-np.log(u)) ** -0.3 - 1),
         'calm': lambda: np.where(u < 0.05, 30 + u, 0), 'ties': lambda: np.full(n, 31.5), 'zero': lambda: np.zeros(n),
         'neg': lambda: -10 * u, 'lognormal': lambda: np.exp(3 + 0.3 * r.randn(n))}[c['kind']]()
    if c['kind'] != 'neg':
        d = np.maximum(d, 0)
    d[r.rand(n) < c['zeros']] = 0
    return np.sort(np.round(d, 3))


def pot(c):
    mu, sh, sc, ra = c['par']
    ny = c.get('npyr', 365.25)
    for t in c['ts']:
        v = GPD.gpdReturnLevel(t, mu, sh, sc, ra, ny)
        want = mu + sc / sh * ((t * ny * ra) ** sh - 1)
        if not abs(v - want) <= 1e-8 * (1 + abs(want) + abs(sc / sh)):
            return 'level of a %r year interval is %r, the fitted distribution gives %r' % (t, v, want)
        back = GPD.gpdRecurrenceIntervals(v, mu, sh, sc, ra, ny)
        x = (t * ny * ra) ** sh
        if 1e-6 < x < 1e8 and not abs(back - t) <= 1e-5 * t / min(1, abs(sh)) * max(1, 1 / x, x * 1e-3):
            return 'level %r of a %r year interval has recurrence interval %r (threshold %r shape %r scale %r rate %r npyr %r)' % (v, t, back, mu, sh, sc, ra, ny)
        if ny == 365.25:
            for f in (evd.gpdReturnLevel, GPD.gpdReturnLevel):
                w = f(t, mu, sh, sc, ra)
                if not abs(w - v) <= 1e-8 * (1 + abs(v)):
                    return 'level of a %r year interval is %r with the default number of observations per year, %r otherwise' % (t, w, v)
    ts = np.array(sorted(c['ts']))
    for f in (evd.gpdReturnLevel, GPD.gpdReturnLevel):
        w = f(ts, mu, sh, sc, ra)
        if np.any(np.diff(w) < -1e-9 * (1 + np.abs(w[1:]))):
            return 'levels fall with the return period: %r' % (w.tolist(),)


def check(c):
    msg = pot(c)
    if msg or c.get('only') == 'pot':
        return msg
    l = c['lmom']
    p = lm.pelgev(l)
    if l[1] > 0 and abs(l[2]) < 1:
        if p[2] > 0 and not p[1] > 0:
            return 'pelgev(%r) = %r: positive shape with a scale that is not positive' % (l, p.tolist())
    d = records(c)
    keep = d.copy()
    per, nod, mr, yps = np.array(c['per'], float), c['nodata'], c['minrec'], c['yps']
    per = per[per > yps]
    if len(d) > 2 and len(per):
        plist = list(per)
        w, loc, sc, sh = evd.gevfit(d, plist, nod, mr, yps)
        if not np.array_equal(d, keep):
            return 'gevfit changed the records'
        nz = d[d != 0]
        none = not d.max() > 0 or len(nz) < mr or nz.min() == nz.max()
        if len(w) != len(per):
            return '%d levels for %d return periods' % (len(w), len(per))
        if none:
            if not (np.all(np.asarray(w) == nod) and loc == nod and sc == nod and sh == nod):
                return 'no usable records (%d with wind of %d, %d needed) but levels %r, parameters %r' % (len(nz), len(d), mr, list(w), (loc, sc, sh))
        else:
            l1, l2, t3 = lm.samlmu(d, 3)
            bad = not l2 > 0 or not abs(t3) < 1
            if bad:
                if not (np.all(np.asarray(w) == nod) and loc == nod and sc == nod and sh == nod):
                    return 'rejected L-moments %r but levels %r' % ((l1, l2, t3), list(w))
            else:
                q = lm.pelgev([l1, l2, t3])
                if not (np.allclose([loc, sc, sh], q, rtol=1e-6, atol=1e-9)):
                    return 'parameters %r, those of the records are %r' % ((loc, sc, sh), q.tolist())
                if sh <= 0:
                    if not np.all(np.asarray(w) == nod):
                        return 'shape %r is not accepted but levels are %r' % (sh, list(w))
                else:
                    order = np.argsort(per)
                    ww = np.asarray(w)[order]
                    if np.any(np.diff(ww) < -1e-9 * (1 + np.abs(ww[1:]))):
                        return 'levels fall with the return period: %r at %r' % (ww.tolist(), per[order].tolist())
                    want = loc + sc / sh * (1 - (-np.log(1 - yps / per)) ** sh)
                    if not np.allclose(w, want, rtol=1e-6, atol=1e-6):
                        return 'levels %r at %r years, the fitted distribution gives %r' % (list(w), per.tolist(), want.tolist())
    if c.get('gpd') and d.max() > 0:
        for mod, kw in ((GPD, {}), (evd, {})):
            e = d.copy()
            w, loc, sc, sh = mod.gpdfit(e, per, 400, nod, mr, 50.0)
            if not np.array_equal(d, e):
                return 'gpdfit changed the records'
            fill = np.all(np.asarray(w) == nod) and loc == nod and sc == nod and sh == nod
            some = np.any(np.asarray(w) == nod) or loc == nod or sh == nod
            if some and not fill and nod == -9999:
                return 'fill value mixed with a fit: %r' % ((list(w), loc, sc, sh),)
            if len(d) < mr and not fill:
                return '%d records, %d needed, but levels %r' % (len(d), mr, list(w))
            if not fill:
                if sh > 0:
                    return 'positive shape %r accepted' % sh
                mu = np.percentile(d, 50.0)
                full = np.zeros(int(400 * 365.25))
                full[-len(d):] = d
                rate = float((full > mu).sum()) / len(full)
                want = mod.gpdReturnLevel(per, mu, sh, sc, rate)
                if len(w) != len(per) or not np.allclose(w, want, rtol=1e-6, atol=1e-6, equal_nan=True):
                    return 'levels %r, the fitted distribution gives %r' % (list(w), list(want))
            else:
                # is the fit really one to reject?
                if len(d) >= mr and nod == -9999:
                    from scipy.stats import genpareto
                    mu = np.percentile(d, 50.0)
                    full = np.zeros(int(400 * 365.25))
                    full[-len(d):] = d
                    try:
                        s = genpareto.fit(full[full > mu], floc=mu)
                    except Exception:
                        continue
                    if s[0] < 0 and np.all(np.isfinite(s)):
                        return 'fit with shape %r was rejected' % s[0]
