"""Random tiles with unequal dimensions and distinguishable, partly calm cells; every method; fits recorded by stand-ins."""
import numpy as np
import hazard
import hazard.evd as evd
import hazard.GPD as GPD


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        n, ny, nx = rng.randint(1, 9), rng.randint(1, 5), rng.randint(1, 6)
        yield dict(n=n, ny=ny, nx=nx, m=rng.randint(1, 5), calm=rng.choice([0, 0.3, 0.8, 1]), seed=rng.randrange(10 ** 6), method=rng.choice(['GEV', 'EMP', 'GPD', 'Power']), real=(i % 7 == 0))


def from_model(task, obl, m):
    return [dict(n=4, ny=2, nx=3, m=2, calm=0.3, seed=s, method=task.split()[0], real=False) for s in range(3)]


MIN = {'GEV': 'minrecords'}


def check(c):
    r = np.random.RandomState(c['seed'])
    n, ny, nx, m = c['n'], c['ny'], c['nx'], c['m']
    V = np.round(80 * r.rand(n, ny, nx), 3).astype('f4')
    V[r.rand(n, ny, nx) < 0.2] = 0
    V[:, r.rand(ny, nx) < c['calm']] = 0
    if r.rand() < 0.2:
        V[:, 0, 0] = -1
    orig = V.copy()
    years = np.arange(1, m + 1) * 2.0
    calls = []
    M = c['method']

    def stand(data, *a, **k):
        data = np.array(data)
        calls.append((data, a, k))
        s = float(np.sum(data * np.arange(1, len(data) + 1)))
        return s + np.arange(m), 2 * s + 1, 3 * s + 2, -s - 3
    nodata, minrec, yps, numsim = -9999., 3, 1, 40
    old = (evd.gevfit, evd.empfit, evd.powerfit, GPD.gpdfit)
    f = getattr(hazard, 'calculate' + M)
    args = [years] + ([] if M == 'GEV' else [numsim]) + [nodata, minrec, yps]
    if c['real'] and M in ('GEV', 'EMP'):
        V2 = V.copy()
        if M == 'EMP':
            years = years * 0 + 1.5
            args[0] = years
        Rp, loc, sc, sh = f(V2, *args)
        for i in range(ny):
            for j in range(nx):
                d = np.sort(orig[:, i, j])
                if d.max() > 0:
                    w = evd.gevfit(d, years, nodata, minrec, yps) if M == 'GEV' else evd.empfit(d, years, numsim, nodata, minrec)
                    if not (np.allclose(Rp[:, i, j], w[0], equal_nan=True) and np.allclose([loc[i, j], sc[i, j], sh[i, j]], w[1:], equal_nan=True)):
                        return '%s at cell %d,%d is %r, the fit of its records %r is %r' % (M, i, j, (Rp[:, i, j].tolist(), loc[i, j], sc[i, j], sh[i, j]), d.tolist(), w)
        return
    try:
        evd.gevfit = evd.empfit = evd.powerfit = GPD.gpdfit = stand
        Rp, loc, sc, sh = f(V, *args)
    finally:
        evd.gevfit, evd.empfit, evd.powerfit, GPD.gpdfit = old
    if Rp.shape != (m, ny, nx) or loc.shape != (ny, nx) or sc.shape != (ny, nx) or sh.shape != (ny, nx):
        return 'shapes %r' % ((Rp.shape, loc.shape, sc.shape, sh.shape),)
    for i in range(ny):
        for j in range(nx):
            d = np.sort(orig[:, i, j])
            s = float(np.sum(d * np.arange(1, n + 1)))
            want = np.concatenate([s + np.arange(m), [2 * s + 1, 3 * s + 2, -s - 3]]) if d.max() > 0 else np.zeros(m + 3)
            got = np.concatenate([Rp[:, i, j], [loc[i, j], sc[i, j], sh[i, j]]])
            if not np.allclose(got, want, rtol=1e-4, atol=1e-3):
                return '%s of cell (%d,%d) with records %r: stored %r, its own fit gives %r' % (M, i, j, d.tolist(), got.tolist(), want.tolist())
    for data, a, k in calls:
        if list(a[0] if a else k.get('intervals', k.get('years'))) != list(years):
            return 'return periods of the fit are %r' % (a,)
        rest = list(a[1:]) + [k[x] for x in ('numsim', 'nodata', 'missingValue', 'minrecords', 'yrspersim') if x in k]
        want = ([nodata, minrec, yps] if M == 'GEV' else [numsim, nodata, minrec])
        if rest[:3] != want:
            return 'arguments of the fit are %r, expected %r' % (rest, want)
