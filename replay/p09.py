"""Random pressures, speeds, peakedness and density for each relation, in hPa and Pa."""
import math
import numpy as np
from wind import vmax as vm, windmodels as wm

T = ('willoughby', 'holland', 'atkinson')
MODEL = dict(willoughby=wm.WilloughbyWindSpeed, holland=wm.HollandWindSpeed, atkinson=wm.AtkinsonWindSpeed)


def cases(rng, tier):
    for t in T:
        for dp in (0, 1, 50, 400, 1000, 3000, 9000):
            for b, r in ((1.3, 1.15), (0.9, 1.0), (2.1, 1.2)):
                yield dict(t=t, pe=101000., dp=dp, dp2=dp / 2 + 20, b=b, r=r)
    while True:
        t = rng.choice(T)
        yield dict(t=t, pe=101000. if t == 'atkinson' else rng.uniform(98000, 103000), dp=rng.choice([rng.uniform(0, 15000), rng.uniform(0, 50)]),
                   dp2=rng.uniform(0, 15000), b=rng.uniform(.5, 3), r=rng.uniform(.9, 1.3))


def from_model(task, obl, m):
    t = task.split(':')[0]
    pe = float(m.get('pe', 101000))
    dp = pe - float(m.get('pc', pe - 3000))
    return [dict(t=t if t in T else 'holland', pe=pe, dp=dp, dp2=pe - float(m.get('pc2', pe - 1000)), b=float(m.get('beta', 1.3)), r=float(m.get('rho', 1.15)))]


def near(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(b))


def check(c):
    t, pe, dp, b, r = c['t'], c['pe'], c['dp'], c['b'], c['r']
    if dp >= 0 and pe - dp >= 10000:
        pc = pe - dp
        v = float(vm.vmax(pc, pe, t, b, r))
        e = {'willoughby': lambda: .6252 * math.sqrt(dp), 'holland': lambda: math.sqrt(b * dp / (math.e * r)),
             'atkinson': lambda: 3.04 * max(dp / 100, 0) ** .644}[t]()
        if not near(v, e):
            return 'vmax(%r, %r, %r, %r, %r) = %r, relation gives %r' % (pc, pe, t, b, r, v, e)
        back = float(vm.pDiff(v, pe, t, b, r))
        if abs(back - pc) > 1e-3:
            return 'pDiff(vmax(%r)) = %r for %s, pEnv %r' % (pc, back, t, pe)
        for x, y in ((pc / 100, pe / 100), (pc, pe / 100), (pc / 100, pe)):
            w = float(vm.vmax(x, y, t, b, r))
            if not near(w, v):
                return 'vmax(%r, %r, %r) = %r but %r in Pascals' % (x, y, t, w, v)
        if not near(float(vm.pDiff(v, pe / 100, t, b, r)), back):
            return 'pDiff depends on the unit of the environmental pressure'
        dp2 = c['dp2']
        if 0 <= dp2 < dp and pe - dp2 >= 10000:
            if float(vm.vmax(pe - dp2, pe, t, b, r)) > v:
                return 'deficit %r Pa gives a stronger wind than %r Pa (%s)' % (dp2, dp, t)

        class P:
            eP, cP, beta = pe, pc, b
        w = float(MODEL[t](P).maximum())
        w2 = float(vm.vmax(pc, pe, t, b, 1.15))
        if not near(w, w2):
            return '%s maximum %r, relation %r (cP %r eP %r)' % (t, w, w2, pc, pe)
        vd = float(vm.vmax(pc, pe, t, b)), float(vm.pDiff(v, pe, t, b)), float(vm.vmax(pc, pe))
        if not near(vd[0], w2) or not near(vd[2], float(vm.vmax(pc, pe, 'holland', 1.3, 1.15))):
            return 'default density or relation differs'
    for x, y in ((pe + abs(dp) + 1, pe), ((pe + abs(dp) + 1) / 100, pe / 100)):
        try:
            v = vm.vmax(x, y, t, b, r)
        except ValueError:
            continue
        return 'vmax(%r, %r, %r) accepted a negative deficit: %r' % (x, y, t, v)
    for n in ('unknown', 'Holland', '', 'holland '):
        for f in (lambda: vm.vmax(95000., 101000., n), lambda: vm.pDiff(30., 101000., n)):
            try:
                v = f()
            except NotImplementedError:
                continue
            return 'unknown relation %r accepted: %r' % (n, v)
