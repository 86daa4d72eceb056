"""Random storms; pressures on a grid of distances for every profile."""
import numpy as np
from PressureInterface.pressureProfile import PrsProfile
from wind import vmax as vm


def cases(rng, tier):
    while True:
        pe = rng.uniform(98500, 102500)
        dp = rng.choice([rng.uniform(1, 1500), rng.uniform(1500, 12000), 1499.9, 1500., 800.])
        yield dict(pe=pe, pc=pe - dp, rm=rng.choice([rng.uniform(1, 40), rng.uniform(5, 150)]), lat=rng.uniform(-40, 40), beta=rng.uniform(.7, 2.5),
                   rm2=rng.uniform(50, 400), b1=rng.choice([None, rng.uniform(.7, 2)]), b2=rng.choice([None, rng.uniform(.7, 2)]),
                   r=sorted(rng.choice([rng.uniform(.1, 60), rng.uniform(1, 1000), rng.uniform(.01, 4)]) for _ in range(12)))


def from_model(task, obl, m):
    r = sorted([max(float(m['r1']), 1e-3), float(m['r2'])]) + [1, 50, 300]
    return [dict(pe=float(m['pe']), pc=float(m['pc']), rm=float(m['rMax']), lat=float(m.get('lat', -15)), beta=float(m['beta']),
                 rm2=float(m.get('rMax2', 250)), b1=m.get('beta1'), b2=m.get('beta2'), r=sorted(r))]


def check(c):
    r = np.array(c['r'])
    R = np.vstack([r, r[::-1]])
    for name in ('holland', 'schloemer', 'powell', 'willoughby', 'doubleHolland'):
        R0 = R.copy()
        p = PrsProfile(R, c['pe'], c['pc'], c['rm'], c['lat'], 150., c['beta'], rMax2=c['rm2'], beta1=c['b1'], beta2=c['b2'])
        P = np.asarray(getattr(p, name)())
        if P.shape != R.shape or not (R == R0).all():
            return '%s: shape %r or distances modified' % (name, P.shape)
        tol = 1e-6
        if (P < c['pc'] - tol).any() or (P > c['pe'] + tol).any() or not np.isfinite(P).all():
            return '%s gives pressures %r..%r outside %r..%r for %r' % (name, P.min(), P.max(), c['pc'], c['pe'], c)
        if (np.abs(P[0] - P[1][::-1]) > tol).any():
            return '%s: the pressure depends on more than the distance' % name
        if (np.diff(P[0]) < -tol).any():
            msg = '%s pressure falls with distance: %r at %r for %r' % (name, P[0].tolist(), c['r'], c)
            if name == 'willoughby':
                b = 1.0036 + 0.0173 * float(vm.vmax(c['pc'], c['pe'], 'willoughby')) - 0.313 * np.log(c['rm']) + 0.0087 * abs(c['lat'])
                if b < 0:
                    return dict(msg=msg, finding='willoughby-negative-beta')
            return msg
        if name == 'holland':
            e = c['pc'] + (c['pe'] - c['pc']) * np.exp(-(c['rm'] / R) ** c['beta'])
            if (np.abs(P - e) > 1e-6 * np.abs(e)).any():
                return 'holland pressure %r, relation gives %r' % (P[0].tolist(), e[0].tolist())
