"""The kernels are compiled from the current sources into a scratch directory; for random storms in both
hemispheres, grids of several shapes and memory layouts and all profiles that use a kernel, the fields
computed with and without the compiled modules are compared point by point."""
import glob
import importlib.machinery
import importlib.util
import logging
import os
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import numpy.f2py

from wind import windmodels as wm
from Utilities import maputils
from PressureInterface import pressureProfile as pp

REPO = os.environ.get('VERIF_REPO', '/repo')
EXTS = {'wind._windmodels': 'wind/windmodels.f90', 'Utilities._maputils': 'Utilities/maputils.f90',
        'PressureInterface._pressureProfile': 'PressureInterface/pressureProfile.f90'}
F2PY = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
INC = ['-I' + sysconfig.get_path('include'), '-I' + np.get_include(), '-I' + os.path.join(np.get_include(), 'numpy'), '-I' + F2PY]


def build(name):
    """the module as /repo's build makes it, outside /repo"""
    mod = name.split('.')[1]
    work = tempfile.mkdtemp(prefix=mod)
    src = os.path.join(REPO, EXTS[name])

    def run(*cmd):
        subprocess.run(cmd, cwd=work, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    run(sys.executable, '-m', 'numpy.f2py', '--quiet', '-m', mod, src)
    run('/usr/bin/gfortran', '-O2', '-fPIC', '-c', src, '-o', 'source.o')
    for c in glob.glob(work + '/*.c') + [F2PY + '/fortranobject.c']:
        run('/usr/bin/gcc', '-O1', '-fPIC', '-w', *INC, '-c', c, '-o', os.path.basename(c)[:-2] + '.o')
    for f in glob.glob(work + '/*-f2pywrappers*.f*'):
        run('/usr/bin/gfortran', '-O2', '-fPIC', '-c', f, '-o', os.path.basename(f).rsplit('.', 1)[0] + '.o')
    out = os.path.join(work, mod + sysconfig.get_config_var('EXT_SUFFIX'))
    run('/usr/bin/gfortran', '-shared', *sorted(glob.glob(work + '/*.o')), '-o', out)
    loader = importlib.machinery.ExtensionFileLoader(name, out)
    spec = importlib.util.spec_from_file_location(name, out, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


with ThreadPoolExecutor(3) as ex:
    MODS = dict(zip(EXTS, ex.map(build, EXTS)))

PROFILES = ('HollandWindProfile', 'WilloughbyWindProfile', 'SchloemerWindProfile', 'PowellWindProfile')


def both(f):
    out = []
    for on in (True, False):
        for n in MODS:
            sys.modules[n] = MODS[n] if on else None
        try:
            out.append(f())
        except (AssertionError, TypeError, ValueError) as e:
            out.append(type(e).__name__)
    return out


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = ('velocity', 'vorticity', 'kepert', 'grid', 'pressure', 'kepert')[k % 6]
        rm = rng.choice([rng.uniform(5000, 20000), rng.uniform(20000, 150000), 40000.])
        pe = rng.uniform(99000, 102000)
        lat = rng.choice([-1, 1]) * rng.choice([rng.uniform(0.5, 5), rng.uniform(5, 30), rng.uniform(5, 30), rng.uniform(30, 60)])
        c = {'kind': kind, 'P': rng.choice(PROFILES if kind != 'kepert' else ('HollandWindProfile', 'PowellWindProfile', 'SchloemerWindProfile')),
             'pe': pe, 'pc': pe - rng.choice([rng.uniform(200, 2000), rng.uniform(2000, 9000)]), 'rMax': rm, 'lat': lat, 'lon': rng.uniform(-180, 360),
             'beta': rng.choice([rng.uniform(1, 2), rng.uniform(0.8, 2.5), 1.3]), 'shape': rng.choice([(1, 7), (7, 1), (4, 6), (6, 4), (5, 5), (24,), (1, 1)]),
             'layout': rng.choice(['C', 'C', 'F', 'T', 'S']), 'seed': rng.randrange(10**6), 'vFm': rng.choice([0., rng.uniform(0, 3), rng.uniform(3, 20), rng.uniform(20, 60)]),
             'thetaFm': rng.uniform(-7, 7), 'thetaMax': rng.choice([0., 70., 115.])}
        if kind == 'grid':
            c['margin'] = rng.choice([1, 2, 3, 0.5])
            c['resolution'] = rng.choice([0.02, 0.05, 0.1, 0.25])
            c['lim'] = rng.random() < 0.3
            if rng.random() < 0.3:
                c['lon'], c['lat'] = float(round(c['lon'])), float(round(c['lat']) or 1)
        yield c


def from_model(task, obligation, m):
    kind = 'kepert' if 'Kepert' in task else 'grid' if 'bearing' in task else 'pressure' if 'pressure' in task else \
        'velocity' if 'velocity' in task else 'vorticity'
    lat = 15. if m.get('f', 1) > 0 else -15.
    for P in PROFILES:
        for b in (1.3, 2.4):
            yield {'kind': kind, 'P': P, 'pe': 101000., 'pc': 95000., 'rMax': 40000., 'lat': lat, 'lon': 120., 'beta': b, 'shape': (4, 6),
                   'layout': 'C', 'seed': 1, 'vFm': 5., 'thetaFm': 1., 'thetaMax': 70., 'margin': 1, 'resolution': 0.1, 'lim': False}


def arrays(c):
    r = np.random.RandomState(c['seed'])
    n = int(np.prod(c['shape']))
    rm = c['rMax']
    v = np.where(r.rand(n) < 0.4, r.uniform(1, rm, n), r.uniform(rm, 12 * rm, n))
    v[0] = r.choice([rm, 2 * rm, rm / 2, v[0]])
    lam = r.uniform(-np.pi, 2 * np.pi, n)

    def lay(a):
        a = a.reshape(c['shape'])
        if c['layout'] == 'F':
            return np.asfortranarray(a)
        if c['layout'] == 'T' and a.ndim == 2:
            return np.ascontiguousarray(a.T).T
        if c['layout'] == 'S':
            big = np.zeros(tuple(2 * s for s in a.shape))
            s = tuple(slice(None, None, 2) for _ in a.shape)
            big[s] = a
            return big[s]
        return a
    return lay(v), lay(lam)


def profile(c):
    a = [c['lat'], c['lon'], c['pe'], c['pc'], c['rMax']]
    if c['P'] == 'HollandWindProfile':
        a.append(c['beta'])
    return getattr(wm, c['P'])(*a)


def differ(a, b, tol, angle=False, scale=None):
    if a.shape != b.shape:
        return 'shapes %r and %r' % (a.shape, b.shape)
    d = np.abs(a - b)
    if angle:
        d = np.abs((a - b + np.pi) % (2 * np.pi) - np.pi)
    bad = ~((d <= tol * np.maximum(1 if scale is None else scale, np.abs(b))) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return 'at %r compiled %r, interpreted %r' % (i, float(a[i]), float(b[i]))


def check(c):
    if c['kind'] == 'grid':
        kw = {}
        if c['lim']:
            kw = dict(minLon=c['lon'] - 1.5, maxLon=c['lon'] + 0.7, minLat=c['lat'] - 0.4, maxLat=c['lat'] + 1.1)
        (R1, t1), (R2, t2) = both(lambda: maputils.makeGrid(c['lon'], c['lat'], c['margin'], c['resolution'], **kw))
        m = differ(R1, R2, 2e-6, scale=1e-3)
        if m:
            return 'distance ' + m
        far = R2 > 1e-3
        m = differ(np.where(far, t1, 0), np.where(far, t2, 0), 2e-6, angle=True)
        return 'bearing ' + m if m else None
    R, lam = arrays(c)
    keep = R.copy()
    if c['kind'] == 'pressure':
        a, b = both(lambda: pp.PrsProfile(R, c['pe'], c['pc'], c['rMax'], c['lat'], c['lon'], c['beta']).holland())
        m = differ(a, b, 1e-10)
        return 'pressure ' + m if m else None
    p = profile(c)
    if not 0 < p.beta < 10:
        return None
    if c['kind'] in ('velocity', 'vorticity'):
        a, b = both(lambda: getattr(p, c['kind'])(R))
        if isinstance(a, str) or isinstance(b, str):
            return None if isinstance(a, str) and isinstance(b, str) else 'storm rejected by one build only: %r, %r' % (a, b)
        m = differ(a, b, 1e-9, scale=1e-2 if c['kind'] == 'velocity' else 1e-8)
        if m:
            return '%s %s' % (c['kind'], m)
    else:
        w = wm.KepertWindField(p)
        a, b = both(lambda: w.field(R, lam, c['vFm'], c['thetaFm'], c['thetaMax']))
        if isinstance(a, str) or isinstance(b, str):
            return None if isinstance(a, str) and isinstance(b, str) else 'storm rejected by one build only: %r, %r' % (a, b)
        s = np.sign(p.f)
        Z, V = both(lambda: p.vorticity(R))[1] * s, both(lambda: p.velocity(R))[1] * s
        # within rounding of the points where the solution is singular the two builds may differ
        K = 50.
        al, be, gam = (2 * V * s / R + p.f) / (2 * K), (p.f + Z * s) / (2 * K), V / (2 * K * R)
        q = np.sqrt(np.abs(al * be))
        sing = (np.abs(q - gam) < 1e-6 * q) | (np.abs(be) < 1e-9 * np.abs(al))
        for x, y, n in zip(a, b, 'EN'):
            x, y = np.where(sing, 0, x), np.where(sing, 0, y)
            m = differ(x, y, 1e-4)
            if m:
                bad = ~((np.abs(x - y) <= 1e-4 * np.maximum(1, np.abs(y))) | (np.isnan(x) & np.isnan(y)))
                if ((Z < 0) | (V < 0))[bad].all():
                    return {'msg': 'Kepert wind %s %s' % (n, m), 'finding': 'anticyclonic'}
                bad &= (Z >= 0) & (V >= 0)
                i = tuple(int(k) for k in np.argwhere(bad)[0])
                return 'Kepert wind %s at %r compiled %r, interpreted %r' % (n, i, float(x[i]), float(y[i]))
    if not np.array_equal(R, keep):
        return 'the distances passed in were modified'
