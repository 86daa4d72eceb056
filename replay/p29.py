"""Small gust files written to a scratch folder; every tile; annual maxima and single records."""
import os
import shutil
import tempfile
import numpy as np
import netCDF4
import hazard


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        nyears = rng.randint(1, 6)
        files = []
        for y in range(nyears):
            for t in range(rng.choice([0, 0, 1, 2, 3])):
                files.append((t, y))
        if rng.random() < 0.3:
            files.append((rng.randint(0, 3), nyears + rng.randint(0, 2)))     # a year outside the run
        if rng.random() < 0.3 and nyears > 1:
            files.append((101, 1))
        files = sorted(set(files))
        rng.shuffle(files)
        ny, nx = rng.randint(1, 5), rng.randint(1, 6)
        x1, y1 = rng.randint(0, nx - 1), rng.randint(0, ny - 1)
        yield dict(nyears=nyears, files=files, ny=ny, nx=nx, tile=(x1, rng.randint(x1 + 1, nx), y1, rng.randint(y1 + 1, ny)), seed=rng.randrange(10 ** 6))


def from_model(task, obl, m):
    return []


def write(path, data):
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('lat', data.shape[0])
    nc.createDimension('lon', data.shape[1])
    for name, v in (('slp', 1000 + data), ('vmax', data), ('ua', -data), ('va', 2 * data)):
        nc.createVariable(name, 'f4', ('lat', 'lon'))[:] = v
    for n, k in (('lat', data.shape[0]), ('lon', data.shape[1])):
        nc.createVariable(n, 'f8', (n,))[:] = np.arange(k)
    nc.close()


def check(c):
    r = np.random.RandomState(c['seed'])
    d = tempfile.mkdtemp(prefix='p29-')
    try:
        fields = {}
        for t, y in c['files']:
            a = np.round(80 * r.rand(c['ny'], c['nx']), 2).astype('f4')
            a[r.rand(c['ny'], c['nx']) < 0.2] = 0
            fields[(t, y)] = a
            write(os.path.join(d, 'gust.%03d-%05d.nc' % (t, y)), a)
        x1, x2, y1, y2 = c['tile']
        V = hazard.aggregateWindFields(d, c['nyears'], c['tile'])
        if V.shape != (c['nyears'], y2 - y1, x2 - x1):
            return 'annual maxima have shape %r' % (V.shape,)
        for y in range(c['nyears']):
            own = [f[y1:y2, x1:x2] for k, f in fields.items() if k[1] == y]
            want = np.max(own, axis=0) if own else np.zeros((y2 - y1, x2 - x1))
            if not np.array_equal(V[y], want):
                return 'record of year %d (%d files) is %r, expected %r' % (y, len(own), V[y].tolist(), want.tolist())
        if fields:
            os.mkdir(os.path.join(d, 'plots'))
            V = hazard.loadFilesFromPath(d, c['tile'])
            want = sorted(f[y1:y2, x1:x2].tolist() for f in fields.values())
            if V.shape[0] != len(fields) or sorted(a.tolist() for a in V) != want:
                return '%d records from %d files: %r, expected %r' % (V.shape[0], len(fields), sorted(a.tolist() for a in V), want)
            hc = hazard.HazardCalculator.__new__(hazard.HazardCalculator)
            hc.calcCI, hc.inputPath, hc.numSim, hc.years, hc.nodata, hc.minRecords, hc.yrsPerSim = False, d, c['nyears'], np.array([2., 5.]), -9999., 2, 1
            got = {}
            names = {'GEV': 'calculateGEV', 'GPD': 'calculateGPD', 'power': 'calculatePower', 'emp': 'calculateEMP'}
            old = {n: getattr(hazard, n) for n in names.values()}
            try:
                for n in names.values():
                    setattr(hazard, n, lambda Vr, *a, n=n, **k: (got.setdefault(n, np.array(Vr)), 1, 2, 3))
                for e in names:
                    hc.evd = e
                    res = hc.calculateHazard(c['tile'])
                    rec = got.get(names[e])
                    if rec is None:
                        return 'method %s did not use its own fit' % e
                    if tuple(res[0]) != tuple(c['tile']):
                        return 'tile of the result is %r' % (res[0],)
                    n = c['nyears'] if e == 'GEV' else len(fields)
                    if rec.shape[0] != n:
                        return 'method %s was given %d records, expected %d' % (e, rec.shape[0], n)
            finally:
                for n, f in old.items():
                    setattr(hazard, n, f)
    finally:
        shutil.rmtree(d)
