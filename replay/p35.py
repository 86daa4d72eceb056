"""Results of random size and content saved by the real code to real files and read back with the netCDF library."""
import importlib
import os
import shutil
import tempfile
import types
import numpy as np
import netCDF4
import hazard
from Utilities import nctools, parallel
from StatInterface import KDEOrigin as ko
from StatInterface.generateStats import GenerateStats
from TrackGenerator.TrackGenerator import TrackGenerator
from replay.names35 import CROSS, EV

parallel.MPI = types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(size=1, rank=0))
COEFFS = ['mu', 'alpha', 'sig', 'min', 'lmu', 'lalpha', 'lsig', 'lmin', 'phi', 'lphi']
KINDS = ['any', 'variable', 'hazard', 'stats', 'model', 'crossings', 'pdf', 'cdf'] + sorted(EV)
TASKS = {'any file': 'any', 'a dimension': 'any', 'a variable with values': 'variable', 'hazard file': 'hazard', 'statistics of the cells': 'stats', 'coefficients of the track model': 'model',
         'evaluation, crossings': 'crossings', 'origins, density': 'pdf', 'origins, cumulative': 'cdf'}


def cases(rng, tier):
    while True:
        for k in KINDS:
            yield dict(kind=k, seed=rng.randrange(10 ** 6), H=rng.randint(1, 9), W=rng.randint(1, 9))


def from_model(task, obl, m):
    k = TASKS.get(task) or task.split(', ')[1]
    small = lambda v, d: v if isinstance(v, int) and 1 <= v <= 20 else d
    return [dict(kind=k, seed=s, H=small(m.get('H', m.get('ny')), 3 + s % 4) if s < 2 else 2 + s % 5, W=small(m.get('W', m.get('nx')), 5) if s < 2 else 1 + s % 7) for s in range(12)]


def same(name, coords, fields, nodata=None):
    with netCDF4.Dataset(name) as d:
        d.set_auto_mask(False)
        if sorted(d.dimensions) != sorted(coords):
            return 'dimensions %r instead of %r' % (sorted(d.dimensions), sorted(coords))
        for n, x in coords.items():
            g = d.variables[n][:]
            if g.shape != np.shape(x) or not np.allclose(g, x, rtol=1e-5, atol=1e-5):
                return 'coordinates %s: %r instead of %r' % (n, g, x)
        for n, (dims, x) in fields.items():
            if n not in d.variables:
                return 'no field %s' % n
            v = d.variables[n]
            if set(v.dimensions) != set(dims):
                return '%s over %r' % (n, v.dimensions)
            g = np.transpose(v[:], [v.dimensions.index(q) for q in dims]) if dims else v[()]
            if g.shape != x.shape or not np.allclose(g, x, rtol=1e-5, atol=2e-5, equal_nan=True):
                bad = np.argwhere(~np.isclose(g, x, rtol=1e-5, atol=2e-5, equal_nan=True)) if g.shape == x.shape else []
                return '%s: %s' % (n, 'shape %r instead of %r' % (g.shape, x.shape) if not len(bad) else 'at %r %r instead of %r' % (bad[0].tolist(), g[tuple(bad[0])], x[tuple(bad[0])]))
            if nodata is not None and getattr(v, '_FillValue', None) != np.array(nodata, dtype=v.dtype):
                return 'missing values of %s marked by %r instead of %r' % (n, getattr(v, '_FillValue', None), nodata)


def check(c):
    r = np.random.RandomState(c['seed'])
    H, W = c['H'], c['W']
    work = tempfile.mkdtemp(prefix='p35-')
    name = os.path.join(work, 'f.nc')
    new = lambda cls, **a: (lambda o: (o.__dict__.update(a), o)[1])(cls.__new__(cls))
    axis = lambda n: np.sort(r.uniform(-90, 90, n))
    real = lambda *s: r.uniform(-100, 100, s)
    try:
        if c['kind'] == 'any':
            dims = {k: dict(name='xyzt'[k], values=axis(int(r.randint(1, 6))), dtype=str(r.choice(['f', 'd'])), atts={'units': 'u%d' % k}) for k in range(int(r.randint(1, 5)))}
            lens = {e['name']: len(e['values']) for e in dims.values()}
            vs = {}
            for k in range(int(r.randint(0, 6))):
                d = [e['name'] for e in dims.values() if r.rand() < .7]
                vs[k] = dict(name='v%d' % k, dims=tuple(d), values=np.array(real(*[lens[x] for x in d])) if d else None, dtype=str(r.choice(['f', 'd'])), atts={'n': k})
                if r.rand() < .3:
                    vs[k]['least_significant_digit'] = 5
            nd = float(r.choice([-9999, -32768, 1e20]))
            nctools.ncSaveGrid(name, dims, vs, nodata=nd, gatts={})
            bad = same(name, {e['name']: e['values'] for e in dims.values()}, {e['name']: (e['dims'], e['values']) for e in vs.values() if e['values'] is not None}, nd)
            if bad:
                return bad
            with netCDF4.Dataset(name) as d:
                for e in list(vs.values()):
                    if e['name'] not in d.variables or d.variables[e['name']].n != e['atts']['n']:
                        return 'attributes of %s' % e['name']
                for e in list(dims.values()):
                    if d.variables[e['name']].units != e['atts']['units']:
                        return 'attributes of %s' % e['name']
            return None
        if c['kind'] == 'variable':
            x = real(H, W)
            with netCDF4.Dataset(name, 'w') as d:
                nctools.ncCreateDim(d, 'lat', axis(H), 'f')
                nctools.ncCreateDim(d, 'lon', axis(W), 'f')
                nctools.ncCreateVar(d, 'wspd', ('lat', 'lon'), 'd', data=x)
                g = d.variables['wspd'][:]
            return None if np.array_equal(np.asarray(g), x) else 'variable made with values holds %r' % (g.ravel()[:3],)
        if c['kind'] == 'hazard':
            Y, a, b, i0, j0 = int(r.randint(1, 5)), H + int(r.randint(0, 4)), W + int(r.randint(0, 4)), 0, 0
            i0, j0 = int(r.randint(0, b - W + 1)), int(r.randint(0, a - H + 1))
            lat, lon, years = axis(a), axis(b), np.sort(r.uniform(1, 1000, Y))
            g = new(hazard.TileGrid, wf_lon=lon, wf_lat=lat, imin=i0, imax=i0 + W - 1, jmin=j0, jmax=j0 + H - 1)
            f2, f3 = {x: real(H, W) for x in ('loc', 'scale', 'shp')}, {x: real(Y, H, W) for x in ('Rp', 'RPupper', 'RPlower')}
            new(hazard.HazardCalculator, tilegrid=g, years=years, outputPath=work, nodata=-9999, global_atts={}, **f2, **f3).saveHazard()
            fields = {n: (('lat', 'lon'), x) for n, x in f2.items()}
            fields.update({n: (('ari', 'lat', 'lon'), f3[x]) for n, x in (('wspd', 'Rp'), ('wspdupper', 'RPupper'), ('wspdlower', 'RPlower'))})
            return same(os.path.join(work, 'hazard.nc'), {'ari': years, 'lat': lat[j0:j0 + H], 'lon': lon[i0:i0 + W]}, fields, -9999)
        if c['kind'] in ('stats', 'model'):
            dx, dy = float(r.choice([1, 2, 2.5, 5])), float(r.choice([1, 2, 2.5, 5]))
            x0, y1 = float(r.randint(80, 160)), float(r.randint(-30, 30))
            lim = dict(xMin=x0, xMax=x0 + W * dx, yMin=y1 - H * dy, yMax=y1)
            coords = {'lat': y1 - dy * np.arange(H), 'lon': x0 + dx * np.arange(W)}
            make = lambda: types.SimpleNamespace(**{n: real(H * W) for n in COEFFS})
            if c['kind'] == 'stats':
                A = make()
                o = new(GenerateStats, gridLimit=lim, gridSpace=dict(x=dx, y=dy), maxCell=H * W - 1, coeffs=A, missingValue=-9999, logger=types.SimpleNamespace(debug=lambda *a: None, info=lambda *a: None))
                o.save(name, 'speed')
                fields = {n: (('lat', 'lon'), getattr(A, n).reshape(H, W)) for n in COEFFS}
                fields['cell'] = (('lat', 'lon'), np.arange(H * W).reshape(H, W))
                return same(name, coords, fields, -9999)
            A = {p: make() for p in ('v', 'b', 'p', 'dp')}
            new(TrackGenerator, gridLimit=lim, gridSpace=dict(x=dx, y=dy), processPath=work, missingValue=-9999, **{p + 'Stats': types.SimpleNamespace(coeffs=A[p]) for p in A}).dumpAllCellCoefficients()
            return same(os.path.join(work, 'coefficients.nc'), coords, {p + n: (('lat', 'lon'), getattr(A[p], n).reshape(H, W)) for p in A for n in COEFFS[:8]}, -9999)
        if c['kind'] == 'crossings':
            m = importlib.import_module('Evaluate.longitudeCrossing')
            lat, lon, A = axis(H + 1), axis(W), {x: real(H, W) for x in CROSS.values()}
            new(m.LongitudeCrossing, gateLats=lat, gateLons=lon, dataPath=work, gatts={}, **A).save()
            return same(os.path.join(work, 'lonCrossings.nc'), {'lat': lat[:-1], 'lon': lon}, {n: (('lat', 'lon'), A[x]) for n, x in CROSS.items()})
        if c['kind'] in ('pdf', 'cdf'):
            x, y = axis(W), axis(H)[::-1]
            f = lambda data_predict: data_predict[0] * 3 + np.sin(data_predict[1])
            kde = types.SimpleNamespace(pdf=f, cdf=f)
            keep = ko.KDEMultivariate
            ko.KDEMultivariate = lambda *a, **k: kde
            try:
                o = new(ko.KDEOrigin, x=x, y=y, kde=kde, lonLat=None, bw=None, processPath=work, outputPath=work)
                (o.generateKDE if c['kind'] == 'pdf' else o.generateCdf)(save=True)
            finally:
                ko.KDEMultivariate = keep
            return same(os.path.join(work, 'originPDF.nc' if c['kind'] == 'pdf' else 'originCDF.nc'), {'lat': y, 'lon': x}, {'gpdf' if c['kind'] == 'pdf' else 'gcdf': (('lat', 'lon'), x[None, :] * 3 + np.sin(y)[:, None])})
        cls, names, less, out = EV[c['kind']]
        m = importlib.import_module('Evaluate.' + c['kind'])
        lat, lon, A = axis(H + less), axis(W + less), {x: real(W, H) for x in names.values()}
        new(getattr(m, cls), lat_range=lat, lon_range=lon, dataPath=work, histMinCP=real(3), synMinCP=real(4), **A).save()
        return same(os.path.join(work, out), {'lat': lat[:H], 'lon': lon[:W]}, {n: (('lon', 'lat'), A[x]) for n, x in names.items()})
    finally:
        shutil.rmtree(work, ignore_errors=True)
