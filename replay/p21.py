"""Real bearings, real segments over in-memory bands, and whole real rasters written and read with GDAL."""
import math
import os
import queue
import shutil
import tempfile
import warnings
import numpy as np
warnings.filterwarnings('ignore')
from osgeo import gdal
from ProcessMultipliers import processMultipliers as pm
gdal.UseExceptions()

ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
NAMES = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']


def cases(rng, tier):
    while True:
        kind = rng.choice(['bearing', 'bearing', 'segment', 'segment', 'segment', 'whole'])
        yield dict(kind=kind, seed=rng.randrange(10 ** 6), single=rng.random() < 0.5, comb=rng.random() < 0.5, v2=rng.random() < 0.5, h=rng.randint(2, 9), w=rng.randint(2, 9))


def from_model(task, obl, m):
    kind = 'bearing' if task == 'bearing' else 'segment' if 'segment' in task else 'whole'
    out = [dict(kind=kind, seed=s, single=s % 2 == 0, comb='one file' in task, v2=False, h=7, w=8) for s in range(6)]
    if 'bearing' in m and kind == 'segment':
        out.insert(0, dict(kind=kind, seed=1, single=False, comb=False, v2=False, h=3, w=3, b=float(m['bearing'])))
    return out


def sector(b):
    return NAMES[int(math.floor((b + 22.5) / 45.)) % 8]


def vectors(r, shape, single):
    """random vectors, many on and next to the compass points and sector boundaries"""
    b = r.uniform(0, 360, shape)
    k = r.uniform(size=shape)
    near = r.randint(0, 17, shape) * 22.5
    b = np.where(k < 0.3, near + r.choice([0, 1e-5, -1e-5, 1e-7, -1e-7, -1e-9], shape), b)
    s = r.uniform(1, 80, shape)
    u, v = -s * np.sin(np.radians(b)), -s * np.cos(np.radians(b))
    k = r.uniform(size=shape)
    u = np.where(k < 0.05, 0., u)
    v = np.where((k > 0.05) & (k < 0.1), 0., v)
    if single:
        u, v = u.astype('f4'), v.astype('f4')
    return s, u, v


def check(c):
    r = np.random.RandomState(c['seed'])
    if c['kind'] == 'bearing':
        s, u, v = vectors(r, (c['h'], c['w']), c['single'])
        b = pm.calculateBearing(u, v)
        if b.shape != u.shape:
            return 'bearing of shape %r for components of shape %r' % (b.shape, u.shape)
        for i in np.ndindex(u.shape):
            if u[i] == 0 and v[i] == 0:
                continue
            want = math.degrees(math.atan2(-float(u[i]), -float(v[i]))) % 360.
            if abs((float(b[i]) - want + 180) % 360 - 180) > (1e-3 if c['single'] else 1e-9):
                return 'components %r %r: bearing %r, the wind comes from %r' % (u[i], v[i], b[i], want)
            if not 0 <= b[i] <= 360:
                return 'components %r %r: bearing %r' % (u[i], v[i], b[i])
        return None
    if c['kind'] == 'segment':
        return segment(c, r)
    work = tempfile.mkdtemp(prefix='p21-')
    try:
        return whole(c, r, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Band:
    def __init__(self, a, nodata=None):
        self.a, self.nodata = a, nodata
        self.count = np.zeros(a.shape, int)

    def ReadAsArray(self, x=0, y=0, w=None, h=None):
        w, h = self.a.shape[1] if w is None else w, self.a.shape[0] if h is None else h
        if x < 0 or y < 0 or x + w > self.a.shape[1] or y + h > self.a.shape[0]:
            raise AssertionError('reads (%d, %d) + (%d, %d) outside the raster' % (x, y, w, h))
        return self.a[y:y + h, x:x + w].copy()

    def GetNoDataValue(self):
        return self.nodata

    def WriteArray(self, a, x=0, y=0):
        self.a[y:y + a.shape[0], x:x + a.shape[1]] = a
        self.count[y:y + a.shape[0], x:x + a.shape[1]] += 1

    def FlushCache(self):
        pass


def local(b, wind, mult, got, i, where):
    want = wind * mult[sector(b)]
    if abs(got - want) > 1e-3 * max(1., abs(want)):
        # on a boundary the neighbouring sector is as good in single precision
        near = [mult[sector(b + e)] * wind for e in (-1e-4, 1e-4)]
        if not (abs((b + 22.5) / 45 - round((b + 22.5) / 45)) < 1e-6 and any(abs(got - x) <= 1e-3 * max(1., abs(x)) for x in near)) or got == 0:
            return '%s: bearing %r, wind %r: local wind %r, with the multiplier of sector %s it is %r' % (where, b, wind, got, sector(b), want)


def segment(c, r):
    H, W = c['h'], c['w']
    wind = r.uniform(1, 80, (H, W)).astype('f4')
    b = np.where(r.uniform(size=(H, W)) < 0.4, r.randint(0, 17, (H, W)) * 22.5, r.uniform(0, 360, (H, W))).astype('f4')
    b[0, 0] = np.float32(359.999999)
    if 'b' in c:
        b[:] = c['b']
    nodata = -9999. if c['single'] else None
    mult = {d: r.uniform(0.5, 1.5, (H, W)).astype('f4') + k * 2 for k, d in enumerate(ORDER)}
    hole = np.zeros((H, W), bool)
    if nodata is not None:
        hole[-1, -1] = True
    raw = {d: np.where(hole, np.float32(nodata), m) if nodata is not None else m for d, m in mult.items()}
    out = Band(np.full((H, W), -1., 'f4'))
    x, y = int(r.randint(0, W)), int(r.randint(0, H))
    w, h = int(r.randint(1, W - x + 1)), int(r.randint(1, H - y + 1))
    try:
        pm.processMultiplierSegment([x, y, w, h, 3, 7], [Band(raw[d], nodata) for d in ORDER], Band(wind), Band(b), out)
    except AssertionError as e:
        return str(e)
    for i in np.ndindex((H, W)):
        inside = y <= i[0] < y + h and x <= i[1] < x + w
        if not inside:
            if out.a[i] != -1:
                return 'segment (%d, %d) + (%d, %d) writes pixel %r' % (x, y, w, h, i)
            continue
        m = local(float(b[i]), float(wind[i]), {d: 1. if hole[i] else float(mult[d][i]) for d in ORDER}, float(out.a[i]), i, 'pixel %r' % (i,))
        if m:
            return m


def whole(c, r, work):
    h, w = c['h'], c['w']
    s, u, v = vectors(r, (h, w), True)
    s = s.astype('f4')
    d = 0.5
    lon, lat = 140. + d * np.arange(w), (-20. + d * np.arange(h))[::-1].copy()
    MH, MW = 2 * h, 2 * w
    mult = {q: (r.uniform(0.5, 1.5, (MH, MW)) + k * 2).astype('f4') for k, q in enumerate(ORDER)}
    x0, y0, md = 140., -20. + d * h, d / 2

    def tif(name, arrays):
        ds = gdal.GetDriverByName('GTiff').Create(name, MW, MH, len(arrays), gdal.GDT_Float32)
        ds.SetGeoTransform((x0, md, 0, y0, 0, -md))
        srs = pm.osr.SpatialReference()
        srs.ImportFromEPSG(4326)
        ds.SetProjection(srs.ExportToWkt())
        for k, a in enumerate(arrays):
            ds.GetRasterBand(k + 1).WriteArray(a)
            ds.GetRasterBand(k + 1).SetNoDataValue(-9999)
        ds.FlushCache()
        del ds
    comb = None
    if c['comb']:
        comb = os.path.join(work, 'm4_source.tif')
        tif(comb, [mult[q] for q in ORDER])
    else:
        for q in ORDER:
            tif(os.path.join(work, 'm4_%s.tif' % q), [mult[q]])
    if c['v2']:
        out = pm.processMultV2(s, u, v, lon, lat, work, ORDER, 3, int(r.randint(1, 6)), 0., combined_mulipliers_file=comb)
    else:
        out = pm.processMult(s, u, v, lon, lat, work, combined_mulipliers_file=comb)
    read = lambda n: gdal.Open(n).ReadAsArray()
    got = read(out)
    W, B, U, V = [read(os.path.join(work, n + '_prj.tif')) for n in ('gust', 'bear', 'uu', 'vv')]
    for i in np.ndindex((MH, MW)):
        # which cell of the gust field the pixel lies in
        x, y = x0 + (i[1] + 0.5) * md, y0 - (i[0] + 0.5) * md
        a, b = int((lat[0] + d - y) / d), int((x - lon[0]) / d)
        if abs(U[i] - u[a, b]) > 1e-4 or abs(V[i] - v[a, b]) > 1e-4:
            return 'pixel %r: components %r %r, the gust field has %r %r there' % (i, U[i], V[i], u[a, b], v[a, b])
        if U[i] == 0 and V[i] == 0:
            continue
        want = math.degrees(math.atan2(-float(U[i]), -float(V[i]))) % 360.
        if abs((float(B[i]) - want + 180) % 360 - 180) > 1e-3:
            return 'pixel %r: bearing %r, components %r %r come from %r' % (i, B[i], U[i], V[i], want)
        m = local(float(B[i]), float(W[i]), {q: float(mult[q][i]) for q in ORDER}, float(got[i]), i, 'pixel %r' % (i,))
        if m:
            return m
