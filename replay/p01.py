"""Regular grids with region limits of up to three decimals, all tile sizes; serial run of the hazard loop on them."""
import numpy as np
import hazard

FIELDS = ('loc', 'scale', 'shp', 'Rp', 'RPupper', 'RPlower')


def cases(rng, tier):
    for lim in ((128.2, 130.2, -13.0, -11.0), (64.1, 65.1, 32.3, 33.3), (-65.1, -64.1, -32.3, -31.3), (129.2, 130.7, -131.04 + 100, -28.0), (0, 1, -1, 0)):
        for step in (0.1, 0.05, 0.02):
            yield dict(lim=lim, step=step, margin=3, xs=rng.randint(1, 30), ys=rng.randint(1, 30), down=0, ci=0)
    while True:
        step = rng.choice([0.05, 0.1, 0.02, 0.25, 1.0, 0.5])
        dec = rng.choice([0, 1, 2, 3])
        x0, y0 = round(rng.uniform(-170, 170), dec), round(rng.uniform(-60, 60), dec)
        nx, ny = rng.randint(1, 40), rng.randint(1, 40)
        yield dict(lim=(x0, round(x0 + nx * step, 3), y0, round(y0 + ny * step, 3)), step=step, margin=rng.randint(0, 5),
                   xs=rng.choice([1, 2, 3, 7, 10, 40, 41, 100]), ys=rng.choice([1, 2, 3, 7, 10, 40, 41, 100]), down=rng.randint(0, 1), ci=rng.randint(0, 1))


def from_model(task, obl, m):
    if 'xdim' in m and 'xstep' in m and m['xdim'] < 300 and m['ydim'] < 300:
        return [dict(lim=(100, 100 + m['xdim'] - 1, -10, -10 + m['ydim'] - 1), step=1.0, margin=2, xs=m['xstep'], ys=m['ystep'], down=0, ci=0)]
    return []


def build(c):
    x0, x1, y0, y1 = c['lim']
    st, mg = c['step'], c['margin']
    k = lambda a, b: int(round((b - a) / st))
    lon = np.array([round(x0 + i * st, 6) for i in range(-mg, k(x0, x1) + mg + 1)])
    lat = np.array([round(y0 + i * st, 6) for i in range(-mg, k(y0, y1) + mg + 1)])
    if c['down']:
        lat = lat[::-1].copy()
    grid = dict(xMin=x0, xMax=x1, yMin=y0, yMax=y1)
    tg = hazard.TileGrid(grid, lon, lat, c['xs'], c['ys'])
    inx = [i for i, v in enumerate(lon) if round(x0 * 1000) <= round(v * 1000) <= round(x1 * 1000)]
    iny = [i for i, v in enumerate(lat) if round(y0 * 1000) <= round(v * 1000) <= round(y1 * 1000)]
    return lon, lat, tg, inx, iny


def calculator(tg, ci, years=3):
    hc = hazard.HazardCalculator.__new__(hazard.HazardCalculator)
    lon, lat = tg.getDomainExtent()
    hc.tilegrid, hc.calcCI, hc.years, hc.nodata = tg, bool(ci), np.arange(years, dtype='f') + 1, -9999.
    for f in FIELDS:
        setattr(hc, f, np.full(((years,) if f[0] == 'R' else ()) + (len(lat), len(lon)), -1, dtype='d'))
    return hc


def value(f, r, y, x):
    return FIELDS.index(f) * 1e7 + (r + 1) * 1e6 + y * 1000 + x


def fake(tile, ci, years=3):
    x1, x2, y1, y2 = tile
    out = {}
    for f in FIELDS:
        a = np.array([[[value(f, r, y, x) for x in range(x1, x2)] for y in range(y1, y2)] for r in range(years)])
        a = a.reshape(years, max(y2 - y1, 0), max(x2 - x1, 0))
        out[f] = a if f[0] == 'R' else (a[0] if years else a)
    t = (tuple(tile), out['Rp'], out['loc'], out['scale'], out['shp'])
    return t + ((out['RPupper'], out['RPlower']) if ci else ())


def compare(hc, tg, ci, years=3):
    for f in (FIELDS if ci else FIELDS[:4]):
        a = getattr(hc, f)
        for y in range(a.shape[-2]):
            for x in range(a.shape[-1]):
                for r in (range(years) if f[0] == 'R' else (0,)):
                    v = a[r, y, x] if f[0] == 'R' else a[y, x]
                    w = value(f, r, y + tg.jmin, x + tg.imin)
                    if v != w:
                        return '%s at point (%d, %d) of the region is %r, expected the value %r of its tile' % (f, y, x, v, w)


def check(c):
    lon, lat, tg, inx, iny = build(c)
    if not inx or not iny:
        return None
    where = 'region %r, tile size %dx%d' % (c['lim'], c['xs'], c['ys'])
    elon, elat = tg.getDomainExtent()
    if list(elon) != list(lon[inx]) or list(elat) != list(lat[iny]):
        return '%s: domain %g..%g (%d) x %g..%g (%d), expected %d x %d points' % (where, elon[0], elon[-1], len(elon), elat[0], elat[-1], len(elat), len(inx), len(iny))
    tiles = hazard.getTiles(tg)
    if len(tiles) != tg.num_tiles:
        return '%s: %d tiles listed, %d counted' % (where, len(tiles), tg.num_tiles)
    seen = np.zeros((len(lat), len(lon)), int)
    for t in tiles:
        x1, x2, y1, y2 = t
        if not (0 <= x1 < x2 <= len(lon) and 0 <= y1 < y2 <= len(lat)):
            return '%s: tile %r outside the grid or empty' % (where, t)
        if x2 - x1 > c['xs'] or y2 - y1 > c['ys']:
            return '%s: tile %r larger than asked for' % (where, t)
        seen[y1:y2, x1:x2] += 1
    want = np.zeros_like(seen)
    want[np.ix_(iny, inx)] = 1
    if (seen != want).any():
        y, x = np.argwhere(seen != want)[0]
        return '%s: grid point (%g, %g) in %d tiles, expected %d' % (where, lon[x], lat[y], seen[y, x], want[y, x])
    if len(inx) * len(iny) <= 400:
        hc = calculator(tg, c['ci'])
        hc.calculateHazard = lambda t: fake(t, c['ci'])

        class One:
            rank, size = 0, 1

        class M:
            Status = object
        hazard.comm, hazard.MPI = One(), M()
        hc.dumpHazardFromTiles(tiles)
        return compare(hc, tg, c['ci'])
