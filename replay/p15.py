"""Domains with whole-degree limits and cell sizes dividing them; points on and near cell edges; all cell numbers."""
from Utilities import stats


def cases(rng, tier):
    for x0 in (-3, -2, 0, 1, 100, 178, -180):
        for y1 in (-5, 0, 2, 3, -1, 40):
            for gx, gy, nx, ny in ((1, 1, 4, 5), (2, 1, 3, 4), (1, 3, 5, 2), (5, 2, 2, 3), (1, 1, 1, 1), (3, 3, 2, 2)):
                for fl in (0, 1):
                    yield dict(x0=x0, y1=y1, gx=gx, gy=gy, nx=nx, ny=ny, fl=fl, pts=[])
    while True:
        gx, gy, nx, ny = rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 9), rng.randint(1, 9)
        x0, y1 = rng.randint(-180, 300), rng.randint(-60, 60)
        pts = [(x0 + rng.uniform(-1, nx * gx + 1), y1 - rng.uniform(-1, ny * gy + 1)) for _ in range(30)]
        yield dict(x0=x0, y1=y1, gx=gx, gy=gy, nx=nx, ny=ny, fl=rng.randint(0, 1), pts=pts)


def from_model(task, obl, m):
    if m['nx'] * m['ny'] > 200000:
        return []
    return [dict(x0=m['xMin'], y1=m['yMax'], gx=m['gx'], gy=m['gy'], nx=m['nx'], ny=m['ny'], fl=int('real' in task),
                 pts=[(m['lon'], m['lat'])] if 'lon' in m else [])]


def check(c):
    f = float if c['fl'] else int
    x0, y1, gx, gy, nx, ny = c['x0'], c['y1'], c['gx'], c['gy'], c['nx'], c['ny']
    lim = dict(xMin=f(x0), xMax=f(x0 + nx * gx), yMin=f(y1 - ny * gy), yMax=f(y1))
    sp = dict(x=f(gx), y=f(gy))
    top = stats.maxCellNum(lim, sp)
    if top != nx * ny - 1:
        return 'maxCellNum %r, expected %d for %r %r' % (top, nx * ny - 1, lim, sp)
    pts = list(c['pts'])
    for j in range(min(nx, 12) + 1):
        for i in range(min(ny, 12) + 1):
            for dx in (0, 0.25, 0.999, -0.001):
                for dy in (0, -0.25, -0.999, 0.001):
                    pts.append((x0 + j * gx + dx, y1 - i * gy + dy))
    seen = {}
    for n in [-2, -1] + list(range(min(nx * ny, 300))) + [nx * ny, nx * ny + 1, nx * ny + nx, 10 * nx * ny]:
        ok = 0 <= n < nx * ny
        if bool(stats.validCellNum(n, lim, sp)) != ok:
            return 'validCellNum(%d) wrong for %r %r' % (n, lim, sp)
        try:
            lo, la = stats.getCellLonLat(n, lim, sp)
        except IndexError:
            if ok:
                return 'getCellLonLat(%d) rejected for %r %r' % (n, lim, sp)
            continue
        if not ok:
            return 'getCellLonLat(%d) accepted for %r %r' % (n, lim, sp)
        if (lo, la) in seen:
            return 'cells %d and %d share a corner' % (n, seen[(lo, la)])
        seen[(lo, la)] = n
        b = stats.getCellNum(lo, la, lim, sp)
        if b != n:
            return 'cell %d has corner %r whose cell number is %r, limits %r space %r' % (n, (lo, la), b, lim, sp)
    for lon, lat in pts:
        inside = lim['xMin'] <= lon < lim['xMax'] and lim['yMin'] < lat <= lim['yMax']
        try:
            n = stats.getCellNum(lon, lat, lim, sp)
        except ValueError:
            if inside:
                return 'point %r rejected, limits %r space %r' % ((lon, lat), lim, sp)
            continue
        if not inside:
            return 'outside point %r accepted, limits %r' % ((lon, lat), lim)
        if not 0 <= n <= top:
            return 'point %r has cell number %r outside 0..%d' % ((lon, lat), n, top)
        lo, la = stats.getCellLonLat(n, lim, sp)
        if not (lo <= lon < lo + gx and la - gy < lat <= la):
            return 'point %r given cell %d with corner %r, limits %r space %r' % ((lon, lat), n, (lo, la), lim, sp)
