"""Local wind from regional wind and site multipliers (ProcessMultipliers/processMultipliers.py)."""
from fractions import Fraction
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar

M = 'ProcessMultipliers/processMultipliers.py'
ANG = z3.Function('angle', RS, RS, RS)
ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']                 # of the bands in a file with all directions
START = [('n', 0, 22.5), ('ne', 22.5, 67.5), ('e', 67.5, 112.5), ('se', 112.5, 157.5), ('s', 157.5, 202.5), ('sw', 202.5, 247.5), ('w', 247.5, 292.5), ('nw', 292.5, 337.5)]
MULT = {d: z3.Function('multiplier.' + d, IS, IS, RS) for d in ORDER}
WIND, BEAR, UU, VV = [z3.Function('projected.' + x, IS, IS, RS) for x in ('wind', 'bearing', 'u', 'v')]


def sector(b, r, c):
    """multiplier of the compass sector that contains the bearing, 0 <= b <= 360"""
    e = MULT['n'](r, c)
    for d, lo, hi in START[1:]:
        e = ite(And(le(Fraction(lo), b), lt(b, Fraction(hi))), MULT[d](r, c), e)
    return e


def atan2(ip, a, k):
    from engine.models import broadcast

    def f(y, x):
        t = ANG(toreal(y), toreal(x))
        return t
    return broadcast(ip, f, a[0], a[1], None)


@task('P21', 'bearing', [M + '::calculateBearing'], opts={'externals': {'numpy.arctan2': atan2}},
      assumes=('arctan2(y, x) is the angle of the vector (x, y), between -pi and pi',))
def bearing(ip):
    c = ip.ctx
    h, w = c.int('h'), c.int('w')
    c.assume(And(h >= 1, w >= 1))
    u, v = ip.fresh_array((h, w), 'r', 'u'), ip.fresh_array((h, w), 'r', 'v')
    r, q = c.int('r'), c.int('q')
    c.assume(And(0 <= r, r < h, 0 <= q, q < w))
    b = ip.call(ip.func(M + '::calculateBearing'), [u, v]).at(r, q)
    # angle, counter-clockwise from east, of the direction the wind comes from
    a = ANG(toreal(neg(v.at(r, q))), toreal(neg(u.at(r, q))))
    c.assume(And(le(neg(PI), a), le(a, PI)))
    c.prove('post: between 0 and 360 degrees', And(le(0, b), lt(b, 360)))
    d = sub(90, truediv(mul(180, a), PI))
    c.prove('post: clockwise from north, of the direction the wind comes from', Or(*[eq(b, add(d, 360 * k)) for k in (-1, 0, 1)]))


# -- files and rasters ---------------------------------------------------------------------------------------------------
def band(ip, fn, shape, sink=None, nodata=None):
    def read(ip, a, k):
        if not a:
            return SArr(shape, lambda i: fn(z(i[0]), z(i[1])), 'r')
        x, y, w, h = a[:4]
        ip.ctx.prove('read: inside the raster', And(le(0, x), le(0, y), le(add(x, w), shape[1]), le(add(y, h), shape[0])))
        return SArr((h, w), lambda i: fn(z(add(y, i[0])), z(add(x, i[1]))), 'r')
    return SObj(None, {'ReadAsArray': Native(read), 'SetNoDataValue': Native(lambda *a: None), 'FlushCache': Native(lambda *a: None), 'GetNoDataValue': Native(lambda *a: nodata),
                       'WriteArray': Native(sink or (lambda ip, a, k: None)), 'XSize': shape[1], 'YSize': shape[0]})


def make_raster(ip, args, kw):
    """contract of createRaster: a raster of the values given"""
    return SObj(None, {'of': args[0]})


def reproject(ip, args, kw):
    """contract of reprojectDataset: the source raster, resampled, under the name given"""
    src, _, dst = args[:3]
    c = ip.ctx
    h, w = ip.st['in']
    got = src.attrs['of']
    r, q = c.int('r'), c.int('q')
    which = None
    for name in ('wind', 'u', 'v'):
        a = ip.st[name]
        if c.must(Implies(And(0 <= r, lt(r, h), 0 <= q, lt(q, w)), eq(got.at(r, q), a.at(sub(sub(h, 1), r), q)))):
            which = name
    if which is None:
        u, v = [ip.st[x].at(sub(sub(h, 1), r), q) for x in 'uv']
        b = ip.call(ip.func(M + '::calculateBearing'), [SArr((1,), lambda i: u, 'r'), SArr((1,), lambda i: v, 'r')]).at(0)
        if c.must(Implies(And(0 <= r, lt(r, h), 0 <= q, lt(q, w)), eq(got.at(r, q), b))):
            which = 'bearing'
    c.prove('reprojected raster holds the wind, its components or its bearing', which is not None)
    m = kw.get('resampling_method')
    if which == 'bearing':
        c.prove('bearings are not interpolated', m == 'nearest')
    ip.st['files'][dst] = which


def gdal_open(ip, a, k):
    c = ip.ctx
    f = a[0]
    if f in ip.st['files']:
        fn = {'wind': WIND, 'bearing': BEAR, 'u': UU, 'v': VV}[ip.st['files'][f]]
        shape = ip.st['out']
        return SObj(None, {'GetRasterBand': Native(lambda ip, a, k: band(ip, fn, shape)), 'GetProjection': Native(lambda *a: 'projection'), 'GetGeoTransform': Native(lambda *a: 'transform')})
    return SObj(None, {'GetRasterBand': Native(lambda ip, a, k: band(ip, MULT[ORDER[a[0] - 1]], ip.st['out']))})


def load(ip, args, kw):
    """contract of loadRasterFile: the multipliers of one direction"""
    name = args[0]
    b = args[2] if len(args) > 2 else kw.get('band_number', 1)
    d = ORDER[b - 1] if name == 'combined' else name.rsplit('m4_', 1)[1][:-4]
    ip.ctx.prove('multipliers of one of the eight directions', d in MULT)
    return SArr(ip.st['out'], lambda i: MULT[d](z(i[0]), z(i[1])), 'r')


def gdal_module():
    def create(ip, a, k):
        sink = lambda ip, a, k: ip.st['written'].append(a)
        return SObj(None, {n: Native(lambda *a: None) for n in ('SetGeoTransform', 'SetProjection', 'FlushCache')} |
                    {'GetRasterBand': Native(lambda ip, a, k: band(ip, WIND, ip.st['out'], sink)), 'GetProjection': Native(lambda *a: 'p')})
    return SObj(None, {'Open': Native(gdal_open), 'GA_ReadOnly': 0, 'GDT_Float32': 6, 'GetDriverByName': Native(lambda *a: SObj(None, {'Create': Native(create)})),
                       'SetConfigOption': Native(lambda *a: None)})


NAMES = {(M, 'gdal'): gdal_module(), (M, 'gdalconst'): SObj(None, {'GRA_NearestNeighbour': 'nearest', 'GRA_Bilinear': 'bilinear'})}
CON = {M + '::createRaster': make_raster, M + '::reprojectDataset': reproject, M + '::loadRasterFile': load}
ASSUME = ('GDAL reads and writes the rasters it is given; resampled bearings stay between 0 and 360 degrees, both included (single precision rounds up)',
          'rasters of all directions have their bands in the order e, n, ne, nw, s, se, sw, w')


def local_wind(ip, out, b, wnd, r, q, inside, name='post'):
    c = ip.ctx
    c.assume(And(inside, 0 <= b, b <= 360))
    c.prove('%s: regional wind times the multiplier of the sector the wind blows from' % name, eq(out, mul(wnd, sector(b, r, q))))


for _comb in (None, 'combined'):
    @task('P21', 'whole raster' + (', one file for all directions' if _comb else ''), [M + '::processMult'], contracts=CON, opts={'names': NAMES}, assumes=ASSUME)
    def whole(ip, comb=_comb):
        c = ip.ctx
        h, w, H, W = [c.int(x) for x in ('h', 'w', 'H', 'W')]
        c.assume(And(h >= 2, w >= 2, H >= 1, W >= 1))
        ip.st = {'in': (h, w), 'out': (H, W), 'files': {}, 'written': []}
        for x in ('wind', 'u', 'v'):
            ip.st[x] = ip.fresh_array((h, w), 'r', x)
        lon, lat = ip.fresh_array((w,), 'r', 'lon'), ip.fresh_array((h,), 'r', 'lat')
        ip.call(ip.func(M + '::processMult'), [ip.st['wind'], ip.st['u'], ip.st['v'], lon, lat, 'dir'], {'combined_mulipliers_file': comb} if comb else {})
        c.prove('post: one raster of local wind is written', len(ip.st['written']) == 1)
        out = ip.st['written'][0][0]
        c.prove('post: of the size of the projected wind', And(eq(out.shape[0], H), eq(out.shape[1], W)))
        r, q = c.input('row', c.int('row')), c.input('column', c.int('col'))
        local_wind(ip, out.at(r, q), c.input('bearing', BEAR(r, q)), WIND(r, q), r, q, And(0 <= r, r < H, 0 <= q, q < W))


@task('P21', 'one segment', [M + '::processMultiplierSegment', M + '::loadAllBandArrayData'], opts={'names': NAMES, 'externals': {'threading.Lock': lambda ip, a, k: SObj(None, {})}}, assumes=ASSUME)
def segment(ip):
    c = ip.ctx
    H, W, x, y, w, h, sid, total = [c.int(n) for n in ('H', 'W', 'x', 'y', 'w', 'h', 'sid', 'total')]
    c.assume(And(0 <= x, 0 <= y, w >= 1, h >= 1, x + w <= W, y + h <= H, total >= 1, sid >= 1))
    got = []
    bands = PList([band(ip, MULT[d], (H, W)) for d in ORDER])
    out = band(ip, WIND, (H, W), lambda ip, a, k: got.append(a))
    ip.call(ip.func(M + '::processMultiplierSegment'), [PList([x, y, w, h, sid, total]), bands, band(ip, WIND, (H, W)), band(ip, BEAR, (H, W)), out])
    c.prove('post: the segment is written once', len(got) == 1)
    a = got[0]
    c.prove('post: written where it was read', And(eq(a[1], x), eq(a[2], y), eq(a[0].shape[0], h), eq(a[0].shape[1], w)))
    r, q = c.input('row', c.int('row')), c.input('column', c.int('col'))
    local_wind(ip, a[0].at(sub(r, y), sub(q, x)), c.input('bearing', BEAR(r, q)), WIND(r, q), r, q, And(y <= r, r < y + h, x <= q, q < x + w))
