"""Cell numbering (Utilities/stats.py): the grid has nx x ny cells, cell (i, j) has number i*nx+j
and covers [xMin+j*gx, xMin+(j+1)*gx) x (yMax-(i+1)*gy, yMax-i*gy]."""
from engine.contract import task
from engine.sym import *

ST = 'Utilities/stats.py'


def grid(ip, real):
    c = ip.ctx
    nx, ny, gx, gy, x0, y1 = [c.input(n, c.int(n)) for n in ('nx', 'ny', 'gx', 'gy', 'xMin', 'yMax')]
    c.assume(nx >= 1, ny >= 1, gx >= 1, gy >= 1)
    x1, y0 = x0 + nx * gx, y1 - ny * gy
    f = toreal if real else (lambda v: v)
    lim = PDict({'xMin': f(x0), 'xMax': f(x1), 'yMin': f(y0), 'yMax': f(y1)})
    sp = PDict({'x': f(gx), 'y': f(gy)})
    return nx, ny, gx, gy, x0, x1, y0, y1, lim, sp


def cell(ip, nx, ny):
    c = ip.ctx
    i, j = c.input('i', c.int('i')), c.input('j', c.int('j'))
    c.assume(0 <= i, i < ny, 0 <= j, j < nx)
    return i, j


def point(ip, i, j, g):
    nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = g
    c = ip.ctx
    lon, lat = c.input('lon', c.real('lon')), c.input('lat', c.real('lat'))
    c.assume(toreal(x0 + j * gx) <= lon, lon < toreal(x0 + (j + 1) * gx))
    c.assume(toreal(y1 - (i + 1) * gy) < lat, lat <= toreal(y1 - i * gy))
    # consequences used by the solver
    c.prove('lemma: cell inside domain', And(j * gx >= 0, (j + 1) * gx <= nx * gx, i * gy >= 0, (i + 1) * gy <= ny * gy,
                                             (j + 1) * gx == j * gx + gx, (i + 1) * gy == i * gy + gy))
    return lon, lat


for REAL in (False, True):
    T = 'real' if REAL else 'int'

    @task('P15', 'getCellNum gives the cell containing the point (%s limits)' % T, [ST + '::getCellNum'])
    def num(ip, REAL=REAL):
        g = grid(ip, REAL)
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = g
        i, j = cell(ip, nx, ny)
        lon, lat = point(ip, i, j, g)
        r = ip.call(ip.func(ST + '::getCellNum'), [lon, lat, lim, sp])
        ip.ctx.prove('post: number of the containing cell', And(is_int(r), eq(r, i * nx + j)))

    @task('P15', 'getCellNum rejects points outside (%s limits)' % T, [ST + '::getCellNum'])
    def rej(ip, REAL=REAL):
        g = grid(ip, REAL)
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = g
        c = ip.ctx
        lon, lat = c.input('lon', c.real('lon')), c.input('lat', c.real('lat'))
        c.assume(Or(lon < toreal(x0), lon >= toreal(x1), lat <= toreal(y0), lat > toreal(y1)))
        try:
            ip.call(ip.func(ST + '::getCellNum'), [lon, lat, lim, sp])
        except PyRaise as e:
            c.prove('post: rejection is a ValueError', e.name == 'ValueError')
            return
        c.prove('post: outside point rejected', False)

    @task('P15', 'maxCellNum counts the cells (%s limits)' % T, [ST + '::maxCellNum'])
    def mx(ip, REAL=REAL):
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = grid(ip, REAL)
        r = ip.call(ip.func(ST + '::maxCellNum'), [lim, sp])
        ip.ctx.prove('post: nx*ny-1', eq(r, nx * ny - 1))

    @task('P15', 'validCellNum is the range test (%s limits)' % T, [ST + '::validCellNum'])
    def valid(ip, REAL=REAL):
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = grid(ip, REAL)
        n = ip.ctx.input('n', ip.ctx.int('n'))
        r = ip.call(ip.func(ST + '::validCellNum'), [n, lim, sp])
        ip.ctx.prove('post: valid iff 0 <= n <= nx*ny-1', Iff(r, And(0 <= n, n <= nx * ny - 1)))

    @task('P15', 'getCellLonLat gives the north-west corner (%s limits)' % T, [ST + '::getCellLonLat'])
    def ll(ip, REAL=REAL):
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = grid(ip, REAL)
        c = ip.ctx
        i, j = cell(ip, nx, ny)
        c.prove('lemma: number splits', And((i * nx + j) / nx == i, (i * nx + j) % nx == j, i * nx >= 0))
        r = ip.call(ip.func(ST + '::getCellLonLat'), [i * nx + j, lim, sp])
        c.prove('post: corner', And(eq(r[0], x0 + j * gx), eq(r[1], y1 - i * gy)))

    @task('P15', 'getCellLonLat rejects invalid numbers (%s limits)' % T, [ST + '::getCellLonLat'],
          opts={'raise_ok': ('IndexError',)})
    def llbad(ip, REAL=REAL):
        nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = grid(ip, REAL)
        c = ip.ctx
        n = c.input('n', c.int('n'))
        c.assume(Or(n < 0, n >= nx * ny))
        try:
            ip.call(ip.func(ST + '::getCellLonLat'), [n, lim, sp])
        except PyRaise as e:
            c.prove('post: rejection is an IndexError', e.name == 'IndexError')
            return
        c.prove('post: invalid number rejected', False)


@task('P15', 'every point lies in exactly one cell (lemma)', [ST + '::getCellNum'])
def lemma(ip):
    nx, ny, gx, gy, x0, x1, y0, y1, lim, sp = grid(ip, False)
    c = ip.ctx
    lon = c.real('lon')
    c.assume(toreal(x0) <= lon, lon < toreal(x1))
    k = c.int('k')
    c.assume(k == floor(lon) - x0)
    j = k / gx
    c.prove('lemma: floor is in range', And(k >= 0, k < nx * gx))
    c.prove('lemma: quotient bounds', And(j * gx <= k, k < j * gx + gx))
    c.prove('lemma: column', And(j >= 0, j < nx, toreal(x0 + j * gx) <= lon, lon < toreal(x0 + j * gx + gx)))
