"""Compiled kernels (Fortran, read from the source on every run) against the interpreted code they replace.

Both runs start at the same function of /repo: once with the compiled module importable, its kernel
being the Fortran source executed by engine/fortran.py, and once with the import failing."""
import z3
from engine.contract import task
from engine.sym import *
from engine import congruence, fortran
from engine.models import REG

W = 'wind/windmodels.py'
WF = 'wind/windmodels.f90'
MU = 'Utilities/maputils.py'
PP = 'PressureInterface/pressureProfile.py'
congruence.ENABLED = True
OPTS = {'definedness': False, 'compiled': {}}
ASSUME = ['grids are C-contiguous arrays of doubles', 'literals and arithmetic of the compiled code are taken as the decimal numbers and real arithmetic',
          'OpenMP directives are comments (the build does not enable OpenMP)', 'f2py passes arguments by position, extents last']


def compiled(ip, pairs):
    """makes the compiled kernels importable"""
    ip.opts = dict(ip.opts)
    ip.opts['compiled'] = {}
    for key, rel, name in pairs:
        k = fortran.load(rel, name)
        ip.opts['compiled'][key] = Native(k, name)
        ip.ctx.covered.add('%s::%s' % (rel, name))


def interpreted(ip):
    ip.opts = dict(ip.opts)
    ip.opts['compiled'] = {}


def grid(ip, name='R'):
    c = ip.ctx
    n, m = c.int('n'), c.int('m')
    i, j = c.int('i'), c.int('j')
    c.assume(n >= 1, m >= 1, 0 <= i, i < n, 0 <= j, j < m)
    R = ip.fresh_array((n, m), 'r', name)
    r = c.input('r', R.at(i, j))
    c.assume(r > 0)
    return R, (i, j)


def storm(ip, cls='HollandWindProfile', side=None):
    """a profile object with arbitrary parameters: what its constructor computed does not matter here"""
    c = ip.ctx
    o = SObj(ip.func(W + '::' + cls))
    for k in ('rMax', 'vMax', 'beta', 'dP', 'rho', 'f'):
        o.attrs[k] = c.input(k, c.real(k))
    c.assume(o.attrs['rMax'] > 0, o.attrs['beta'] > 0, o.attrs['dP'] > 0, o.attrs['rho'] > 0, o.attrs['vMax'] > 0)
    f = o.attrs['f']
    if side:
        c.assume(f > 0 if side == 'northern' else f < 0)
    elif not c.branch(f > 0):
        c.assume(f < 0)
    d2, d1 = c.input('d2Vm', c.real('d2Vm')), c.input('dVm', c.real('dVm'))
    ip.contracts[W + '::HollandWindProfile.secondDerivative'] = lambda ip, a, k: d2
    ip.contracts[W + '::HollandWindProfile.firstDerivative'] = lambda ip, a, k: d1
    return o


for METHOD, KERNEL in (('velocity', 'fhollandvel'), ('vorticity', 'fhollandvort')):
    @task('P08', 'Holland %s' % METHOD, [W + '::HollandWindProfile.' + METHOD, WF + '::' + KERNEL], opts=OPTS, assumes=ASSUME)
    def holland(ip, METHOD=METHOD, KERNEL=KERNEL):
        c = ip.ctx
        R, k = grid(ip)
        o = storm(ip)
        r0 = R.at(k)
        c.branch(le(r0, o.attrs['rMax']))
        compiled(ip, [('wind._windmodels.' + KERNEL, WF, KERNEL)])
        a = ip.call(ip.getattr(o, METHOD), [R])
        interpreted(ip)
        b = ip.call(ip.getattr(o, METHOD), [R])
        c.prove('post: same value at every grid point', eq(a.at(k), b.at(k)))
        c.prove('frame: distances unchanged', eq(R.at(k), r0))


@task('P08', 'Holland pressure', [PP + '::PrsProfile.holland', 'PressureInterface/pressureProfile.f90::fhollandpressure'], opts=OPTS, assumes=ASSUME)
def pressure(ip):
    c = ip.ctx
    R, k = grid(ip)
    o = SObj(ip.func(PP + '::PrsProfile'))
    for n in ('rMax', 'beta', 'dP', 'pCentre'):
        o.attrs[n] = c.input(n, c.real(n))
    o.attrs['R'] = R
    o.attrs['logger'] = Opaque('logger')
    r0 = R.at(k)
    compiled(ip, [('PressureInterface._pressureProfile.fhollandpressure', 'PressureInterface/pressureProfile.f90', 'fhollandpressure')])
    a = ip.call(ip.getattr(o, 'holland'), [])
    interpreted(ip)
    b = ip.call(ip.getattr(o, 'holland'), [])
    c.prove('post: same value at every grid point', eq(a.at(k), b.at(k)))
    c.prove('frame: distances unchanged', eq(R.at(k), r0))


def repeatable(name):
    """the same call has the same result in both runs"""
    def call(ip, args, kwargs):
        memo = ip.ctx.__dict__.setdefault('repeat', {})
        if memo.get('path') is not ip.ctx.inputs:
            memo.clear()
            memo['path'] = ip.ctx.inputs
        k = (name,) + tuple(z(a).get_id() if is_num(a) else repr(a) for a in args)
        if k not in memo:
            memo[k] = REG[name](ip, args, kwargs), args
        r = memo[k][0]
        return SArr(r.shape, r.snapshot(), r.kind) if isinstance(r, SArr) else r
    return call


@task('P08', 'distance and bearing', [MU + '::makeGrid', MU + '::gridLatLonDist', MU + '::gridLatLonBear', 'Utilities/maputils.f90::beardist'],
      opts=OPTS, assumes=ASSUME, externals={n: repeatable(n) for n in ('builtins.int', 'numpy.arange')})
def beardist(ip):
    c = ip.ctx
    lon, lat, margin, res = [c.input(k, c.real(k)) for k in ('cLon', 'cLat', 'margin', 'resolution')]
    c.assume(margin > 0, res >= Fraction(1, 1000), lat > -90, lat < 90)
    compiled(ip, [('Utilities._maputils.beardist', 'Utilities/maputils.f90', 'beardist')])
    R1, t1 = ip.call(ip.func(MU + '::makeGrid'), [lon, lat, margin, res])
    interpreted(ip)
    R2, t2 = ip.call(ip.func(MU + '::makeGrid'), [lon, lat, margin, res])
    i, j = c.int('i'), c.int('j')
    c.prove('post: same shape', And(eq(R1.shape[0], R2.shape[0]), eq(R1.shape[1], R2.shape[1]), eq(t1.shape[0], t2.shape[0])))
    c.assume(0 <= i, lt(i, R1.shape[0]), 0 <= j, lt(j, R1.shape[1]))
    c.prove('post: same bearing at every grid point', eq(t1.at(i, j), t2.at(i, j)))
    # distances are zero or at least the value that stands for zero
    c.assume(le(Fraction(1, 10**30), R2.at(i, j)))
    c.prove('post: same distance at every grid point', eq(R1.at(i, j), R2.at(i, j)))


for CLS, SIDE in [(c, s) for c in ('HollandWindProfile', 'PowellWindProfile') for s in ('northern', 'southern')]:
    @task('P08', 'Kepert wind field, %s, %s hemisphere' % (CLS, SIDE), [W + '::KepertWindField.field', WF + '::fkerpert'], opts=OPTS,
          assumes=ASSUME + ['wind and vorticity of the profile are cyclonic at the point (otherwise: known finding)'])
    def kepert(ip, CLS=CLS, SIDE=SIDE):
        c = ip.ctx
        R, k = grid(ip)
        lam = ip.fresh_array(R.shape, 'r', 'lam')
        o = storm(ip, CLS, SIDE)
        w = ip.call(ip.func(W + '::KepertWindField'), [o])
        vf, th = c.input('vFm', c.real('vFm')), c.input('thetaFm', c.real('thetaFm'))
        c.branch(le(R.at(k), o.attrs['rMax']))
        # cyclonic wind and vorticity (otherwise: known finding)
        for m in ('velocity', 'vorticity'):
            x = ip.call(ip.getattr(o, m), [R]).at(k)
            c.assume(le(0, x) if c.must(lt(0, o.attrs['f'])) else le(x, 0))
        compiled(ip, [('wind._windmodels.' + n, WF, n) for n in ('fkerpert',)])
        u1, v1 = ip.call(ip.getattr(w, 'field'), [R, lam, vf, th])
        interpreted(ip)
        u2, v2 = ip.call(ip.getattr(w, 'field'), [R, lam, vf, th])
        c.prove('post: same eastward wind at every grid point', eq(u1.at(k), u2.at(k)))
        c.prove('post: same northward wind at every grid point', eq(v1.at(k), v2.at(k)))
