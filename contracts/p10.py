"""Radial pressure profiles (PressureInterface/pressureProfile.py)."""
from engine.contract import task
from engine.sym import *

M = 'PressureInterface/pressureProfile.py'
METHODS = ('holland', 'schloemer', 'powell', 'willoughby', 'doubleHolland')
ASSUME = {'willoughby': ['the derived peakedness is positive (otherwise: known finding)'],
          'doubleHolland': ['peakedness parameters are positive']}


def storm(ip):
    c = ip.ctx
    n, m = c.int('n'), c.int('m')
    c.assume(n >= 1, m >= 1)
    R = ip.fresh_array((n, m), 'r', 'R')
    pe, pc = c.input('pe', c.real('pe')), c.input('pc', c.real('pc'))
    rm, lat, lon = c.input('rMax', c.real('rMax')), c.input('lat', c.real('lat')), c.input('lon', c.real('lon'))
    beta = c.input('beta', c.real('beta'))
    c.assume(pc >= 10000, pe > pc, rm > 0, beta > 0)
    i, j, k, l = [c.int(x) for x in 'ijkl']
    c.assume(0 <= i, i < n, 0 <= j, j < m, 0 <= k, k < n, 0 <= l, l < m)
    r1, r2 = c.input('r1', R.at(i, j)), c.input('r2', R.at(k, l))
    c.assume(r1 > 0, r1 <= r2)
    rm2 = c.input('rMax2', c.real('rMax2'))
    c.assume(rm2 > 0)
    return R, pe, pc, rm, lat, lon, beta, rm2, (i, j), (k, l)


def profile(ip, M_, default=False):
    R, pe, pc, rm, lat, lon, beta, rm2, a, b = storm(ip)
    kw = {}
    if M_ == 'doubleHolland' and not default:
        b1, b2 = ip.ctx.input('beta1', ip.ctx.real('beta1')), ip.ctx.input('beta2', ip.ctx.real('beta2'))
        ip.ctx.assume(b1 > 0, b2 > 0)
        kw = {'beta1': b1, 'beta2': b2, 'rMax2': rm2}
    elif default:
        ip.ctx.assume(pc < 115000)
    obj = ip.call(ip.func(M + '::PrsProfile'), [R, pe, pc, rm, lat, lon, beta], kw)
    got = []
    if M_ == 'willoughby':
        def holland(ip, args, kwargs):
            b = args[1] if len(args) > 1 else kwargs['beta']
            got.append(b)
            ip.ctx.assume(lt(0, b))
            return ip.run_function(ip.func(M + '::PrsProfile.holland'), args, kwargs)
        ip.contracts[M + '::PrsProfile.holland'] = holland
    P = ip.call(ip.getattr(obj, M_), [])
    return R, pe, pc, P, a, b


for M_ in METHODS:
    for D in ((False, True) if M_ == 'doubleHolland' else (False,)):
        @task('P10', '%s profile%s' % (M_, ' with default peakedness' if D else ''), [M + '::PrsProfile.' + M_],
              assumes=ASSUME.get(M_, []))
        def prof(ip, M_=M_, D=D):
            c = ip.ctx
            R, pe, pc, P, a, b = profile(ip, M_, D)
            r0 = R.at(a)
            c.prove('post: not below the central pressure', le(pc, P.at(a)))
            c.prove('post: not above the environmental pressure', le(P.at(a), pe))
            c.prove('post: does not fall with distance', le(P.at(a), P.at(b)))
            c.prove('frame: distances unchanged', eq(R.at(a), r0))
            c.prove('post: one value per grid point', And(eq(P.shape[0], R.shape[0]), eq(P.shape[1], R.shape[1])))
