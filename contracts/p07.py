"""Gradient wind profiles (wind/windmodels.py): mirror symmetry, sense of rotation, maximum.

The Coriolis parameter and the derivatives of the Holland profile at the radius of maximum wind are
used through their contracts, each proved in a task of its own."""
import z3
from engine.contract import task
from engine.sym import *

W = 'wind/windmodels.py'
U = 'Utilities/metutils.py'
HOLLAND = ('HollandWindProfile', 'WilloughbyWindProfile', 'SchloemerWindProfile', 'PowellWindProfile')
PROFILES = ('JelesnianskiWindProfile', 'RankineWindProfile', 'NewHollandWindProfile') + HOLLAND
D2 = z3.Function('d2Vm', RS, RS, RS, RS, RS, RS)
D1 = z3.Function('dVm', RS, RS, RS, RS, RS, RS)
COR = z3.Function('coriolis', RS, RS)
OPTS = {'raise_ok': ('AssertionError',), 'definedness': False}
ASSUME = ['distances are positive', 'the storm is not on the equator', 'floating point divisions and roots are not checked for definedness',
          'the peakedness derived by the Willoughby and Holland 2010 relations is positive']


def coriolis(ip, args, kwargs):
    """contract: odd in the latitude, positive in the northern hemisphere"""
    c = ip.ctx
    lat = c.inputs['lat']
    x = args[0]
    f = COR(lat)
    c.assume(f > 0)
    if norm(z3.simplify(z(x) - lat)) == 0:
        return f
    if norm(z3.simplify(z(x) + lat)) == 0:
        return neg(f)
    raise Unsupported('latitude of the storm')


def deriv(fn, name):
    def contract(ip, args, kwargs):
        """contract: depends on the Coriolis parameter through its magnitude only"""
        o = args[0]
        g = lambda n: z(toreal(ip.getattr(o, n)))
        f = ip.getattr(o, 'f')
        a = neg(f) if ip.ctx.must(lt(f, 0)) else f
        v = fn(g('beta'), g('dP'), g('rho'), z(a), g('rMax'))
        if name == 'second':
            if not ip.ctx.branch(v < 0):
                raise PyRaise('AssertionError', ())
        return v
    return contract


CONTRACTS = {U + '::coriolis': coriolis,
             W + '::HollandWindProfile.secondDerivative': deriv(D2, 'second'),
             W + '::HollandWindProfile.firstDerivative': deriv(D1, 'first')}


def setup(ip, P):
    c = ip.ctx
    pe, pc, rm, lat, lon, beta, rg = [c.input(k, c.real(k)) for k in ('pe', 'pc', 'rMax', 'lat', 'lon', 'beta', 'rGale')]
    n, m = c.int('n'), c.int('m')
    i, j = c.int('i'), c.int('j')
    c.assume(n >= 1, m >= 1, 0 <= i, i < n, 0 <= j, j < m)
    R = ip.fresh_array((n, m), 'r', 'R')
    r = c.input('r', R.at(i, j))
    c.assume(pc >= 80000, pe > pc, pe <= 110000, rm > 0, beta > 0, r > 0, lat > 0, lat <= 90, rg > rm)
    if P == 'NewHollandWindProfile':
        c.assume(pe - pc <= 20000, lat <= 60)
    return lat, rm, R, (i, j)


def field(ip, P, lat, R):
    c = ip.ctx
    pe, pc, rm, lon = [c.inputs[k] for k in ('pe', 'pc', 'rMax', 'lon')]
    extra = [c.inputs['beta']] if P == 'HollandWindProfile' else [c.inputs['rGale']] if P == 'NewHollandWindProfile' else []
    o = ip.call(ip.func(W + '::' + P), [lat, lon, pe, pc, rm] + extra)
    if P == 'WilloughbyWindProfile':
        c.assume(lt(0, ip.getattr(o, 'beta')))
    return o, ip.call(ip.getattr(o, 'velocity'), [R])


@task('P07', 'coriolis parameter', [U + '::coriolis'])
def cor(ip):
    c = ip.ctx
    lat = c.input('lat', c.real('lat'))
    c.assume(lat > 0, lat <= 90)
    f, g = ip.call(ip.func(U + '::coriolis'), [lat]), ip.call(ip.func(U + '::coriolis'), [neg(lat)])
    c.prove('post: odd in the latitude', eq(g, neg(f)))
    c.prove('post: positive in the northern hemisphere', lt(0, f))


for N in ('secondDerivative', 'firstDerivative'):
    @task('P07', 'Holland %s' % N, [W + '::HollandWindProfile.' + N], contracts={U + '::coriolis': coriolis}, opts=OPTS, assumes=ASSUME)
    def der(ip, N=N):
        c = ip.ctx
        lat, rm, R, k = setup(ip, 'HollandWindProfile')
        pe, pc, lon, beta = [c.inputs[n] for n in ('pe', 'pc', 'lon', 'beta')]
        cls = ip.func(W + '::HollandWindProfile')
        o1, o2 = ip.call(cls, [lat, lon, pe, pc, rm, beta]), ip.call(cls, [neg(lat), lon, pe, pc, rm, beta])
        # the value is a function of these attributes alone
        keep = ('beta', 'dP', 'rho', 'f', 'rMax', 'eP', 'cP')
        for o in (o1, o2):
            for a in list(o.attrs):
                if a not in keep:
                    del o.attrs[a]
        try:
            a = ip.call(ip.getattr(o1, N), [])
        except PyRaise as e:
            c.prove('post: rejected by the assertion only', e.name == 'AssertionError')
            try:
                ip.call(ip.getattr(o2, N), [])
            except PyRaise as e2:
                return
            c.prove('post: the same storms are rejected in both hemispheres', False)
            return
        try:
            b = ip.call(ip.getattr(o2, N), [])
        except PyRaise as e:
            c.prove('post: the same storms are accepted in both hemispheres', False)
            return
        c.prove('post: even in the Coriolis parameter', eq(a, b))
        if N == 'secondDerivative':
            c.prove('post: negative', lt(a, 0))


for P in PROFILES:
    FN = [W + '::%s.velocity' % P] if P not in HOLLAND[1:] else [W + '::HollandWindProfile.velocity', W + '::%s.__init__' % P]

    @task('P07', '%s: mirrored storm' % P, FN, opts=OPTS, assumes=ASSUME, contracts=CONTRACTS)
    def mirror(ip, P=P):
        c = ip.ctx
        lat, rm, R, k = setup(ip, P)
        try:
            o, v = field(ip, P, lat, R)
        except PyRaise as e:
            try:
                field(ip, P, neg(lat), R)
            except PyRaise as e2:
                c.prove('post: rejected alike', e.name == e2.name == 'AssertionError')
                return
            c.prove('post: rejected in both hemispheres', False)
            return
        try:
            o2, v2 = field(ip, P, neg(lat), R)
        except PyRaise as e2:
            c.prove('post: accepted in both hemispheres', False)
            return
        c.prove('post: exact negative', eq(v2.at(k), neg(v.at(k))))

    @task('P07', '%s: sense of rotation' % P, FN, opts=OPTS, assumes=ASSUME, contracts=CONTRACTS)
    def sense(ip, P=P):
        c = ip.ctx
        lat, rm, R, k = setup(ip, P)
        if P not in ('JelesnianskiWindProfile', 'RankineWindProfile'):
            c.assume(R.at(k) > rm)
        try:
            o, v = field(ip, P, lat, R)
        except PyRaise as e:
            return
        c.prove('post: cyclonic in the northern hemisphere', le(0, v.at(k)))

for P in ('JelesnianskiWindProfile', 'RankineWindProfile'):
    @task('P07', '%s: maximum wind' % P, [W + '::%s.velocity' % P], opts=OPTS, assumes=ASSUME, contracts=CONTRACTS)
    def mx(ip, P=P):
        c = ip.ctx
        lat, rm, R, k = setup(ip, P)
        o, v = field(ip, P, lat, R)
        vm = ip.getattr(o, 'vMax')
        c.prove('post: never above the maximum wind', And(le(neg(vm), v.at(k)), le(v.at(k), vm)))
        c.prove('post: attained at the radius of maximum wind', Implies(eq(R.at(k), rm), eq(v.at(k), vm)))
