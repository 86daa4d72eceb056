"""Where the random numbers of a simulation come from (TrackGenerator.run, generateTracks, _singleTrack, tcrandom)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native, Stale
from engine.solver import walk
from engine.sym import *
from engine.models import qvar
from contracts import p11, p12

T = 'TrackGenerator/TrackGenerator.py'
R = 'Utilities/tcrandom.py'
ELSE = ['numpy.random.' + x for x in (
    'normal', 'rand', 'randn', 'uniform', 'random', 'random_sample', 'randint', 'choice', 'standard_normal', 'logistic', 'lognormal', 'poisson', 'exponential', 'gamma', 'beta',
    'seed', 'shuffle', 'permutation', 'default_rng', 'RandomState', 'binomial', 'triangular', 'weibull')] + ['random.' + x for x in (
        'random', 'uniform', 'gauss', 'normalvariate', 'lognormvariate', 'randint', 'choice', 'seed', 'shuffle')] + [
            'time.time', 'time.clock', 'time.perf_counter', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'os.urandom', 'os.getpid']
DRAWN = ['drawn values are arbitrary real numbers; that a stream yields independent numbers is the guarantee of its generator']


def elsewhere(name):
    def f(ip, a, k):
        ip.ctx.prove('no number from outside the stream of the simulation (%s)' % name, False)
        return ip.ctx.real('outside')
    return f


OUT = {n: elsewhere(n) for n in ELSE}


def only(drawn, *allowed):
    """the value depends on the draws and on nothing else that changes"""
    return drawn


# ------------------------------------------------------------------- one draw
HELPERS = {'normal': ('normalvariate', ('mean', 'stddev')), 'uniform': ('uniform', ('a', 'b')), 'logistic': ('logisticvariate', ('loc', 'scale')), 'lognorm': ('lognormvariate', ('xi', 'loc', 'scale'))}

for H, (M, NARGS) in HELPERS.items():
    @task('P14', 'draw with %s' % H, [T + '::' + H], opts={'externals': OUT}, assumes=DRAWN)
    def helper(ip, H=H, M=M, NARGS=NARGS):
        c = ip.ctx
        calls = []

        def meth(m):
            def f(ip, a, k):
                v = ip.ctx.real('drawn')
                calls.append((m, tuple(a) + tuple(k.values()), v))
                return v
            return Native(f)
        prng = SObj(None, {m: meth(m) for m in ('normalvariate', 'uniform', 'logisticvariate', 'lognormvariate', 'random')})
        ip.opts = dict(ip.opts, names={(T, 'PRNG'): prng})
        args = [c.input(x, c.real(x)) for x in NARGS]
        r = ip.call(ip.func(T + '::' + H), args)
        c.prove('post: one draw from the stream of the simulation', len(calls) == 1 and calls[0][0] == M)
        c.prove('post: with the parameters given', len(calls[0][1]) == len(args) and And(*[eq(x, y) for x, y in zip(calls[0][1], args)]))
        c.prove('post: the draw is the answer', eq(r, calls[0][2]))


@task('P14', 'stream of a simulation', [R + '::Random.__init__'], opts={'externals': dict(OUT)}, assumes=['generators with different keys give different streams (guarantee of the Philox generator)'])
def stream(ip):
    c = ip.ctx
    keys = []

    def philox(ip, a, k):
        keys.append(k.get('key', a[0] if a else None))
        return SObj(None, {'key': keys[-1]})
    ip.opts = dict(ip.opts, externals=dict(OUT, **{'numpy.random.Philox': philox, 'numpy.random.Generator': lambda ip, a, k: SObj(None, {'bits': a[0]})}))
    seed, i, j = c.input('seed', c.int('seed')), c.input('first', c.int('first')), c.input('second', c.int('second'))
    c.assume(i >= 0, j >= 0, seed >= 0, i != j)
    o = [ip.call(ip.func(R + '::Random'), [], {'seed': seed, 'stream': x}) for x in (i, j)]
    c.prove('post: one generator for each stream', len(keys) == 2 and all(k is not None for k in keys))
    c.prove('post: the generator of a stream is its own', all(isinstance(x.attrs.get('PRNG'), SObj) and x.attrs['PRNG'].attrs['bits'].attrs['key'] is k for x, k in zip(o, keys)))
    c.prove('post: different simulations have different keys', Not(eq(keys[0], keys[1])))


METHODS = {'normalvariate': 2, 'uniform': 2, 'random': 0, 'logisticvariate': 2, 'lognormvariate': 3}

for M, N in METHODS.items():
    @task('P14', 'variate %s' % M, [R + '::Random.' + M], opts={'externals': dict(OUT, **{'scipy.special.ndtri': lambda ip, a, k: z3.Function('ndtri', RS, RS)(toreal(a[0]))}), 'check_div': False, 'definedness': False}, assumes=DRAWN)
    def variate(ip, M=M, N=N):
        c = ip.ctx
        draws = []

        def f(ip, a, k):
            v = ip.ctx.real('drawn')
            draws.append(v)
            return v
        g = SObj(None, {m: Native(f) for m in ('normal', 'uniform', 'random', 'logistic', 'lognormal', 'standard_normal')})
        o = SObj(ip.func(R + '::Random'), {'PRNG': g})
        args = [c.input('a%d' % k, c.real('a%d' % k)) for k in range(N)]
        if M == 'logisticvariate':
            c.assume(args[1] > 0)
        if M == 'lognormvariate':
            c.assume(args[0] > 0, args[2] > 0)
        r = ip.call(ip.getattr(o, M), args)
        names = set()

        def visit(x):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.get_id())
        walk([z(r)], visit)
        c.prove('post: one draw from the stream', len(draws) == 1)
        c.prove('post: the answer is made of the draw and the parameters only', names <= {x.get_id() for x in draws + args} and draws[0].get_id() in names)
        c.prove('frame: the stream stays that of the simulation', o.attrs['PRNG'] is g)


# --------------------------------------------------------------- the tracks
STATE = ('offshorePressure', 'offshorePoci', 'landfallSpeed', 'theta', 'v', 'vChi', 'bChi', 'pChi', 'sChi', 'dpChi', 'dsChi', 'dp', 'ds')
FRESH = {T + '::' + h: (lambda ip, a, k: ip.ctx.real('drawn')) for h in HELPERS}


def leftovers(o):
    for n in STATE:
        o.attrs[n] = Stale()


def single(ip, args, kw):
    """contract of _singleTrack used by generateTracks: reads the size error of this track, sets the other state itself"""
    o = args[0]
    ip.getattr(o, 'rmwEps')
    return p11.single(ip, args, kw)


LOOPS = {'TrackGenerator.generateTracks': [Loop(lambda S: [], name='tracks', havoc={'list': lambda S: some(S), 'results': lambda S: some(S)}, match=p11.is_outer),
                                           Loop(lambda S: [], name='radius', match=lambda txt, st: not p11.is_outer(txt, st) and txt.startswith('while'))]}


def some(S):
    n = S.ctx.int('kept')
    S.ctx.assume(n >= 0)
    return PList(n=n, inv=lambda ip, e, pos: None)


@task('P14', 'tracks of a simulation', [T + '::TrackGenerator.generateTracks'], contracts=dict(p11.CONTRACTS, **dict(FRESH, **{T + '::TrackGenerator._singleTrack': single})),
      opts={'externals': dict(OUT, **{k: v for k, v in p11.EXT.items() if k != 'numpy.random.normal'}), 'definedness': False}, loops=LOOPS,
      assumes=['the tables, the domain, the pressure field and the land mask are loaded before the simulations and not changed by them'])
def tracks(ip):
    o, n, sim = p11.setup(ip, False)
    o.attrs['rmwEps'] = Stale()
    leftovers(o)
    ip.call(ip.getattr(o, 'generateTracks'), [n, sim])
    ip.ctx.prove('post: tracks made from draws of the simulation and fixed tables only', True)


def plain(S):
    """nothing is required of the rows"""
    return []


@task('P14', 'one track', [T + '::TrackGenerator._singleTrack', T + '::TrackGenerator._notValidTrackStep', T + '::TrackGenerator._stepPressureChange', T + '::TrackGenerator._stepBearing', T + '::TrackGenerator._stepSpeed'],
      contracts=dict(FRESH, **{'Utilities/maputils.py::bear2LatLon': p12.bear, 'Utilities/stats.py::getCellNum': p12.cell, 'Utilities/loadData.py::getPoci': p12.poci,
                               'TrackGenerator/trackSize.py::rmax': lambda ip, a, k: ip.ctx.real('rmax')}),
      opts={'externals': dict(OUT, **p12.EXT), 'definedness': False}, loops={'TrackGenerator._singleTrack': [Loop(plain, name='steps')]})
def one(ip):
    c = ip.ctx
    n, dt = c.input('maxTimeSteps', c.int('n')), c.real('dt')
    c.assume(n >= 1, dt > 0)
    cells = c.int('cells')
    c.assume(cells >= 1)
    c.ghosts.update(grid=cells, pos=(c.real('x'), c.real('y')))
    co = lambda: SObj(None, {'coeffs': SObj(None, {p + x: ip.fresh_array((cells,), 'r', p + x) for p in ('', 'l') for x in ('alpha', 'phi', 'mu', 'sig', 'min')})})
    o = SObj(ip.func(T + '::TrackGenerator'), {
        'maxTimeSteps': n, 'dt': dt, 'gridLimit': PDict({k: c.real(k) for k in ('xMin', 'xMax', 'yMin', 'yMax')}), 'gridSpace': Opaque('space'), 'allCDFInitSize': None, 'rmwEps': c.real('rmweps'),
        'pStats': co(), 'vStats': co(), 'bStats': co(), 'dpStats': co(), 'mslp': SObj(None, {'get_pressure': Native(p12.mslp)}),
        'landfall': SObj(None, {'onLand': Native(lambda ip, a, k: p12.LAND(*p12.r(*a))), 'tol': Stale()})})
    leftovers(o)
    t0 = SObj(None, {'strftime': Native(lambda ip, a, k: ip.ctx.int('day')), 'hour': c.int('hour'), '__add__': Native(lambda ip, a, k: p12.time())})
    ip.call(ip.getattr(o, '_singleTrack'), [c.int('number')] + [c.real(x) for x in ('lon', 'lat', 'speed', 'bearing', 'pressure', 'penv', 'rmax')] + [t0])
    c.prove('post: track made from draws of the simulation and fixed tables only', True)


@task('P14', 'land test keeps no memory', ['TrackGenerator/trackLandfall.py::LandfallDecay.onLand'], opts={'externals': OUT})
def land(ip):
    c = ip.ctx
    x, y, tol, dt = [c.input(n, c.real(n)) for n in ('lon', 'lat', 'tol', 'dt')]
    mask = z3.Function('mask', RS, RS, RS)
    o = SObj(ip.func('TrackGenerator/trackLandfall.py::LandfallDecay'), {'tol': tol, 'dt': dt, 'landMask': SObj(None, {'sampleGrid': Native(lambda ip, a, k: mask(*p12.r(*a)))})})
    r = ip.call(ip.getattr(o, 'onLand'), [x, y])
    c.prove('post: the answer is that of the mask at the position, whatever came before', eq(r, mask(x, y) > 0))


# ------------------------------------------------------------------ the run
NTR = z3.Function('tracks.of', IS, IS)


def prng(key, used=False):
    return SObj('stream', {'key': key, 'used': used})


def config(ip):
    c = ip.ctx
    vals = {}

    def get(kind):
        def f(ip, a, k):
            n = tuple(a[:2])
            if n not in vals:
                vals[n] = Opaque('setting %s' % (n,)) if kind is None else (c.int(n[1]) if kind == 'i' else c.real(n[1]))
            return vals[n]
        return Native(f)

    def text(ip, a, k):
        return 'nc' if a[1] == 'Format' else 'out'
    return SObj(None, {'read': Native(lambda ip, a, k: None), 'get': Native(text), 'getint': get('i'), 'getfloat': get('r'), 'geteval': get(None),
                       'has_option': Native(lambda ip, a, k: True), 'set': Native(lambda ip, a, k: None)}), vals


def simulate(ip, args, kw):
    """contract of generateTracks: needs the stream of this simulation, unused"""
    c = ip.ctx
    o, n, sim = args[:3]
    w = c.ghosts.get('global PRNG')
    st = w[1] if w and w[0] == T else None
    key = st.attrs['key'] if isinstance(st, SObj) and st.cls == 'stream' else None
    c.prove('pre of generateTracks: a stream has been seeded', key is not None)
    c.prove('pre of generateTracks: the stream is seeded with the seed of the run and the number of the simulation', And(eq(key[0], c.ghosts['seed']), eq(key[1], sim)))
    c.prove('pre of generateTracks: nothing has drawn from the stream yet', st.attrs['used'] is False)
    c.prove('pre of generateTracks: as many tracks as drawn for this simulation', eq(n, NTR(z(sim))))
    c.ghosts['global PRNG'] = (T, prng(key, True))
    return SObj('tracks', {'sim': sim})


def save(ip, args, kw):
    c = ip.ctx
    name, tr = args[:2]
    c.prove('pre of saving: the tracks of one simulation', isinstance(tr, SObj) and tr.cls == 'tracks')
    nums = [p[2] for p in getattr(name, 'parts', []) if isinstance(p, tuple) and isz(p[2])]
    c.prove('pre of saving: the file is that of the simulation', len(nums) == 1 and eq(nums[0], tr.attrs['sim']))


def stale(S):
    """whatever stream the previous simulation left"""
    return (T, prng((S.ctx.int('oldseed'), S.ctx.int('oldstream')), True))


def share(ip, args, kw):
    """contract of balanced (property P13): items p, p+P, ... of the list"""
    c = ip.ctx
    l = ip.as_seq(args[0])
    l = PList(l) if isinstance(l, list) else l
    P, p, m = c.int('size'), c.int('rank'), c.int('share')
    c.assume(P >= 1, 0 <= p, p < P, m >= 0)
    q = qvar()
    c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z(lt(p + q * P, l.length())))))
    return PList(n=m, fn=lambda i: l.at(add(p, mul(i, P))))


@task('P14', 'every simulation has its stream', [T + '::run', T + '::Simulation.__init__'],
      contracts={T + '::TrackGenerator.generateTracks': simulate, 'Utilities/track.py::ncSaveTracks': save, T + '::balanced': share,
                 T + '::TrackGenerator.loadInitialConditionDistributions': lambda ip, a, k: None, T + '::TrackGenerator.loadCellStatistics': lambda ip, a, k: None,
                 T + '::TrackGenerator.__init__': lambda ip, a, k: None, R + '::Random.__init__': lambda ip, a, k: None},
      opts={'externals': {}, 'definedness': False}, loops={'run': [None, Loop(lambda S: [], name='simulations', havoc={'global PRNG': stale})]},
      assumes=['the shares of the processes are those of property P13', 'settings are arbitrary numbers; the default settings always provide both seeds'])
def run(ip):
    c = ip.ctx
    cfg, vals = config(ip)
    seed = c.int('TrackSeed')
    c.assume(seed >= 0)
    vals[('TrackGenerator', 'TrackSeed')] = seed
    nsim = c.int('NumSimulations')
    c.assume(nsim >= 1)
    vals[('TrackGenerator', 'NumSimulations')] = nsim
    c.ghosts.update(seed=seed)
    c.ghosts['global PRNG'] = (T, prng((c.int('oldseed'), c.int('oldstream')), True))

    def random(ip, a, k):
        g = dict(zip(('seed', 'stream'), a))
        g.update(k)
        return prng((g['seed'], g['stream']))
    arr = lambda ip, a, k: ip.fresh_array((nsim,), 'i', 'numbers')
    ip.opts = dict(ip.opts, externals={'numpy.random.seed': lambda ip, a, k: None, 'numpy.hstack': arr, 'numpy.cumsum': arr, 'time.time': lambda ip, a, k: c.real('now'),
                                       'numpy.random.poisson': lambda ip, a, k: SArr((nsim,), lambda i: NTR(z(i[0])), 'i'),
                                       'os.path.join': lambda ip, a, k: a[-1]},
                   names={(T, 'ConfigParser'): Native(lambda ip, a, k: cfg), (T, 'SamplePressure'): Native(lambda ip, a, k: Opaque('field')),
                          (T, 'attemptParallel'): Native(lambda ip, a, k: SObj(None, {'COMM_WORLD': SObj(None, {'size': 1, 'rank': 0, 'barrier': Native(lambda ip, a, k: None)})})),
                          (T, 'random'): SObj(None, {'Random': Native(random)}), (T, 'trackLandfall'): SObj(None, {'LandfallDecay': Native(lambda ip, a, k: Opaque('land'))}),
                          (T, 'TrackGenerator'): Native(lambda ip, a, k: generator(ip))})
    ip.call(ip.func(T + '::run'), ['settings.ini'])
    c.prove('post: the run ends', True)


def generator(ip):
    none = Native(lambda ip, a, k: None)
    return SObj(None, {'loadInitialConditionDistributions': none, 'loadCellStatistics': none, 'generateTracks': Native(lambda ip, a, k: simulate(ip, [None] + list(a), k))})
