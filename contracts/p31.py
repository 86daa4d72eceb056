"""Evaluation of synthetic tracks: distribution of the track files over processes (Evaluate/)."""
import ast
import z3
from fractions import Fraction
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar
from contracts import mpi

NAMES = {'trackDensity': 'TrackDensity', 'longitudeCrossing': 'LongitudeCrossing', 'pressureDistribution': 'PressureDistribution', 'landfallRates': 'LandfallRates'}
ASSUME = ['the track files are numbered in the order the process lists them']


def fun(name, dims):
    return z3.Function(name, *([IS] * (dims + 1) + [RS]))


class Kind:
    """what one module keeps for a track file: arrays of given dimensions, as functions of the file"""

    def __init__(self, mod, title, dims, attrs):
        self.mod, self.title, self.dims, self.attrs = mod, title, dims, attrs
        self.rel = 'Evaluate/%s.py' % mod
        self.cls = self.rel + '::' + NAMES[mod]
        self.F = [fun('%s.%d' % (mod, k), d) for k, d in enumerate(dims)]


def files(ip, n):
    return PList(n=n, fn=lambda k: SObj(None, {'k': k, 'startswith': Native(lambda *a: True)}))


def array(f, k, shape):
    return SArr(shape, lambda i: f(z(k), *[z(x) for x in i]), 'r')


class World:
    def __init__(self, ip, K):
        c = ip.ctx
        self.K, self.ip = K, ip
        self.N = c.input('files', c.int('N'))
        self.T = c.input('some file', c.int('T'))
        self.a, self.b = c.int('a'), c.int('b')
        c.assume(And(self.N >= 0, 0 <= self.T, self.T < self.N, self.a >= 2, self.b >= 2))
        self.at = [c.int('i'), c.int('j')]
        self.years = c.real('years')
        c.assume(self.years > 0)
        self.kept = None
        last = lambda ip, a, k: a[-1]
        ip.opts['externals'] = {'os.listdir': lambda ip, a, k: files(ip, self.N), 'os.path.join': last, 'posixpath.join': last, 'builtins.sorted': lambda ip, a, k: a[0]}
        if K is PD:
            c.ghosts['added'] = 0
            ip.opts['externals'].update({'numpy.append': append, 'numpy.array': lambda ip, a, k: Opaque('pressures'),
                                         'numpy.ma.ones': lambda ip, a, k: SArr(tuple(a[0]), lambda i: Fraction(1), 'r')})
        self.names = {(K.rel, 'loadTracks'): Native(lambda ip, a, k: Opaque('tracks', k=a[0].attrs['k']))}

    def comm(self, comm, MPI):
        self.ip.opts['names'] = {**self.names, (self.K.rel, 'comm'): comm, (self.K.rel, 'MPI'): MPI}

    def shape(self, q):
        return SHAPES[self.K.mod](self)[q]

    def res(self, k):
        """results of file k, as sent by a worker"""
        r = tuple(array(f, k, self.shape(q)) for q, f in enumerate(self.K.F))
        if self.K is PD:
            return r + (Opaque('lowest', k=k),)
        return r[0] if len(r) == 1 else r

    def inside(self):
        s = self.shape(0)
        return And(*[And(0 <= i, lt(i, n)) for i, n in zip(self.at, s)])

    def holds(self, arrs, row):
        """row of every array kept is that of file T"""
        cs = []
        for q, (f, a) in enumerate(zip(self.K.F, arrs)):
            i = self.at[:self.K.dims[q]]
            lim = And(*[And(0 <= x, lt(x, n)) for x, n in zip(i, self.shape(q))])
            cs.append(Implies(lim, eq(a.at(row, *i), f(self.T, *i))))
        return And(*cs)


SHAPES = {'trackDensity': lambda w: [(w.a - 1, w.b - 1)],
          'longitudeCrossing': lambda w: [(w.b - 1, w.a)] * 3,
          'pressureDistribution': lambda w: [(w.a - 1, w.b - 1)] * 4 + [(33,)],
          'landfallRates': lambda w: [(w.a - 1,)] * 2}


def rng(n):
    return SArr((n,), lambda i: toreal(i[0]), 'r')


# -- density ------------------------------------------------------------------------------------------------------------
TD = Kind('trackDensity', 'density', (2,), ('synHist',))
LC = Kind('longitudeCrossing', 'longitude crossings', (2, 2, 2), None)
PD = Kind('pressureDistribution', 'pressure', (2, 2, 2, 2, 1), None)
LR = Kind('landfallRates', 'landfall rates', (1, 1), ('synLandfall', 'synOffshore'))


def obj_density(ip, w):
    return {'trackPath': 'path', 'lon_range': rng(w.a), 'lat_range': rng(w.b), 'synNumYears': w.years}


def obj_cross(ip, w):
    return {'trackPath': 'path', 'gateLons': rng(w.a), 'gateLats': rng(w.b)}


def obj_landfall(ip, w):
    g = PList(n=w.a, fn=lambda k: Opaque('gate', k=k))
    return {'trackPath': 'path', 'gates': g}


def con(K):
    """contracts of the methods called in the loops"""
    w = lambda ip: ip.ctx.ghosts['w']

    def end(ip, args, kw):
        ip.ctx.ghosts['w'].kept = args
    if K is TD:
        # counts of a file; the loop divides them by the years
        return {K.cls + '.calculate': lambda ip, a, k: SArr(w(ip).shape(0), lambda i, t=a[1].k, w=w(ip): mul(w.K.F[0](z(t), *[z(x) for x in i]), w.years), 'r'), K.cls + '.calculateMeans': end}
    if K is LC:
        return {K.cls + '.findCrossings': lambda ip, a, k: w(ip).res(a[1].k), K.cls + '.calcStats': end}
    if K is LR:
        return {K.cls + '.processTracks': lambda ip, a, k: w(ip).res(a[1].k), K.cls + '.calculateStats': end}


    if K is PD:
        return {K.cls + '.calculate': lambda ip, a, k: w(ip).res(a[1].k)[:4], K.cls + '.calcMinPressure': lambda ip, a, k: (w(ip).res(a[1].k)[4], Opaque('lowest', k=a[1].k)), K.cls + '.calculateMeans': end}


def append(ip, args, kw):
    """np.append: the lowest pressures of a file are added to those of the others"""
    c = ip.ctx
    a, x = args
    if not (isinstance(x, Opaque) and x.name == 'lowest'):
        raise Unsupported('np.append of something else')
    c.prove('added to the pressures so far', isinstance(a, Opaque) and a.name == 'pressures')
    c.ghosts['added'] = ite(eq(x.k, c.ghosts['w'].T), add(c.ghosts['added'], 1), c.ghosts['added'])
    return a


OBJ = {PD.mod: obj_density, TD.mod: obj_density, LC.mod: obj_cross, LR.mod: obj_landfall}


def arrays(K, S):
    if K.attrs:
        return [S['self'].attrs[x] for x in K.attrs]
    return [S[x] for x in (('lonCrossHist', 'lonCrossEW', 'lonCrossWE') if K is LC else ('synMean', 'synMin', 'synMax', 'synMed', 'synMinCPDist'))]


def kept(K, w, o):
    if w.kept is None:
        raise Unsupported('statistics of the results not calculated')
    if K is PD:
        mean, low, med, high, dist = w.kept[1:]
        return [mean, low, high, med, dist]
    return [o.attrs[x] for x in K.attrs] if K.attrs else list(w.kept[1:])


def make(K):
    FN = K.cls + '.synthetic'
    under = [FN] + ([K.cls + '.processResults', K.cls + '.setOutput'] if K is LR else [])

    @task('P31', K.title + ', one process', under, contracts=con(K), assumes=ASSUME)
    def serial(ip):
        c = ip.ctx
        w = World(ip, K)
        c.ghosts['w'] = w
        w.comm(SObj(None, {'rank': 0, 'size': 1}), SObj(None, {'Status': Native(lambda *a: None)}))
        o = SObj(ip.func(K.cls), OBJ[K.mod](ip, w))

        def inv(S):
            return [('results of the files visited', Implies(lt(w.T, S.it), w.holds(arrays(K, S), w.T)))] + \
                ([('lowest pressures added once', eq(c.ghosts['added'], ite(lt(w.T, S.it), 1, 0)))] if K is PD else [])
        ip.loops['*'] = [Loop(inv, name='files', match=lambda t, st: isinstance(st, ast.For) and 'loadTracks' in t and 'send(' not in t.lower())]
        ip.call(ip.getattr(o, 'synthetic'), [])
        c.prove('post: the results of every file are kept', w.holds(kept(K, w, o), w.T))
        if K is PD:
            c.prove('post: the lowest pressures of every file are kept once', eq(c.ghosts['added'], 1))

    @task('P31', K.title + ', master', under, contracts=con(K), assumes=mpi.ASSUME + ASSUME, deadline=400)
    def master(ip):
        c = ip.ctx
        w = World(ip, K)
        c.ghosts['w'] = w
        size = c.input('size', c.int('size'))
        c.assume(size >= 2)
        c.ghosts['heard'], c.ghosts['row'] = 0, 0

        def heard(k):
            c.ghosts['row'] = ite(eq(k, w.T), c.ghosts['heard'], c.ghosts['row'])
            c.ghosts['heard'] = add(c.ghosts['heard'], 1)
            return w.res(k)
        m = mpi.Master(ip, size, w.N, lambda obj: obj.attrs['k'], heard, 1)
        w.comm(m.comm, m.MPI)
        r = mpi.roles(ip.func(FN).node, ('trackfiles',))
        o = SObj(ip.func(K.cls), OBJ[K.mod](ip, w))

        def extra(s, w_):
            G = s.ctx.ghosts['mpi'].attrs
            g = s.ctx.ghosts
            d = qvar()
            a, b = qvar(2)
            out = z3.Exists([d], z(And(1 <= d, lt(d, size), G['busy'].at(d), eq(G['item'].at(d), w.T))))
            one = z3.ForAll([a, b], z(Implies(And(1 <= a, lt(a, size), 1 <= b, lt(b, size), G['busy'].at(a), G['busy'].at(b), eq(G['item'].at(a), G['item'].at(b))), eq(a, b))))
            return [('one result per file heard of', And(eq(g['heard'], sub(w_, G['nbusy'])), le(0, g['heard']), eq(s['n'], g['heard']))), ('one worker holds a file', one),
                    ('results heard are kept', Implies(And(lt(w.T, w_), Not(out)), And(le(0, g['row']), lt(g['row'], g['heard']), w.holds(arrays(K, s), g['row']))))] + \
                ([('lowest pressures added once', eq(g['added'], ite(And(lt(w.T, w_), Not(out)), 1, 0)))] if K is PD else [])
        ip.loops['*'] = mpi.loops(m, r, extra)
        ip.call(ip.getattr(o, 'synthetic'), [])
        mpi.finished(ip, m)
        c.prove('post: as many results as files', eq(c.ghosts['heard'], w.N))
        c.prove('post: the results of every file are kept', w.holds(kept(K, w, o), c.ghosts['row']))
        if K is PD:
            c.prove('post: the lowest pressures of every file are kept once', eq(c.ghosts['added'], 1))

    @task('P31', K.title + ', worker', [FN], contracts=con(K), assumes=mpi.ASSUME + ASSUME)
    def worker(ip):
        c = ip.ctx
        w = World(ip, K)
        c.ghosts['w'] = w
        size, rank = c.input('size', c.int('size')), c.input('rank', c.int('rank'))
        c.assume(size >= 2, 1 <= rank, rank < size)

        def check(obj, k):
            obj = obj if isinstance(obj, tuple) else (obj,)
            low = True
            if K is PD:
                obj, low = obj[:-1], isinstance(obj[-1], Opaque) and obj[-1].name == 'lowest' and eq(obj[-1].k, k)
            if len(obj) != len(K.F) or not all(isinstance(x, SArr) for x in obj):
                return False
            return And(low, *[Implies(w.inside(), eq(a.at(*w.at[:d]), f(z(k), *w.at[:d]))) for a, f, d in zip(obj, K.F, K.dims)])
        m = mpi.Worker(ip, size, rank, lambda k: SObj(None, {'k': k}), check, (1,))
        w.comm(m.comm, m.MPI)
        o = SObj(ip.func(K.cls), OBJ[K.mod](ip, w))
        if K is LR:
            ip.contracts[K.cls + '.setOutput'] = lambda ip, a, k: None      # does nothing on a worker
        ip.loops['*'] = mpi.worker_loop()
        ip.call(ip.getattr(o, 'synthetic'), [])
        mpi.worker_done(ip)


for K in (TD, LC, PD, LR):
    make(K)
