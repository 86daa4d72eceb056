"""Master and worker of the parallel hazard calculation (hazard/__init__.py)."""
import z3
from engine.contract import task
from engine.sym import *
from engine.models import qvar
from contracts import tiles as tl, mpi

H, HC = tl.H, tl.HC
F = HC + '.dumpHazardFromTiles'


def number(t):
    """which tile a work message holds"""
    e = t[0] if isinstance(t, tuple) else None
    if not isz(e) or e.num_args() != 1 or e.decl().name() != 'tile_x1':
        raise Unsupported('work message is not an element of the tile list')
    k = e.arg(0)
    if not (isinstance(t, tuple) and len(t) == 4 and all(isz(a) and a.eq(b) for a, b in zip(t, tl.limits(k)))):
        raise Unsupported('work message is not an element of the tile list')
    return k


for CI in (False, True):
    X = ', with confidence intervals' if CI else ''

    @task('P02', 'master' + X, [F], assumes=mpi.ASSUME + [tl.SAME], deadline=500)
    def master(ip, CI=CI):
        c = ip.ctx
        w = tl.world(ip, CI)
        size = c.input('size', c.int('size'))
        c.assume(size >= 2)
        m = mpi.Master(ip, size, w.N, number, lambda k: tl.result(w, tl.limits(k)), 0)
        ip.opts['names'] = {(H, 'comm'): m.comm, (H, 'MPI'): m.MPI}
        r = mpi.roles(ip.func(F).node, ('tiles',))

        def extra(s, w_):
            G = s.ctx.ghosts['mpi'].attrs
            d = qvar()
            out = z3.Exists([d], z(And(1 <= d, lt(d, size), G['busy'].at(d), eq(G['item'].at(d), w.T))))
            return [('results heard are stored', Implies(And(lt(w.T, w_), Not(out)), tl.stored(w, s['self'])))]
        ip.loops['*'] = mpi.loops(m, r, extra)
        ip.call(ip.getattr(w.obj, 'dumpHazardFromTiles'), [w.tiles])
        mpi.finished(ip, m)
        c.prove('post: values of the tile at its points, as in a serial run', tl.stored(w))

    @task('P02', 'worker' + X, [F], contracts=tl.CALC, assumes=mpi.ASSUME)
    def worker(ip, CI=CI):
        c = ip.ctx
        w = tl.world(ip, CI)
        c.ghosts['w'] = w
        size, rank = c.input('size', c.int('size')), c.input('rank', c.int('rank'))
        c.assume(size >= 2, 1 <= rank, rank < size)

        def check(obj, k):
            want = tl.result(w, tl.limits(k))
            if not isinstance(obj, tuple) or len(obj) != len(want):
                return False
            i = [c.int('i%d' % n) for n in range(3)]
            cs = [eq(a, b) for a, b in zip(obj[0], want[0])]
            for a, b in zip(obj[1:], want[1:]):
                n = len(b.shape)
                cs.append(eq(a.at(*i[:n]), b.at(*i[:n])))
            return And(*cs)
        m = mpi.Worker(ip, size, rank, lambda k: tl.limits(k), check, (0, 1))
        ip.opts['names'] = {(H, 'comm'): m.comm, (H, 'MPI'): m.MPI}
        ip.loops['*'] = mpi.worker_loop()
        ip.call(ip.getattr(w.obj, 'dumpHazardFromTiles'), [w.tiles])
        mpi.worker_done(ip)

    @task('P02', 'serial run' + X, [F], contracts=tl.CALC, assumes=[tl.SAME])
    def serial(ip, CI=CI):
        tl.serial(ip, CI)
