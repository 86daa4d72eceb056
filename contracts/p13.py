"""Work sharing between processes: balanced() in three modules and the tracks a process is given."""
import z3
from engine.contract import task
from engine.interp import Loop
from engine.sym import *
from engine.models import qvar, forall

MODULES = ('TrackGenerator/TrackGenerator.py', 'wind/__init__.py', 'Evaluate/windFieldValidation.py')
W = 'wind/__init__.py'
ITEM = z3.Function('item', IS, IS)
COUNT = z3.Function('tracksInFile', IS, IS)
TRACK = z3.Function('trackInFile', IS, IS, IS)
OFF = z3.Function('offset', IS, IS)


def mpi(ip, rels):
    c = ip.ctx
    P, p = c.input('size', c.int('size')), c.input('rank', c.int('rank'))
    c.assume(P >= 1, 0 <= p, p < P)
    comm = SObj('Comm', {'size': P, 'rank': p, 'Get_size': Native(lambda ip, a, k: P), 'Get_rank': Native(lambda ip, a, k: p)})
    m = SObj('MPI', {'COMM_WORLD': comm})
    ip.opts = dict(ip.opts, names=dict(ip.opts.get('names', {})))
    for r in rels:
        ip.opts['names'][(r, 'MPI')] = m
    return P, p


def seq(ip, r):
    s = ip.as_seq(r)
    if isinstance(s, list):
        s = PList(s)
    return s


for REL in MODULES:
    @task('P13', 'share of a process (%s)' % REL, [REL + '::balanced'])
    def bal(ip, REL=REL):
        c = ip.ctx
        P, p = mpi(ip, [REL])
        n = c.input('n', c.int('n'))
        c.assume(n >= 0)
        s = seq(ip, ip.call(ip.func(REL + '::balanced'), [PList(n=n, fn=lambda i: ITEM(z(i)))]))
        m = s.length()
        k, q = c.input('k', c.int('k')), c.input('q', c.int('q'))
        c.assume(0 <= k, k < m)
        c.prove('post: an item of the list, of this process only', And(eq(s.at(k), ITEM(p + k * P)), p + k * P < n))
        r = c.input('r', c.int('r'))
        i = q * P + r
        c.assume(0 <= r, r < P, q >= 0, i < n)
        c.prove('post: every item of this process is in its share', Implies(eq(r, p), And(lt(q, m), eq(s.at(q), ITEM(i)))))

    @task('P13', 'shares partition the list (%s)' % REL, [REL + '::balanced'])
    def part(ip, REL=REL):
        """from the postcondition: index p+kP belongs to exactly one process and one position"""
        c = ip.ctx
        P, p1, p2, k1, k2 = [c.int(x) for x in ('P', 'p1', 'p2', 'k1', 'k2')]
        c.assume(P >= 1, 0 <= p1, p1 < P, 0 <= p2, p2 < P, 0 <= k1, 0 <= k2, p1 + k1 * P == p2 + k2 * P)
        d = k2 - k1
        c.assume(p1 - p2 == d * P)
        c.prove('lemma: same position', And(Implies(d >= 1, d * P >= P), Implies(d <= -1, d * P <= -P)))
        c.prove('lemma: one owner', And(p1 == p2, k1 == k2))
        i = c.int('i')
        c.assume(i >= 0)
        c.prove('lemma: every index has an owner', And(0 <= i % P, i % P < P, i == i % P + (i / P) * P))


def files(ip):
    c = ip.ctx
    n = c.input('nfiles', c.int('nfiles'))
    f = PList(n=n, fn=lambda i: ITEM(z(i)))
    q = qvar()
    c.assume(z3.ForAll([q], COUNT(q) >= 0))

    def load(ip, a, k):
        return PList(n=COUNT(z(a[0])), fn=lambda i: TRACK(z(a[0]), z(i)))

    def filt(ip, a, k):
        # filtering is specified elsewhere; here the kept tracks of a file are its tracks
        return a[0]
    ip.contracts[W + '::loadTracks'] = load
    ip.contracts[W + '::filterTracks'] = filt
    return n, f


def havoc_yield(S):
    c = S.ctx
    n = c.int('yielded')
    g = c.func('yield', IS, IS)
    c.assume(n >= 0)
    return PList(n=n, fn=lambda i: g(z(i)))


def ylist(S):
    return S['__yield__']


def done(S, upto):
    """everything yielded so far: the tracks of the first `upto` files of the share, in order"""
    Y = ylist(S)
    P, p = S.ctx.inputs['size'], S.ctx.inputs['rank']
    k, t = qvar(2)
    if Y.concrete and not Y.items:
        body = True
    else:
        body = z3.ForAll([k, t], z(Implies(And(0 <= k, lt(k, upto), 0 <= t, t < COUNT(ITEM(p + k * P))),
                                           And(le(0, OFF(k)), le(add(OFF(k), t), sub(OFF(z(upto)), 1)),
                                               eq(Y.at(OFF(k) + t), TRACK(ITEM(p + k * P), t))))))
    return body


def outer_inv(S):
    return [('tracks yielded', eq(ylist(S).length(), OFF(z(S.it)))), ('of the files read', done(S, S.it))]


def inner_inv(S):
    c = S.ctx
    Y, t = ylist(S), qvar()
    it = S.ip.outer['files']
    f = ITEM(c.inputs['rank'] + z(it) * c.inputs['size'])
    return [('length', eq(Y.length(), add(OFF(z(it)), S.it))), ('of the files read', done(S, it)),
            ('this file', z3.ForAll([t], z(Implies(And(0 <= t, lt(t, S.it)), eq(Y.at(OFF(z(it)) + t), TRACK(z(f), t))))) if not (Y.concrete and not Y.items) else True)]


@task('P13', 'tracks of several files', [W + '::loadTracksFromFiles', W + '::balanced'], assumes=['filtering of a file is a function of the file (inRegion)'])
def many(ip):
    c = ip.ctx
    P, p = mpi(ip, [W])
    n, f = files(ip)
    c.assume(n > 1)
    q = qvar()
    c.assume(OFF(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, OFF(q + 1) == OFF(q) + COUNT(ITEM(p + q * P)))))
    c.induct('lemma: offsets are not negative', lambda k: OFF(z(k)) >= 0, n)
    ip.loops['loadTracksFromFiles'] = [
        Loop(outer_inv, havoc={'__yield__': havoc_yield}, name='files', ghost={}),
        Loop(inner_inv, havoc={'__yield__': havoc_yield}, name='tracks of a file'), None]
    Y = ip.call(ip.func(W + '::loadTracksFromFiles'), [f, None, 0])
    Y = seq(ip, Y)
    k, t = c.input('k', c.int('k')), c.input('t', c.int('t'))
    i = p + k * P
    c.assume(0 <= k, i < n, 0 <= t, t < COUNT(ITEM(i)))
    c.prove('post: every track of every file of the share is yielded', eq(Y.at(OFF(k) + t), TRACK(ITEM(i), t)))
    c.prove('post: position in range', And(le(0, OFF(k) + t), lt(OFF(k) + t, Y.length())))


@task('P13', 'tracks of one file', [W + '::loadTracksFromFiles', W + '::balanced'])
def one(ip):
    c = ip.ctx
    P, p = mpi(ip, [W])
    n, f = files(ip)
    c.assume(n == 1)
    fn = c.input('ntracks', COUNT(ITEM(0)))

    def inv(S):
        Y, t = ylist(S), qvar()
        if Y.concrete and not Y.items:
            return [('length', eq(S.it, 0))]
        return [('length', eq(Y.length(), S.it)), ('order', z3.ForAll([t], z(Implies(And(0 <= t, lt(t, S.it)), eq(Y.at(t), TRACK(ITEM(0), p + t * P))))))]
    ip.loops['loadTracksFromFiles'] = [None, None, Loop(inv, havoc={'__yield__': havoc_yield}, name='tracks of the file')]
    Y = seq(ip, ip.call(ip.func(W + '::loadTracksFromFiles'), [f, None, 0]))
    k, q, r = c.input('k', c.int('k')), c.input('q', c.int('q')), c.input('r', c.int('r'))
    c.assume(0 <= k, lt(k, Y.length()))
    c.prove('post: a track of the file, of this process only', And(eq(Y.at(k), TRACK(ITEM(0), p + k * P)), p + k * P < fn))
    c.assume(0 <= r, r < P, q >= 0, q * P + r < fn)
    c.prove('post: every track of this process is yielded', Implies(eq(r, p), lt(q, Y.length())))
