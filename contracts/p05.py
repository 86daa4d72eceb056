"""Largest gust, its direction and the lowest pressure over a storm's passage (wind/__init__.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native, const_ghost, mk_ghost
from engine.sym import *
from engine.models import qvar

W = 'wind/__init__.py'
I3 = [IS, IS, IS]
UX, VY, PR = [z3.Function('local.' + n, *I3, RS) for n in ('u', 'v', 'p')]
SQ, AT = z3.Function('root', RS, RS), z3.Function('angle', RS, RS, RS)
MAG, DIR = z3.Function('magnitude', RS, RS, RS), z3.Function('direction', RS, RS, RS)


def field(ip, args, kw):
    """contract of localWindField: the field of one time step on the part of the region it reaches"""
    s = args[-1]
    ext = ip.geo.ext
    return tuple(SArr(ext, lambda k, F=F: F(z(s), z(k[0]), z(k[1])), 'r') for F in (UX, VY, PR))


def sqrt(ip, a, k):
    v = a[0]
    return ip.unary(lambda x: SQ(toreal(x)), v)


def arctan2(ip, a, k):
    from engine.models import broadcast
    return broadcast(ip, lambda x, y: AT(toreal(x), toreal(y)), a[0], a[1], None)


QUO, LEN = z3.Function('quotient', IS, IS), z3.Function('points', IS, IS)


def quo(ip, a):
    """whole steps in the distance a, with what the task `quotients` shows about them"""
    c, g = ip.ctx, ip.geo
    q = QUO(z(a))
    c.assume(Implies(le(0, a), le(0, q)))
    c.assume(Implies(le(0, a), And(le(add(q, 1), LEN(z(add(a, g.st)))), le(LEN(z(add(a, g.st))), add(q, 2)))))
    for b in g.seen:
        p = QUO(z(b))
        c.assume(Implies(And(le(0, a), le(a, b)), le(q, p)))
        c.assume(Implies(And(le(0, b), le(b, a)), le(p, q)))
        c.assume(Implies(And(le(0, a), eq(b, add(a, mul(2, g.gm)))), eq(p, add(q, g.K))))
        c.assume(Implies(And(le(0, b), eq(a, add(b, mul(2, g.gm)))), eq(q, add(p, g.K))))
    g.seen.append(a)
    return q


def as_quotient(ip, x):
    """a when x is a/step, else None"""
    if isz(x) and z3.is_real(x) and x.num_args() == 2 and x.decl().kind() == z3.Z3_OP_DIV:
        a, b = unreal(x.arg(0)), unreal(x.arg(1))
        if a is not None and b is not None and isz(b) and b.eq(ip.geo.st):
            return a
    return None


def to_int(ip, args, kw):
    a = as_quotient(ip, args[0])
    for x, v in ip.geo.known:
        if isz(args[0]) and x.eq(z3.simplify(args[0])):
            return v
    return trunc(args[0]) if a is None else quo(ip, a)


def to_array(ip, args, kw):
    from engine.models import n_array
    if 'dtype' in kw and isinstance(args[0], SArr) and len(args[0].shape) == 1:
        for x, v in ip.geo.whole:
            if z3.simplify(z(args[0].at(ip.geo.probe))).eq(x):
                return v
    return n_array(ip, args, kw)


def arange(ip, args, kw):
    from engine.models import n_arange
    if len(args) == 3 and isz(args[2]) and args[2].eq(ip.geo.st):
        n = LEN(z(sub(args[1], args[0])))
        ip.ctx.assume(n >= 0)
        return SArr((n,), lambda k: add(args[0], mul(k[0], args[2])), 'i')
    return n_arange(ip, args, kw)


class Geo:
    """where the field of a time step lies in the region grid"""


def spec(ip, s, j, i):
    """(reached, gust, u, v, bearing, pressure) of time step s at cell (j, i)"""
    g = ip.geo
    jlo, ilo = g.row(s), g.col(s)
    inside = And(le(jlo, j), lt(j, add(jlo, g.ext[0])), le(ilo, i), lt(i, add(ilo, g.ext[1])))
    a, b = z(sub(j, jlo)), z(sub(i, ilo))
    u, v = mul(UX(z(s), a, b), g.gf), mul(VY(z(s), a, b), g.gf)
    gust = SQ(toreal(add(mul(u, u), mul(v, v))))
    br = truediv(mul(AT(toreal(neg(u)), toreal(neg(v))), 180), PI)
    return inside, gust, u, v, br, PR(z(s), a, b)


def wit(val):
    """ghost: number of the pass (1, 2, ...) that set the cell, 0 when none has"""
    def upd(pre, post):
        w = pre.g[val]
        c = post.ctx
        t = pre.seq
        name = 'gust' if val == 'wg' else 'pressure'
        old, new = pre[name], post[name]

        def f(j, i):
            s = t.at(pre.it)
            ins, gust, u, v, br, p = spec(post.ip, s, j, i)
            better = lt(old.at(j, i), gust) if val == 'wg' else lt(p, old.at(j, i))
            return ite(And(ins, better), add(pre.it, 1), w(j, i))
        return mk_ghost(f, (IS, IS, IS))
    return (lambda S: const_ghost(0, (IS, IS, IS))), upd


def inv(S):
    c = S.ctx
    t = S.seq
    q, j, i = qvar(), qvar(), qvar()
    gust, br, UU, VV, pr = [S[n] for n in ('gust', 'bearing', 'UU', 'VV', 'pressure')]
    cell = And(0 <= j, lt(j, gust.shape[0]), 0 <= i, lt(i, gust.shape[1]))
    wg, wp = S.g['wg'](j, i), S.g['wp'](j, i)
    G, P = gust.at(j, i), pr.at(j, i)
    past = spec(S.ip, t.at(q), j, i)
    done = And(0 <= q, lt(q, S.it))
    cw, cp = spec(S.ip, t.at(sub(wg, 1)), j, i), spec(S.ip, t.at(sub(wp, 1)), j, i)

    def each(x):
        return z3.ForAll([j, i], z(Implies(cell, x)))

    def step(x):
        return z3.ForAll([q, j, i], z(Implies(And(cell, done, past[0]), x)))
    env = c.ghosts['env']
    return [('gust at least that of every time step that reached the cell', step(le(past[1], G))),
            ('pressure at most that of every time step that reached the cell', step(le(P, past[5]))),
            ('a gust comes from a time step so far', each(And(0 <= wg, le(wg, S.it)))), ('a pressure comes from a time step so far', each(And(0 <= wp, le(wp, S.it)))),
            ('untouched cells have no wind', each(Implies(eq(wg, 0), And(eq(G, 0), eq(UU.at(j, i), 0), eq(VV.at(j, i), 0), eq(br.at(j, i), 0))))),
            ('untouched cells have the outer pressure', each(Implies(eq(wp, 0), eq(P, env)))),
            ('gust is that of its time step', each(Implies(lt(0, wg), And(cw[0], eq(G, cw[1]))))),
            ('eastward component is that of the same time step', each(Implies(lt(0, wg), eq(UU.at(j, i), cw[2])))),
            ('northward component is that of the same time step', each(Implies(lt(0, wg), eq(VV.at(j, i), cw[3])))),
            ('bearing is that of the same time step', each(Implies(lt(0, wg), eq(br.at(j, i), cw[4])))),
            ('pressure is that of its time step', each(Implies(lt(0, wp), And(cp[0], eq(P, cp[5])))))]


OPTS = {'externals': {'builtins.int': to_int, 'numpy.array': to_array, 'numpy.arange': arange, 'tqdm.tqdm': lambda ip, a, k: a[0], 'numpy.sqrt': sqrt, 'numpy.arctan2': arctan2}}
REGION = [W + '::WindfieldAroundTrack.regionalExtremes']
ASSUME = ('the field of one time step has the extent of the part of the region it reaches (it is laid out by makeGrid on the same spacing)',
          'the margin is a whole number of grid steps; positions, margins and steps are exact decimals',
          'square root and inverse tangent are functions of their arguments')


def with_loops(f):
    return dict(contracts={W + '::WindfieldAroundTrack.localWindField': field, 'Utilities/metutils.py::convert': lambda ip, a, k: ip.ctx.ghosts['env']},
                opts=OPTS, assumes=ASSUME, loops={'WindfieldAroundTrack.regionalExtremes': [Loop(inv, name='times', ghost={'wg': wit('wg'), 'wp': wit('wp')})]}, deadline=400)


@task('P05', 'one storm, field around the storm', REGION, **with_loops(1))
def bounded(ip):
    storm(ip, 'bounded')


@task('P05', 'one storm, field over the whole region', REGION, **with_loops(1))
def full(ip):
    storm(ip, 'full')


@task('P05', 'quotients', [])
def quotients(ip):
    c = ip.ctx
    a, b, st, gm, K = [c.int(x) for x in 'a b st gm K'.split()]
    c.assume(And(st > 0, K > 0, eq(mul(2, gm), mul(K, st)), 0 <= a))
    q = lambda x: trunc(truediv(x, st))
    n = lambda x: ceil(truediv(x, st))
    x, y = c.real('x'), c.real('y')
    c.assume(And(eq(mul(x, st), a), eq(mul(y, st), b)))
    for k, e in enumerate((eq(truediv(a, st), x), eq(truediv(b, st), y), eq(truediv(add(a, st), st), add(x, 1)), eq(truediv(add(a, mul(2, gm)), st), add(x, K)))):
        c.prove('division %d' % (k + 1), e)
    c.prove('a length has no negative number of steps', le(0, q(a)))
    c.prove('longer lengths have as many steps or more', Implies(le(a, b), le(q(a), q(b))))
    c.prove('a margin on both sides adds its steps', eq(q(add(a, mul(2, gm))), add(q(a), K)))
    c.prove('points of the grid', And(le(add(q(a), 1), n(add(a, st))), le(n(add(a, st)), add(q(a), 2))))


def setting(ip, domain):
    """a storm and a region; (object, limits, limits in hundredths, margin, step, track positions)"""
    c = ip.ctx
    n = c.input('steps', c.int('n'))
    c.assume(n >= 1)
    lon, lat = ip.fresh_array((n,), 'r', 'lon'), ip.fresh_array((n,), 'r', 'lat')
    env, gf = c.real('env'), c.real('gf')
    margin, res = c.real('margin'), c.real('res')
    lim = {k: c.input(k, c.real(k)) for k in ('xMin', 'xMax', 'yMin', 'yMax')}
    track = SObj(None, {'data': lon, 'Longitude': lon, 'Latitude': lat, 'EnvPressure': ip.fresh_array((n,), 'r', 'penv'), 'TimeElapsed': lon})
    o = SObj(ip.func(W + '::WindfieldAroundTrack'), {'track': track, 'margin': margin, 'resolution': res, 'gustFactor': gf, 'domain': domain})
    g = Geo()
    g.known = []

    def hundredths(x, name):
        v = c.int(name)
        c.assume(eq(v, trunc(mul(100, x))))
        g.known.append((z3.simplify(z(mul(100, x))), v))
        return v
    gm, st = hundredths(margin, 'gm'), hundredths(res, 'st')
    lo = {k: hundredths(v, k + '100') for k, v in lim.items()}
    g.probe, g.whole = c.int('s'), []

    def positions(x, a, name):
        """track positions in hundredths; truncation keeps their order"""
        v = ip.fresh_array((n,), 'i', name)
        s = qvar()
        low, high = lim[a + 'Min'], lim[a + 'Max']
        c.prove('positions within the limits stay within when truncated (' + name + ')', z3.ForAll([s], z(Implies(
            And(le(low, x.at(s)), le(x.at(s), high)), And(le(lo[a + 'Min'], trunc(mul(100, x.at(s)))), le(trunc(mul(100, x.at(s))), lo[a + 'Max']))))))
        c.assume(z3.ForAll([s], z(Implies(And(le(low, x.at(s)), le(x.at(s), high)), And(le(lo[a + 'Min'], v.at(s)), le(v.at(s), lo[a + 'Max'])))), patterns=[v.at(s)]))
        g.whole.append((z3.simplify(z(mul(100, x.at(g.probe)))), v))
        return v
    lat100, lon100 = positions(lat, 'y', 'lat100'), positions(lon, 'x', 'lon100')
    K = c.int('K')
    c.assume(And(margin > 0, st > 0, K > 0, eq(mul(2, gm), mul(K, st)), le(lim['xMin'], lim['xMax']), le(lim['yMin'], lim['yMax'])))
    g.gf, g.ext, g.seen, g.st, g.gm, g.K = gf, (add(K, 1), add(K, 1)), [], st, gm, K
    g.row = lambda s: QUO(z(sub(lat100.at(s), lo['yMin'])))
    g.col = lambda s: QUO(z(sub(lon100.at(s), lo['xMin'])))
    c.ghosts['env'] = env
    ip.geo = g
    if domain == 'full':
        g.ext = tuple(LEN(z(add(sub(add(lo[a + 'Max'], gm), sub(lo[a + 'Min'], gm)), st))) for a in 'yx')
        g.row = g.col = lambda s: 0
    for a in 'yx':
        quo(ip, sub(add(lo[a + 'Max'], gm), sub(lo[a + 'Min'], gm)))
    return o, lim, lo, gm, st, n, lon, lat


def storm(ip, domain):
    c = ip.ctx
    o, lim, lo, gm, st, n, lon, lat = setting(ip, domain)
    gust, br, UU, VV, pr, X, Y = ip.call(ip.getattr(o, 'regionalExtremes'), [PDict(lim)])
    q, j, i = qvar(), qvar(), qvar()
    here = And(0 <= q, lt(q, n), le(lim['xMin'], lon.at(q)), le(lon.at(q), lim['xMax']), le(lim['yMin'], lat.at(q)), le(lat.at(q), lim['yMax']))
    cell = And(0 <= j, lt(j, gust.shape[0]), 0 <= i, lt(i, gust.shape[1]))
    at = spec(ip, q, j, i)
    each = lambda x: z3.ForAll([q, j, i], z(Implies(And(cell, here, at[0]), x)))
    c.prove('gust at least that of every time step that reaches the cell', each(le(at[1], gust.at(j, i))))
    c.prove('pressure at most that of every time step that reaches the cell', each(le(pr.at(j, i), at[5])))
    c.prove('grid coordinates', z3.ForAll([j, i], z(Implies(cell, And(
        eq(mul(100, Y.at(j)), add(sub(lo['yMin'], gm), mul(j, st))), eq(mul(100, X.at(i)), add(sub(lo['xMin'], gm), mul(i, st))))))))
    c.prove('fields have the shape of the grid', And(*[And(eq(f.shape[0], Y.shape[0]), eq(f.shape[1], X.shape[0])) for f in (gust, br, UU, VV, pr)]))


RES = [z3.Function('result.' + x, IS, IS, IS, RS) for x in ('gust', 'bearing', 'u', 'v', 'p')]


def one(ip, args, kw):
    """contract of calculateExtremesFromTrack: the fields of the track"""
    t = args[1]
    k = t.attrs['k']
    sh = ip.ctx.ghosts['shape']
    return (t, tuple(SArr(sh, lambda x, F=F: F(z(k), z(x[0]), z(x[1])), 'r') for F in RES) + ip.ctx.ghosts['axes'])


def combined(S):
    c = S.ctx
    q, j, i = qvar(), qvar(), qvar()
    gust, br, UU, VV, pr = [S[x] for x in ('gust', 'bearing', 'Vx', 'Vy', 'P')]
    sh = c.ghosts['shape']
    cell = And(0 <= j, lt(j, sh[0]), 0 <= i, lt(i, sh[1]))
    wg, wp = S.g['wg'](j, i), S.g['wp'](j, i)
    done = And(0 <= q, le(q, S.it))
    every = lambda x: z3.ForAll([q, j, i], z(Implies(And(cell, done), x)))
    each = lambda x: z3.ForAll([j, i], z(Implies(cell, x)))
    f = lambda m, w: RES[m](z(w), j, i)
    return [('gust at least that of every storm so far', every(le(f(0, q), gust.at(j, i)))), ('pressure at most that of every storm so far', every(le(pr.at(j, i), f(4, q)))),
            ('gust comes from a storm so far', each(And(0 <= wg, le(wg, S.it)))), ('pressure comes from a storm so far', each(And(0 <= wp, le(wp, S.it)))),
            ('gust is that of its storm', each(eq(gust.at(j, i), f(0, wg)))), ('bearing is that of the same storm', each(eq(br.at(j, i), f(1, wg)))),
            ('eastward component is that of the same storm', each(eq(UU.at(j, i), f(2, wg)))), ('northward component is that of the same storm', each(eq(VV.at(j, i), f(3, wg)))),
            ('pressure is that of its storm', each(eq(pr.at(j, i), f(4, wp))))]


def storm_of(m, name, better):
    def upd(pre, post):
        w, old = pre.g[name], pre['gust' if m == 0 else 'P']

        def f(j, i):
            x = RES[m](z(add(pre.it, 1)), z(j), z(i))
            return ite(better(x, old.at(j, i)), add(pre.it, 1), w(j, i))
        return mk_ghost(f, (IS, IS, IS))
    return (lambda S: const_ghost(0, (IS, IS, IS))), upd


@task('P05', 'several storms', [W + '::WindfieldGenerator.calculateExtremesFromTrackfile'],
      contracts={W + '::WindfieldGenerator.calculateExtremesFromTrack': one},
      opts={'names': {(W, 'loadTracks'): Native(lambda ip, a, k: ip.ctx.tracks)}},
      loops={'WindfieldGenerator.calculateExtremesFromTrackfile': [Loop(combined, name='storms', ghost={
          'wg': storm_of(0, 'wg', lambda x, old: lt(old, x)), 'wp': storm_of(4, 'wp', lambda x, old: lt(x, old))})]},
      assumes=('the fields of all tracks of a file are on the same grid',))
def several(ip):
    c = ip.ctx
    n, h, w = c.input('storms', c.int('n')), c.int('h'), c.int('w')
    c.assume(And(n >= 1, h >= 1, w >= 1))
    c.ghosts['shape'] = (h, w)
    c.ghosts['axes'] = (ip.fresh_array((w,), 'r', 'lon'), ip.fresh_array((h,), 'r', 'lat'))
    c.tracks = PList(n=n, fn=lambda k: SObj(None, {'k': k}))
    o = SObj(ip.func(W + '::WindfieldGenerator'), {})
    gust, br, UU, VV, pr, X, Y = ip.call(ip.getattr(o, 'calculateExtremesFromTrackfile'), ['file'])
    q, j, i = qvar(), qvar(), qvar()
    cell = And(0 <= j, lt(j, h), 0 <= i, lt(i, w), 0 <= q, lt(q, n))
    c.prove('gust at least that of every storm', z3.ForAll([q, j, i], z(Implies(cell, le(RES[0](q, j, i), gust.at(j, i))))))
    c.prove('pressure at most that of every storm', z3.ForAll([q, j, i], z(Implies(cell, le(pr.at(j, i), RES[4](q, j, i))))))
