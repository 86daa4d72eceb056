"""Shared by the contracts on the hazard master loop: tiles, results and where they are stored."""
import z3
from engine.sym import *
from engine.interp import Loop, Native
from engine.models import qvar

H = 'hazard/__init__.py'
HC = H + '::HazardCalculator'
FIELDS = ('loc', 'scale', 'shp', 'Rp', 'RPupper', 'RPlower')
LIM = [z3.Function('tile_' + n, IS, IS) for n in ('x1', 'x2', 'y1', 'y2')]
RES = {f: z3.Function('result_' + f, *([IS] * (7 if f[0] == 'R' else 6) + [RS])) for f in FIELDS}


class World:
    pass


def limits(k):
    return tuple(f(z(k)) for f in LIM)


def world(ip, ci):
    """calculator with a region of xdim x ydim points and N disjoint tiles inside it; (x, y) is any region point in tile T"""
    c = ip.ctx
    w = World()
    w.ci = ci
    w.N, w.T, w.ny, w.x, w.y, w.r = [c.input(n, c.int(n)) for n in ('N', 'T', 'nyears', 'x', 'y', 'r')]
    w.imin, w.jmin, w.xdim, w.ydim = [c.input(n, c.int(n)) for n in ('imin', 'jmin', 'xdim', 'ydim')]
    k = qvar()
    x1, x2, y1, y2 = limits(k)
    c.assume(w.N >= 0, w.ny >= 1, w.imin >= 0, w.jmin >= 0, w.xdim >= 1, w.ydim >= 1)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w.N), z3.And(w.imin <= x1, x1 < x2, x2 <= w.imin + w.xdim, w.jmin <= y1, y1 < y2, y2 <= w.jmin + w.ydim))))
    inside = lambda k: And(*[And(LIM[0](z(k)) <= w.x, w.x < LIM[1](z(k)), LIM[2](z(k)) <= w.y, w.y < LIM[3](z(k)))])
    c.assume(0 <= w.T, w.T < w.N, inside(w.T), 0 <= w.r, w.r < w.ny)
    c.assume(z3.ForAll([k], z(Implies(And(0 <= k, k < w.N, k != w.T), Not(inside(k))))))
    shp = {'R': (w.ny, w.ydim, w.xdim)}
    A = {f: ip.fresh_array((w.ny, w.ydim, w.xdim) if f[0] == 'R' else (w.ydim, w.xdim), 'r', f) for f in FIELDS}
    A['tilegrid'] = SObj(None, {'imin': w.imin, 'jmin': w.jmin})
    A['calcCI'] = ci
    w.obj = SObj(ip.func(HC), A)
    w.tiles = PList(n=w.N, fn=limits)
    w.fields = FIELDS if ci else FIELDS[:4]
    return w


def result(w, lim):
    """what the calculation for a tile returns: a function of the tile"""
    x1, x2, y1, y2 = [z(v) for v in lim]
    out = {}
    for f in w.fields:
        g = RES[f]
        if f[0] == 'R':
            out[f] = SArr((w.ny, sub(y2, y1), sub(x2, x1)), lambda i, g=g: g(x1, x2, y1, y2, *[z(v) for v in i]), 'r')
        else:
            out[f] = SArr((sub(y2, y1), sub(x2, x1)), lambda i, g=g: g(x1, x2, y1, y2, *[z(v) for v in i]), 'r')
    t = (tuple(lim), out['Rp'], out['loc'], out['scale'], out['shp'])
    return t + ((out['RPupper'], out['RPlower']) if w.ci else ())


def stored(w, obj=None):
    """the values at (x, y) are those of tile T"""
    o = (obj or w.obj).attrs
    lim = limits(w.T)
    cs = []
    for f in w.fields:
        ix = (w.r,) if f[0] == 'R' else ()
        cs.append(eq(o[f].at(*(ix + (w.y - w.jmin, w.x - w.imin))), RES[f](*(lim + ix + (w.y - lim[2], w.x - lim[0])))))
    return And(*cs)


SAME = 'the results for a tile are a function of its limits (deterministic fit)'
CALC = {HC + '.calculateHazard': lambda ip, a, k: result(ip.ctx.ghosts['w'], a[1])}


def serial(ip, CI):
    """one process works through all the tiles"""
    c = ip.ctx
    w = world(ip, CI)
    c.ghosts['w'] = w
    comm = SObj(None, {'rank': 0, 'size': 1})
    ip.opts['names'] = {(H, 'comm'): comm, (H, 'MPI'): SObj(None, {'Status': Native(lambda ip, a, k: SObj(None, {}))})}
    ip.loops['*'] = [Loop(inv=lambda s: [('stored', Implies(lt(w.T, s.it), stored(w, s['self'])))], name='tiles',
                          match=lambda txt, st: txt.startswith('for') and 'calculateHazard' in txt)]
    ip.call(ip.getattr(w.obj, 'dumpHazardFromTiles'), [w.tiles])
    c.prove('post: values of the tile at its points', stored(w))
