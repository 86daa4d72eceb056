"""Nearest index and angle conversions (Utilities/maputils.py)."""
from engine.contract import task
import z3
from engine.sym import *
from engine.models import qvar, forall

M = 'Utilities/maputils.py'


def array(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 1)
    a = c.input('array', ip.fresh_array((n,), 'r', 'array'))
    v = c.input('value', c.real('value'))
    return n, a, v


@task('P27', 'find_index returns an index at minimal distance', [M + '::find_index'])
def idx(ip):
    n, a, v = array(ip)
    old = a.snapshot()
    r = ip.call(ip.func(M + '::find_index'), [a, v])
    ip.ctx.prove('post: index in range', And(le(0, r), lt(r, n)))
    k = ip.ctx.input('k', ip.ctx.int('k'))
    ip.ctx.assume(0 <= k, k < n)
    ip.ctx.prove('post: no element is nearer', le(absv(old((r,)) - v), absv(old((k,)) - v)))
    ip.ctx.prove('frame: array unchanged', eq(a.at(k), old((k,))))


@task('P27', 'find_nearest returns an element at minimal distance', [M + '::find_nearest'])
def near(ip):
    n, a, v = array(ip)
    r = ip.call(ip.func(M + '::find_nearest'), [a, v])
    k, q = ip.ctx.input('k', ip.ctx.int('k')), qvar()
    ip.ctx.assume(0 <= k, k < n)
    ip.ctx.prove('post: no element is nearer', le(absv(r - v), absv(a.at(k) - v)))
    from engine.models import exists
    ip.ctx.prove('post: an element of the array', exists(q, And(0 <= q, q < n, eq(a.at(q), r))))


for F_ in ('find_index', 'find_nearest'):
    for K in ('array', 'list'):
        @task('P27', '%s rejects an %s as value' % (F_, K), [M + '::' + F_])
        def rej(ip, F_=F_, K=K):
            n, a, v = array(ip)
            bad = ip.fresh_array((ip.ctx.int('m'),), 'r', 'bad') if K == 'array' else PList([v, v])
            try:
                ip.call(ip.func(M + '::' + F_), [a, bad])
            except PyRaise as e:
                ip.ctx.prove('post: rejection is a ValueError', e.name == 'ValueError')
                return
            ip.ctx.prove('post: rejected', False)


def turn(ip, x):
    """x reduced to one turn: x = r + 2 pi k with 0 <= r < 2 pi"""
    return sub(x, mul(ip.named_div('FloorDiv', x, 2 * PI), 2 * PI))


for A, B in (('bearing2theta', 'theta2bearing'), ('theta2bearing', 'bearing2theta')):
    @task('P27', '%s is a reflection onto one turn' % A, [M + '::' + A])
    def conv_(ip, A=A):
        c = ip.ctx
        b = c.input('angle', c.real('angle'))
        r = ip.call(ip.func(M + '::' + A), [b])
        c.prove('post: in one turn', And(le(0, r), lt(r, 2 * PI)))
        c.prove('post: quarter turn minus the angle', eq(r, turn(ip, PI / 2 - b)))

    @task('P27', '%s undoes %s' % (B, A), [M + '::' + A, M + '::' + B])
    def inv(ip, A=A, B=B):
        c = ip.ctx
        b = c.input('angle', c.real('angle'))
        c.assume(b >= 0, b < 2 * PI)
        t = ip.call(ip.func(M + '::' + A), [b])
        r = ip.call(ip.func(M + '::' + B), [t])
        c.prove('post: the same angle', eq(r, b))
