"""Wind-pressure relations (wind/vmax.py and the maximum wind models of wind/windmodels.py)."""
from engine.contract import task
from engine.sym import *

V = 'wind/vmax.py'
W = 'wind/windmodels.py'
TYPES = ('willoughby', 'holland', 'atkinson')
MODEL = {'willoughby': 'WilloughbyWindSpeed', 'holland': 'HollandWindSpeed', 'atkinson': 'AtkinsonWindSpeed'}


def params(ip):
    c = ip.ctx
    b, r = c.input('beta', c.real('beta')), c.input('rho', c.real('rho'))
    c.assume(b > 0, r > 0)
    return b, r


def pressures(ip, T, names=('pc',)):
    c = ip.ctx
    pe = Fraction(101000) if T == 'atkinson' else c.real('pe')
    c.input('pe', pe)
    out = [pe]
    c.assume(cmp('>=', pe, 10000))
    for n in names:
        p = c.input(n, c.real(n))
        c.assume(p >= 10000, le(p, pe))
        out.append(p)
    return out


for T in TYPES:
    @task('P09', '%s: wind of the derived pressure' % T, [V + '::vmax', V + '::pDiff'])
    def inv(ip, T=T):
        c = ip.ctx
        b, r = params(ip)
        pe = pressures(ip, T, ())[0]
        v = c.input('v', c.real('v'))
        c.assume(v > 0)
        pc = ip.call(ip.func(V + '::pDiff'), [v, pe, T, b, r])
        c.assume(cmp('>=', pc, 10000))
        back = ip.call(ip.func(V + '::vmax'), [pc, pe, T, b, r])
        c.prove('post: same wind speed', eq(back, v))

    @task('P09', '%s: pressure of the derived wind' % T, [V + '::vmax', V + '::pDiff'])
    def inv2(ip, T=T):
        c = ip.ctx
        b, r = params(ip)
        pe, pc = pressures(ip, T)
        c.assume(lt(pc, pe))
        v = ip.call(ip.func(V + '::vmax'), [pc, pe, T, b, r])
        back = ip.call(ip.func(V + '::pDiff'), [v, pe, T, b, r])
        c.prove('post: same central pressure', eq(back, pc))
        c.prove('post: wind is positive', lt(0, v))

    @task('P09', '%s: deeper storms are not weaker' % T, [V + '::vmax'])
    def mono(ip, T=T):
        c = ip.ctx
        b, r = params(ip)
        pe, p1, p2 = pressures(ip, T, ('pc', 'pc2'))
        c.assume(lt(p1, p2), lt(p2, pe))
        v1 = ip.call(ip.func(V + '::vmax'), [p1, pe, T, b, r])
        v2 = ip.call(ip.func(V + '::vmax'), [p2, pe, T, b, r])
        c.prove('post: stronger wind', lt(v2, v1))

    @task('P09', '%s: hectopascals and Pascals agree' % T, [V + '::vmax', V + '::pDiff'])
    def units(ip, T=T):
        c = ip.ctx
        b, r = params(ip)
        pe, pc = pressures(ip, T)
        ph, pch = truediv(pe, 100), truediv(pc, 100)
        c.assume(lt(ph, 10000), lt(pch, 10000))
        v = ip.call(ip.func(V + '::vmax'), [pc, pe, T, b, r])
        for k, (x, y) in enumerate(((pch, ph), (pch, pe), (pc, ph))):
            c.prove('post: vmax independent of the pressure unit', eq(ip.call(ip.func(V + '::vmax'), [x, y, T, b, r]), v))
        s = c.real('s')
        c.assume(s > 0)
        c.prove('post: pDiff independent of the pressure unit', eq(ip.call(ip.func(V + '::pDiff'), [s, ph, T, b, r]),
                                                                  ip.call(ip.func(V + '::pDiff'), [s, pe, T, b, r])))

    @task('P09', '%s: negative deficit rejected' % T, [V + '::vmax'])
    def rej(ip, T=T):
        c = ip.ctx
        b, r = params(ip)
        pe, pc = c.input('pe', c.real('pe')), c.input('pc', c.real('pc'))
        c.assume(pe >= 10000, pc > pe)
        try:
            ip.call(ip.func(V + '::vmax'), [pc, pe, T, b, r])
        except PyRaise as e:
            c.prove('post: rejection is a ValueError', e.name == 'ValueError')
            return
        c.prove('post: rejected', False)

    @task('P09', '%s: the wind model agrees with the relation' % T, [W + '::%s.maximum' % MODEL[T]])
    def agree(ip, T=T):
        c = ip.ctx
        b, _ = params(ip)
        pe, pc = pressures(ip, T)
        prof = SObj('profile', {'eP': pe, 'cP': pc, 'beta': b})
        m = ip.call(ip.func(W + '::' + MODEL[T]), [prof])
        v = ip.call(ip.getattr(m, 'maximum'), [])
        v2 = ip.call(ip.func(V + '::vmax'), [pc, pe, T, b, Fraction('1.15')])
        c.prove('post: same maximum wind', eq(v, v2))
        prof.attrs.update(eP=truediv(pe, 100), cP=truediv(pc, 100))
        c.assume(lt(truediv(pe, 100), 10000), lt(truediv(pc, 100), 10000))
        c.prove('post: independent of the pressure unit', eq(ip.call(ip.getattr(m, 'maximum'), []), v2))

for F_ in ('vmax', 'pDiff'):
    @task('P09', '%s rejects an unknown relation' % F_, [V + '::' + F_])
    def unk(ip, F_=F_):
        c = ip.ctx
        b, r = params(ip)
        pe, pc = pressures(ip, 'x')
        for name in ('unknown', 'Holland', ''):
            try:
                ip.call(ip.func(V + '::' + F_), [pc, pe, name, b, r])
            except PyRaise as e:
                c.prove('post: rejection is a NotImplementedError', e.name == 'NotImplementedError')
                continue
            c.prove('post: rejected', False)
