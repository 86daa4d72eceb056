"""Unit conversion (Utilities/metutils.py): every conversion is the affine map of the units' definitions."""
import itertools
from fractions import Fraction
from engine.contract import task
from engine.sym import *
from engine.models import qvar

M = 'Utilities/metutils.py'
# size of the unit in the base unit of its kind (definitions of the units; degrees and radians on the sphere used here)
KM = Fraction('111125.1')
KINDS = {
    'speed': {'mps': 1, 'kph': Fraction(10, 36), 'kts': Fraction('0.514444'), 'mph': Fraction('0.44704')},
    'pressure': {'Pa': 1, 'hPa': 100, 'kPa': 1000, 'Pascals': 1, 'inHg': Fraction('3386.389'), 'mmHg': Fraction('133.3224')},
    'length': {'m': 1, 'km': 1000, 'mi': Fraction('1609.344'), 'nm': 1852, 'deg': KM, 'rad': Fraction('6366248.653')},
    'mixing ratio': {'gkg': 1, 'kgkg': 1000},
}
# no direct conversion is offered between these
NONE = {('mi', 'nm'), ('nm', 'mi'), ('mi', 'rad'), ('rad', 'mi')}
ALIAS = {'kmh': 'kph', 'm/s': 'mps'}
TOL = Fraction(2, 1000)
TEMP = {('C', 'F'): (Fraction(9, 5), 32), ('F', 'C'): (Fraction(5, 9), -32 * Fraction(5, 9)),
        ('C', 'K'): (1, 273), ('K', 'C'): (1, -273)}


def call(ip, v, a, b):
    return ip.call(ip.func(M + '::convert'), [v, a, b])


for KIND, U in KINDS.items():
    for A, B in itertools.permutations(U, 2):
        if (A, B) in NONE:
            continue
        for A2, B2 in itertools.product([A] + [k for k, v in ALIAS.items() if v == A], [B] + [k for k, v in ALIAS.items() if v == B]):
            @task('P19', '%s to %s' % (A2, B2), [M + '::convert'])
            def lin(ip, A=A2, B=B2, f=Fraction(U[A]) / Fraction(U[B])):
                c = ip.ctx
                x, y = c.input('x', c.real('x')), c.input('y', c.real('y'))
                r, s = call(ip, x, A, B), call(ip, y, A, B)
                d = mul(f * TOL, absv(x))
                c.prove('post: the factor of the definition', And(le(sub(mul(f, x), d), r), le(r, add(mul(f, x), d))))
                c.prove('post: order preserved', Implies(x < y, lt(r, s)))
                b = call(ip, r, B, A)
                e = mul(2 * TOL, absv(x))
                c.prove('post: converting back', And(le(sub(x, e), b), le(b, add(x, e))))

for (A, B), (F_, G_) in TEMP.items():
    @task('P19', 'temperature %s to %s' % (A, B), [M + '::convert'])
    def temp(ip, A=A, B=B, f=Fraction(F_), g=Fraction(G_)):
        c = ip.ctx
        x, y = c.input('x', c.real('x')), c.input('y', c.real('y'))
        r, s = call(ip, x, A, B), call(ip, y, A, B)
        d = mul(TOL, add(absv(mul(f, x)), absv(g)))
        c.prove('post: the map of the definition', And(le(sub(add(mul(f, x), g), d), r), le(r, add(add(mul(f, x), g), d))))
        c.prove('post: order preserved', Implies(x < y, lt(r, s)))
        b = call(ip, r, B, A)
        e = mul(TOL, add(absv(x), 33))
        c.prove('post: converting back', And(le(sub(x, e), b), le(b, add(x, e))))

ALL = [u for U in KINDS.values() for u in U] + ['C', 'F', 'K']
KOF = {u: k for k, U in KINDS.items() for u in U}
KOF.update({'C': 'temperature', 'F': 'temperature', 'K': 'temperature'})


def unknown():
    out = [(a, b) for a in ALL for b in ALL if a == b or KOF[a] != KOF[b] or (a, b) in NONE]
    out += [('F', 'K'), ('K', 'F')]
    for u in ALL:
        out += [(u, 'furlong'), ('furlong', u)]
    return out


U_ = unknown() + [('kmh', 'kph'), ('kph', 'kmh'), ('m/s', 'mps'), ('mps', 'm/s')]
for P in range(0, len(U_), 60):
    @task('P19', 'unknown and equal unit pairs, part %d' % (P // 60), [M + '::convert'])
    def same(ip, part=U_[P:P + 60]):
        c = ip.ctx
        x = c.input('x', c.real('x'))
        for a, b in part:
            c.prove('post: value unchanged', eq(call(ip, x, a, b), x))

for A, B in [('C', 'F'), ('F', 'C'), ('C', 'K'), ('K', 'C'), ('mps', 'kph'), ('m', 'm'), ('hPa', 'furlong')]:
    @task('P19', 'array from %s to %s' % (A, B), [M + '::convert'])
    def arr_(ip, A=A, B=B):
        c = ip.ctx
        n = c.input('n', c.int('n'))
        c.assume(n >= 0)
        v = c.input('v', ip.fresh_array((n,), 'r', 'v'))
        old = v.snapshot()
        k = c.input('k', c.int('k'))
        c.assume(0 <= k, k < n)
        r = call(ip, v, A, B)
        one = call(ip, old((k,)), A, B)
        c.prove('post: element by element', eq(r.at(k), one))
        c.prove('frame: the input is unchanged', eq(v.at(k), old((k,))))
