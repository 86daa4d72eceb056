"""Annual genesis frequency (DataProcess/CalcFrequency.py)."""
from fractions import Fraction
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar, REG

D = 'DataProcess/CalcFrequency.py'
KEYS = ('xMin', 'xMax', 'yMin', 'yMax')
CNT = z3.Function('storms.in.year', IS, IS)          # number of storms that start inside the domain in a year


def starts(ip, y, k):
    t, lon, lat, d = [ip.st[n] for n in ('year', 'lon', 'lat', 'domain')]
    return And(eq(t.at(k), y), lt(d['xMin'], lon.at(k)), lt(lon.at(k), d['xMax']), lt(d['yMin'], lat.at(k)), lt(lat.at(k), d['yMax']))


def count(ip, a, k):
    """number of true elements: that of the storms of a year if the mask selects exactly these"""
    c = ip.ctx
    m = a[0]
    if not (isinstance(m, SArr) and m.kind == 'b'):
        return REG['builtins.sum'](ip, a, k)
    y = add(ip.st['first'], ip.outer.get('years', 0))
    j = qvar()
    ok = z3.ForAll([j], z(Implies(And(0 <= j, lt(j, ip.st['n'])), Iff(m.at(j), starts(ip, y, j)))))
    c.prove('count: the storms of the year that start inside the domain', And(eq(m.shape[0], ip.st['n']), ok))
    return CNT(z(y))


def mean(ip, a, k):
    c = ip.ctx
    v, st = a[0], ip.st
    c.prove('mean: over the years from the first to the one before the last', eq(v.shape[0], sub(st['last'], st['first'])))
    t = c.int('t')
    c.prove('mean: of the counts of these years', Implies(And(0 <= t, lt(t, v.shape[0])), eq(v.at(t), CNT(z(add(st['first'], t))))))
    return st['mean']


def rnd(ip, a, k):
    if len(a) > 1:
        raise Unsupported('round with digits')
    r = ip.ctx.int('rounded')
    ip.ctx.assume(And(le(sub(toreal(r), a[0]), Fraction(1, 2)), le(sub(a[0], toreal(r)), Fraction(1, 2))))
    return toreal(r)


def save(ip, a, k):
    ip.st['saved'].append(a)


def inv(s):
    y = qvar()
    f = s['freq_count']
    a = s.ip.st['first']
    return [('counts so far', z3.ForAll([y], z(Implies(And(a <= y, lt(y, add(a, s.it))), eq(f.at(y), CNT(y))))))]


@task('P28', 'frequency', [D + '::CalcFrequency.calc'], loops={'CalcFrequency.calc': [Loop(inv, name='years')], 'calc': [Loop(inv, name='years')]},
      opts={'externals': {'builtins.sum': count, 'numpy.sum': count, 'numpy.mean': mean, 'numpy.round': rnd, 'numpy.savetxt': save}},
      contracts={'Utilities/files.py::flLoadFile': lambda ip, a, k: ip.st['files'][a[0].rsplit('/', 1)[1]]},
      assumes=('files of years and positions are read as they were written, one line for each storm, whole years below 3000', 'rounding is to a nearest number of the precision asked for'))
def frequency(ip):
    c = ip.ctx
    n, a, b = [c.input(x, c.int(x)) for x in ('n', 'first', 'last')]
    c.assume(And(n >= 1, 0 <= a, a < b, b < 3000))
    year = ip.fresh_array((n,), 'i', 'year')
    pos = ip.fresh_array((n, 2), 'r', 'position')
    d = {k: c.input(k, c.real(k)) for k in KEYS}
    k = qvar()
    c.assume(z3.ForAll([k], z(Implies(And(0 <= k, lt(k, n)), And(a <= year.at(k), year.at(k) <= b)))))
    ka, kb = c.int('oldest'), c.int('newest')
    c.assume(And(0 <= ka, ka < n, 0 <= kb, kb < n, eq(year.at(ka), a), eq(year.at(kb), b)))
    m = c.real('mean')
    ip.st = {'year': year, 'lon': SArr((n,), lambda i: pos.at(i[0], 0), 'r'), 'lat': SArr((n,), lambda i: pos.at(i[0], 1), 'r'), 'domain': d, 'first': a, 'last': b, 'n': n,
             'mean': m, 'saved': [], 'files': {'origin_year': year, 'origin_lon_lat': pos}}
    o = SObj(ip.func(D + '::CalcFrequency'), {'tg_domain': PDict(dict(d)), 'outputPath': 'out'})
    r = ip.call(ip.func(D + '::CalcFrequency.calc'), [o])
    c.prove('post: the mean number of storms a year, to two decimals', And(le(sub(r, m), Fraction(1, 200)), le(sub(m, r), Fraction(1, 200))))
    c.prove('post: one file of counts', len(ip.st['saved']) == 1)
    t = c.int('row')
    x = ip.st['saved'][0][1]
    c.prove('post: a line for each year', And(eq(x.shape[0], b - a), eq(x.shape[1], 2)))
    c.assume(And(0 <= t, t < b - a))
    c.prove('post: with its number of storms', And(eq(x.at(t, 0), a + t), eq(x.at(t, 1), CNT(z(a + t)))))
