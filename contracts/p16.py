"""Samples of observations behind the statistics of a grid cell (StatInterface)."""
import sys
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import qvar, model, REG
from contracts import p15

GD, GS, ST = 'StatInterface/GenerateDistributions.py', 'StatInterface/generateStats.py', 'Utilities/stats.py'
FORMS = {'distributions': (GD, 'GenerateDistributions'), 'statistics': (GS, 'GenerateStats')}
BIG = sys.maxsize


# -- samples: which observations are in them, and how many -------------------------------------------------------------------
def sample(ip, mask):
    """selection of the observations for which mask holds; a larger selection is not smaller in number"""
    c = ip.ctx
    n = c.int('size')
    c.assume(n >= 0)
    s = SObj('sample', {'mask': mask, 'n': n, 'top': c.real('max'), 'bot': c.real('min')})
    for t in ip.st['samples']:
        k = qvar()
        c.assume(Implies(z3.ForAll([k], z(Implies(And(0 <= k, lt(k, ip.st['N']), t.attrs['mask'].at(k)), mask.at(k)))), le(t.attrs['n'], n)))
    return s


def where(ip, a, k):
    if len(a) != 1:
        return REG['numpy.where'](ip, a, k)
    return SObj('index', {'mask': a[0]})


@model('obs.__getitem__')
def take(ip, a, k):
    m = a[1]
    m = m.attrs['mask'] if isinstance(m, SObj) else m[0] if isinstance(m, tuple) else m
    return sample(ip, m)


def compare(ip, sym, a, b):
    if isinstance(a, SObj) and a.cls == 'sample':
        v = ip.st['val']
        return SObj('index', {'mask': SArr((ip.st['N'],), lambda i: cmp(sym, v.at(*i), b), 'b')})
    return NotImplemented


@model('sample.compress', 'sample.__getitem__')
def compress(ip, a, k):
    s, m = a[0].attrs['mask'], a[1].attrs['mask']
    return sample(ip, SArr((ip.st['N'],), lambda i: And(s.at(*i), m.at(*i)), 'b'))


for _f, _attr in (('max', 'top'), ('min', 'bot')):
    @model('sample.' + _f)
    def extreme(ip, a, k, attr=_attr):
        ip.ctx.prove('extreme of a sample that is not empty', lt(0, a[0].attrs['n']))
        return a[0].attrs[attr]


def same(ip, a, k):
    return a[0] if isinstance(a[0], SObj) else REG['numpy.array'](ip, a, k)


def size(ip, a, k):
    return a[0].attrs['n'] if isinstance(a[0], SObj) and a[0].cls == 'sample' else REG['numpy.size'](ip, a, k)


def shape(ip, a, k):
    return (a[0].attrs['n'],) if isinstance(a[0], SObj) and a[0].cls == 'sample' else REG['numpy.shape'](ip, a, k)


# -- boxes ---------------------------------------------------------------------------------------------------------------
def inside(ip, box, k, land):
    w, e, n, s = box
    L, v = ip.st['lonlat'], ip.st['val'].at(k)
    cs = [le(w, L.at(k, 0)), lt(L.at(k, 0), e), le(s, L.at(k, 1)), lt(L.at(k, 1), n), ne(v, ip.st['missing']), lt(v, BIG)]
    if land is not None:
        cs.append(lt(0, L.at(k, 2)) if land else eq(L.at(k, 2), 0))
    return And(*cs)


def contains(box, cell):
    return And(le(box[0], cell[0]), le(cell[1], box[1]), le(cell[2], box[2]), le(box[3], cell[3]))


def ne(a, b):
    return Not(eq(a, b))


def setup(ip, form, land):
    c = ip.ctx
    rel, cls = FORMS[form]
    N, nmin = c.input('observations', c.int('N')), c.input('minimum', c.int('minimum'))
    c.assume(And(N >= 0, nmin >= 0))
    lon, lat, gx, gy, x0, x1, y0, y1, ix, iy, mv = [c.input(n, c.real(n)) for n in ('cellLon', 'cellLat', 'gx', 'gy', 'xMin', 'xMax', 'yMin', 'yMax', 'incx', 'incy', 'missing')]
    # contract of getCellLonLat in a domain of whole cells
    c.assume(And(gx > 0, gy > 0, ix > 0, iy > 0, x0 <= lon, lon + gx <= x1, lat <= y1, y0 <= lat - gy))
    L, val = ip.fresh_array((N, 3 if form == 'statistics' else 2), 'r', 'lonlat'), ip.fresh_array((N,), 'r', 'value')
    ip.st = {'N': N, 'samples': [], 'lonlat': L, 'val': val, 'missing': mv, 'box': None, 'domain': (x0, x1, y1, y0), 'cell': (lon, lon + gx, lat, lat - gy), 'corner': (lon, lat), 'min': nmin, 'land': land}
    lim, sp, inc = PDict({'xMin': x0, 'xMax': x1, 'yMin': y0, 'yMax': y1}), PDict({'x': gx, 'y': gy}), PDict({'x': ix, 'y': iy})
    obs = SObj('obs', {})
    A = {'gridLimit': lim, 'gridSpace': sp, 'gridInc': inc, 'missingValue': mv, 'lonLat': L, 'logger': Opaque('logger')}
    A.update({'pList': obs, 'minSamplesCell': nmin} if form == 'distributions' else {'param': obs, 'minSample': nmin, 'domain_warning_raised': False})
    return SObj(ip.func(rel + '::' + cls), A)


def valid(ip, a, k):
    return ip.st['valid']


def corner(ip, a, k):
    return ip.st['corner']


def inv(form, second):
    def f(s):
        st = s.ip.st
        p = s['self'].attrs['parameter'] if form == 'distributions' else s['p']
        box = tuple(s[n] for n in ('wLon', 'eLon', 'nLat', 'sLat'))
        st['box'] = box
        k = qvar()
        r = [('box contains the cell', contains(box, st['cell'])), ('box inside the domain', contains(st['domain'], box)),
             ('sample is what the box holds', z3.ForAll([k], z(Implies(And(0 <= k, lt(k, st['N'])), Iff(p.attrs['mask'].at(k), inside(s.ip, box, k, st['land']))))))]
        if second:
            r.append(('sample is large enough', lt(st['min'], p.attrs['n'])))
        return r
    return f


def fresh(s):
    r = sample(s.ip, s.ip.fresh_array((s.ip.st['N'],), 'b', 'mask'))
    if not s.ctx.mute:
        s.ip.st['samples'] = [r]
    return r


EXT = {'numpy.where': where, 'numpy.array': same, 'numpy.size': size, 'numpy.shape': shape}
ASSUME = ('observations hold no NaN', 'the domain is a whole number of cells and the increments are positive', 'a selection that includes another is not smaller in number')

for _form, (_rel, _cls) in FORMS.items():
    for _land in ((None,) if _form == 'distributions' else (True, False)):
        _H = {'.parameter': fresh} if _form == 'distributions' else {'p': fresh}
        _LOOPS = [Loop(inv(_form, False), name='too few', havoc=_H), Loop(inv(_form, True), name='all the same', havoc=_H)]

        @task('P16', 'sample for %s%s' % (_form, {None: '', True: ', on land', False: ', over water'}[_land]),
              [_rel + '::%s.%s' % (_cls, m) for m in ('extractParameter', '_expandCell', '_checkGridLimits')] + [ST + '::statRemoveNum'],
              loops={_cls + '.extractParameter': _LOOPS, 'extractParameter': _LOOPS}, contracts={ST + '::validCellNum': valid, ST + '::getCellLonLat': corner},
              opts={'externals': EXT, 'compare': compare, 'raise_ok': ('StopIteration', 'IndexError')}, assumes=ASSUME)
        def extract(ip, form=_form, land=_land, rel=_rel, cls=_cls):
            c = ip.ctx
            o = setup(ip, form, land)
            ip.st['valid'] = c.bool('valid')
            n = c.int('cell')
            water = []
            f = ip.func(rel + '::%s.extractParameter' % cls)

            def again(ip, a, k):
                # the same function, asked for the sample over water
                c.prove('over water instead: for the same cell', And(eq(a[1], n), a[2] is False))
                c.prove('over water instead: only if the domain holds too few on land', And(land, *[eq(x, y) for x, y in zip(ip.st['box'], ip.st['domain'])]))
                water.append(SObj('sample', {}))
                return water[0]
            ip.contracts = dict(ip.contracts, **{f.key: again})
            ip.opts = dict(ip.opts, inline_top=f.key)
            try:
                r = ip.call(f, [o, n] + ([] if land is None else [land]))
            except PyRaise as e:
                if e.name == 'IndexError':
                    c.prove('post: only invalid cell numbers are rejected', Not(ip.st['valid']))
                    return
                c.prove('post: too few observations reported', e.name == 'StopIteration')
                c.prove('post: reported only for the whole domain', ip.st['box'] is not None and And(*[eq(x, y) for x, y in zip(ip.st['box'], ip.st['domain'])]))
                c.prove('post: not reported on land', land is not True)
                return
            c.prove('post: cell number is valid', ip.st['valid'])
            if water:
                c.prove('post: sample over water returned', r is water[0])
                return
            p = o.attrs['parameter'] if form == 'distributions' else r
            box = ip.st['box']
            k = c.input('k', c.int('k'))
            c.assume(And(0 <= k, lt(k, ip.st['N'])))
            c.prove('post: sample is exactly what a box holds, without missing values', Iff(p.attrs['mask'].at(k), inside(ip, box, k, land)))
            c.prove('post: the box contains the cell and is inside the domain', And(contains(box, ip.st['cell']), contains(ip.st['domain'], box)))
            c.prove('post: the sample is larger than the minimum', lt(ip.st['min'], p.attrs['n']))
            c.prove('post: the sample has different values', ne(p.attrs['top'], p.attrs['bot']))


for _n, _fn in (('validCellNum is the range test', 'valid'), ('getCellLonLat gives the north-west corner', 'll')):
    task('P16', _n, [ST + '::' + _n.split()[0]])(getattr(p15, _fn))
