"""Segments of the multiplier rasters and the threads that process them (ProcessMultipliers/processMultipliers.py)."""
import ast
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import REG
from contracts.p21 import M, ORDER, CON, NAMES, band, MULT, WIND, BEAR

PARTS = z3.Function('parts', IS, IS, IS)            # number of pieces of at most s that make up n


def parts(c, n, s):
    k = PARTS(z(n), z(s))
    c.assume(And(le(0, k), lt(mul(sub(k, 1), s), n), le(n, mul(k, s))))
    return k


def s_range(ip, a, k):
    if len(a) == 3 and isz(norm(a[2])) and a[0] == 0:
        ip.ctx.prove('range: step is positive', lt(0, a[2]))
        s = a[2]
        return Iter(parts(ip.ctx, a[1], s), lambda i: mul(s, i))
    return REG['builtins.range'](ip, a, k)


def s_ceil(ip, a, k):
    c = ip.ctx
    for n in ip.st['sizes']:
        s = ip.st['step']
        if c.must(eq(mul(a[0], s), n)):
            return parts(c, n, s)
    return REG['math.ceil'](ip, a, k)


def queue(ip):
    """queue being filled: how many segments it holds and how many of them contain the pixel (R, C)"""
    c = ip.ctx

    def new(ip, a, k):
        cap = a[0] if a else k.get('maxsize', 0)
        c.ghosts['queue'] = SObj(None, {'n': 0, 'hits': 0})

        def put(ip, a, k):
            G = c.ghosts['queue'].attrs
            seg = a[0]
            x, y, w, h = [seg.at(i) for i in range(4)] if isinstance(seg, PList) else list(seg)[:4]
            c.prove('put: does not wait for room in the queue', Or(le(cap, 0), lt(G['n'], cap)))
            c.prove('put: segment inside the raster and not empty', And(le(0, x), le(0, y), lt(0, w), lt(0, h), le(add(x, w), ip.st['cols']), le(add(y, h), ip.st['rows'])))
            R, C = ip.st['pixel']
            inside = And(le(y, R), lt(R, add(y, h)), le(x, C), lt(C, add(x, w)))
            G['hits'] = add(G['hits'], ite(inside, 1, 0))
            G['n'] = add(G['n'], 1)
        ip.st['queue'] = SObj(None, {'put': Native(put), 'put_nowait': Native(put)})
        return ip.st['queue']
    return new


def executor(ip):
    def submit(ip, a, k):
        c = ip.ctx
        f = a[0]
        if getattr(f, 'qual', '') == 'call_process_multiplier_segment':
            c.prove('worker: works on the queue', a[1] is ip.st['queue'])
            c.ghosts['threads'].attrs['n'] = add(c.ghosts['threads'].attrs['n'], 1)
            names = [x.attrs['of'] for x in items(a[2])]
            c.prove('worker: has the multipliers of all directions in the usual order', names == ORDER)
            c.prove('worker: has wind, bearing and output', [x.attrs['of'] for x in a[3:6]] == ['wind', 'bearing', 'out'])
            c.prove('worker: starts when the queue is full', eq(c.ghosts['queue'].attrs['hits'], 1))
        elif not a[1:] or 'of' not in a[1].attrs:
            raise Unsupported('submit of something else')
        else:
            ip.call(f, list(a[1:]), k)
        return SObj(None, {'result': Native(lambda *a: None)})
    return Native(lambda ip, a, k: SObj(None, {'submit': Native(submit)}))


def items(l):
    return list(l.items) if isinstance(l, PList) else list(l)


def tagged(b, name):
    b.attrs['of'] = name
    return b


def gdal(ip):
    shape = (ip.st['rows'], ip.st['cols'])

    def dataset(name, fn):
        none = Native(lambda *a: None)
        return SObj(None, {'GetRasterBand': Native(lambda ip, a, k: tagged(band(ip, fn, shape), name if name else ORDER[a[0] - 1])), 'GetProjection': Native(lambda *a: 'p'),
                           'GetGeoTransform': Native(lambda *a: 't'), 'SetGeoTransform': none, 'SetProjection': none, 'FlushCache': none})

    def op(ip, a, k):
        f = a[0]
        if f in ip.st['files']:
            return dataset(ip.st['files'][f], WIND)
        return dataset(None if f == 'combined' else f.rsplit('m4_', 1)[1][:-4], WIND)
    return SObj(None, {'Open': Native(op), 'GA_ReadOnly': 0, 'GDT_Float32': 6, 'SetConfigOption': Native(lambda *a: None),
                       'GetDriverByName': Native(lambda *a: SObj(None, {'Create': Native(lambda *a: dataset('out', WIND))}))})


def reproject(ip, args, kw):
    ip.st['files'][args[2]] = args[0].attrs['of']


def raster(ip, args, kw):
    return SObj(None, {'of': ip.st['order'].pop(0)})


def outer(s):
    G = s.ctx.ghosts['queue'].attrs
    st = s.ip.st
    R, C = st['pixel']
    nx = PARTS(z(st['cols']), z(st['step']))
    return [('full rows of segments', eq(G['n'], mul(s.it, nx))),
            ('pixel in one segment once its row is done', eq(G['hits'], ite(lt(R, mul(s.it, st['step'])), 1, 0)))]


def inner(s):
    G = s.ctx.ghosts['queue'].attrs
    st = s.ip.st
    R, C = st['pixel']
    nx, S = PARTS(z(st['cols']), z(st['step'])), st['step']
    k = s.ip.outer['rows of segments']
    y = mul(k, S)
    return [('segments so far', eq(G['n'], add(mul(k, nx), s.it))),
            ('pixel in one segment once its place is done', eq(G['hits'], ite(Or(lt(R, y), And(lt(R, add(y, S)), lt(C, mul(s.it, S)))), 1, 0)))]


LOOPS = [Loop(outer, name='rows of segments', match=lambda txt, st: isinstance(st, ast.For) and '.put(' in txt and any(isinstance(x, ast.For) for x in ast.walk(st) if x is not st)),
         Loop(inner, name='segments of a row', match=lambda txt, st: isinstance(st, ast.For) and '.put(' in txt),
         Loop(lambda s: [('threads', eq(s.ctx.ghosts['threads'].attrs['n'], s.it))], name='start of threads', match=lambda txt, st: isinstance(st, ast.For) and 'submit(' in txt,
              havoc={'future_requests': lambda s: PList(n=s.ctx.int('nfutures'), fn=lambda i: SObj(None, {'result': Native(lambda *a: None)}))})]
ASSUME = ('GDAL reads and writes the rasters it is given', 'the thread pool runs every function submitted, at most as many at a time as it has threads', 'a queue hands out every item once, to one thread')


for _comb in (None, 'combined'):
    @task('P22', 'segments' + (', one file for all directions' if _comb else ''), [M + '::processMultV2'], loops={'processMultV2': LOOPS}, assumes=ASSUME,
          contracts=dict(CON, **{M + '::createRaster': raster, M + '::reprojectDataset': reproject}))
    def segments(ip, comb=_comb):
        c = ip.ctx
        rows, cols, S, T, R, C = [c.input(n, c.int(n)) for n in ('rows', 'cols', 'segment', 'threads', 'R', 'C')]
        c.assume(And(rows >= 1, cols >= 1, S >= 1, T >= 1, 0 <= R, R < rows, 0 <= C, C < cols))
        ip.st = {'rows': rows, 'cols': cols, 'step': S, 'sizes': (rows, cols), 'pixel': (R, C), 'files': {}, 'order': ['wind', 'bearing', 'u', 'v']}
        c.ghosts['threads'] = SObj(None, {'n': 0})
        ip.opts = dict(ip.opts, names=NAMES | {(M, 'gdal'): gdal(ip), (M, 'futures'): SObj(None, {'ThreadPoolExecutor': executor(ip), 'wait': Native(lambda *a: None)})},
                       externals={'builtins.range': s_range, 'math.ceil': s_ceil, 'queue.Queue': queue(ip)})
        h, w = c.int('h'), c.int('w')
        c.assume(And(h >= 2, w >= 2))
        a = [ip.fresh_array((h, w), 'r', n) for n in ('wind', 'u', 'v')]
        lon, lat = ip.fresh_array((w,), 'r', 'lon'), ip.fresh_array((h,), 'r', 'lat')
        ip.call(ip.func(M + '::processMultV2'), a + [lon, lat, 'dir', PList(list(ORDER)), T, S, c.real('memory')], {'combined_mulipliers_file': comb} if comb else {})
        G = c.ghosts['queue'].attrs
        c.prove('post: the pixel is in exactly one segment', eq(G['hits'], 1))
        c.prove('post: at least one thread works on the segments', le(1, c.ghosts['threads'].attrs['n']))


@task('P22', 'worker', [M + '::call_process_multiplier_segment'], assumes=ASSUME,
      loops={'call_process_multiplier_segment': [Loop(lambda s: [('every segment taken is processed', eq(s.ctx.ghosts['worker'].attrs['held'], -1))], name='worker',
                                                      decreases=lambda s: s.ctx.ghosts['worker'].attrs['left'])]})
def worker(ip):
    """other threads may take any number of segments between two operations on the queue"""
    c = ip.ctx
    n = c.int('n')
    c.assume(n >= 0)
    G = c.ghosts['worker'] = SObj(None, {'left': n, 'held': -1})
    G = lambda: c.ghosts['worker'].attrs
    args = [SObj(None, {'of': x}) for x in ('bands', 'wind', 'bearing', 'out')]

    def others(ip):
        m = c.int('left')
        c.assume(And(0 <= m, le(m, G()['left'])))
        G()['left'] = m
        return m

    def take(ip, m):
        c.prove('take: the segment before is processed', eq(G()['held'], -1))
        k = c.int('segment')
        c.assume(k >= 0)
        G()['left'] = sub(m, 1)
        G()['held'] = k
        return PList([k] * 6)

    def get_nowait(ip, a, k):
        m = others(ip)
        if c.branch(eq(m, 0)):
            raise PyRaise('queue.Empty')
        return take(ip, m)

    def get(ip, a, k):
        block = a[0] if a else k.get('block', True)
        if block is False or 'timeout' in k or len(a) > 1:
            return get_nowait(ip, a, k)
        m = others(ip)
        c.prove('get: does not wait for segments that never come', lt(0, m))
        c.assume(lt(0, m))
        return take(ip, m)
    q = SObj(None, {'get': Native(get), 'get_nowait': Native(get_nowait), 'empty': Native(lambda ip, a, k: eq(others(ip), 0)), 'qsize': Native(lambda ip, a, k: others(ip)),
                    'task_done': Native(lambda *a: None)})

    def process(ip, a, k):
        c.prove('process: the segment taken, once', And(le(0, G()['held']), eq(a[0].at(0), G()['held'])))
        c.prove('process: with the rasters given', list(a[1:]) == args)
        G()['held'] = -1
    ip.contracts = dict(ip.contracts, **{M + '::processMultiplierSegment': process})
    ip.call(ip.func(M + '::call_process_multiplier_segment'), [q] + args)
    c.prove('post: no segment is left', eq(G()['left'], 0))
    c.prove('post: every segment taken was processed', eq(G()['held'], -1))
