"""Records handed to the hazard fit (hazard/__init__.py)."""
import z3
from engine.contract import task
from engine.interp import Native
from engine.sym import *
from engine.models import qvar

H = 'hazard/__init__.py'
CNT = z3.Function('files_of_year', IS, IS)
FILE = z3.Function('file', IS, IS, IS)          # year, position -> file
GUST = z3.Function('gust', IS, IS, IS, RS)      # file, row, column


def pattern_year(ip, p):
    """the simulated year whose gust files a pattern selects"""
    parts = list(p.parts) if isinstance(p, SymStr) else [p]
    fmts = [x for x in parts if isinstance(x, tuple)]
    text = ''.join(x if isinstance(x, str) else '{%s}' % x[1].strip('%{:}') for x in parts)
    ok = text == 'IN/gust.*-{05d}.nc'
    ip.ctx.prove('pre of glob: pattern selects exactly the gust files of a year', ok)
    return fmts[-1][2] if fmts else None


def glob(ip, args, kw):
    y = pattern_year(ip, args[0])
    if y is None:
        raise Unsupported('pattern')
    ip.ctx.assume(CNT(z(y)) >= 0)
    return PList(n=CNT(z(y)), fn=lambda i: FILE(z(y), z(i)))


def load(ip, args, kw):
    """contract of loadFile (proved below): the tile's part of the gust field of that file"""
    f, (x1, x2, y1, y2) = args[0], (args[1] if len(args) > 1 else kw['limits'])
    return SArr((sub(y2, y1), sub(x2, x1)), lambda i: GUST(z(f), z(add(y1, i[0])), z(add(x1, i[1]))), 'r')


def tile(ip):
    c = ip.ctx
    t = [c.input(n, c.int(n)) for n in ('x1', 'x2', 'y1', 'y2')]
    c.assume(0 <= t[0], t[0] < t[1], 0 <= t[2], t[2] < t[3])
    a, b = c.input('a', c.int('a')), c.input('b', c.int('b'))
    c.assume(0 <= a, a < t[3] - t[2], 0 <= b, b < t[1] - t[0])
    return tuple(t), a, b


@task('P29', 'annual maxima', [H + '::aggregateWindFields'], contracts={H + '::loadFile': load}, opts={'externals': {'glob.glob': glob}},
      assumes=['glob lists the files whose name matches the pattern', 'the number of simulations fits the five digits of a file name'])
def agg(ip):
    c = ip.ctx
    t, a, b = tile(ip)
    n = c.input('years', c.int('years'))
    c.assume(n >= 0)
    V = ip.call(ip.func(H + '::aggregateWindFields'), ['IN', n, t])
    c.prove('post: one record per simulated year', And(eq(V.shape[0], n), eq(V.shape[1], t[3] - t[2]), eq(V.shape[2], t[1] - t[0])))
    y, k = c.input('year', c.int('year')), c.input('k', c.int('k'))
    c.assume(0 <= y, y < n)
    v = V.at(y, a, b)
    rec = lambda k: GUST(FILE(y, z(k)), t[2] + a, t[0] + b)
    c.prove('post: no file of the year exceeds the record', Implies(And(0 <= k, k < CNT(y)), le(rec(k), v)))
    q = qvar()
    c.prove('post: the record is that of a file of the year', Implies(CNT(y) > 0, z3.Exists([q], z(And(0 <= q, q < CNT(y), eq(rec(q), v))))))
    c.prove('post: no wind in a year without files', Implies(eq(CNT(y), 0), eq(v, 0)))


@task('P29', 'one record per file', [H + '::loadFilesFromPath'], contracts={H + '::loadFile': load},
      opts={'externals': {'os.listdir': lambda ip, a, k: ip.ctx.ghosts['names'], 'os.path.join': lambda ip, a, k: a[1], 'posixpath.join': lambda ip, a, k: a[1],
                          'os.path.isfile': lambda ip, a, k: ip.ctx.ghosts['isfile'](a[0])}},
      assumes=['os.listdir lists every entry once; file names are represented by numbers'])
def files(ip):
    c = ip.ctx
    t, a, b = tile(ip)
    n = c.input('entries', c.int('entries'))
    c.assume(n >= 0)
    NAME, REG = c.func('name', IS, IS), c.func('isfile', IS, BS)
    p, q = qvar(2)
    c.assume(z3.ForAll([p, q], z(Implies(And(0 <= p, p < q, q < n), NAME(p) != NAME(q)))))
    c.ghosts['names'] = PList(n=n, fn=lambda i: NAME(z(i)))
    c.ghosts['isfile'] = lambda f: REG(z(f))
    V = ip.call(ip.func(H + '::loadFilesFromPath'), ['IN', t])
    k = c.input('k', c.int('k'))
    c.assume(0 <= k, lt(k, V.shape[0]))
    v = lambda i, a, b: V.at(i, a, b)
    rec = lambda f, a, b: GUST(f, t[2] + a, t[0] + b)
    c.prove('post: size of a record', And(eq(V.shape[1], t[3] - t[2]), eq(V.shape[2], t[1] - t[0])))
    d, e = qvar(2)
    same = lambda i, f: z3.ForAll([d, e], z(Implies(And(0 <= d, d < t[3] - t[2], 0 <= e, e < t[1] - t[0]), eq(v(i, d, e), rec(f, d, e)))))
    c.prove('post: a record is that of a regular file', z3.Exists([q], z(And(0 <= q, q < n, REG(NAME(q)), eq(v(k, a, b), rec(NAME(q), a, b))))))
    j = c.input('j', c.int('j'))
    c.assume(0 <= j, j < n, REG(NAME(j)))
    c.prove('post: every regular file has a record', z3.Exists([q], z(And(0 <= q, lt(q, V.shape[0]), eq(v(q, a, b), rec(NAME(j), a, b))))))


@task('P29', 'part of a file', [H + '::loadFile'],
      contracts={'Utilities/nctools.py::ncLoadFile': lambda ip, a, k: SObj(None, {'file': a[0], 'close': Native(lambda ip, a, k: None)}),
                 'Utilities/nctools.py::ncGetVar': lambda ip, a, k: ip.ctx.ghosts['var'](a)},
      assumes=['ncLoadFile and ncGetVar give the named variable of the file'])
def part(ip):
    c = ip.ctx
    t, a, b = tile(ip)
    ny, nx, f = c.input('ny', c.int('ny')), c.input('nx', c.int('nx')), c.int('file')
    c.assume(t[3] <= ny, t[1] <= nx)

    def var(args):
        c.prove('pre of ncGetVar: gust field of this file', And(args[1] == 'vmax', eq(args[0].attrs['file'], f)))
        return SArr((ny, nx), lambda i: GUST(f, z(i[0]), z(i[1])), 'r')
    c.ghosts['var'] = var
    r = ip.call(ip.func(H + '::loadFile'), [f, t])
    c.prove('post: shape', And(eq(r.shape[0], t[3] - t[2]), eq(r.shape[1], t[1] - t[0])))
    c.prove('post: values of the tile', eq(r.at(a, b), GUST(f, t[2] + a, t[0] + b)))


@task('P29', 'records of each method', [H + '::HazardCalculator.calculateHazard'],
      assumes=['the configured method is one of the four on offer'])
def choice(ip):
    c = ip.ctx
    t, a, b = tile(ip)
    for m in ('GEV', 'GPD', 'power', 'emp'):
        log = []
        sim, yrs, nod, mr, yps = c.int('numSim'), Opaque('years'), c.real('nodata'), c.int('minRecords'), c.real('yrsPerSim')
        kind = {}

        def stub(name, kind=kind, log=log):
            def f(ip, args, kw):
                log.append((name, args))
                r = Opaque('records')
                r.kind = name
                return r
            return f

        def fit(name, log=log):
            def f(ip, args, kw):
                log.append((name, args))
                return ('Rp', 'loc', 'scale', 'shp')
            return f
        ip.contracts[H + '::loadFilesFromPath'] = stub('files')
        ip.contracts[H + '::aggregateWindFields'] = stub('annual')
        for n in ('GEV', 'GPD', 'Power', 'EMP'):
            ip.contracts[H + '::calculate' + n] = fit(n)
        o = SObj(ip.func(H + '::HazardCalculator'), {'evd': m, 'inputPath': 'IN', 'numSim': sim, 'years': yrs, 'nodata': nod, 'minRecords': mr, 'yrsPerSim': yps, 'calcCI': False})
        r = ip.call(ip.getattr(o, 'calculateHazard'), [t])
        want = 'annual' if m == 'GEV' else 'files'
        loads = [x for x in log if x[0] in ('files', 'annual')]
        fits = [x for x in log if x[0] not in ('files', 'annual')]
        c.prove('post: records of %s' % m, And(len(loads) == 1, loads[0][0] == want, loads[0][1][0] == 'IN'))
        c.prove('post: tile of %s' % m, And(*[eq(x, y) for x, y in zip(loads[0][1][-1], t)]))
        if want == 'annual':
            c.prove('post: years of %s' % m, eq(loads[0][1][1], sim))
        c.prove('post: fit of %s' % m, And(len(fits) == 1, fits[0][0].upper()[:3] == m.upper()[:3], getattr(fits[0][1][0], 'kind', None) == want, fits[0][1][1] is yrs))
        c.prove('post: results of %s' % m, And(isinstance(r, tuple), len(r) == 5, r[1:] == ('Rp', 'loc', 'scale', 'shp'), *[eq(x, y) for x, y in zip(r[0], t)]))
