"""Restarting a wind field run (wind/__init__.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native, const_ghost, mk_ghost
from engine.sym import *
from engine.models import qvar

W = 'wind/__init__.py'
G = W + '::WindfieldGenerator'
NEEDED = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp')
ID0, ID1 = z3.Function('id.0', IS, IS), z3.Function('id.1', IS, IS)
COMPLETE = z3.Function('complete', IS, IS, BS)
FIELDS = ('gust', 'bearing', 'Vx', 'Vy', 'P')
VAL = {f: z3.Function('field.' + f, IS, IS, IS, RS) for f in FIELDS}
LON, LAT = z3.Function('field.lon', IS, IS, RS), z3.Function('field.lat', IS, IS, RS)


def variables(ip):
    """names in the file: any set"""
    have = {}

    def contains(ip_, a, k):
        n = a[-1]
        if n not in have:
            have[n] = ip.ctx.bool('has ' + n)
        return have[n]
    o = SObj(None, {'__contains__': Native(contains), 'keys': Native(lambda ip_, a, k: o)})
    return o, have


@task('P06', 'file complete', [G + '.gustFileComplete'], opts={'externals': {
    'os.path.isfile': lambda ip, a, k: ip.st['isfile'], 'os.path.exists': lambda ip, a, k: Or(ip.st['isfile'], ip.ctx.bool('folder')),
    'os.path.getsize': lambda ip, a, k: ip.st['size'](ip), 'netCDF4.Dataset': lambda ip, a, k: ip.st['open'](ip),
    'netCDF4._netCDF4.Dataset': lambda ip, a, k: ip.st['open'](ip)}, 'names': {(W, 'Dataset'): Native(lambda ip, a, k: ip.st['open'](ip))}},
    assumes=('os.path.isfile and getsize report the state of the file', 'opening a netCDF file either raises or gives the names of its variables'))
def complete(ip):
    c = ip.ctx
    isfile, n, good = c.input('exists', c.bool('isfile')), c.input('size', c.int('size')), c.input('readable', c.bool('readable'))
    c.assume(And(n >= 0))
    vs, have = variables(ip)
    for x in NEEDED:
        have[x] = c.input('has ' + x, c.bool('has ' + x))

    def size(ip):
        if not ip.ctx.branch(isfile):
            raise PyRaise('FileNotFoundError', ())
        return n

    def opened(ip):
        if not ip.ctx.branch(And(isfile, n > 0, good)):
            raise PyRaise('OSError', ())
        return SObj(None, {'variables': vs, 'close': Native(lambda *a: None)})
    ip.st = {'isfile': isfile, 'size': size, 'open': opened}
    r = ip.call(ip.func(G + '.gustFileComplete'), ['file'])
    want = And(isfile, n > 0, good, *[have[x] for x in NEEDED])
    r = r if is_bool(r) else ip.truth(r)
    c.prove('reported complete only if present, not empty, readable and with all variables', Implies(r, want))
    c.prove('reported complete if present, not empty, readable and with all variables', Implies(want, r))


def decodable(c, s, ids, what):
    """the digits of each number can be read back from the name: numbers stand between other text"""
    parts = list(s.parts) if isinstance(s, SymStr) else [s]
    text = lambda p: isinstance(p, str)
    found = []
    for i, p in enumerate(parts):
        if text(p):
            continue
        ok = all(0 <= j < len(parts) and text(parts[j]) and parts[j] and not parts[j][0 if j > i else -1].isdigit() for j in (i - 1, i + 1))
        if ok and p[1].strip('%{:}') in ('03d', '05d', 'd', '', '02d', '04d', '06d', 'i', '03i', '05i', 's'):
            found.append(p[2])
    c.prove('%s tells storms apart' % what, And(*[Or(*[eq(x, f) for f in found]) for x in ids]))


@task('P06', 'file name', [G + '.gustFilename'], assumes=('numbers of simulations and tracks are not negative',))
def filename(ip):
    c = ip.ctx
    a, b = c.input('simulation', c.int('a')), c.input('track', c.int('b'))
    c.assume(And(a >= 0, b >= 0))
    s = ip.call(ip.func(G + '.gustFilename'), ['out', SObj(None, {'trackId': (a, b)})])
    decodable(c, s, (a, b), 'the file name')


def mark(c, name, k):
    old = c.ghosts[name]
    c.ghosts[name] = mk_ghost(lambda q: ite(eq(q, k), add(old(q), 1), old(q)), (IS, IS))


def calc(ip, args, kw):
    t = args[1]
    k = t.attrs['k']
    c = ip.ctx
    h, w = c.ghosts['shape']
    mark(c, 'computed', k)
    res = tuple(SArr((h, w), lambda x, F=VAL[f]: F(z(k), z(x[0]), z(x[1])), 'r') for f in FIELDS)
    return (t, res + (SArr((w,), lambda x: LON(z(k), z(x[0])), 'r'), SArr((h,), lambda x: LAT(z(k), z(x[0])), 'r')))


def save(ip, args, kw):
    """contract of saveGustToFile as seen by the caller: which storm is saved where, and what"""
    c = ip.ctx
    _, trackfile, result, name = args
    if isinstance(result, PList):
        result = tuple(result.items)
    lat, lon, speed, Vx, Vy, P = result
    k = c.ghosts_name(name)
    h, w = c.ghosts['shape']
    j, i = qvar(), qvar()
    cell = And(0 <= j, lt(j, h), 0 <= i, lt(i, w))
    up = lambda f, F: z3.ForAll([j, i], z(Implies(cell, eq(f.at(j, i), F(z(k), z(j), z(i))))))
    down = lambda f, F: z3.ForAll([j, i], z(Implies(cell, eq(f.at(j, i), F(z(k), z(sub(sub(h, 1), j)), z(i))))))
    latup = z3.ForAll([j], z(Implies(And(0 <= j, lt(j, h)), eq(lat.at(j), LAT(z(k), j)))))
    latdown = z3.ForAll([j], z(Implies(And(0 <= j, lt(j, h)), eq(lat.at(j), LAT(z(k), z(sub(sub(h, 1), j)))))))
    for f, nm in ((speed, 'gust'), (Vx, 'Vx'), (Vy, 'Vy'), (P, 'P')):
        c.prove('%s saved with the orientation of the latitudes' % nm, Or(And(latup, up(f, VAL[nm])), And(latdown, down(f, VAL[nm]))))
    c.prove('longitudes saved as computed', z3.ForAll([i], z(Implies(And(0 <= i, lt(i, w)), eq(lon.at(i), LON(z(k), i))))))
    mark(c, 'saved', k)


def inv(S):
    c = S.ctx
    q = qvar()
    saved, computed = c.ghosts['saved'](q), c.ghosts['computed'](q)
    done = COMPLETE(ID0(q), ID1(q))
    return [('incomplete storms so far are recomputed and saved once', z3.ForAll([q], z(Implies(And(0 <= q, lt(q, S.it), Not(done)), And(eq(saved, 1), eq(computed, 1)))))),
            ('complete storms are skipped', z3.ForAll([q], z(Implies(And(0 <= q, lt(q, S.it), done), And(eq(saved, 0), eq(computed, 0)))))),
            ('later storms are untouched', z3.ForAll([q], z(Implies(le(S.it, q), And(eq(saved, 0), eq(computed, 0))))))]


def name_of(ip, args, kw):
    """contract of gustFilename: a name of its own for every storm"""
    t = args[-1]
    return Opaque('name', ids=t.attrs['trackId'], k=t.attrs['k'])


def is_complete(ip, args, kw):
    n = args[-1]
    return COMPLETE(z(n.ids[0]), z(n.ids[1]))


def run(callback):
    def go(ip):
        c = ip.ctx
        n, h, w = c.input('storms', c.int('n')), c.int('h'), c.int('w')
        c.assume(And(n >= 0, h >= 1, w >= 1))
        c.ghosts['shape'] = (h, w)
        for x in ('saved', 'computed'):
            c.ghosts[x] = const_ghost(0, (IS, IS))
        c.ghosts_name = lambda name: name.k
        tracks = PList(n=n, fn=lambda k: SObj(None, {'k': k, 'trackId': (ID0(z(k)), ID1(z(k))), 'trackfile': 'file'}))
        o = SObj(ip.func(G), {'multipliers': None})
        ip.call(ip.getattr(o, 'dumpGustsFromTracks'), [tracks, 'out'] + ([Native(lambda *a: None)] if callback else []))
        q = qvar()
        c.prove('every storm without a complete file is recomputed and saved', z3.ForAll([q], z(Implies(And(0 <= q, lt(q, n), Not(COMPLETE(ID0(q), ID1(q)))), eq(c.ghosts['saved'](q), 1)))))
        c.prove('no storm with a complete file is recomputed', z3.ForAll([q], z(Implies(And(0 <= q, lt(q, n), COMPLETE(ID0(q), ID1(q))), eq(c.ghosts['computed'](q), 0)))))
    return go


for _cb in (False, True):
    task('P06', 'all storms%s' % (', with station callback' if _cb else ''), [G + '.dumpGustsFromTracks'],
         contracts={G + '.gustFilename': name_of, G + '.gustFileComplete': is_complete, G + '.calculateExtremesFromTrack': calc, G + '.saveGustToFile': save},
         loops={'WindfieldGenerator.dumpGustsFromTracks': [Loop(inv, name='storms')]})(run(_cb))


def grid(ip, args, kw):
    """what saveGustToFile hands to the writer"""
    c = ip.ctx
    name, dims, vs = args[:3]
    c.prove('saved under the name given', name is c.ghosts_name or name == 'target')
    got = {}
    for d in (dims, vs):
        for k in sorted(d.d):
            e = d.d[k].d
            got[e['name']] = e
    order = [dims.d[k].d['name'] for k in sorted(dims.d)]
    for x in NEEDED:
        c.prove('%s is written' % x, x in got)
        c.prove('%s holds its own values' % x, got.get(x, {}).get('values') is c.want[x])
        if x not in ('lat', 'lon'):
            c.prove('%s is laid out by latitude and longitude' % x, tuple(got[x]['dims']) == ('lat', 'lon') and order == ['lat', 'lon'])
    c.wrote = True


@task('P06', 'contents of a file', [G + '.saveGustToFile'], contracts={'Utilities/nctools.py::ncSaveGrid': grid, 'Utilities/files.py::flModDate': lambda ip, a, k: 'date',
                                                                       'Utilities/files.py::flProgramVersion': lambda ip, a, k: 'version'},
      opts={'extvals': {'sys.version': 'v'}, 'externals': {'numpy.min': lambda ip, a, k: ip.ctx.real('min'), 'numpy.max': lambda ip, a, k: ip.ctx.real('max')}})
def contents(ip):
    c = ip.ctx
    h, w = c.int('h'), c.int('w')
    c.assume(And(h >= 1, w >= 1))
    lat, lon = ip.fresh_array((h,), 'r', 'lat'), ip.fresh_array((w,), 'r', 'lon')
    f = [ip.fresh_array((h, w), 'r', x) for x in ('speed', 'Vx', 'Vy', 'P')]
    c.want = dict(zip(NEEDED, [lat, lon] + f))
    c.ghosts_name, c.wrote = 'target', False
    conf = SObj(None, {'sections': Native(lambda ip, a, k: PList(['A', 'B'])), 'options': Native(lambda ip, a, k: PList(['x'])), 'get': Native(lambda ip, a, k: 'value')})
    o = SObj(ip.func(G), {'profileType': 'holland', 'windFieldType': 'kepert', 'beta': c.real('beta'), 'config': conf})
    ip.call(ip.getattr(o, 'saveGustToFile'), ['trackfile', (lat, lon) + tuple(f), 'target'])
    c.prove('the file is written', c.wrote)
