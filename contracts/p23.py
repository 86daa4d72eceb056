"""Event database: nearest grid values per location, and the distribution of event files over processes (database/__init__.py)."""
import ast
import re as _re
import z3
from engine.contract import task
from engine.interp import Loop, Native, const_ghost, mk_ghost
from engine.sym import *
from engine.models import qvar
from contracts import mpi

D = 'database/__init__.py'
H = D + '::_HazardDatabase'
FI = 'Utilities/maputils.py::find_index'


@task('P23', 'nearest index', [FI])
def nearest(ip):
    c = ip.ctx
    n = c.input('length', c.int('n'))
    c.assume(n >= 1)
    a, v = ip.fresh_array((n,), 'r', 'axis'), c.input('value', c.real('v'))
    r = ip.call(ip.func(FI), [a, v])
    k = c.int('k')
    d = lambda x: ite(le(0, x), x, neg(x))
    c.prove('post: an index of the array', And(le(0, r), lt(r, n)))
    c.prove('post: no element is closer', Implies(And(0 <= k, lt(k, n)), le(d(sub(a.at(r), v)), d(sub(a.at(k), v)))))


IX = {x: z3.Function('nearest.' + x, RS, IS) for x in ('lon', 'lat')}
LOC = [z3.Function('location.' + x, IS, s) for x, s in (('id', IS), ('name', IS), ('lon', RS), ('lat', RS))]


def index(ip, args, kw):
    """contract of find_index (shown in `nearest index`)"""
    c = ip.ctx
    a, v = args
    for x in ('lon', 'lat'):
        if a is ip.grid[x]:
            return IX[x](toreal(v))
    k = qvar()
    same = {x: And(eq(a.shape[0], ip.grid[x].shape[0]), z3.ForAll([k], z(eq(a.at(k), ip.grid[x].at(k))))) for x in ('lon', 'lat')}
    if c.must(same['lon']):
        return IX['lon'](toreal(v))
    if c.must(same['lat']):
        return IX['lat'](toreal(v))
    raise Unsupported('nearest index in another array')


def regex(ip, a, k):
    return SObj(None, {'findall': Native(lambda ip, a, k: ip.numbers)})


@task('P23', 'values of an event', [H + '.processEvent', D + '::loadWindfieldFile'], contracts={FI: index, D + '::windfieldAttributes': lambda ip, a, k: (
    'trackfile', 'date', 'version', ip.ctx.real('minslp'), ip.ctx.real('maxwind'))},
    opts={'names': {(D, 're'): SObj(None, {'compile': Native(regex)}), (D, 'Dataset'): Native(lambda ip, a, k: ip.nc),
                    (D, 'datetime'): SObj(None, {'now': Native(lambda *a: 'now'), 'fromtimestamp': Native(lambda *a: 'then')})},
          'externals': {'os.stat': lambda ip, a, k: SObj(None, {'st_mtime': ip.ctx.int('mtime')}), 'os.path.basename': lambda ip, a, k: 'base', 'posixpath.basename': lambda ip, a, k: 'base',
                        'builtins.int': lambda ip, a, k: trunc(a[0])}},
    assumes=('the wind field file opens', 'reading a netCDF variable gives its values'))
def event(ip):
    c = ip.ctx
    n, h, w = c.input('locations', c.int('n')), c.int('h'), c.int('w')
    c.assume(And(n >= 0, h >= 1, w >= 1))
    sim, num = c.int('sim'), c.int('num')
    ip.numbers = (sim, num)
    ip.grid = {'lon': ip.fresh_array((w,), 'r', 'lon'), 'lat': ip.fresh_array((h,), 'r', 'lat')}
    vals = {x: ip.fresh_array((h, w), 'r', x) for x in ('vmax', 'ua', 'va', 'slp')}
    x = z3.Real('x!')
    for a, m in (('lon', w), ('lat', h)):
        c.assume(z3.ForAll([x], z(And(0 <= IX[a](x), lt(IX[a](x), m))), patterns=[IX[a](x)]))
    ip.nc = SObj(None, {'variables': PDict(dict(ip.grid, **vals)), 'close': Native(lambda *a: None)})
    locs = PList(n=n, fn=lambda k: tuple(f(z(k)) for f in LOC))
    o = SObj(ip.func(H), {'windfieldPath': 'path'})
    ev, ws = ip.call(ip.getattr(o, 'processEvent'), ['file', locs, c.int('number')])
    q = c.input('location', c.int('q'))
    c.assume(And(0 <= q, q < n))
    c.prove('post: one record per location', eq(ws.length(), n))
    r = ws.at(q)
    i, j = IX['lon'](LOC[2](q)), IX['lat'](LOC[3](q))
    c.prove('post: record of the location', eq(r[0], LOC[0](q)))
    c.prove('post: record of the event', same_event(r[1], sim, num))
    for k, x in enumerate(('vmax', 'ua', 'va', 'slp')):
        c.prove('post: %s of the nearest grid point' % x, eq(r[2 + k], vals[x].at(j, i)))


def same_event(s, sim, num):
    if not isinstance(s, SymStr):
        return False
    f = [p for p in s.parts if not isinstance(p, str)]
    t = [p for p in s.parts if isinstance(p, str)]
    return And(len(f) == 2, t == ['-'], *[eq(a[2], b) for a, b in zip(f, (sim, num))])


# -- hazard table ------------------------------------------------------------------------------------------------------
FIELDS = ('wspd', 'wspdupper', 'wspdlower', 'loc', 'scale', 'shp')


@task('P23', 'values of the hazard', [H + '.processHazard', H + '.createDatabase', H + '.createTable'], contracts={FI: index, H + '.getLocations': lambda ip, a, k: ip.locs},
      opts={'names': {(D, 'Dataset'): Native(lambda ip, a, k: ip.nc), (D, 'datetime'): SObj(None, {'now': Native(lambda *a: 'now'), 'fromtimestamp': Native(lambda *a: 'then')})},
            'externals': {'os.stat': lambda ip, a, k: SObj(None, {'st_mtime': ip.ctx.int('mtime')})}},
      assumes=('the hazard file opens', 'reading a netCDF variable gives its values', 'return periods are whole numbers of years'))
def hazard(ip):
    c = ip.ctx
    n, h, w, y = c.input('locations', c.int('n')), c.int('h'), c.int('w'), c.input('years', c.int('y'))
    c.assume(And(n >= 0, h >= 1, w >= 1, y >= 0))
    ip.grid = {'lon': ip.fresh_array((w,), 'r', 'lon'), 'lat': ip.fresh_array((h,), 'r', 'lat')}
    ari = ip.fresh_array((y,), 'i', 'ari')
    vals = {x: ip.fresh_array((y, h, w) if x.startswith('wspd') else (h, w), 'r', x) for x in FIELDS}
    x = z3.Real('x!')
    for a, m in (('lon', w), ('lat', h)):
        c.assume(z3.ForAll([x], z(And(0 <= IX[a](x), lt(IX[a](x), m))), patterns=[IX[a](x)]))
    ip.nc = SObj(None, {'variables': PDict(dict(ip.grid, ari=ari, **vals)), 'close': Native(lambda *a: None), 'tcrm_version': 'version'})
    ip.locs = PList(n=n, fn=lambda k: tuple(f(z(k)) for f in LOC))

    def want(k, q):
        """record of location q for return period k"""
        i, j = IX['lon'](LOC[2](z(q))), IX['lat'](LOC[3](z(q)))
        return [LOC[0](z(q)), ari.at(k)] + [vals[v].at(k, j, i) if v.startswith('wspd') else vals[v].at(j, i) for v in FIELDS]

    def good(rec, k, q):
        return And(*[eq(a, b) for a, b in zip(rec[:8], want(k, q))])
    K, Q = c.input('return period', c.int('K')), c.input('location', c.int('Q'))
    c.assume(And(0 <= K, K < y, 0 <= Q, Q < n))
    pos = K * n + Q

    def some(S):
        f = [c.func('rec%d' % k, IS, IS if k < 2 else RS) for k in range(8)]
        m = c.int('records')
        c.assume(m >= 0)
        return PList(n=m, fn=lambda i: tuple(g(z(i)) for g in f) + ('version', 'then', '', 'now'))

    def inv(S, k, q):
        """records of the return periods before k, and of the locations before q for that one"""
        L = S['params']
        r = [('as many records as visited', eq(L.length(), add(mul(k, n), q)))]
        seen = Or(lt(K, k), And(eq(K, k), lt(Q, q)))
        if not (L.concrete and not L.items):
            c.assume(Implies(And(isz(k), lt(K, k)), z(K) * n + n <= z(k) * n))       # product of integers, shown below
            r.append(('record of the location', Implies(seen, And(lt(pos, L.length()), good(L.at(pos), K, Q)))))
        else:
            r.append(('record of the location', Not(seen)))
        return r
    a, b = c.int('a'), c.int('b')
    c.prove('lemma: a lower row ends before', Implies(And(0 <= a, a < b, n >= 0), a * n + n <= b * n))
    ip.loops['*'] = [Loop(lambda S: inv(S, S.it, 0), havoc={'params': some}, name='return periods', match=lambda t, st: isinstance(st, ast.For) and sum(isinstance(x, ast.For) for x in ast.walk(st)) == 2),
                     Loop(lambda S: inv(S, S.ip.outer['return periods'], S.it), havoc={'params': some}, name='locations', match=lambda t, st: isinstance(st, ast.For) and sum(isinstance(x, ast.For) for x in ast.walk(st)) == 1)]
    got = []

    def store(ip, a, kw):
        got.append((a[0], a[1]))
    o = SObj(ip.func(H), {'hazardPath': 'path', 'executemany': Native(store), 'commit': Native(lambda *a: None)})
    ip.call(ip.getattr(o, 'processHazard'), [])
    if len(got) != 1:
        raise Unsupported('records stored in %d steps' % len(got))
    sql, rows = got[0]
    tab, cols, m = inserted(sql, tables(ip))
    c.prove('post: every value in its column of the hazard table', tab == 'tblhazard' and cols == HAZARD.split() and m == len(cols))
    c.prove('post: one record per location and return period', eq(rows.length(), y * n))
    r = rows.at(pos)
    for x, v, t in zip(('location', 'return period') + FIELDS, r, want(K, Q)):
        c.prove('post: %s of the record' % x, eq(v, t))


# -- statements --------------------------------------------------------------------------------------------------------
DEF = 'database/definitions.py'


def columns(sql):
    """columns of a CREATE TABLE statement"""
    m = _re.fullmatch(r'(?is)\s*create\s+table\s+(?:if\s+not\s+exists\s+)?(\w+)\s*\((.*)\)\s*', sql)
    if not m or '(' in m.group(2):
        raise Unsupported('table definition')
    return m.group(1).lower(), [x.split()[0].lower() for x in m.group(2).split(',')]


def inserted(sql, tables):
    """table, then the column of each placeholder"""
    m = _re.fullmatch(r'(?is)\s*insert\s+(?:or\s+replace\s+)?into\s+(\w+)\s*(?:\(([^)]*)\))?\s*values\s*\(([\s?,]*)\)\s*;?\s*', sql)
    if not m:
        raise Unsupported('insert statement')
    t = m.group(1).lower()
    cols = [x.strip().lower() for x in m.group(2).split(',')] if m.group(2) else tables.get(t, [])
    return t, cols, len(m.group(3).split(','))


TABLES = {'TBLLOCATIONDEF': 'tbllocations', 'TBLEVENTSDEF': 'tblevents', 'TBLWINDSPEEDDEF': 'tblwindspeed', 'TBLHAZARDDEF': 'tblhazard', 'TBLTRACKSDEF': 'tbltracks'}
WANT = {'insertEvents': ('tblevents', 'eventnumber eventid eventfile eventtrackfile eventmaxwind eventminpressure dttrackfile dtwindfieldfile tcrmversion comments dtcreated'),
        'insertWindSpeeds': ('tblwindspeed', 'locid eventid wspd umax vmax pmin comments dtcreated'),
        'insertTracks': ('tbltracks', 'locid eventid distclosest prsclosest dtclosest comments dtcreated')}
HAZARD = 'locid returnperiod wspd wspdupper wspdlower loc scale shape tcrmversion dthazardfile comments dtcreated'


class Db:
    """connection stand-in: what is asked of it, in order"""

    def __init__(self, ip, extra=(), rows=None):
        self.log = []
        cur = SObj(None, {'fetchall': Native(lambda *a: rows)})

        def run(kind):
            def f(ip, a, k):
                self.log.append((kind, a[0], a[1] if len(a) > 1 else None))
                return cur
            return Native(f)
        d = dict(extra)
        d.update(execute=run('one'), executemany=run('many'), commit=Native(lambda *a: self.log.append(('commit', None, None))), close=Native(lambda *a: None))
        self.obj = SObj(ip.func(H), d)


def tables(ip):
    db = Db(ip)
    ip.call(ip.getattr(db.obj, 'createDatabase'), [])
    return dict(columns(s) for k, s, p in db.log if k == 'one')


@task('P23', 'tables and columns', [H + '.' + x for x in ('createDatabase', 'createTable') + tuple(WANT)], opts={'names': {(D, 'sqlite3'): SObj(None, {'Error': 'Error', 'IntegrityError': 'IntegrityError', 'ProgrammingError': 'ProgrammingError'})}},
      assumes=('the decorator disableOnWorkers runs the method on the master', 'an INSERT statement puts the values in the columns named, or in those of the table in order'))
def statements(ip):
    c = ip.ctx
    t = tables(ip)
    for m, (name, cols) in sorted(WANT.items()):
        db = Db(ip)
        rec = tuple(Opaque('value', k=k) for k in range(len(cols.split())))
        recs = rec if m == 'insertEvents' else PList([rec])
        ip.call(ip.getattr(db.obj, m), [recs])
        done = [x for x in db.log if x[0] != 'commit']
        c.prove('post %s: the records are stored once, as given, and kept' % m, len(done) == 1 and done[0][2] is recs and db.log[-1][0] == 'commit')
        tab, got, n = inserted(done[0][1], t)
        c.prove('post %s: in its table' % m, tab == name)
        c.prove('post %s: every value in its column' % m, got == cols.split() and n == len(got))


def selected(sql):
    m = _re.fullmatch(r'(?is)\s*select\s+(.*?)\s+from\s+(\w+)\s*(?:where\s+(.*?))?\s*;?\s*', sql)
    if not m:
        raise Unsupported('select statement')
    cond = []
    for x in _re.split(r'(?i)\s+and\s+', m.group(3)) if m.group(3) else []:
        k = _re.fullmatch(r'\s*(\w+)\s*(>=|<=|>|<|=)\s*\?\s*', x)
        if not k:
            raise Unsupported('condition of a select statement')
        cond.append((k.group(1).lower(), k.group(2)))
    return m.group(1).strip().lower(), m.group(2).lower(), cond


@task('P23', 'locations of the domain', [H + '.setLocations', H + '.getLocations', D + '::fromrecords'],
      opts={'names': {(D, 'sqlite3'): SObj(None, {'Error': 'Error', 'connect': Native(lambda ip, a, k: ip.source.obj)}), (D, 'PARSE_DECLTYPES'): 1, (D, 'PARSE_COLNAMES'): 2}, 'externals': {'numpy.rec.fromrecords': lambda ip, a, k: (a[0], k.get('names')),
                                                                                                                                             'numpy.array': lambda ip, a, k: Opaque('empty table')}},
      assumes=('a SELECT statement returns the rows for which its condition holds', 'an INSERT OR REPLACE statement stores each row'))
def places(ip):
    c = ip.ctx
    t = tables(ip)
    n = c.input('locations', c.int('n'))
    c.assume(n >= 0)
    rows = PList(n=n, fn=lambda k: tuple(f(z(k)) for f in LOC))
    lim = {x: c.input(x, c.real(x)) for x in ('xMin', 'xMax', 'yMin', 'yMax')}
    ip.source = Db(ip, rows=rows)
    db = Db(ip, {'locationDB': 'path', 'domain': PDict(lim)}, rows=rows)
    ip.call(ip.getattr(db.obj, 'setLocations'), [])
    (_, sql, par), = ip.source.log
    what, tab, cond = selected(sql)
    lon, lat = c.input('lon', c.real('lon')), c.input('lat', c.real('lat'))
    val = {'loclon': lon, 'loclat': lat}
    if len(cond) != len(par) or any(x not in val for x, _ in cond):
        raise Unsupported('condition of a select statement')
    OP = {'>=': lambda a, b: le(b, a), '<=': le, '>': lambda a, b: lt(b, a), '<': lt, '=': eq}
    sel = And(*[OP[o](val[x], p) for (x, o), p in zip(cond, par)])
    c.prove('post: selected are the locations in the domain', eq(sel, And(le(lim['xMin'], lon), le(lon, lim['xMax']), le(lim['yMin'], lat), le(lat, lim['yMax']))))
    c.prove('post: all columns of the locations', what == '*' and tab == 'tbllocations')
    ins = [x for x in db.log if x[0] != 'commit']
    c.prove('post: all of them stored', Or(eq(n, 0), len(ins) == 1 and ins[0][2] is rows and db.log[-1][0] == 'commit'))
    if ins:
        tab, got, k = inserted(ins[0][1], t)
        c.prove('post: every value in its column', tab == 'tbllocations' and got == t['tbllocations'] and k == len(got))
    db.log.clear()
    r = ip.call(ip.getattr(db.obj, 'getLocations'), [])
    (_, sql, par), = db.log
    what, tab, cond = selected(sql)
    c.prove('post: the locations read are those stored', tab == 'tbllocations' and not cond and _re.split(r'\s*,\s*', what) == ['locid', 'locname', 'loclon', 'loclat'])
    if isinstance(r, tuple):
        c.prove('post: read as identifier, name, longitude and latitude', r[0] is rows and _re.split(r'\s*,\s*', r[1]) == ['locId', 'locName', 'locLon', 'locLat'])
    else:
        c.prove('post: no locations', eq(n, 0))


# -- distribution of the files ---------------------------------------------------------------------------------------
PLAIN = z3.Function('plain file', IS, BS)


class Files:
    """directory listing: arbitrary entries, numbered"""

    def __init__(self, ip, tracks):
        c = ip.ctx
        self.ip = ip
        self.n = c.int('entries')
        c.assume(self.n >= 0)
        self.id = z3.Function('entry', IS, IS)


def listdir(ip, a, k):
    return PList(n=ip.files.n, fn=lambda i: ip.files.id(z(i)))


EXT = {'os.listdir': listdir, 'os.path.isfile': lambda ip, a, k: PLAIN(z(a[0])), 'posixpath.isfile': lambda ip, a, k: PLAIN(z(a[0]))}


def insert(which):
    def f(ip, args, kw):
        c = ip.ctx
        rec = args[1]
        if not isinstance(rec, Opaque) or rec.name != which:
            c.prove('insert: the %s of a result' % which, False)
        old = c.ghosts[which]
        c.ghosts[which] = mk_ghost(lambda q: ite(eq(q, rec.k), add(old(q), 1), old(q)), (IS, IS))
    return f


def result(k):
    return (Opaque('event', k=k), Opaque('speeds', k=k))


def unpack(ip, args, kw):
    """contract of processEvent in the loops: the records of the file"""
    c = ip.ctx
    _, f, locs, k = args
    c.prove('pre: the number given is that of the file', And(0 <= k, lt(k, ip.list_n(ip)), eq(f, ip.list_at(ip, k))))
    return result(k)


CON = {H + '.insertEvents': insert('event'), H + '.insertWindSpeeds': insert('speeds'), H + '.getLocations': lambda ip, a, k: Opaque('locations')}


def start(ip):
    c = ip.ctx
    ip.files = Files(ip, False)
    for x in ('event', 'speeds'):
        c.ghosts[x] = const_ghost(0, (IS, IS))
    return SObj(ip.func(H), {'windfieldPath': 'path', 'trackPath': 'path'})


def join_last(ip, a, k):
    return a[-1]


def flist(ip):
    fr = ip.frames[-1]
    f = fr
    v = ip.alias(fr, 'fileList')
    while f is not None and v not in f.vars:
        f = f.closure
    return f.vars[v]


OPT = lambda: {'externals': dict(EXT, **{'os.path.join': join_last, 'posixpath.join': join_last})}


@task('P23', 'event files, one process', [H + '.processEvents'], contracts=dict(CON, **{H + '.processEvent': unpack}), opts=OPT())
def serial(ip):
    c = ip.ctx
    o = start(ip)
    got = {}

    def inv(S):
        q = qvar()
        got['n'] = S['fileList'].length()
        return [('%s stored once so far' % x, z3.ForAll([q], z(eq(c.ghosts[x](q), ite(And(0 <= q, lt(q, S.it)), 1, 0))))) for x in ('event', 'speeds')]
    ip.list_n, ip.list_at = lambda ip: flist(ip).length(), lambda ip, k: flist(ip).at(k)
    ip.loops['*'] = [Loop(inv, name='files', match=lambda txt, st: isinstance(st, ast.For) and 'processEvent' in txt and 'send(' not in txt)]
    comm = SObj(None, {'rank': 0, 'size': 1})
    ip.opts['names'] = {(D, 'comm'): comm, (D, 'MPI'): SObj(None, {'Status': Native(lambda *a: None)})}
    ip.call(ip.getattr(o, 'processEvents'), [])
    q = c.input('file', c.int('q'))
    c.assume(And(0 <= q, lt(q, got['n'])))
    for x in ('event', 'speeds'):
        c.prove('post: %s of every file stored once' % x, eq(c.ghosts[x](q), 1))


def master(ip, method, kinds, name, msg):
    c = ip.ctx
    o = start(ip)
    size = c.input('size', c.int('size'))
    N = c.int('N')
    T = c.input('some item', c.int('T'))
    c.assume(And(size >= 2, N >= 0, 0 <= T, T < N))
    ITEM = z3.Function('item', IS, IS)
    the = PList(n=N, fn=lambda k: ITEM(z(k)))

    def number(obj):
        k = msg(ip, obj)
        c.prove('send: the file with that number', eq(obj[0], ITEM(z(k))))
        return k
    m = mpi.Master(ip, size, N, number, lambda k: result(k) if len(kinds) == 2 else Opaque('tracks', k=k), 1)
    ip.opts['names'] = {(D, 'comm'): m.comm, (D, 'MPI'): m.MPI}
    fn = ip.func(H + '.' + method).node
    r = mpi.roles(fn, (name,))
    ip.role = r
    ip.opts['externals'] = dict(OPT()['externals'])
    ip.the = the

    def extra(s, w_):
        G = s.ctx.ghosts['mpi'].attrs
        d = qvar()
        out = z3.Exists([d], z(And(1 <= d, lt(d, size), G['busy'].at(d), eq(G['item'].at(d), T))))
        return [('%s of every file heard of stored once' % x, eq(c.ghosts[x](T), ite(And(lt(T, w_), Not(out)), 1, 0))) for x in kinds] + \
            [('one worker holds a file', distinct(G, size))]
    ip.loops['*'] = mpi.loops(m, r, extra)
    return o, m, T


def distinct(G, size):
    a, b = qvar(2)
    return z3.ForAll([a, b], z(Implies(And(1 <= a, lt(a, size), 1 <= b, lt(b, size), G['busy'].at(a), G['busy'].at(b), eq(G['item'].at(a), G['item'].at(b))), eq(a, b))))


def pick(ip, a, k):
    return ip.the


@task('P23', 'event files, master', [H + '.processEvents'], contracts=CON, assumes=mpi.ASSUME, deadline=400)
def master_events(ip):
    c = ip.ctx
    o, m, T = master(ip, 'processEvents', ('event', 'speeds'), 'fileList', lambda ip, obj: obj[2])
    ip.opts['externals'].update({'os.listdir': pick, 'os.path.isfile': lambda *a: True, 'posixpath.isfile': lambda *a: True})
    ip.call(ip.getattr(o, 'processEvents'), [])
    mpi.finished(ip, m)
    for x in ('event', 'speeds'):
        c.prove('post: %s of every file stored once' % x, eq(c.ghosts[x](T), 1))


@task('P23', 'event files, worker', [H + '.processEvents'], contracts=CON, assumes=mpi.ASSUME)
def worker_events(ip):
    c = ip.ctx
    o = start(ip)
    size, rank = c.input('size', c.int('size')), c.input('rank', c.int('rank'))
    c.assume(size >= 2, 1 <= rank, rank < size)
    ITEM = z3.Function('item', IS, IS)
    locs = Opaque('locations')

    def check(obj, k):
        if not isinstance(obj, tuple) or len(obj) != 2 or not all(isinstance(x, Opaque) for x in obj):
            return False
        return And(obj[0].name == 'event', obj[1].name == 'speeds', eq(obj[0].k, k), eq(obj[1].k, k))

    def process(ip, args, kw):
        _, f, l, k = args
        ip.ctx.prove('pre: file, locations and number as received', And(eq(f, ITEM(z(k))), l is locs))
        return result(k)
    ip.contracts[H + '.processEvent'] = process
    m = mpi.Worker(ip, size, rank, lambda k: (ITEM(z(k)), locs, k), check, (1,))
    ip.opts['names'] = {(D, 'comm'): m.comm, (D, 'MPI'): m.MPI}
    ip.opts['externals'] = OPT()['externals']
    ip.loops['*'] = mpi.worker_loop()
    ip.call(ip.getattr(o, 'processEvents'), [])
    mpi.worker_done(ip)


# -- track files -------------------------------------------------------------------------------------------------------
def track_files(ip, n):
    return PList(n=n, fn=lambda k: SObj(None, {'k': k, 'startswith': Native(lambda *a: True)}))


def store_tracks(ip, args, kw):
    c = ip.ctx
    old, k = c.ghosts['tracks'], args[1].attrs['k']
    c.ghosts['tracks'] = mk_ghost(lambda q: ite(eq(q, k), add(old(q), 1), old(q)), (IS, IS))


TCON = {H + '.insertTracks': store_tracks, H + '.getLocations': lambda ip, a, k: Opaque('locations'), D + '::processTrack': lambda ip, a, k: SObj(None, {'k': a[0].attrs['k']})}


@task('P23', 'track files, one process', [H + '.processTracks'], contracts=TCON, opts=OPT())
def serial_tracks(ip):
    c = ip.ctx
    o = start(ip)
    c.ghosts['tracks'] = const_ghost(0, (IS, IS))
    n = c.input('files', c.int('n'))
    c.assume(n >= 0)
    ip.opts['externals']['os.listdir'] = lambda ip, a, k: track_files(ip, n)

    def inv(S):
        q = qvar()
        return [('stored once so far', z3.ForAll([q], z(eq(c.ghosts['tracks'](q), ite(And(0 <= q, lt(q, S.it)), 1, 0)))))]
    ip.loops['*'] = [Loop(inv, name='files', match=lambda txt, st: isinstance(st, ast.For) and 'processTrack' in txt and 'send(' not in txt)]
    ip.opts['names'] = {(D, 'comm'): SObj(None, {'rank': 0, 'size': 1}), (D, 'MPI'): SObj(None, {'Status': Native(lambda *a: None)})}
    ip.call(ip.getattr(o, 'processTracks'), [])
    q = c.int('q')
    c.assume(And(0 <= q, lt(q, n)))
    c.prove('post: tracks of every file stored once', eq(c.ghosts['tracks'](q), 1))


@task('P23', 'track files, master', [H + '.processTracks'], contracts=TCON, assumes=mpi.ASSUME, deadline=400)
def master_tracks(ip):
    c = ip.ctx
    o = start(ip)
    c.ghosts['tracks'] = const_ghost(0, (IS, IS))
    size, N, T = c.input('size', c.int('size')), c.int('N'), c.input('some item', c.int('T'))
    c.assume(And(size >= 2, N >= 0, 0 <= T, T < N))
    m = mpi.Master(ip, size, N, lambda obj: obj[0].attrs['k'], lambda k: SObj(None, {'k': k}), 1)
    ip.opts['names'] = {(D, 'comm'): m.comm, (D, 'MPI'): m.MPI}
    ip.opts['externals'] = dict(OPT()['externals'], **{'os.listdir': lambda ip, a, k: track_files(ip, N)})
    r = mpi.roles(ip.func(H + '.processTracks').node, ('trackfiles',))

    def extra(s, w_):
        G = s.ctx.ghosts['mpi'].attrs
        d = qvar()
        out = z3.Exists([d], z(And(1 <= d, lt(d, size), G['busy'].at(d), eq(G['item'].at(d), T))))
        return [('tracks of every file heard of stored once', eq(c.ghosts['tracks'](T), ite(And(lt(T, w_), Not(out)), 1, 0))), ('one worker holds a file', distinct(G, size))]
    ip.loops['*'] = mpi.loops(m, r, extra)
    ip.call(ip.getattr(o, 'processTracks'), [])
    mpi.finished(ip, m)
    c.prove('post: tracks of every file stored once', eq(c.ghosts['tracks'](T), 1))


@task('P23', 'track files, worker', [H + '.processTracks'], contracts=TCON, assumes=mpi.ASSUME)
def worker_tracks(ip):
    c = ip.ctx
    o = start(ip)
    size, rank = c.input('size', c.int('size')), c.input('rank', c.int('rank'))
    c.assume(size >= 2, 1 <= rank, rank < size)
    m = mpi.Worker(ip, size, rank, lambda k: (SObj(None, {'k': k}), Opaque('locations')), lambda obj, k: eq(obj.attrs['k'], k) if isinstance(obj, SObj) else False, (1,))
    ip.opts['names'] = {(D, 'comm'): m.comm, (D, 'MPI'): m.MPI}
    ip.opts['externals'] = dict(OPT()['externals'], **{'os.listdir': lambda ip, a, k: track_files(ip, 0)})
    ip.loops['*'] = mpi.worker_loop()
    ip.call(ip.getattr(o, 'processTracks'), [])
    mpi.worker_done(ip)
