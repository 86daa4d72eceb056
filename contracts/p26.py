"""Registry of processed files (Utilities/process.py, Utilities/files.py).  Texts are represented by numbers."""
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import qvar, model, REG

P, F = 'Utilities/process.py', 'Utilities/files.py'
KNOWN = {'moddate': 1, 'md5sum': 2}
NL = z3.Function('with.newline', IS, IS)
ASSUME = ('texts are represented by numbers other than 0; two texts are the same just if the numbers are', "directory and file names have no '|' and no line break in them")


def text(code, nl=False):
    return SObj('text', {'code': code, 'nl': nl})


def code(ip, v):
    if isinstance(v, str):
        if v not in KNOWN:
            raise Unsupported('text %r' % v)
        return KNOWN[v]
    if isinstance(v, SObj) and v.cls == 'text':
        k = v.attrs['code']
        if v.attrs['nl']:
            ip.ctx.assume(Not(eq(NL(z(k)), k)))
            return NL(z(k))
        return k
    if conc(v):
        return v
    raise Unsupported('%r as a text' % type(v).__name__)


@model('text.rstrip', 'text.strip')
def strip(ip, a, k):
    if len(a) > 1 and '\n' not in a[1]:
        return a[0]
    return text(a[0].attrs['code'])


def compare(ip, op, a, b):
    if isinstance(a, SObj) and a.cls == 'text' or isinstance(b, SObj) and b.cls == 'text':
        e = False if a is None or b is None else eq(code(ip, a), code(ip, b))
        return e if op == '==' else Not(e) if op == '!=' else NotImplemented
    return NotImplemented


# -- the nested dictionary: presence at the three levels, and the value ----------------------------------------------------------
def state(ip):
    c = ip.ctx
    D, FF, A, V = z3.Function('has.directory', IS, BS), z3.Function('has.file', IS, IS, BS), z3.Function('has.attribute', IS, IS, IS, BS), z3.Function('value', IS, IS, IS, IS)
    return {0: lambda d: D(z(d)), 1: lambda d, f: FF(z(d), z(f)), 2: lambda d, f, a: A(z(d), z(f), z(a)), 'v': lambda d, f, a: V(z(d), z(f), z(a))}


def lookup(S, d, f, a):
    """0 if there is none"""
    return ite(And(S[0](d), S[1](d, f), S[2](d, f, a)), S['v'](d, f, a), 0)


def same(p, q):
    return And(*[eq(x, y) for x, y in zip(p, q)])


def put(ip, path, v):
    """the value at the end of the path becomes v (a text, or a dictionary of one entry)"""
    S, n = ip.st['reg'], len(path)
    for lev in range(n - 1, 3):
        old = S[lev]
        if lev == n - 1:
            S[lev] = lambda *q, old=old: Or(same(q, path), old(*q))
        else:
            S[lev] = lambda *q, old=old: And(Not(same(q[:n], path)), old(*q))
    if n == 3:
        old = S['v']
        S['v'] = lambda *q: ite(same(q, path), code(ip, v), old(*q))
        return
    if isinstance(v, PDict) and not v.d and not hasattr(v, 'pair'):
        return
    if not isinstance(v, PDict):
        raise Unsupported('%r as an entry' % type(v).__name__)
    if hasattr(v, 'pair'):
        put(ip, path + (code(ip, v.pair[0]),), v.pair[1])
    else:
        for k, x in v.d.items():
            put(ip, path + (code(ip, k),), x)


def there(ip, path):
    return ip.st['reg'][len(path) - 1](*path)


def entry(ip, path):
    if len(path) == 3:
        return text(ip.st['reg']['v'](*path))
    return SObj('reg', {'path': path})


@model('reg.__contains__')
def has(ip, a, k):
    return there(ip, a[0].attrs['path'] + (code(ip, a[1]),))


@model('reg.__getitem__')
def get(ip, a, k):
    path = a[0].attrs['path'] + (code(ip, a[1]),)
    if not ip.ctx.branch(there(ip, path)):
        raise PyRaise('KeyError', ())
    return entry(ip, path)


@model('reg.get')
def getd(ip, a, k):
    path = a[0].attrs['path'] + (code(ip, a[1]),)
    if not ip.ctx.branch(there(ip, path)):
        v = a[2] if len(a) > 2 else None
        if isinstance(v, PDict) and not v.d and not hasattr(v, 'pair'):
            return SObj('noentry', {})
        return v
    return entry(ip, path)


@model('noentry.get')
def none(ip, a, k):
    v = a[2] if len(a) > 2 else None
    return SObj('noentry', {}) if isinstance(v, PDict) else v


@model('reg.setdefault')
def setd(ip, a, k):
    path = a[0].attrs['path'] + (code(ip, a[1]),)
    if not ip.ctx.branch(there(ip, path)):
        put(ip, path, a[2])
    return entry(ip, path)


@model('reg.__setitem__')
def setitem(ip, a, k):
    put(ip, a[0].attrs['path'] + (code(ip, a[1]),), a[2])


@model('reg.update')
def update(ip, a, k):
    d = a[1]
    if not isinstance(d, PDict):
        raise Unsupported('update')
    for x, v in ([d.pair] if hasattr(d, 'pair') else list(d.d.items())):
        put(ip, a[0].attrs['path'] + (code(ip, x),), v)


OPTS = {'symbolic_keys': True, 'compare': compare}


def registry(ip):
    ip.st = {'reg': state(ip)}
    ip.ctx.ghosts['global GLOBAL_PROCFILES'] = (P, SObj('reg', {'path': ()}))


def key(ip, tag=''):
    c = ip.ctx
    r = [c.input(n, c.int(n + tag)) for n in ('directory', 'file', 'attribute')]
    return r


@task('P26', 'recording an attribute', [P + '::pSetProcessedEntry'], opts=OPTS, assumes=ASSUME)
def record(ip):
    c = ip.ctx
    registry(ip)
    d, f, a = key(ip)
    v = c.int('value')
    c.assume(Not(eq(v, 0)))
    old = dict(ip.st['reg'])
    q = [c.int('other.' + n) for n in ('directory', 'file', 'attribute')]
    ip.call(ip.func(P + '::pSetProcessedEntry'), [text(d), text(f), text(a), text(v)])
    S = ip.st['reg']
    c.prove('post: the value is recorded', eq(lookup(S, d, f, a), v))
    c.prove('post: no other record changes', Implies(Not(same(q, (d, f, a))), eq(lookup(S, *q), lookup(old, *q))))


@task('P26', 'looking up an attribute', [P + '::pGetProcessedEntry'], opts=OPTS, assumes=ASSUME)
def look(ip):
    c = ip.ctx
    registry(ip)
    d, f, a = key(ip)
    S = ip.st['reg']
    r = ip.call(ip.func(P + '::pGetProcessedEntry'), [text(d), text(f), text(a)])
    if c.branch(And(S[0](d), S[1](d, f), S[2](d, f, a))):
        c.prove('post: the recorded value', isinstance(r, SObj) and eq(code(ip, r), S['v'](d, f, a)))
    else:
        c.prove('post: 0 where there is none', conc(r) and r == 0)


def look_con(ip, a, k):
    """contract of pGetProcessedEntry"""
    v = ip.st['lookup'](*[code(ip, x) for x in a])
    return text(v) if ip.ctx.branch(Not(eq(v, 0))) else 0


@task('P26', 'already processed', [P + '::pAlreadyProcessed'], opts=OPTS, contracts={P + '::pGetProcessedEntry': look_con}, assumes=ASSUME)
def already(ip):
    c = ip.ctx
    d, f, a = key(ip)
    v = c.int('value')
    c.assume(Not(eq(v, 0)))
    R = z3.Function('recorded', IS, IS, IS, IS)
    ip.st = {'lookup': lambda *q: R(*[z(x) for x in q])}
    r = ip.call(ip.func(P + '::pAlreadyProcessed'), [text(d), text(f), text(a), text(v)])
    c.prove('post: only if that value is recorded for that file', r if isz(r) else bool(r)) if c.branch(eq(R(d, f, a), v)) else c.prove('post: not with another value or none', Not(r) if isz(r) else not r)


# -- records on disk; the value at one place (any place) of the registry is followed ---------------------------------------------------
def follow(ip):
    c = ip.ctx
    q = [c.int('place.' + n) for n in ('directory', 'file', 'attribute')]
    v = c.int('before')
    ip.st = {'q': q, 'before': v}
    c.ghosts['registry'] = SObj(None, {'now': v, 'lines': 0})
    return q


def set_con(ip, a, k):
    """contract of pSetProcessedEntry"""
    G = ip.ctx.ghosts['registry'].attrs
    G['now'] = ite(same(ip.st['q'], [code(ip, x) for x in a[:3]]), code(ip, a[3]), G['now'])


REC = [z3.Function('line.' + n, IS, IS) for n in ('directory', 'file', 'moddate', 'md5sum')]
AFTER = z3.Function('after', IS, IS)


@model('line.split')
def split(ip, a, k):
    if len(a) != 2 or a[1] != '|':
        raise Unsupported('split')
    i = z(a[0].attrs['i'])
    return PList([text(REC[j](i), nl=a[0].attrs['nl'] and j == 3) for j in range(4)])


@model('line.rstrip', 'line.strip')
def lstrip(ip, a, k):
    return SObj('line', {'i': a[0].attrs['i'], 'nl': False})


def line_facts(s):
    """the registry after one line more: the modification date and the signature of the file named there"""
    q, k = s.ip.st['q'], z(s.it)
    here = And(eq(q[0], REC[0](k)), eq(q[1], REC[1](k)))
    return eq(AFTER(k + 1), ite(And(here, eq(q[2], KNOWN['moddate'])), REC[2](k), ite(And(here, eq(q[2], KNOWN['md5sum'])), REC[3](k), AFTER(k))))


def line_inv(s):
    return [('registry', eq(s.ctx.ghosts['registry'].attrs['now'], AFTER(z(s.it))))]


_R = [Loop(line_inv, name='lines', facts=line_facts)]


def reader(ip, fails):
    def op(ip2, a, k):
        ip2.ctx.prove('the file that was named is read', a[0] is ip.st['name'] and (len(a) < 2 or a[1] in ('r', 'rt')) and k.get('mode', 'r') in ('r', 'rt'))
        if fails:
            raise PyRaise('IOError', ())
        n = ip.st['n']
        seq = PList(n=n, fn=lambda i: SObj('line', {'i': i, 'nl': True}))
        o = SObj(None, {'close': Native(lambda ip, a, k: None), '__iter__': Native(lambda ip, a, k: seq), 'readlines': Native(lambda ip, a, k: seq), '__exit__': Native(lambda ip, a, k: None)})
        o.attrs['__enter__'] = Native(lambda ip, a, k: o)
        return o
    return op


for _fails in (False, True):
    @task('P26', 'reading the records' + (', no such file' if _fails else ''), [P + '::pGetProcessedFiles'], contracts={P + '::pSetProcessedEntry': set_con}, loops={'pGetProcessedFiles': _R}, opts=OPTS,
          assumes=ASSUME + ('every line of the file has the four fields that were written',))
    def read(ip, fails=_fails):
        c = ip.ctx
        follow(ip)
        n = c.int('n')
        c.assume(And(n >= 0, eq(AFTER(0), ip.st['before'])))
        name = SObj('text', {'code': c.int('name'), 'nl': False})
        ip.st.update(n=n, name=name)
        ip.opts = dict(ip.opts, externals={'builtins.open': reader(ip, fails)})
        r = ip.call(ip.func(P + '::pGetProcessedFiles'), [name])
        G = c.ghosts['registry'].attrs
        if fails:
            c.prove('post: nothing is recorded and that is reported', And(eq(G['now'], ip.st['before']), not r))
        else:
            c.prove('post: the records of the file, later ones over earlier ones', eq(G['now'], AFTER(z(n))))
            c.prove('post: success is reported', bool(r))
        w = c.ghosts.get('global GLOBAL_DATFILE')
        c.prove('post: later records go to that file', w is not None and w[1] is name)


@task('P26', 'recording a file', [P + '::pWriteProcessedFile'], contracts={P + '::pSetProcessedEntry': set_con}, opts=OPTS, assumes=ASSUME)
def write(ip):
    c = ip.ctx
    q = follow(ip)
    name, dat = text(c.int('name')), text(c.int('datfile'))
    c.ghosts['global GLOBAL_DATFILE'] = (P, dat)
    stat = [text(c.int(n)) for n in ('directory', 'fname', 'md5sum', 'moddate')]
    out = []

    def getstat(ip, a, k):
        c.prove('properties of the file named', len(a) == 1 and a[0] is name)
        return tuple(stat)

    def op(ip, a, k):
        c.prove('the records are added to', a[0] is dat and (a[1] if len(a) > 1 else k.get('mode')) in ('a', 'at'))
        if c.branch(c.bool('cannot be opened')):
            raise PyRaise('IOError', ())
        o = SObj(None, {'write': Native(lambda ip, a, k: out.append(a[0])), 'close': Native(lambda ip, a, k: None), '__exit__': Native(lambda ip, a, k: None)})
        o.attrs['__enter__'] = Native(lambda ip, a, k: o)
        return o
    ip.contracts = dict(ip.contracts, **{F + '::flGetStat': getstat})
    ip.opts = dict(ip.opts, externals={'builtins.open': op})
    r = ip.call(ip.func(P + '::pWriteProcessedFile'), [name])
    G = c.ghosts['registry'].attrs
    d, f, m, t = [x.attrs['code'] for x in stat]
    if not r:
        c.prove('post: nothing is recorded', And(eq(G['now'], ip.st['before']), not out))
        return
    here = And(eq(q[0], d), eq(q[1], f))
    c.prove('post: modification date and signature are recorded, nothing else changes',
            eq(G['now'], ite(And(here, eq(q[2], KNOWN['moddate'])), t, ite(And(here, eq(q[2], KNOWN['md5sum'])), m, ip.st['before']))))
    parts = []
    for s in out:
        parts += s.parts if isinstance(s, SymStr) else [s]
    parts = [p for p in parts if p != '']
    shape = len(parts) == 8 and parts[1] == parts[3] == parts[5] == '|' and parts[7] == '\n'
    c.prove('post: one line is written', shape)
    if shape:
        c.prove('post: it reads back as the same record', all(isinstance(p, SObj) for p in parts[0:8:2]) and And(*[eq(code(ip, p), w) for p, w in zip(parts[0:8:2], (d, f, t, m))]))


# -- signature -----------------------------------------------------------------------------------------------------------------------
@model('hash.update')
def hupdate(ip, a, k):
    c = ip.ctx
    G, ch = c.ghosts['content'].attrs, a[1].attrs
    c.prove('the parts of the content in order', eq(ch['lo'], G['hashed']))
    G['hashed'] = ch['hi']


@model('chunk.__bool__')
def cbool(ip, a, k):
    return ip.ctx.branch(lt(a[0].attrs['lo'], a[0].attrs['hi']))


@model('chunk.__len__')
def clen(ip, a, k):
    return sub(a[0].attrs['hi'], a[0].attrs['lo'])


def stat_inv(s):
    G = s.ctx.ghosts['content'].attrs
    return [('what has been read is in the signature', And(eq(G['pos'], G['hashed']), le(0, G['pos']), le(G['pos'], s.ip.st['size'])))]


_S = [Loop(stat_inv, name='content')]


@task('P26', 'signature of a file', [F + '::flGetStat'], loops={'flGetStat': _S}, opts=OPTS, assumes=('the MD5 sum is a function of the bytes fed to it in order', 'a read gives at most as much as asked for, and nothing only at the end'))
def signature(ip):
    c = ip.ctx
    size, chunk = c.input('size', c.int('size')), c.input('chunk', c.int('chunk'))
    c.assume(And(size >= 0, chunk >= 1))
    ip.st = {'size': size}
    c.ghosts['content'] = SObj(None, {'pos': 0, 'hashed': 0})
    name, d, f = text(c.int('name')), text(c.int('d')), text(c.int('f'))
    mtime = c.real('mtime')

    def op(ip, a, k):
        c.prove('the file named is opened', a[0] is name)
        raw = len(a) > 1 and 'b' in a[1]
        c.ghosts['content'].attrs['pos'] = 0

        def read(ip, a, k):
            c.prove('bytes are read', raw)
            G = c.ghosts['content'].attrs
            lo, hi = G['pos'], c.int('hi')
            c.assume(And(le(lo, hi), le(hi, size), Implies(eq(lo, hi), eq(lo, size))))
            if len(a):
                c.assume(Implies(le(0, a[0]), le(hi, add(lo, a[0]))))
            else:
                c.assume(eq(hi, size))
            G['pos'] = hi
            return SObj('chunk', {'lo': lo, 'hi': hi})
        o = SObj(None, {'read': Native(read), 'close': Native(lambda ip, a, k: None), '__exit__': Native(lambda ip, a, k: None)})
        o.attrs['__enter__'] = Native(lambda ip, a, k: o)
        return o

    def md5(ip, a, k):
        return SObj('hash', {'hexdigest': Native(lambda ip, a, k: SObj('digest', {'upto': c.ghosts['content'].attrs['hashed']}))})
    ip.opts = dict(ip.opts, externals={'builtins.open': op, 'os.path.split': lambda ip, a, k: (d, f) if a[0] is name else None, 'os.stat': lambda ip, a, k: SObj(None, {'st_mtime': mtime}) if a[0] is name else None,
                                       'time.ctime': lambda ip, a, k: SObj('date', {'of': a[0]}), 'hashlib.md5': md5})
    r = ip.call(ip.func(F + '::flGetStat'), [name, chunk])
    c.prove('post: directory and name', r[0] is d and r[1] is f)
    c.prove('post: signature of all of the content', isinstance(r[2], SObj) and r[2].cls == 'digest' and eq(r[2].attrs['upto'], size))
    c.prove('post: date of the last modification', isinstance(r[3], SObj) and r[3].cls == 'date' and eq(r[3].attrs['of'], mtime))
