"""Track generation domain (DataProcess/CalcTrackDomain.py)."""
import z3
from engine.contract import task
from engine.interp import Loop, Native
from engine.sym import *

D = 'DataProcess/CalcTrackDomain.py'
KEYS = ('xMin', 'xMax', 'yMin', 'yMax')


def holds(d, lon, lat):
    return And(le(d['xMin'], lon), le(lon, d['xMax']), le(d['yMin'], lat), le(lat, d['yMax']))


def around(d, e):
    return And(le(d['xMin'], e['xMin']), le(e['xMax'], d['xMax']), le(d['yMin'], e['yMin']), le(e['yMax'], d['yMax']))


def whole(v):
    return eq(v, toreal(floor(v)))


def limits(s):
    return PDict({k: s.ctx.real(k) for k in KEYS})


def inv(s):
    st = s.ip.st
    tg, tr = s['tg_domain'].d, s['track_limits'].d
    return [('contains the region', around(tg, st['region'])), ('whole degrees after the first position', Implies(lt(0, s.it), And(*[whole(tg[k]) for k in KEYS]))),
            ('limits of the track contain the position', Implies(And(lt(st['P'], s.it), le(s.it, st['V'])), holds(tr, *st['at']))),
            ('domain contains the position once the visit is past', Implies(lt(st['V'], s.it), holds(tg, *st['at'])))]


LOOPS = [Loop(inv, name='positions', havoc={'tg_domain': limits, 'track_limits': limits})]


def setup(ip):
    c = ip.ctx
    n, P, V = [c.input(x, c.int(x)) for x in ('n', 'P', 'V')]
    c.assume(n >= 1)
    idx, lon, lat = [ip.fresh_array((n,), 'r', x) for x in ('index', 'lon', 'lat')]
    r = {k: c.input(k, c.real(k)) for k in KEYS}
    c.assume(And(r['xMin'] <= r['xMax'], r['yMin'] <= r['yMax']))
    # V visits the region, P is earlier in the same storm
    k = z3.Int('k!')
    c.assume(And(0 <= P, P <= V, V < n, holds(r, lon.at(V), lat.at(V)), z3.ForAll([k], z(Implies(And(P < k, k <= V), Not(eq(idx.at(k), 1)))))))
    ip.st = {'region': r, 'P': P, 'V': V, 'at': (lon.at(P), lat.at(P))}
    return SObj(ip.func(D + '::CalcTrackDomain'), {'wf_domain': PDict(dict(r)), 'outputPath': 'out'}), idx, lon, lat


def post(ip, r):
    c = ip.ctx
    r = r.d
    c.prove('post: contains the region', around(r, ip.st['region']))
    c.prove('post: contains the position', holds(r, *ip.st['at']))
    c.prove('post: whole degrees', And(*[whole(r[k]) for k in KEYS]))


@task('P20', 'from tracks', [D + '::CalcTrackDomain.calc', D + '::CalcTrackDomain.calcDomainFromTracks'], loops={'CalcTrackDomain.calc': LOOPS, 'calc': LOOPS})
def tracks(ip):
    o, i, x, y = setup(ip)
    r = ip.call(ip.func(D + '::CalcTrackDomain.calcDomainFromTracks'), [o, i, x, y])
    post(ip, r)
    for k in KEYS:
        ip.ctx.prove('post: the region itself is left alone (%s)' % k, eq(o.attrs['wf_domain'].d[k], ip.st['region'][k]))


@task('P20', 'from file', [D + '::CalcTrackDomain.calc', D + '::CalcTrackDomain.calcDomainFromFile'], loops={'CalcTrackDomain.calc': LOOPS, 'calc': LOOPS},
      assumes=('the file of positions is read as it was written: storm start, longitude, latitude per line',),
      contracts={'Utilities/files.py::flLoadFile': lambda ip, a, k: SArr((ip.st['n'], 6), lambda i: ite(eq(i[1], 0), ip.st['a'][0].at(i[0]), ite(eq(i[1], 1), ip.st['a'][1].at(i[0]), ip.st['a'][2].at(i[0]))), 'r')})
def file(ip):
    o, i, x, y = setup(ip)
    ip.st.update(n=i.shape[0], a=(i, x, y))
    post(ip, ip.call(ip.func(D + '::CalcTrackDomain.calcDomainFromFile'), [o]))
