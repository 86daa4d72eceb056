"""The wind field of a time step is the one the configured models give for the storm of that step (wind/__init__.py)."""
import ast
import z3
from fractions import Fraction
from engine.contract import task
from engine.interp import ModuleSrc, Native
from engine.sym import *

W, WM, PP, MU, MP = 'wind/__init__.py', 'wind/windmodels.py', 'PressureInterface/pressureProfile.py', 'Utilities/metutils.py', 'Utilities/maputils.py'
AT = W + '::WindfieldAroundTrack'
GEN = W + '::WindfieldGenerator'
BASE = ['self', 'lat', 'lon', 'eP', 'cP', 'rMax', 'windSpeedModel']
PROFILES = ['jelesnianski', 'holland', 'willoughby', 'rankine', 'schloemer', 'doubleholland', 'powell', 'newholland']
FIELDS = ['kepert', 'hubbert', 'mcconochie']
SHAPE = ('beta', 'beta1', 'beta2')
TRACK = ('Latitude', 'Longitude', 'EnvPressure', 'CentralPressure', 'rMax', 'Speed', 'Bearing')
TOL = Fraction(2, 1000)
ASSUME = ('the models the names of the configuration stand for are those of the classes bearing the name (kept by the table made when the module is loaded; compared in the bounded run)',
          'wind and pressure models give the field of the parameters they are handed (properties P08 to P11)')


def klass(name, kind):
    """definition of the model class a name stands for, in the current source"""
    src = ModuleSrc(WM) if WM not in ModuleSrc.cache else ModuleSrc.cache[WM]
    got = [st for st in src.tree.body if isinstance(st, ast.ClassDef) and st.name.replace(kind, '').lower() == name and st.name.endswith(kind)]
    if len(got) != 1:
        raise Unsupported('class of the model %s' % name)
    return got[0], src


def signature(name, kind, method):
    """names of the parameters of a method of a model class, looked up along the bases"""
    cls, src = klass(name, kind)
    defs = {st.name: st for st in src.tree.body if isinstance(st, ast.ClassDef)}
    while cls is not None:
        for st in cls.body:
            if isinstance(st, ast.FunctionDef) and st.name == method:
                if st.args.vararg or st.args.kwarg or st.args.kwonlyargs:
                    raise Unsupported('parameters of %s' % method)
                return [a.arg for a in st.args.args]
        cls = next((defs[b.id] for b in cls.bases if isinstance(b, ast.Name) and b.id in defs), None)
    raise Unsupported('no %s in the class of %s' % (method, name))


def bind(names, args, kw, what):
    if len(args) > len(names) or any(k not in names for k in kw):
        raise Unsupported('arguments of ' + what)
    got = dict(zip(names, args))
    got.update(kw)
    return got


def close(a, b):
    d = mul(TOL, absv(b))
    return And(le(sub(b, d), a), le(a, add(b, d)))


def argspec(ip, a, k):
    x = a[0]
    if isinstance(x, SObj) and x.cls == 'init':
        return (PList(list(x.attrs['names'])),)
    node = getattr(x, 'node', None)
    if node is None:
        raise Unsupported('parameters of something else')
    return (PList([p.arg for p in node.args.args]),)


def setting(ip, prof, fld):
    """a storm, and the object that calculates its wind field"""
    c = ip.ctx
    n, i = c.int('n'), c.input('time step', c.int('i'))
    c.assume(And(le(1, n), le(0, i), lt(i, n)))
    cols = {x: ip.fresh_array((n,), 'r', x) for x in TRACK}
    at = {x: c.input(x, cols[x].at(i)) for x in TRACK}
    cfg = {x: c.input(x, c.real(x)) for x in SHAPE + ('thetaMax', 'margin', 'resolution', 'gustFactor')}
    lim = PDict({x: c.real(x) for x in ('xMin', 'xMax', 'yMin', 'yMax')})
    track = SObj(None, {**cols, 'data': cols['Latitude']})
    o = ip.call(ip.func(AT), [track], {'profileType': prof, 'windFieldType': fld, 'gridLimit': lim, 'domain': 'bounded', **cfg})
    return o, i, at, cfg, lim


def local(ip, prof, fld):
    c = ip.ctx
    made = {}
    c.ghosts['fields'] = 0

    def profile(ip, a, k):
        c.prove('the wind profile is the one configured', a[0] == prof)
        names = signature(prof, 'WindProfile', '__init__')

        def make(ip, a, k):
            got = bind(names[1:], a, k, 'the wind profile')
            c.prove('profile: latitude of the step', eq(got['lat'], at['Latitude']))
            c.prove('profile: longitude of the step', eq(got['lon'], at['Longitude']))
            c.prove('profile: environmental pressure of the step, in Pa', close(got['eP'], mul(100, at['EnvPressure'])))
            c.prove('profile: central pressure of the step, in Pa', close(got['cP'], mul(100, at['CentralPressure'])))
            c.prove('profile: radius to maximum winds of the step, in metres', close(got['rMax'], mul(1000, at['rMax'])))
            for x in SHAPE:
                if x in names:
                    c.prove('profile: configured %s' % x, x in got and eq(got[x], cfg[x]))
            c.prove('profile: nothing else set', all(x in BASE or x in SHAPE for x in got))
            made['profile'] = SObj('profile')
            return made['profile']
        return SObj('class', {'__call__': Native(make), '__init__': SObj('init', {'names': names})})

    def field(ip, a, k):
        c.prove('the wind field model is the one configured', a[0] == fld)
        names = signature(fld, 'WindField', '__init__')

        def make(ip, a, k):
            got = bind(names[1:], a, k, 'the wind field')
            c.prove('field: made with the profile of the step', got.get('windProfileModel') is made.get('profile') and 'profile' in made)

            def values(ip, a, k):
                got = bind(signature(fld, 'WindField', 'field')[1:], a, k, 'the field')
                x, y = c.int('x'), c.int('y')
                cell = And(le(0, x), lt(x, R.shape[0]), le(0, y), lt(y, R.shape[1]))
                c.prove('field: distances from the storm in metres', And(eq(got['R'].shape[0], R.shape[0]), eq(got['R'].shape[1], R.shape[1]),
                                                                       Implies(cell, close(got['R'].at(x, y), mul(1000, R.at(x, y))))))
                c.prove('field: directions from the storm', And(eq(got['lam'].shape[0], R.shape[0]), eq(got['lam'].shape[1], R.shape[1]), Implies(cell, eq(got['lam'].at(x, y), T.at(x, y)))))
                c.prove('field: forward speed of the step, in metres per second', close(got['vFm'], truediv(mul(at['Speed'], 10), 36)))
                c.prove('field: direction of motion of the step', eq(got['thetaFm'], TH(toreal(truediv(mul(at['Bearing'], PI), 180)))))
                c.prove('field: configured angle of the largest winds, in degrees', eq(got['thetaMax'], cfg['thetaMax']))
                c.ghosts['fields'] = add(c.ghosts['fields'], 1)
                return (U, V)
            return SObj('field', {'field': Native(values)})
        return SObj('class', {'__call__': Native(make), '__init__': SObj('init', {'names': names})})

    ip.contracts[WM + '::profile'] = profile
    ip.contracts[WM + '::field'] = field
    ip.contracts[MP + '::bearing2theta'] = lambda ip, a, k: TH(toreal(a[0]))
    ip.opts['externals'] = {'inspect.getfullargspec': argspec}
    o, i, at, cfg, lim = setting(ip, prof, fld)
    h, w = c.int('h'), c.int('w')
    c.assume(And(le(1, h), le(1, w)))
    R, T, U, V, P = [ip.fresh_array((h, w), 'r', x) for x in ('R', 'theta', 'U', 'V', 'P')]

    def grid(ip, a, k):
        c.prove('grid: of the step', eq(a[-1], i) if len(a) > 1 else False)
        return (R, T)

    def pressure(ip, a, k):
        got = bind(['self', 'i', 'R'], a, k, 'the pressure profile')
        c.prove('pressure: of the step, at the distances of the grid', And(eq(got['i'], i), got['R'] is R))
        return P
    ip.contracts[AT + '.polarGridAroundEye'] = grid
    ip.contracts[AT + '.pressureProfile'] = pressure
    u, v, p = ip.call(ip.getattr(o, 'localWindField'), [i])
    x, y = c.int('x'), c.int('y')
    cell = And(le(0, x), lt(x, h), le(0, y), lt(y, w))
    deep = lt(at['CentralPressure'], at['EnvPressure'])
    c.prove('post: shape of the grid', And(*[And(eq(q.shape[0], h), eq(q.shape[1], w)) for q in (u, v, p)]))
    c.prove('post: eastward component that of the model', Implies(And(cell, deep), eq(u.at(x, y), U.at(x, y))))
    c.prove('post: northward component that of the model', Implies(And(cell, deep), eq(v.at(x, y), V.at(x, y))))
    c.prove('post: no wind without a pressure deficit', Implies(And(cell, Not(deep)), And(eq(u.at(x, y), 0), eq(v.at(x, y), 0))))
    c.prove('post: pressure that of the profile', Implies(cell, eq(p.at(x, y), P.at(x, y))))


TH = z3.Function('theta', RS, RS)
FUNCS = [AT + '.__init__', AT + '.localWindField', MU + '::convert', WM + '::profileParams', WM + '::fieldParams']
for PROF in PROFILES:
    @task('P36', 'wind field, profile ' + PROF, FUNCS, assumes=ASSUME)
    def prof_task(ip, PROF=PROF):
        local(ip, PROF, 'kepert')
for FLD in FIELDS[1:]:
    @task('P36', 'wind field, field ' + FLD, FUNCS, assumes=ASSUME)
    def field_task(ip, FLD=FLD):
        local(ip, 'powell', FLD)


# -- the grid around the storm, the pressure ------------------------------------------------------------------------------------
for DOMAIN in ('bounded', 'full'):
    @task('P36', 'grid around the storm, domain ' + DOMAIN, [AT + '.__init__', AT + '.polarGridAroundEye'], assumes=ASSUME)
    def grid_task(ip, DOMAIN=DOMAIN):
        c = ip.ctx
        o, i, at, cfg, lim = setting(ip, 'powell', 'kepert')
        o.attrs['domain'] = DOMAIN
        res = (SObj('R'), SObj('theta'))
        names = ['cLon', 'cLat', 'margin', 'resolution', 'minLon', 'maxLon', 'minLat', 'maxLat']

        def grid(ip, a, k):
            got = {x: v for x, v in bind(names, a, k, 'makeGrid').items() if v is not None}
            c.prove('centred on the longitude of the step', eq(got['cLon'], at['Longitude']))
            c.prove('centred on the latitude of the step', eq(got['cLat'], at['Latitude']))
            c.prove('configured margin', 'margin' in got and eq(got['margin'], cfg['margin']))
            c.prove('configured resolution', 'resolution' in got and eq(got['resolution'], cfg['resolution']))
            if DOMAIN == 'full':
                for x, y in zip(names[4:], ('xMin', 'xMax', 'yMin', 'yMax')):
                    c.prove('over the configured region: %s' % x, x in got and eq(got[x], lim.d[y]))
            else:
                c.prove('around the storm only', not any(x in got for x in names[4:]))
            return res
        ip.contracts[MP + '::makeGrid'] = grid
        r, t = ip.call(ip.getattr(o, 'polarGridAroundEye'), [i])
        c.prove('post: distances and directions, in this order', r is res[0] and t is res[1])


for PROF in ('holland', 'willoughby', 'schloemer', 'powell'):
    @task('P36', 'pressure, profile ' + PROF, [AT + '.__init__', AT + '.pressureProfile', MU + '::convert'], assumes=ASSUME)
    def pressure_task(ip, PROF=PROF):
        c = ip.ctx
        o, i, at, cfg, lim = setting(ip, PROF, 'kepert')
        R = SObj('R')
        names = None
        src = ModuleSrc(PP)
        for st in ast.walk(src.tree):
            if isinstance(st, ast.ClassDef) and st.name == 'PrsProfile':
                names = next([a.arg for a in f.args.args] for f in st.body if isinstance(f, ast.FunctionDef) and f.name == '__init__')
        if names is None:
            raise Unsupported('class of the pressure profile')

        def make(ip, a, k):
            got = bind(names[1:], a, k, 'the pressure profile')
            c.prove('at the distances asked for', got['R'] is R)
            c.prove('environmental pressure of the step, in Pa', close(got['pEnv'], mul(100, at['EnvPressure'])))
            c.prove('central pressure of the step, in Pa', close(got['pCentre'], mul(100, at['CentralPressure'])))
            c.prove('radius to maximum winds of the step, in km as the distances', eq(got['rMax'], at['rMax']))
            c.prove('latitude of the step', eq(got['cLat'], at['Latitude']))
            c.prove('longitude of the step', eq(got['cLon'], at['Longitude']))
            for x in SHAPE:
                c.prove('configured ' + x, x in got and eq(got[x], cfg[x]))

            def value(m):
                def f(ip, a, k):
                    if a or k:
                        raise Unsupported('arguments of the profile')
                    return SObj('pressure', {'by': m})
                return Native(f)
            return SObj('prs', {m: value(m) for m in ('holland', 'willoughby', 'schloemer', 'doubleHolland', 'powell', 'newHolland')})
        ip.contracts[PP + '::PrsProfile'] = make
        p = ip.call(ip.getattr(o, 'pressureProfile'), [i, R])
        c.prove('post: pressure of the configured profile', isinstance(p, SObj) and p.cls == 'pressure' and p.attrs['by'] == PROF)


# -- settings on their way to the models ---------------------------------------------------------------------------------------
@task('P36', 'settings of the generator', [GEN + '.__init__', GEN + '.calculateExtremesFromTrack'], assumes=ASSUME)
def generator(ip):
    c = ip.ctx
    cfg = {x: c.input(x, c.real(x)) for x in SHAPE + ('thetaMax', 'margin', 'resolution')}
    lim = PDict({x: c.real(x) for x in ('xMin', 'xMax', 'yMin', 'yMax')})
    txt = {'profileType': 'the profile', 'windFieldType': 'the field', 'domain': 'the domain'}
    conf = SObj(None, {'getboolean': Native(lambda ip, a, k: False)})
    track, back, res = SObj('track', {'trackId': (c.int('sim'), c.int('num'))}), SObj('callback'), SObj('extremes')
    o = ip.call(ip.func(GEN), [conf], {**cfg, **txt, 'gridLimit': lim, 'windfieldPath': 'path'})
    names = [a.arg for a in ip.func(AT + '.__init__').node.args.args][1:]
    seen = []

    def make(ip, a, k):
        got = bind(names, a, k, 'the wind field around a track')
        c.prove('the track asked for', got.get('track') is track)
        for x in cfg:
            c.prove('setting %s handed on' % x, x in got and eq(got[x], cfg[x]))
        for x in txt:
            c.prove('setting %s handed on' % x, got.get(x) == txt[x])
        c.prove('region handed on', got.get('gridLimit') is lim)
        c.prove('gust factor as it is by default', 'gustFactor' not in got)

        def run(ip, a, k):
            g = bind(['gridLimit', 'timeStepCallback'], a, k, 'regionalExtremes')
            c.prove('extremes over the region', g.get('gridLimit') is lim)
            c.prove('time steps handed to the function given', g.get('timeStepCallback') is back)
            seen.append(1)
            return res
        return SObj('around', {'regionalExtremes': Native(run)})
    ip.contracts[AT] = make
    r = ip.call(ip.getattr(o, 'calculateExtremesFromTrack'), [track, back])
    c.prove('post: the track and its extremes', r[0] is track and r[1] is res)


TEXT = {('WindfieldInterface', 'profileType'): 'the profile', ('WindfieldInterface', 'windFieldType'): 'the field', ('WindfieldInterface', 'Domain'): 'the domain',
        ('Output', 'Path'): 'out', ('Input', 'Multipliers'): 'the multipliers'}
NUM = {'beta': 'beta', 'beta1': 'beta1', 'beta2': 'beta2', 'thetaMax': 'thetaMax', 'margin': 'Margin', 'resolution': 'Resolution'}


@task('P36', 'settings of the configuration', [W + '::run'], assumes=ASSUME + ('the folder of tracks holds what the operating system lists',))
def configured(ip):
    c = ip.ctx
    val = {('WindfieldInterface', v): c.input(v, c.real(v)) for v in NUM.values()}
    LR, LW = PDict({'of': 'Region'}), PDict({'of': 'WindfieldInterface'})
    has = {k: c.branch(c.bool('has ' + '.'.join(k))) for k in (('Region', 'gridLimit'), ('WindfieldInterface', 'gridLimit'), ('Input', 'Multipliers'))}
    extract = c.branch(c.bool('extract'))
    state = {'dumped': 0, 'shut': 0}

    def key(a):
        return tuple(a[:2])

    def number(ip, a, k):
        if key(a) not in val:
            raise Unsupported('setting %s' % (key(a),))
        return val[key(a)]

    def text(ip, a, k):
        if key(a) not in TEXT:
            raise Unsupported('setting %s' % (key(a),))
        return TEXT[key(a)]

    def limits(ip, a, k):
        return {('Region', 'gridLimit'): LR, ('WindfieldInterface', 'gridLimit'): LW}[key(a)]

    def yes(ip, a, k):
        if key(a) == ('Timeseries', 'Extract'):
            return extract
        raise Unsupported('setting %s' % (key(a),))
    conf = SObj('config', {'read': Native(lambda ip, a, k: None), 'get': Native(text), 'getfloat': Native(number), 'geteval': Native(limits),
                           'getboolean': Native(yes), 'has_option': Native(lambda ip, a, k: has.get(key(a), False))})
    sampler = Native(lambda ip, a, k: None)

    def shut(ip, a, k):
        c.prove('sampled series written after the wind fields', state['dumped'] == 1)
        state['shut'] += 1
    names = [a.arg for a in ip.func(GEN + '.__init__').node.args.args][1:]

    def make(ip, a, k):
        got = bind(names, a, k, 'the generator')
        for x, y in NUM.items():
            c.prove('setting %s handed on as given' % x, x in got and eq(got[x], val[('WindfieldInterface', y)]))
        for x, y in (('profileType', 'profileType'), ('windFieldType', 'windFieldType'), ('domain', 'Domain')):
            c.prove('setting %s handed on as given' % x, got.get(x) == TEXT[('WindfieldInterface', y)])
        want = LW if has[('WindfieldInterface', 'gridLimit')] else LR if has[('Region', 'gridLimit')] else None
        c.prove('region of the wind fields', got.get('gridLimit') is want)
        c.prove('multipliers', got.get('multipliers') == ('the multipliers' if has[('Input', 'Multipliers')] else None))
        c.prove('configuration handed on', got.get('config') is conf)
        c.prove('folder of the wind fields', got.get('windfieldPath') == 'out/windfield')

        def dump(ip, a, k):
            g = bind(['trackfiles', 'windfieldPath', 'timeStepCallback'], a, k, 'dumping')
            c.prove('wind fields saved in their folder', g.get('windfieldPath') == 'out/windfield')
            c.prove('series sampled at each time step when asked for', (g.get('timeStepCallback') is sampler) if extract else g.get('timeStepCallback') is None)
            l = ip.as_seq(g['trackfiles'])
            l = list(l.items) if isinstance(l, PList) else list(l)
            c.prove('every track file of the run and nothing else', sorted(l) == ['out/tracks/tracks.00001.nc', 'out/tracks/tracks.00002.nc'])
            state['dumped'] += 1
        return SObj('generator', {'dumpGustsFromTrackfiles': Native(dump)})

    def files(ip, a, k):
        if a[0] != 'out/tracks':
            c.prove('track files looked up in the folder of tracks', False)
        return PList(['tracks.00002.nc', 'other.nc', 'tracks.00001.nc'])
    ip.contracts.update({'Utilities/config.py::ConfigParser': lambda ip, a, k: conf, GEN: make,
                         'Utilities/parallel.py::attemptParallel': lambda ip, a, k: SObj('mpi', {'COMM_WORLD': SObj('comm', {'barrier': Native(lambda ip, a, k: None)})}),
                         'Utilities/timeseries.py::Timeseries': lambda ip, a, k: SObj('ts', {'extract': sampler, 'shutdown': Native(shut)})})
    ip.opts['externals'] = {'os.listdir': files}
    ip.call(ip.func(W + '::run'), ['file'])
    c.prove('post: wind fields calculated once', state['dumped'] == 1)
    c.prove('post: sampled series written', state['shut'] == (1 if extract else 0))
