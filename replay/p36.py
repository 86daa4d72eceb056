"""Real local wind fields compared with the model classes called directly; real runs with a recording generator."""
import os
import shutil
import tempfile
import numpy as np
import wind
from Utilities import config
from configparser import ConfigParser
from wind import WindfieldAroundTrack, WindfieldGenerator, windmodels as wm
from PressureInterface.pressureProfile import PrsProfile
from Utilities.maputils import makeGrid
from replay.p05 import track

SHAPE = {'jelesnianski': (wm.JelesnianskiWindProfile, ()), 'holland': (wm.HollandWindProfile, ('beta',)), 'willoughby': (wm.WilloughbyWindProfile, ()),
         'rankine': (wm.RankineWindProfile, ()), 'schloemer': (wm.SchloemerWindProfile, ()), 'doubleholland': (wm.DoubleHollandWindProfile, ('beta1', 'beta2')),
         'powell': (wm.PowellWindProfile, ()), 'newholland': (wm.NewHollandWindProfile, ())}
FIELD = {'kepert': wm.KepertWindField, 'hubbert': wm.HubbertWindField, 'mcconochie': wm.McConochieWindField}
PRESSURE = ('holland', 'willoughby', 'schloemer', 'powell')


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 3, 6]), storms=1, prof=rng.choice(sorted(SHAPE)), fld=rng.choice(sorted(FIELD)), what=rng.choice(['field', 'field', 'field', 'run']),
                   domain=rng.choice(['bounded', 'bounded', 'full']), flat=rng.random() < 0.2)


def from_model(task, obl, m):
    name = task.split()[-1]
    return [dict(seed=s, n=4, storms=1, prof=name if name in SHAPE else sorted(SHAPE)[s % 8] if s % 2 else 'powell', fld=name if name in FIELD else sorted(FIELD)[s % 3], what='run' if 'settings' in task else 'field',
                 domain='full' if task.endswith('full') else 'bounded', flat=s % 6 == 5) for s in range(24)]



def same(name, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return '%s has the shape %r instead of %r' % (name, a.shape, b.shape)
    bad = ~np.isclose(a, b, rtol=1e-4, atol=1e-6 + 1e-4 * np.nanmax(np.abs(b), initial=0.), equal_nan=True)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        return '%s at grid point %r: %r instead of %r' % (name, k, a[k], b[k])


def fields(c, r):
    lim = dict(xMin=int(r.randint(100, 150)), yMin=int(r.choice([-20, -12, 10, 15])))
    lim['xMax'], lim['yMax'] = lim['xMin'] + 2, lim['yMin'] + 2
    t = track(r, c, lim, 0)
    if c['flat']:
        t.CentralPressure = np.array(t.EnvPressure) + r.choice([0., 3.])
    s = dict(beta=r.uniform(1.1, 1.9), beta1=r.uniform(1.1, 1.9), beta2=r.uniform(1.1, 1.9), thetaMax=r.uniform(20., 120.), margin=float(r.choice([0.5, 1.])), resolution=float(r.choice([0.1, 0.25])))
    conf = ConfigParser()
    conf.read_string('[Timeseries]\nWindfields=False\n')
    g = WindfieldGenerator(conf, profileType=c['prof'], windFieldType=c['fld'], gridLimit=lim, domain=c['domain'], windfieldPath='.', **s)
    made, plain = [], WindfieldAroundTrack.regionalExtremes
    WindfieldAroundTrack.regionalExtremes = lambda self, gridLimit, timeStepCallback=None: made.append(self)
    try:
        g.calculateExtremesFromTrack(t)
    finally:
        WindfieldAroundTrack.regionalExtremes = plain
    w = made[0]
    if c['prof'] not in PRESSURE:
        w.pressureProfile = lambda i, R: R
    for i in range(len(t.Longitude)):
        lat, lon, pe, pc, rm = t.Latitude[i], t.Longitude[i], t.EnvPressure[i], t.CentralPressure[i], t.rMax[i]
        where = 'profile %s, field %s, step %d: ' % (c['prof'], c['fld'], i)
        box = dict(minLon=lim['xMin'], maxLon=lim['xMax'], minLat=lim['yMin'], maxLat=lim['yMax']) if c['domain'] == 'full' else {}
        R, lam = makeGrid(lon, lat, s['margin'], s['resolution'], **box)
        cls, extra = SHAPE[c['prof']]
        u, v = np.zeros(R.shape), np.zeros(R.shape)
        if pc < pe:
            try:
                p = cls(lat, lon, 100. * pe, 100. * pc, 1000. * rm, *[s[x] for x in extra])
                u, v = FIELD[c['fld']](p).field(1000. * R, lam, t.Speed[i] / 3.6, np.pi / 2 - np.radians(t.Bearing[i]), s['thetaMax'])
            except AttributeError:
                return None    # this profile lacks what the field model needs
        P = R
        if c['prof'] in PRESSURE:
            try:
                P = getattr(PrsProfile(R, 100. * pe, 100. * pc, rm, lat, lon, beta=s['beta'], beta1=s['beta1'], beta2=s['beta2']), c['prof'])()
            except ValueError:
                return None    # relation not defined for a storm without a deficit
        a, b, q = w.localWindField(i)
        for name, x, y in (('eastward wind', a, u), ('northward wind', b, v), ('pressure', q, P)):
            e = same(name, x, y)
            if e:
                return where + e



def runs(c, r):
    work = tempfile.mkdtemp(prefix='p36-')
    got = {}

    class Recorder:
        def __init__(self, config=None, **kw):
            got.update(kw)

        def dumpGustsFromTrackfiles(self, files, path, callback=None):
            got.update(files=list(files), dump=path, callback=callback)

    class Comm:
        rank, size = 0, 1

        def barrier(self):
            pass

    class MPI:
        COMM_WORLD = Comm()
    old = wind.WindfieldGenerator, wind.attemptParallel
    try:
        os.makedirs(os.path.join(work, 'tracks'))
        want = sorted(os.path.join(work, 'tracks', 'tracks.%05d.nc' % k) for k in range(int(r.randint(0, 5))))
        for f in want + [os.path.join(work, 'tracks', 'other.txt')]:
            open(f, 'w').close()
        s = dict(beta=r.uniform(1.1, 1.9), beta1=r.uniform(1.1, 1.9), beta2=r.uniform(1.1, 1.9), thetaMax=r.uniform(20., 120.), margin=r.uniform(0.5, 3.), resolution=r.uniform(0.01, 0.5))
        box = dict(xMin=1., xMax=2., yMin=3., yMax=4.)
        own = dict(xMin=5., xMax=6., yMin=7., yMax=8.) if r.rand() < 0.5 else None
        with open(os.path.join(work, 'run.ini'), 'w') as f:
            f.write('[Region]\ngridLimit=%r\n[Output]\nPath=%s\n[WindfieldInterface]\nprofileType=%s\nwindFieldType=%s\nDomain=%s\nbeta=%r\nbeta1=%r\nbeta2=%r\nthetaMax=%r\nMargin=%r\nResolution=%r\n'
                    % (box, work, c['prof'], c['fld'], c['domain'], *[float(s[k]) for k in ('beta', 'beta1', 'beta2', 'thetaMax', 'margin', 'resolution')]))
            if own:
                f.write('gridLimit=%r\n' % own)
        config.reset()
        wind.WindfieldGenerator, wind.attemptParallel = Recorder, lambda: MPI
        wind.run(os.path.join(work, 'run.ini'))
    finally:
        wind.WindfieldGenerator, wind.attemptParallel = old
        config.reset()
        shutil.rmtree(work, ignore_errors=True)
    s.update(profileType=c['prof'], windFieldType=c['fld'], domain=c['domain'], gridLimit=own or box)
    for k, v in s.items():
        if got.get(k) != v and not (isinstance(v, float) and abs(got.get(k, 1e9) - v) < 1e-9):
            return 'setting %s: %r configured, %r used' % (k, v, got.get(k))
    if sorted(got['files']) != want:
        return 'track files %r, processed %r' % (want, got['files'])
    if got['dump'] != os.path.join(work, 'windfield'):
        return 'wind fields saved in %r' % got['dump']


def check(c):
    r = np.random.RandomState(c['seed'])
    return runs(c, r) if c['what'] == 'run' else fields(c, r)
