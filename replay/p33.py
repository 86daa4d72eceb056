"""Real storms with made-up local fields, recorded to a real file; every layer and every hand-over compared with the fields."""
import datetime
import os
import shutil
import tempfile
import numpy as np
import netCDF4
from configparser import ConfigParser
from wind import WindfieldAroundTrack, WindfieldGenerator
from replay.p05 import track


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 5, 12]), res=rng.choice([0.25, 0.5, 0.5, 0.1, 0.05]), margin=rng.choice([0.5, 1.0]), storms=1,
                   domain=rng.choice(['bounded', 'bounded', 'full']), save=rng.random() < 0.8, back=rng.random() < 0.8, chunk=0)


def from_model(task, obl, m):
    return [dict(seed=s, n=8, res=(0.25, 0.5, 0.1)[s % 3], margin=(0.5, 1.0)[s % 2], storms=1, domain='full' if 'whole' in task or s % 4 == 3 else 'bounded', save=s % 5 != 4, back=s % 3 != 2, chunk=0)
            for s in range(12)]


def check(c):
    r = np.random.RandomState(c['seed'])
    lim = dict(xMin=int(r.randint(100, 150)), yMin=int(r.randint(-20, 15)))
    lim['xMax'], lim['yMax'] = lim['xMin'] + int(r.randint(1, 4)), lim['yMin'] + int(r.randint(1, 4))
    t = track(r, c, lim, 0)
    day = datetime.datetime(2000 + int(r.randint(20)), int(r.randint(1, 13)), int(r.randint(1, 28)), int(r.randint(24)))
    t.Datetime = [day + datetime.timedelta(hours=3 * k) for k in range(len(t.Longitude))]
    t.trackId = (int(r.randint(1, 30)), int(r.randint(1, 30)))
    k = round(2 * c['margin'] / c['res'])
    shape = (k + 1, k + 1)
    if c['domain'] == 'full':
        shape = tuple(round((lim[a + 'Max'] - lim[a + 'Min'] + 2 * c['margin']) / c['res']) + 1 for a in 'yx')
    made = {}

    def local(self, i):
        q = np.random.RandomState(c['seed'] * 31 + int(i))
        made[int(i)] = (q.uniform(-50, 50, shape), q.uniform(-50, 50, shape), q.uniform(90000., 102000., shape))
        return tuple(x.copy() for x in made[int(i)])
    work = tempfile.mkdtemp(prefix='p33-')
    plain = WindfieldAroundTrack.localWindField
    WindfieldAroundTrack.localWindField = local
    got = []
    try:
        conf = ConfigParser()
        conf.read_string('[Timeseries]\nWindfields=%s\n' % c['save'])
        g = WindfieldGenerator(conf, margin=c['margin'], resolution=c['res'], gridLimit=lim, domain=c['domain'], windfieldPath=work)
        back = (lambda *a: got.append(tuple(np.array(x) if i else x for i, x in enumerate(a)))) if c['back'] else None
        gf = WindfieldAroundTrack(t, margin=c['margin'], resolution=c['res'], gridLimit=lim).gustFactor
        res = g.calculateExtremesFromTrack(t, back)[1] if back else g.calculateExtremesFromTrack(t)[1]
        lon, lat = res[5:]
        s100, m100 = round(100 * c['res']), round(100 * c['margin'])
        inside = [i for i in range(len(t.Longitude)) if lim['xMin'] <= t.Longitude[i] <= lim['xMax'] and lim['yMin'] <= t.Latitude[i] <= lim['yMax']]
        want = []
        for i in inside:
            j0 = i0 = 0
            if c['domain'] != 'full':
                j0, i0 = (int(100. * t.Latitude[i]) - 100 * lim['yMin']) // s100, (int(100. * t.Longitude[i]) - 100 * lim['xMin']) // s100
            u, v, p = made[i]
            want.append((t.Datetime[i], np.hypot(u, v) * gf, u * gf, v * gf, p, lon[i0:i0 + shape[1]], lat[j0:j0 + shape[0]], i0, j0))
        if c['back']:
            if [x[0] for x in got] != [x[0] for x in want]:
                return 'time steps handed on: %r, those in the region: %r' % ([str(x[0]) for x in got], [str(x[0]) for x in want])
            for a, b in zip(got, want):
                for name, x, y in zip(('gust', 'eastward component', 'northward component', 'pressure', 'longitudes', 'latitudes'), a[1:], b[1:]):
                    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-6):
                        return '%s of the time step %s handed on: %r instead of %r' % (name, a[0], x.ravel()[:3], y.ravel()[:3])
        name = os.path.join(work, 'evolution.%03d-%05d.nc' % t.trackId)
        if os.path.exists(name) != c['save']:
            return 'record requested: %r, files %r' % (c['save'], os.listdir(work))
        if not c['save']:
            return None
        with netCDF4.Dataset(name) as d:
            d.set_auto_mask(False)
            V = d.variables
            for n, x in (('lon', lon), ('lat', lat)):
                if len(V[n]) != len(x) or not np.allclose(V[n][:], x, atol=1e-4):
                    return '%s of the record: %r, of the swath: %r' % (n, V[n][:], x)
            if len(V['time']) != len(want):
                return '%d layers for %d time steps' % (len(V['time']), len(want))
            for q, b in enumerate(want):
                dt = netCDF4.num2date(V['time'][q], V['time'].units)
                if abs((datetime.datetime(dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second) - b[0]).total_seconds()) > 60:
                    return 'layer %d has the time %s instead of %s' % (q, dt, b[0])
                i0, j0 = b[7:]
                for n, y, rest in (('gust_speed', b[1], 0.), ('velocity_east', b[2], 0.), ('velocity_north', b[3], 0.), ('pressure', b[4], np.nan)):
                    full = np.full((len(lat), len(lon)), rest)
                    full[j0:j0 + shape[0], i0:i0 + shape[1]] = y
                    x = V[n][q]
                    if not np.allclose(x, full, rtol=1e-5, atol=1e-5, equal_nan=True):
                        k = np.argwhere(~np.isclose(x, full, rtol=1e-5, atol=1e-5, equal_nan=True))[0]
                        return '%s in layer %d at %r: %r instead of %r (field placed at row %d, column %d)' % (n, q, k.tolist(), x[tuple(k)], full[tuple(k)], j0, i0)
    finally:
        WindfieldAroundTrack.localWindField = plain
        shutil.rmtree(work, ignore_errors=True)
