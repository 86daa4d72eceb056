"""Real domain calculation for random storms; each recorded position up to the last visit must be inside."""
import math
import os
import shutil
import tempfile
import numpy as np
from DataProcess.CalcTrackDomain import CalcTrackDomain


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), storms=rng.randint(1, 6), length=rng.randint(1, 8), file=rng.random() < 0.3, frac=rng.random() < 0.5, spread=rng.choice([3, 10, 40]))


def from_model(task, obl, m):
    for s in range(30):
        yield dict(seed=s, storms=1 + s % 4, length=1 + s % 6, file='file' in task, frac=s % 2 == 0, spread=[3, 10, 40][s % 3])


def check(c):
    r = np.random.RandomState(c['seed'])
    x0, y0 = r.randint(100, 150), r.randint(-40, 20)
    reg = {'xMin': x0, 'xMax': x0 + r.randint(1, 20), 'yMin': y0, 'yMax': y0 + r.randint(1, 20)}
    if c['frac']:
        reg = {k: v + float(r.uniform(0, 1)) for k, v in reg.items()}
        reg['xMax'] += 1
        reg['yMax'] += 1
    idx, lon, lat, storm = [], [], [], []
    for s in range(c['storms']):
        n = r.randint(1, c['length'] + 1)
        idx += [1] + [0] * (n - 1)
        storm += [s] * n
        cx, cy = r.uniform(reg['xMin'] - 5, reg['xMax'] + 5), r.uniform(reg['yMin'] - 5, reg['yMax'] + 5)
        lon += list(cx + r.uniform(-c['spread'], c['spread'], n))
        lat += list(cy + r.uniform(-c['spread'], c['spread'], n))
    if r.uniform() < 0.3:
        k = r.randint(len(lon))
        lon[k], lat[k] = reg['xMax'], reg['yMin']
    idx, lon, lat = np.array(idx), np.round(np.array(lon), 4), np.round(np.array(lat), 4)
    o = CalcTrackDomain.__new__(CalcTrackDomain)
    o.wf_domain = dict(reg)
    if c['file']:
        work = tempfile.mkdtemp(prefix='p20-')
        try:
            os.mkdir(os.path.join(work, 'process'))
            np.savetxt(os.path.join(work, 'process', 'cyclone_tracks'), np.column_stack([idx, lon, lat, idx, idx]), fmt='%.4f', delimiter=',', header='tracks', comments='%')
            o.outputPath = work
            try:
                d = o.calcDomainFromFile()
            except IndexError:
                if len(idx) == 1:
                    return None
                raise
        finally:
            shutil.rmtree(work, ignore_errors=True)
    else:
        d = o.calcDomainFromTracks(idx, lon, lat)
    if o.wf_domain != reg:
        return 'hazard region %r becomes %r' % (reg, o.wf_domain)
    if d['xMin'] > reg['xMin'] or d['xMax'] < reg['xMax'] or d['yMin'] > reg['yMin'] or d['yMax'] < reg['yMax']:
        return 'domain %r does not contain the region %r' % (d, reg)
    for k in d:
        if d[k] != math.floor(d[k]):
            return 'domain %r: %s is no whole degree' % (d, k)
    inside = (lon >= reg['xMin']) & (lon <= reg['xMax']) & (lat >= reg['yMin']) & (lat <= reg['yMax'])
    for s in range(c['storms']):
        at = [i for i in range(len(idx)) if storm[i] == s]
        visits = [i for i in at if inside[i]]
        for i in at:
            if visits and i <= visits[-1] and not (d['xMin'] <= lon[i] <= d['xMax'] and d['yMin'] <= lat[i] <= d['yMax']):
                return 'region %r: position (%r, %r), before its storm visits the region at (%r, %r), is not in the domain %r' % (reg, lon[i], lat[i], lon[visits[-1]], lat[visits[-1]], d)
