"""Real frequency calculation on files written for random storm records."""
import os
import shutil
import tempfile
import numpy as np
from DataProcess.CalcFrequency import CalcFrequency


def cases(rng, tier):
    while True:
        yield dict(seed=rng.randrange(10 ** 6), n=rng.randint(2, 60), years=rng.randint(1, 30), edge=rng.random() < 0.4)


def from_model(task, obl, m):
    for s in range(30):
        yield dict(seed=s, n=2 + s, years=1 + s % 7, edge=s % 2 == 0)


def check(c):
    r = np.random.RandomState(c['seed'])
    y0 = int(r.randint(1900, 2000))
    year = y0 + r.randint(0, c['years'] + 1, c['n'])
    if year.min() == year.max():
        year[0] += 1
    d = {'xMin': int(r.randint(100, 120)), 'yMin': int(r.randint(-40, 0))}
    d.update(xMax=d['xMin'] + int(r.randint(1, 30)), yMax=d['yMin'] + int(r.randint(1, 20)))
    lon, lat = r.uniform(d['xMin'] - 5, d['xMax'] + 5, c['n']), r.uniform(d['yMin'] - 5, d['yMax'] + 5, c['n'])
    work = tempfile.mkdtemp(prefix='p28-')
    try:
        os.mkdir(os.path.join(work, 'process'))
        np.savetxt(os.path.join(work, 'process', 'origin_year'), year, fmt='%d', header='Year', comments='%')
        np.savetxt(os.path.join(work, 'process', 'origin_lon_lat'), np.column_stack([lon, lat, lat * 0]), fmt='%.6f', delimiter=',', header='Origin', comments='%')
        o = CalcFrequency.__new__(CalcFrequency)
        o.tg_domain, o.outputPath = d, work
        f = o.calc()
        table = np.loadtxt(os.path.join(work, 'process', 'region_frequency'), delimiter=',', ndmin=2)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    lon, lat = np.round(lon, 6), np.round(lat, 6)
    inside = (lon > d['xMin']) & (lon < d['xMax']) & (lat > d['yMin']) & (lat < d['yMax'])
    first, last = year.min(), year.max()
    want = (inside & (year < last)).sum() / float(last - first)
    if not abs(f - want) <= 0.00501:
        return 'storms of %d to %d, %d start inside the domain before %d: frequency %r, expected %r' % (first, last, (inside & (year < last)).sum(), last, f, want)
    if table[:, 0].tolist() != list(range(first, last)):
        return 'years in the table of counts: %r' % table[:, 0].tolist()
    for y, n in table:
        if n != (inside & (year == y)).sum():
            return 'year %d: %d storms counted, %d start inside the domain' % (y, n, (inside & (year == y)).sum())
