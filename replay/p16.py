"""Real sample extraction for random observations, cells and minimum sizes."""
import logging
import sys
import warnings
import numpy as np
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
from StatInterface.GenerateDistributions import GenerateDistributions
from StatInterface.generateStats import GenerateStats


def cases(rng, tier):
    while True:
        yield dict(kind=rng.choice(['dist', 'stat', 'stat']), seed=rng.randrange(10 ** 6), nx=rng.randint(1, 4), ny=rng.randint(1, 4), gx=rng.choice([1, 2, 2.5, 5]), gy=rng.choice([1, 2, 2.5, 5]),
                   ix=rng.choice([0.5, 1, 2, 4]), iy=rng.choice([0.5, 1, 2, 4]), n=rng.choice([0, 3, 10, 40, 120]), least=rng.choice([0, 1, 2, 5, 20]), land=rng.random() < 0.5,
                   same=rng.random() < 0.3, missing=rng.choice([sys.maxsize, -9999, 0]), x0=rng.choice([0, 110, -20]), y0=rng.choice([-30, -4, 10]))


def from_model(task, obl, m):
    for s in range(12):
        yield dict(kind='dist' if 'distributions' in task else 'stat', seed=s, nx=2, ny=3, gx=2, gy=2.5, ix=1, iy=0.5, n=[0, 3, 10, 40][s % 4], least=s % 5, land='on land' in task, same=s % 3 == 0, missing=-9999, x0=110, y0=-30)


def check(c):
    r = np.random.RandomState(c['seed'])
    x0, y0 = c['x0'], c['y0']
    x1, y1 = x0 + c['nx'] * c['gx'], y0 + c['ny'] * c['gy']
    n = c['n']
    q = lambda a, b: np.round(r.uniform(a - 1, b + 1, n) * 4) / 4          # on box edges too, and outside the domain
    lon, lat, flag = q(x0, x1), q(y0, y1), r.choice([0, 0, 1, 2], n)
    val = np.arange(n) + 1. if not c['same'] else r.choice([3., 3., 3., 4.], n)
    ident = val.copy()
    val[r.uniform(size=n) < 0.15] = c['missing']
    val[r.uniform(size=n) < 0.05] = sys.maxsize
    cls = GenerateDistributions if c['kind'] == 'dist' else GenerateStats
    o = cls.__new__(cls)
    o.logger = logging.getLogger()
    o.gridLimit = {'xMin': x0, 'xMax': x1, 'yMin': y0, 'yMax': y1}
    o.gridSpace, o.gridInc = {'x': c['gx'], 'y': c['gy']}, {'x': c['ix'], 'y': c['iy']}
    o.missingValue = c['missing']
    o.lonLat = np.column_stack([lon, lat] + ([flag] if c['kind'] == 'stat' else []))
    o.pList = o.param = val.copy()
    o.minSamplesCell = o.minSample = c['least']
    o.domain_warning_raised = False
    for bad in (-1, c['nx'] * c['ny'], c['nx'] * c['ny'] + 3):
        try:
            o.extractParameter(*([bad] if c['kind'] == 'dist' else [bad, c['land']]))
        except IndexError:
            continue
        except Exception as e:
            return 'cell number %d of %d: %r' % (bad, c['nx'] * c['ny'], e)
        return 'cell number %d of %d is accepted' % (bad, c['nx'] * c['ny'])
    for cell in range(c['nx'] * c['ny']):
        i, j = divmod(cell, c['nx'])
        want = expected(c, o, lon, lat, flag, val, i, j, c['land'] if c['kind'] == 'stat' else None)
        try:
            got = o.extractParameter(*([cell] if c['kind'] == 'dist' else [cell, c['land']]))
            got = np.asarray(o.parameter if c['kind'] == 'dist' else got)
        except StopIteration:
            got = None
        where = 'cell %d of %d x %d, minimum %d' % (cell, c['ny'], c['nx'], c['least'])
        if (got is None) != (want is None):
            return '%s: %s' % (where, 'no sample although the domain holds %d' % len(want) if got is None else 'a sample of %d although the domain holds too few' % len(got))
        if got is not None and (len(got) != len(want) or (got != want).any()):
            return '%s: sample %r, the search box holds %r' % (where, got.tolist()[:10], want.tolist()[:10])


def expected(c, o, lon, lat, flag, val, i, j, land):
    L = o.gridLimit
    cell = [L['xMin'] + j * c['gx'], L['xMin'] + (j + 1) * c['gx'], L['yMax'] - i * c['gy'], L['yMax'] - (i + 1) * c['gy']]
    for t in range(1000):
        w, e, n, s = max(cell[0] - t * c['ix'], L['xMin']), min(cell[1] + t * c['ix'], L['xMax']), min(cell[2] + t * c['iy'], L['yMax']), max(cell[3] - t * c['iy'], L['yMin'])
        m = (lon >= w) & (lon < e) & (lat >= s) & (lat < n) & (val != c['missing']) & (val < sys.maxsize)
        if land is not None:
            m &= (flag > 0) if land else (flag == 0)
        p = val[m]
        if len(p) > c['least'] and p.max() != p.min():
            return p
        if (w, e, n, s) == (L['xMin'], L['xMax'], L['yMax'], L['yMin']):
            break
    return expected(c, o, lon, lat, flag, val, i, j, False) if land else None
