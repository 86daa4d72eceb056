"""Real segmented processing of small rasters with a queue that gives way between operations and notices waits without end."""
import os
import queue
import random
import shutil
import tempfile
import threading
import time
import warnings
import numpy as np
warnings.filterwarnings('ignore')
from osgeo import gdal
from ProcessMultipliers import processMultipliers as pm
gdal.UseExceptions()
Real = queue.Queue
ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']


class Stuck(Exception):
    pass


def hooked(rng, log):
    class Hooked(Real):
        def pause(self):
            time.sleep(rng.choice([0, 0, 0.0005, 0.002]))

        def get(self, block=True, timeout=None):
            self.pause()
            try:
                return Real.get(self, block, 1.0 if block and timeout is None else timeout)
            except queue.Empty:
                if block and timeout is None:
                    log.append('a worker waits for a segment although none is left')
                    raise Stuck()
                raise

        def put(self, item, block=True, timeout=None):
            try:
                Real.put(self, item, block, 1.0 if block and timeout is None else timeout)
            except queue.Full:
                log.append('the queue has no room for segment %r' % (item,))
                raise Stuck()

        def empty(self):
            e = Real.empty(self)
            self.pause()
            return e

        def qsize(self):
            e = Real.qsize(self)
            self.pause()
            return e
    return Hooked


def cases(rng, tier):
    while True:
        kind = rng.choice(['whole', 'workers', 'workers'])
        yield dict(kind=kind, seed=rng.randrange(10 ** 6), rows=rng.randint(1, 13), cols=rng.randint(1, 13), segment=rng.randint(1, 15), threads=rng.randint(1, 6), comb=rng.random() < 0.5, n=rng.randint(0, 12))


def from_model(task, obl, m):
    g = lambda k, d: min(max(1, int(m.get(k, d))), 40)
    base = dict(kind='workers' if task == 'worker' else 'whole', seed=1, rows=g('rows', 7), cols=g('cols', 9), segment=g('segment', 4), threads=g('threads', 3), comb='one file' in task, n=5)
    return [dict(base, seed=s) for s in range(3)] + [dict(base, rows=r, cols=q, segment=s, seed=9) for r, q, s in ((7, 9, 4), (8, 8, 4), (3, 5, 9), (5, 5, 1))]


def check(c):
    log, done, lock = [], [], threading.Lock()
    rng = random.Random(c['seed'])

    def note(segment, *a):
        time.sleep(rng.choice([0, 0, 0.001]))
        with lock:
            done.append(list(segment))
    saved = pm.processMultiplierSegment, pm.queue.Queue
    Q = hooked(rng, log)
    pm.queue.Queue = Q
    pm.processMultiplierSegment = note
    work = tempfile.mkdtemp(prefix='p22-')
    try:
        if c['kind'] == 'workers':
            q = Q()
            for i in range(c['n']):
                q.put([i] * 6)
            err = []

            def run():
                try:
                    pm.call_process_multiplier_segment(q, None, None, None, None)
                except Stuck:
                    pass
                except Exception as e:
                    err.append('worker raises %r' % e)
            ts = [threading.Thread(target=run, daemon=True) for _ in range(c['threads'])]
            [t.start() for t in ts]
            [t.join(20) for t in ts]
            if any(t.is_alive() for t in ts):
                return 'a worker does not finish'
            if log or err:
                return (log + err)[0]
            got = sorted(s[0] for s in done)
            if got != list(range(c['n'])):
                return '%d segments, %d workers: segments processed are %r' % (c['n'], c['threads'], got)
            return None
        return whole(c, log, done, work)
    finally:
        pm.processMultiplierSegment, pm.queue.Queue = saved
        shutil.rmtree(work, ignore_errors=True)


def whole(c, log, done, work):
    r = np.random.RandomState(c['seed'])
    H, W = c['rows'], c['cols']
    h, w, d = 4, 4, 0.5
    lon, lat = 140. + d * np.arange(w), (-20. + d * np.arange(h))[::-1].copy()
    srs = pm.osr.SpatialReference()
    srs.ImportFromEPSG(4326)

    def tif(name, n):
        ds = gdal.GetDriverByName('GTiff').Create(name, W, H, n, gdal.GDT_Float32)
        ds.SetGeoTransform((140., d * w / W, 0, -20. + d * h, 0, -d * h / H))
        ds.SetProjection(srs.ExportToWkt())
        for k in range(n):
            ds.GetRasterBand(k + 1).WriteArray(np.ones((H, W), 'f4'))
        ds.FlushCache()
        del ds
    comb = None
    if c['comb']:
        comb = os.path.join(work, 'm4_source.tif')
        tif(comb, 8)
    else:
        for q in ORDER:
            tif(os.path.join(work, 'm4_%s.tif' % q), 1)
    f = [r.uniform(5, 60, (h, w)).astype('f4') for _ in range(3)]
    try:
        pm.processMultV2(f[0], f[1], f[2], lon, lat, work, ORDER, c['threads'], c['segment'], 0., combined_mulipliers_file=comb)
    except Stuck:
        pass
    if log:
        return log[0]
    n = np.zeros((H, W), int)
    for s in done:
        x, y, ww, hh = s[:4]
        if x < 0 or y < 0 or ww < 1 or hh < 1 or x + ww > W or y + hh > H:
            return 'raster of %d x %d, segments of %d: segment %r is not inside the raster' % (H, W, c['segment'], s)
        n[y:y + hh, x:x + ww] += 1
    if (n != 1).any():
        i = tuple(int(k) for k in np.argwhere(n != 1)[0])
        return 'raster of %d x %d, segments of %d: pixel %r is processed %d times' % (H, W, c['segment'], i, n[i])
