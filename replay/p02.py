"""The real master and worker loops run as threads over a message-passing stand-in with random arrival order."""
import random
import hazard
from replay import fakempi
from replay.p01 import build, calculator, compare, fake


def cases(rng, tier):
    for size in range(1, 8):
        for nx, ny, xs, ys in ((1, 1, 1, 1), (2, 1, 1, 1), (3, 1, 1, 1), (3, 2, 1, 1), (4, 2, 1, 1), (5, 4, 2, 3), (7, 1, 1, 1)):
            yield dict(lim=(100, 100 + nx - 1, 10, 10 + ny - 1), step=1.0, margin=1, xs=xs, ys=ys, down=0, ci=(size + nx) % 2, size=size, seed=rng.randrange(10 ** 6))
    while True:
        nx, ny = rng.randint(1, 8), rng.randint(1, 5)
        yield dict(lim=(100, 100 + nx - 1, 10, 10 + ny - 1), step=1.0, margin=rng.randint(0, 2), xs=rng.randint(1, 3), ys=rng.randint(1, 3), down=0,
                   ci=rng.randint(0, 1), size=rng.randint(1, 9), seed=rng.randrange(10 ** 6))


def from_model(task, obl, m):
    if task.startswith('serial'):
        return [dict(lim=(100, 100 + n, 10, 10 + n), step=1.0, margin=g, xs=x, ys=x, down=0, ci=int('confidence' in task), size=1, seed=0) for n in range(5) for x in (1, 2, 3) for g in (0, 1, 2)]
    if 'N' in m and 'size' in m and 0 < m['N'] < 30 and m['size'] < 20:
        return [dict(lim=(100, 100 + m['N'] - 1, 10, 10), step=1.0, margin=1, xs=1, ys=1, down=0, ci=int('confidence' in task), size=m['size'], seed=s) for s in range(20)]
    return []


def check(c):
    lon, lat, tg, inx, iny = build(c)
    tiles = hazard.getTiles(tg)
    if c.get('none'):
        tiles = []
    where = '%d tiles, %d processes, arrival seed %d' % (len(tiles), c['size'], c['seed'])
    done = []
    hcs = [calculator(tg, c['ci']) for _ in range(c['size'])]

    def setcomm(m, cm):
        hazard.MPI, hazard.comm = m, cm

    def one(r):
        hc = hcs[r]

        def calc(t):
            done.append((r, tuple(t)))
            return fake(t, c['ci'])
        hc.calculateHazard = calc
        hc.dumpHazardFromTiles(tiles)
    res, err, cm = fakempi.run(c['size'], random.Random(c['seed']), setcomm, one)
    for r, e in enumerate(err):
        if e is not None:
            return '%s: process %d: %s: %s' % (where, r, type(e).__name__, e)
    if sorted(t for r, t in done) != sorted(tuple(t) for t in tiles):
        return '%s: tiles worked on %r, expected every tile once' % (where, sorted(t for r, t in done))
    for r in range(1, c['size']):
        stops = sum(1 for s, d, t, o in cm.sent if d == r and o is None)
        if stops != 1:
            return '%s: worker %d was sent %d stop messages' % (where, r, stops)
    if cm.box:
        return '%s: %d messages never received' % (where, len(cm.box))
    m = compare(hcs[0], tg, c['ci']) if tiles else None
    return m and '%s: %s' % (where, m)
