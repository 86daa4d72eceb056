"""Random histories of recording, changing, asking, saving and loading on real files."""
import hashlib
import os
import shutil
import tempfile
from time import ctime
from Utilities import process as P


def cases(rng, tier):
    for k in range(120 if tier == 'quick' else 800):
        yield dict(seed=rng.randrange(10 ** 6), steps=rng.randint(3, 40))


def from_model(task, obligation, model):
    for s in range(20):
        yield dict(seed=s, steps=30)


def stat(path):
    with open(path, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest(), ctime(os.stat(path).st_mtime)


def reset(dat=None):
    P.GLOBAL_PROCFILES.clear()
    P.GLOBAL_DATFILE = dat


def compare(files, rec, other, when):
    for p in files:
        d, n = os.path.split(p)
        md5, mod = stat(p)
        for attr, now, i in (('md5sum', md5, 0), ('moddate', mod, 1)):
            want = p in rec and rec[p][i] == now
            got = P.pAlreadyProcessed(d, n, attr, now)
            if bool(got) != want:
                return '%s: file %r with %s %r is reported %s, the record is %r' % (when, p, attr, now, 'processed' if got else 'not processed', rec.get(p))
            if P.pAlreadyProcessed(d, n, attr, now + 'x') or P.pAlreadyProcessed(d, n, attr, ''):
                return '%s: file %r reported processed for another %s' % (when, p, attr)
    for (d, n, a), v in other.items():
        if P.pGetProcessedEntry(d, n, a) != v:
            return '%s: entry %r is %r, %r was recorded' % (when, (d, n, a), P.pGetProcessedEntry(d, n, a), v)
    return None


def check(case):
    import random
    r = random.Random(case['seed'])
    work = tempfile.mkdtemp(prefix='p26-')
    try:
        dat = os.path.join(work, 'processed.dat')
        open(dat, 'w').close()
        files = []
        for d in ('a', 'b', 'a b'):
            os.mkdir(os.path.join(work, d))
            files += [os.path.join(work, d, n) for n in ('one.nc', 'two.nc', 'gust.001-00000.nc')]
        for p in files:
            content(r, p)
        reset()
        if not P.pGetProcessedFiles(dat):
            return 'reading an empty registry reports failure'
        rec, other = {}, {}
        for k in range(case['steps']):
            p = r.choice(files)
            what = r.choice(['record', 'record', 'change', 'touch', 'reload', 'entry'])
            if what == 'record':
                if not P.pWriteProcessedFile(p):
                    return 'recording a file reports failure'
                rec[p] = stat(p)
            elif what == 'change':
                content(r, p)
            elif what == 'touch':
                t = r.randint(10 ** 8, 10 ** 9)
                os.utime(p, (t, t))
            elif what == 'reload':
                reset()
                P.pGetProcessedFiles(dat)
                other = {}
            else:
                key = (r.choice(['x', 'y', os.path.dirname(p)]), r.choice(['f', 'g']), r.choice(['moddate', 'md5sum', 'other']))
                other[key] = 'v%d' % r.randint(0, 99)
                P.pSetProcessedEntry(*(key + (other[key],)))
            m = compare(files, rec, other, 'after %r' % what)
            if m:
                return m
        return None
    finally:
        reset()
        shutil.rmtree(work, ignore_errors=True)


def content(r, p):
    n = r.choice([0, 1, 100, 2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, 2 ** 17 + 5])
    b = bytearray(r.getrandbits(8) for _ in range(min(n, 64)))
    b = (b * (n // max(1, len(b)) + 1))[:n]
    if n and r.random() < 0.5:
        b[-1] ^= 1
    with open(p, 'wb') as f:
        f.write(bytes(b))
