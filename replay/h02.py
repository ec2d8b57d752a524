"""C02: Resource equality."""
import itertools
from resync.resource import Resource

WHAT = 'pairs of resources over a small value pool for each field (absent, zero/empty, near-tolerance), all deltas'
TS = [None, 0, 0.0, 1, 1.5, -1, 0.5, 0.999999, 1.0, 2, 1000000000, 1000000000.5, 1000000001, 999999999.25, 1e-7]
LEN = [None, 0, 1, 2, 1234, 99999999999]
STR = [None, '', 'a', 'b', 'A', 'd41d8cd98f00b204e9800998ecf8427e']
URI = ['', 'http://a/', 'http://a', 'http://a/b', 'HTTP://a/b', 'http://a/b ']
DEL = [None, 0.0, 1.0, 0.5, 2, 100.0, 1e-3]
CH = [None, 'created', 'updated', 'deleted']


def rnd(rng):
    return dict(uri=rng.choice(URI[:3]), timestamp=rng.choice(TS), length=rng.choice(LEN), md5=rng.choice(STR),
                sha1=rng.choice(STR), sha256=rng.choice(STR), change=rng.choice(CH), mime_type=rng.choice(STR),
                path=rng.choice(STR), ts_datetime=rng.choice(TS))


def gen(rng, h):
    a = rnd(rng)
    b = dict(a)
    for k in list(b):
        if rng.random() < 0.25:
            b[k] = rnd(rng)[k]
        elif rng.random() < 0.05:
            b[k] = None if k != 'uri' else b[k]
    if rng.random() < 0.3 and a['timestamp'] is not None:
        b['timestamp'] = a['timestamp'] + rng.choice([0, 1, -1, 0.5, -0.5, 0.999, -0.999, 1.001, 2, -2, 100])
    if rng.random() < .15:
        b = {k: None for k in b}
        b['uri'] = a['uri']
    return dict(a=a, b=b, delta=rng.choice(DEL), ln=rng.random() < .2)


def spec(a, b, delta):
    if a['uri'] != b['uri']:
        return False
    x, y = a['timestamp'], b['timestamp']
    if (x is None) != (y is None):
        return False
    if x is not None and not abs(x - y) < delta:
        return False
    for k in ('length', 'md5', 'sha1', 'sha256'):
        if a[k] is not None and b[k] is not None and a[k] != b[k]:
            return False
    return True


def mk(d, ln):
    r = Resource(uri=d['uri'], timestamp=d['timestamp'], length=d['length'], md5=d['md5'], sha1=d['sha1'],
                 sha256=d['sha256'], change=d['change'], mime_type=d['mime_type'], path=d['path'],
                 ts_datetime=d['ts_datetime'])
    if ln:
        r.link_set('up', 'http://x/')
    return r


def state(r):
    return [getattr(r, k) for k in ('uri', 'timestamp', 'length', 'md5', 'sha1', 'sha256', 'change', 'mime_type', 'path')]


def run(c, h):
    a, b = mk(c['a'], c['ln']), mk(c['b'], False)
    s0 = (state(a), state(b))
    w = spec(c['a'], c['b'], 1.0)
    for x, y, nm in ((a, b, 'a == b'), (b, a, 'b == a')):
        if (x == y) is not w and bool(x == y) != w:
            return '%s gives %r, expected %r' % (nm, x == y, w)
        if bool(x != y) == w:
            return '%s negated gives %r' % (nm, x != y)
    if c['delta'] is not None:
        w = spec(c['a'], c['b'], c['delta'])
        for x, y, nm in ((a, b, 'a.equal(b)'), (b, a, 'b.equal(a)')):
            g = x.equal(y, c['delta'])
            if bool(g) != w:
                return '%s with delta %r gives %r, expected %r' % (nm, c['delta'], g, w)
    if a == None or a.equal(None) or a.equal(None, 5.0):    # noqa
        return 'equal to None'
    if not (a == a):
        return 'not equal to itself'
    if (state(a), state(b)) != s0:
        return 'comparing changed a resource'
    h.count('equal' if w else 'unequal')


def F():
    base = dict(uri='http://a/', timestamp=None, length=None, md5=None, sha1=None, sha256=None, change=None,
                mime_type=None, path=None, ts_datetime=None)
    out = []
    pools = dict(timestamp=TS, length=LEN, md5=STR, sha1=STR, sha256=STR)
    for k, pool in pools.items():
        for x, y in itertools.product(pool, pool):
            out.append(dict(a=dict(base, **{k: x}), b=dict(base, **{k: y}), delta=0.75, ln=False))
    for x, y in itertools.product(URI, URI):
        out.append(dict(a=dict(base, uri=x), b=dict(base, uri=y), delta=None, ln=False))
    return out


FIXED = F()
