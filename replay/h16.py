"""C16: digests and hash strings."""
import hashlib
import os
from resync.hashes import Hashes
from resync.resource import Resource

WHAT = ('files of 0..200 kB (sizes around powers of two and block sizes, zero bytes, line ends) with every set of types, and types that '
        'are not supported; hash strings of 0..6 entries with repeated, unsupported and unusual types and values')
TYPES = ['md5', 'sha-1', 'sha-256']
ATT = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
ALG = {'md5': hashlib.md5, 'sha-1': hashlib.sha1, 'sha-256': hashlib.sha256}


def gen(rng, h):
    if rng.random() < .5:
        size = rng.choice([0, 1, 127, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32767, 32768,
                           32769, 65535, 65536, 65537, 131072, 131073, 200000])
        types = [t for t in TYPES if rng.random() < .6]
        rng.shuffle(types)
        if rng.random() < .15:
            types.insert(rng.randrange(len(types) + 1), rng.choice(['sha-512', 'MD5', '', 'sha1', 'sha256', 'md5 ', 'sha']))
        if types and rng.random() < .2:
            types.append(rng.choice(types))
        return dict(op='file', size=size, seed=rng.randrange(1000), kind=rng.choice(['any', 'zero', 'lines', 'zerotail']), types=types,
                    how=rng.choice(['list', 'set', 'tuple']), old=rng.choice([None, 'old', '']))
    if rng.random() < .35:
        v = lambda: rng.choice([None, None, '', 'a', 'x:y', 'A=='])
        return dict(op='get', v=[v(), v(), v()])
    ents = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        t = rng.choice(TYPES + TYPES + ['sha-512', 'MD5', 'sha1', 'x', ''])
        ents.append(t + ':' + rng.choice(['a', 'b', 'c:d', '', 'e==', ':', 'md5', 'sha-1:x', 'q' * 40]))
    return dict(op='set', ents=ents, sep=rng.choice([' ', ' ', '  ', '\t', '\n ']), pad=rng.choice(['', ' ']),
                old=[rng.choice([None, 'o1']), rng.choice([None, 'o2']), rng.choice([None, 'o3'])])


def content(c):
    import random
    if c['kind'] == 'zero':
        return b'\0' * c['size']
    b = random.Random(c['seed']).randbytes(c['size'])
    if c['kind'] == 'lines':
        b = bytes(b'\r\n\x1aA'[x % 4] for x in b)
    if c['kind'] == 'zerotail':
        b = b[:c['size'] // 2] + b'\0' * (c['size'] - c['size'] // 2)
    return b


def run(c, h):
    if c['op'] == 'file':
        p = os.path.join(h.dir(), 'f')
        data = content(c)
        with open(p, 'wb') as f:
            f.write(data)
        types = {'list': list, 'set': set, 'tuple': tuple}[c['how']](c['types'])
        bad = [t for t in c['types'] if t not in TYPES]
        try:
            hs = Hashes(types, p)
        except Exception as e:
            if not bad:
                return 'refuses %r: %s' % (c['types'], e)
            return None
        if bad:
            return 'accepts types %r' % bad
        want = {t: ALG[t](data).hexdigest() if t in c['types'] else None for t in TYPES}
        for t in TYPES:
            if getattr(hs, ATT[t]) != want[t]:
                return 'digest %s of %d bytes with types %r is %r, not %r' % (t, len(data), c['types'], getattr(hs, ATT[t]), want[t])
        r = Resource(uri='u', md5=c['old'], sha1=c['old'], sha256=c['old'])
        hs.set(r)
        for t in TYPES:
            w = want[t] if t in c['types'] else c['old']
            if getattr(r, ATT[t]) != w:
                return 'set() makes %s %r, not %r' % (t, getattr(r, ATT[t]), w)
        with open(p, 'rb') as f:
            if f.read() != data:
                return 'changes the file'
        return None
    if c['op'] == 'get':
        r = Resource(uri='u', md5=c['v'][0], sha1=c['v'][1], sha256=c['v'][2])
        want = ' '.join(t + ':' + v for t, v in zip(TYPES, c['v']) if v is not None) or None
        if r.hash != want:
            return 'hash string of %r is %r, not %r' % (c['v'], r.hash, want)
        return None
    r = Resource(uri='u', md5=c['old'][0], sha1=c['old'][1], sha256=c['old'][2])
    s = c['pad'] + c['sep'].join(c['ents']) + c['pad']
    want, seen, bad = {}, set(), False
    for e in c['ents']:
        t, v = e.split(':', 1)
        if t in seen or t not in TYPES:
            bad = True
        if t not in seen and t in TYPES:
            want[t] = v
        seen.add(t)
    try:
        r.hash = s
        err = False
    except ValueError:
        err = True
    if err != bad:
        return 'hash string %r %s' % (s, 'refused' if err else 'accepted without error')
    for t in TYPES:
        if getattr(r, ATT[t]) != want.get(t):
            return 'after setting %r, %s is %r, not %r' % (s, t, getattr(r, ATT[t]), want.get(t))
    return None


def shrink(c):
    if c['op'] == 'set':
        for i in range(len(c['ents'])):
            yield dict(c, ents=c['ents'][:i] + c['ents'][i + 1:])
        yield dict(c, old=[None] * 3)
    if c['op'] == 'file':
        for i in range(len(c['types'])):
            yield dict(c, types=c['types'][:i] + c['types'][i + 1:])
        if c['size']:
            yield dict(c, size=c['size'] // 2)
