"""C09: Mapper."""
import re
from urllib.parse import urlsplit
from resync.client import Client
from resync.mapper import Mapper, Map, MapperError

WHAT = ('1..3 mappings over bases with special characters, slashes and shared prefixes; strings at, below, beside and '
        'outside the bases; both directions, round trips, duplicates and bad mapping strings')
URIS = ['http://a.org', 'http://a.org/x', 'http://a.org/x.y', 'http://a.org/x+y', 'http://b.org:80/(q)', 'http://a.org/x?',
        '/src', '/src/a', 'http://a.org/xé', 'http://axorg', 'http://a.org/[z]', 'http://a.org/x\\d', 'https://a.org/x',
        'http://a.org/x$', 'http://a.org/^x|y']
PATHS = ['/tmp/d', '/tmp/d/e', 'd', '/tmp/d.e', '/tmp/d+', '/tmp/(d)', '/', '', '/tmp/dd', 'd*', '\\w', 'd e']
TAILS = ['', '/', '/a', '/a/b', '//a', '/a//b', '/a/', '/..', '/../a', '/a/../b', '/..a', '/a..', '/a/..', 'x', '.', '/.',
         '/a\n', '\n', '/a\nb', '/a b', '/a?b=c', '/é', '/...', '/\n/..', '/a/.../b', '/./a', '/a=b', '/../', '..', '/a/..b/c']


def gen(rng, h):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    us = [rng.choice(URIS) for _ in range(n)]
    ps = [rng.choice(PATHS) for _ in range(n)]
    sl = lambda x: x + '/' * rng.choice([0, 0, 0, 1, 2])
    maps = [[sl(u), sl(p)] for u, p in zip(us, ps)]
    how = rng.choice(['maps', 'maps', 'strings', 'strings', 'pair', 'client', 'client', 'default'])
    if how in ('pair', 'default'):
        maps = maps[:1]
    if how == 'default':
        maps[0][0] += rng.choice(TAILS) + rng.choice(TAILS)
    bad = rng.choice([None] * 8 + ['a', 'a=b=c', '=', 'a=', '', '=b', '=='])
    xs = []
    for _ in range(6):
        m = rng.choice(maps)
        b = rng.choice([m[0], m[1], m[0].rstrip('/'), m[1].rstrip('/'), m[0][:-1], 'x' + m[0], rng.choice(URIS)])
        xs.append(b + rng.choice(TAILS) + (rng.choice(TAILS) if rng.random() < .3 else ''))
    return dict(maps=maps, how=how, bad=bad if how in ('strings', 'client') else None, at=rng.randrange(n + 1), xs=xs)


def go(x, frm, to, contained):
    if x == frm:
        return to + '/'
    if x.startswith(frm + '/'):
        r = x[len(frm):]
        if contained and '..' in r.split('/'):
            return None
        return to + r
    return None


def ask(f, x):
    try:
        r = f(x)
        return 'None instead of an error' if r is None else r
    except MapperError:
        return None


def run(c, h):
    maps = [(a.rstrip('/'), b.rstrip('/')) for a, b in c['maps']]
    if c['how'] == 'maps':
        mp = Mapper()
        mp.mappings = [Map(a, b) for a, b in c['maps']]
    elif c['how'] == 'pair':
        a, b = c['maps'][0]
        if '=' in a or '=' in b:
            return None
        mp = Mapper([a, b])
    elif c['how'] == 'default':
        u = c['maps'][0][0]
        if '=' in u:
            return None
        host = urlsplit(u).netloc
        p = u if not host else re.sub(r'([^\w.-]|_)+', '_', host + '/' + re.sub(r';[^/]*$', '', urlsplit(u).path)).strip('_.')
        cl = Client()
        cl.set_mappings([u])
        mp, maps = cl.mapper, [(u.rstrip('/'), p.rstrip('/'))]
    else:
        strs = ['%s=%s' % (a, b) for a, b in c['maps']]
        parts = [list(m) for m in maps]
        if c['bad'] is not None:
            strs.insert(c['at'], c['bad'])
            parts.insert(c['at'], [x.rstrip('/') for x in c['bad'].split('=')])
        if len(strs) == 2 and '=' not in strs[0] and '=' not in strs[1]:
            return None
        ok = all(s.count('=') == 1 for s in strs)
        if ok:
            for k in (0, 1):
                ok = ok and len({p[k] for p in parts}) == len(parts)
        try:
            if c['how'] == 'client':
                if len(strs) == 1 and '=' not in strs[0]:
                    return None
                cl = Client()
                cl.set_mappings(strs)
                mp = cl.mapper
            else:
                mp = Mapper(strs)
        except MapperError:
            h.count('refused')
            return 'mappings %r refused' % strs if ok else None
        if not ok:
            return 'mappings %r accepted' % strs
        maps = [tuple(p) for p in parts]
    got = [(m.src_uri, m.dst_path) for m in mp.mappings]
    if got != maps:
        return 'mappings are %r, expected %r' % (got, maps)
    for x in c['xs']:
        exp = next((r for r in (go(x, a, b, True) for a, b in maps) if r is not None), None)
        r = ask(mp.src_to_dst, x)
        if r != exp:
            return 'src_to_dst(%r) with %r gives %r, expected %r' % (x, maps, r, exp)
        h.count('applies' if exp is not None else 'none')
        exp2 = next((r for r in (go(x, b, a, False) for a, b in maps) if r is not None), None)
        r2 = ask(mp.dst_to_src, x)
        if r2 != exp2:
            return 'dst_to_src(%r) with %r gives %r, expected %r' % (x, maps, r2, exp2)
        for m, (a, b) in zip(mp.mappings, maps):
            y = m.src_to_dst(x)
            if y != go(x, a, b, True):
                return 'Map.src_to_dst(%r) gives %r for %r' % (x, y, (a, b))
            if y is not None:
                z = m.dst_to_src(y)
                if z != (x + '/' if x == a else x):
                    return '%r is mapped to %r and back to %r by %r' % (x, y, z, (a, b))


def shrink(c):
    for x in c['xs']:
        if len(c['xs']) > 1:
            yield dict(c, xs=[x])
    if len(c['maps']) > 1:
        for i in range(len(c['maps'])):
            yield dict(c, maps=c['maps'][:i] + c['maps'][i + 1:])
