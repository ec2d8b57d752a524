"""Which mappings are unsafe for a sync (C03, C04)."""
import os

PS = ['/a', '/a/b', '/a/b/c', '/b', '/a/', '/a/./b', '/a//b', '/a/b/../c', '/a/c', 'a', 'a/b', './a', 'b', '.', '/x/a', '/a/b/..', '/bc', 'A']
URIS = ['http://a.example/a', 'https://a.example', 'file:///a/b', 'http:/a', 'x:/a']


def pairs(rng, n=3):
    return [[rng.choice(PS + URIS[:2] if rng.random() < .8 else URIS), rng.choice(PS)] for _ in range(n)]


def nested(a, b):
    """One path is the other or in it; None if it is neither and the one is still the beginning of the other."""
    a, b = os.path.normpath(a), os.path.normpath(b)
    if a == b or a.startswith(b.rstrip('/') + '/') or b.startswith(a.rstrip('/') + '/'):
        return True
    return None if a.startswith(b) or b.startswith(a) else False


def check(ps):
    from resync.mapper import Map, Mapper
    maps = [Map(a, b) for a, b in ps]
    exp = [False if ':' in a else nested(m.src_uri, m.dst_path) for (a, b), m in zip(ps, maps)]
    for m, e, p in zip(maps, exp, ps):
        if e is not None and bool(m.unsafe()) != e:
            return 'mapping %s to %s is taken for %s' % (p[0], p[1], 'unsafe' if not e else 'safe')
    mp = Mapper()
    mp.mappings = maps
    if len(mp) != len(maps):
        return 'length of a mapper is %r' % len(mp)
    if None not in exp and bool(mp.unsafe()) != any(exp):
        return 'mappings %s are together taken for %s' % (ps, 'safe' if any(exp) else 'unsafe')
