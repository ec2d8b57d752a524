"""C01: comparison of two resource lists."""
from resync.resource import Resource
from resync.resource_list import ResourceList, ResourceListDict, ResourceListOrdered

WHAT = ('pairs of random lists over a small pool of URIs (either storage class, any order of addition, also the list '
        'itself), entries differing in time, size or digest or not at all')
URIS = ['http://a/', 'http://a/b', 'http://a/B', 'http://a/b/c', 'http://a/b c', 'http://a/é', 'a', '', 'http://a/~', 'z',
        'http://a/10', 'http://a/9', 'http://a/\U0001F600', 'http://a/\uffff']
LONG = 'http://a/' + 'x' * 300
MORE = ['http://a', 'http://a/b/', 'http://a/b/c/', 'http://a/b?q', 'http://a/b!q', 'http://a/b#c', 'http://a/b%20c', 'http://a:80/',
        'HTTP://A/', LONG, LONG + '/a', LONG + '/b', LONG + '/B', 'http://a/b.', 'http://a/b-c', 'http://a/b+', '/b', ' ']


CHARS = ['a', 'b', 'B', '/', '?', '#', '.', '-', '_', '0', '1', '9', ' ', '%', '~', '=', '&', '\xe9', '\n']


def entry(rng, uri):
    return dict(uri=uri, timestamp=rng.choice([None, 0, 1, 1.5, 2.5, 100]), length=rng.choice([None, 0, 1, 2]),
                md5=rng.choice([None, None, 'x', 'y', '']), **{k: rng.choice(v) for k, v in OTHER.items() if rng.random() < .15})


OTHER = dict(change=[None, 'created', 'updated', 'deleted'], mime_type=['text/plain', ''], path=['/p', 'q'], sha1=['x', 'y'],
             sha256=['x', 'y', None], ts_datetime=[0, 5], md_at=['2001-01-01T00:00:00Z'], capability=['resourcelist'],
             ln=[[{'rel': 'up', 'href': 'x'}], []])


def some(rng):
    us = [u for u in URIS if rng.random() < rng.choice([.1, .4, .8])]
    us += [u for u in MORE if rng.random() < rng.choice([0, 0, .1, .5])]
    if rng.random() < .2:
        us += list({''.join(rng.choice(CHARS) for _ in range(rng.choice([1, 2, 3, 4]))) for _ in range(4)} - set(us))
    rng.shuffle(us)
    return [entry(rng, u) for u in us]


def gen(rng, h):
    d = some(rng)
    if rng.random() < .08:
        return dict(dst=d, src=None, ord=[rng.random() < .5] * 2)
    s = some(rng)
    for i, e in enumerate(s):
        for f in d:
            if f['uri'] == e['uri'] and rng.random() < .6:
                s[i] = dict(f)
                if rng.random() < .4 and f['timestamp'] is not None:
                    s[i]['timestamp'] = f['timestamp'] + rng.choice([.5, -.5, 1, -1, .999])
    return dict(dst=d, src=s, ord=[rng.random() < .4, rng.random() < .4])


def mk(es, o):
    rl = ResourceList(resources_class=ResourceListOrdered if o else ResourceListDict)
    for e in es:
        rl.add(Resource(**e))
    return rl


def data(r):
    return (r.uri, r.timestamp, r.length, r.md5, r.change, r.path)


def run(case, h):
    d = mk(case['dst'], case['ord'][0])
    s = d if case['src'] is None else mk(case['src'], case['ord'][1])
    before = [(list(map(id, x.resources.values())), list(x.resources.keys()), [data(r) for r in x.resources.values()])
              for x in (d, s)]
    out = d.compare(s)
    if len(out) != 4:
        return 'result of %d parts' % len(out)
    dm, sm = dict(d.resources.items()), dict(s.resources.items())
    want = dict(same=[], updated=[], deleted=[], created=[])
    for u in sorted(set(dm) | set(sm)):
        if u in dm and u in sm:
            want['same' if dm[u] == sm[u] else 'updated'].append(dm[u] if dm[u] == sm[u] else sm[u])
        elif u in dm:
            want['deleted'].append(dm[u])
        else:
            want['created'].append(sm[u])
    for k, o in zip(('same', 'updated', 'deleted', 'created'), out):
        got = list(o)
        if [id(r) for r in got] != [id(r) for r in want[k]]:
            return '%s is %r, not %r' % (k, [r.uri for r in got], [r.uri for r in want[k]])
        if len(o) != len(want[k]):
            return 'length of %s' % k
        if got:
            h.count(k)
    after = [(list(map(id, x.resources.values())), list(x.resources.keys()), [data(r) for r in x.resources.values()])
             for x in (d, s)]
    if after != before:
        return 'an input list has changed'
    return None


FIXED = [dict(dst=[dict(uri='a'), dict(uri='b'), dict(uri='d')], src=[dict(uri='a', timestamp=1), dict(uri='c'), dict(uri='d')],
              ord=[False, False]),
         dict(dst=[], src=[dict(uri='a')], ord=[False, True]), dict(dst=[dict(uri='b')], src=[], ord=[True, False])]
