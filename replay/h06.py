"""C06: pruning."""
from resync.change_list import ChangeList
from resync.resource_container import ResourceContainer
from resync.resource import Resource

WHAT = 'change lists of 0..9 entries over 1..4 URIs, times from a small pool with ties and absences'
T = [0, 1, 2, 2.5, 3, 10, 1000000000.25]


def gen(rng, h):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9])
    uris = ['http://a/%s' % x for x in rng.sample('abcd', rng.choice([1, 1, 2, 2, 3, 4]))]
    missing = rng.random() < .2
    es = []
    for i in range(n):
        d = rng.choice(T)
        t = rng.choice(T)
        es.append([rng.choice(uris), rng.choice(['created', 'updated', 'deleted']),
                   None if missing and rng.random() < .3 else d, None if rng.random() < .1 else t])
    return dict(es=es, t=rng.choice(T + [-1, 5, 2.0]), v=rng.choice([None, '1.1', '1.0']),
                op=rng.choice(['before', 'dupes', 'dupes', 'both']), cls=rng.choice([0, 0, 0, 1]))


def spec_dupes(es):
    out = []
    for i, e in enumerate(es):
        idx = [j for j, x in enumerate(es) if x[0] == e[0]]
        if idx[-1] != i:
            continue
        if len(idx) > 1 and e[1] == 'deleted' and es[idx[0]][1] == 'created':
            continue
        out.append(i)
    return out


def run(c, h):
    es = c['es']
    objs = [Resource(uri=u, change=ch, ts_datetime=d, timestamp=t) for u, ch, d, t in es]
    cl = ChangeList() if not c['cls'] else ChangeList(uri='http://x/', md={'a': 'b'})
    for o in objs:
        cl.add(o)
    cur = list(range(len(es)))

    def now():
        return [next(i for i, o in enumerate(objs) if o is r) for r in cl.resources]
    if c['op'] in ('before', 'both'):
        k = 3 if c['v'] == '1.0' else 2
        bad = any(e[k] is None for e in es)
        args = {} if c['v'] is None else {'spec_version': c['v']}
        try:
            n = cl.prune_updates_before(c['t'], **args)
        except Exception as e:
            if not bad:
                return 'prune_updates_before raises %r' % e
            if now() != cur:
                return 'entries changed although an error was raised'
            h.count('refused')
            return None
        if bad:
            return 'no error although an entry has no time'
        exp = [i for i in cur if es[i][k] >= c['t']]
        if now() != exp:
            return 'prune_updates_before(%r) keeps %r, expected %r' % (c['t'], now(), exp)
        if n != len(cur) - len(exp):
            return 'prune_updates_before returns %r, expected %d' % (n, len(cur) - len(exp))
        cur = exp
    if c['op'] in ('dupes', 'both'):
        sub = [es[i] for i in cur]
        exp = [cur[i] for i in spec_dupes(sub)]
        n = cl.prune_dupes()
        if now() != exp:
            return 'prune_dupes keeps %r of %r, expected %r' % (now(), es, exp)
        if n != len(cur) - len(exp):
            return 'prune_dupes returns %r, expected %d' % (n, len(cur) - len(exp))
        h.count('dupes')
    for o, e in zip(objs, es):
        if [o.uri, o.change, o.ts_datetime, o.timestamp] != e:
            return 'an entry was changed'


def shrink(c):
    for i in range(len(c['es'])):
        yield dict(c, es=c['es'][:i] + c['es'][i + 1:])


def F():
    import itertools
    out = []
    ev = [[u, ch, 1, 1] for u in ('http://a/a', 'http://a/b') for ch in ('created', 'updated', 'deleted')]
    for n in (1, 2, 3):
        for es in itertools.product(ev, repeat=n):
            out.append(dict(es=list(es), t=1, v=None, op='dupes', cls=0))
    return out


FIXED = F()
