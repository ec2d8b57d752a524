"""C18: state file."""
import os
import re
from resync.client_state import ClientState

WHAT = 'histories of 1..8 recordings, removals and readings for 1..4 sites (also alike ones), by new and old client objects'
PARTS = ['http://a.b/', 'https://this.site/', 'x', 'X', '_', 'a', 'b', '/', '%20', '%(a)s', '#', ';', '=', ':', ' ', '[', ']', 'é', 'ß',
         'İ', '1', '.', '-', '?q=1&r=2', 'incremental', 'default', '\n', '\t', '\u3042', '\\', 'resourcelist.xml', 'long' * 30]


def name(s):
    return re.sub(r'\W', '_', s).lower()


def site(rng):
    return ''.join(rng.choice(PARTS) for i in range(rng.choice([1, 2, 2, 3, 4, 6])))


def gen(rng, h):
    sites = [site(rng)]
    while len(sites) < rng.choice([1, 2, 3, 4]):
        s = rng.choice([site(rng), sites[0] + rng.choice(PARTS), rng.choice(PARTS) + sites[0], sites[0][:-1] + 'z'])
        sites.append(s)
    ops = []
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        ts = rng.choice([None, 0, 1, 123, -1.5, 1.25, 1500000000.123456, 1e300, 1e-7, 0.1 + 0.2, 4102444800.999999,
                         rng.random() * 2e9, rng.randrange(2 ** 40)])
        ops.append((rng.choice(['set', 'set', 'get', 'same-get']), rng.randrange(len(sites)), ts))
    return dict(sites=sites, ops=ops)


def run(c, h):
    d = h.dir()
    old = os.getcwd()
    os.chdir(d)
    try:
        model = {}
        mine = ClientState()
        for op, i, ts in c['ops']:
            s = c['sites'][i]
            if op == 'set':
                mine.set_state(s, ts)
                if ts is None:
                    model.pop(name(s), None)
                else:
                    model[name(s)] = ts
            for who in ([mine] if op == 'same-get' else [ClientState(), mine]):
                for t in (c['sites'] if op == 'set' else [s]):
                    got, want = who.get_state(t), model.get(name(t))
                    if got != want or (got is None) != (want is None):
                        return 'state of %r is %r, not %r' % (t, got, want)
        return None
    finally:
        os.chdir(old)


def shrink(c):
    for i in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for i, s in enumerate(c['sites']):
        for j in range(len(s)):
            if len(s) > 1:
                yield dict(c, sites=c['sites'][:i] + [s[:j] + s[j + 1:]] + c['sites'][i + 1:])
