"""C07: change lists."""
from resync.change_list import ChangeList
from resync.change_dump_manifest import ChangeDumpManifest
from resync.resource import Resource, ChangeTypeError
from resync.resource_list import ResourceList
from resync.resource_set import ResourceSet
from resync.resource_container import ResourceContainer

WHAT = 'change lists of 0..3 entries to which one or several resources with all kinds of data are added in one of several ways'
CH = ['created', 'updated', 'deleted']
BAD = ['CREATED', 'create', '', 'update', 'deleted ', 'x', 0, False]
DATA = {'timestamp': [0, 1.5, 1e9], 'length': [0, 7], 'md5': ['', 'q'], 'sha1': ['s'], 'sha256': ['t'], 'mime_type': ['text/plain', ''],
        'path': ['/a/b', ''], 'ts_datetime': [0, 3.25], 'capability': ['resourcelist', ''], 'ts_at': [0, 5], 'ts_completed': [6.5],
        'ts_from': [0], 'ts_until': [9]}


def res(rng, change):
    d = {'uri': 'http://a/%s' % rng.choice('abc')}
    for k in rng.sample(sorted(DATA), rng.choice([0, 1, 3, 6, len(DATA)])):
        d[k] = rng.choice(DATA[k])
    if rng.random() < .3:
        d['ln'] = [{'rel': 'up', 'href': 'http://a/', 'pri': '1'}]
    d['change'] = change
    return d


def gen(rng, h):
    op = rng.choice(['add1', 'addn', 'addn', 'changed', 'changed', 'changed', 'set', 'init'])
    pre = [res(rng, rng.choice(CH)) for i in range(rng.choice([0, 1, 3]))]
    new = [res(rng, None if rng.random() < (.15 if op != 'changed' else .6) else rng.choice(CH)) for i in range(rng.choice([0, 1, 2, 4]))]
    return dict(op=op, pre=pre, new=new, kind=rng.choice(['list', 'list', 'tuple', 'gen', 'rl', 'rc', 'set']),
                change=rng.choice(CH) if rng.random() < .8 else rng.choice(BAD), first=rng.choice(CH + [None]), cls=rng.choice([0, 0, 1]))


FIELDS = sorted(DATA) + ['uri', 'ln', 'change', 'lastmod', 'datetime', 'md_at', 'md_from', 'md_until', 'md_completed', 'hash']


def state(r):
    return {k: getattr(r, k, None) for k in FIELDS}


def run(c, h):
    cl = [ChangeList, ChangeDumpManifest][c['cls']]()
    pre = [Resource(**d) for d in c['pre']]
    for r in pre:
        cl.add(r)
    new = [Resource(**d) for d in c['new']]
    op = c['op']

    def listed():
        return list(cl.resources)
    if op == 'set' or op == 'init':
        r = Resource(uri='http://a/', change=c['first'])
        v = c['change']
        try:
            if op == 'set':
                r.change = v
            else:
                Resource(uri='http://a/', change=v)
            if v not in CH:
                return 'change type %r is accepted' % (v,)
            if op == 'set' and r.change != v:
                return 'change type %r is set as %r' % (v, r.change)
        except ChangeTypeError:
            if v in CH:
                return 'change type %r is refused' % (v,)
            if r.change != c['first']:
                return 'change type changed although %r was refused' % (v,)
        r.change = None
        return None if r.change is None else 'change type cannot be removed'
    before = [state(r) for r in new]
    if op == 'add1':
        for i, r in enumerate(new):
            cur = listed()
            try:
                cl.add(r)
                if r.change is None:
                    return 'entry without a change type is accepted'
                cur.append(r)
            except ChangeTypeError:
                if r.change is not None:
                    return 'entry with change type %r is refused' % r.change
            if [id(x) for x in listed()] != [id(x) for x in cur]:
                return 'entries are not those added, in order'
    elif op == 'addn':
        src = coll(c, new)
        items = list(coll(c, new)) if c['kind'] != 'gen' else new
        k = next((i for i, r in enumerate(items) if r.change is None), len(items))
        try:
            cl.add(src)
            if k < len(items):
                return 'entry without a change type is accepted'
        except ChangeTypeError:
            if k == len(items):
                return 'entries are refused although all have a change type'
        if [id(x) for x in listed()] != [id(x) for x in pre + items[:k]]:
            return 'entries are not those added, in order'
    else:
        src = coll(c, new)
        items = list(coll(c, new)) if c['kind'] != 'gen' else new
        v = c['change']
        try:
            cl.add_changed_resources(src, change=v)
            if v not in CH and items:
                return 'change type %r is accepted' % (v,)
        except ChangeTypeError:
            if v in CH:
                return 'change type %r is refused' % (v,)
            if [id(x) for x in listed()] != [id(x) for x in pre]:
                return 'entries added although the change type %r is refused' % (v,)
            return None
        now = listed()
        if len(now) != len(pre) + len(items) or [id(x) for x in now[:len(pre)]] != [id(x) for x in pre]:
            return 'not one new entry for each resource, after the earlier ones'
        for r, q in zip(items, now[len(pre):]):
            if r is q:
                return 'the original itself was added'
            exp = dict(state(r), change=v)
            if state(q) != exp:
                return 'entry for %r is %r' % (exp, state(q))
            h.count('copied')
    for b, r in zip(before, new):
        if state(r) != b:
            return 'the original %r was changed to %r' % (b, state(r))


def coll(c, new):
    k = c['kind']
    if k == 'list':
        return list(new)
    if k == 'tuple':
        return tuple(new)
    if k == 'gen':
        return (r for r in new)
    if k == 'rl':
        x = ResourceList()
        for r in new:
            x.add(r, replace=True)
        return x
    if k == 'set':
        x = ResourceSet()
        for r in new:
            x.add(r, replace=True)
        return x
    return ResourceContainer(resources=list(new))


def shrink(c):
    for f in ('new', 'pre'):
        for i in range(len(c[f])):
            yield dict(c, **{f: c[f][:i] + c[f][i + 1:]})
    for i, d in enumerate(c['new']):
        for k in d:
            if k not in ('uri', 'change'):
                yield dict(c, new=c['new'][:i] + [{x: y for x, y in d.items() if x != k}] + c['new'][i + 1:])
