"""C08: URI-keyed collections."""
import itertools
from resync.resource import Resource
from resync.resource_list import ResourceList, ResourceListOrdered, ResourceListDupeError
from resync.resource_set import ResourceSetDupeError
from resync.source_description import SourceDescription
from resync.capability_list import CapabilityList

WHAT = ('collections of 0..12 resources (URIs from a small pool, repeats, any capability names) built by add() of one or '
        'many, with and without replacement; iterations interleaved; capability lists of up to 3 exhaustively')
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']
CAPS = ORDER + [None, 'aaa', 'zzz', 'Zed', 'description', 'capabilitylist', 'm', 'resource']
SMALL = ORDER[:3] + [ORDER[-1], None, 'aaa', 'zzz']
FIXED = [dict(cls='caplist', ops=[['many', False, [[u, c] for u, c in zip(us, cs)]]], turns=[])
         for k in (1, 2, 3) for us in itertools.permutations(['http://a/1', 'http://a/2', 'http://b'], k)
         for cs in itertools.product(SMALL, repeat=k)]


def gen(rng, h):
    pool = ['http://a/%d' % i for i in range(rng.choice([2, 4, 12]))] + ['http://a/10', 'http://a/é', 'a', '', 'http://a/Z']
    ops = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        k = rng.choice([1, 1, 2, 4])
        ops.append([rng.choice(['one', 'many', 'gen', 'set', 'cap']), rng.random() < .3,
                    [[rng.choice(pool), rng.choice(CAPS)] for _ in range(k)]])
    return dict(cls=rng.choice(['list', 'ordered', 'desc', 'caplist']), ops=ops,
                turns=[rng.randrange(3) for _ in range(rng.choice([0, 4, 20]))])


def order(cls, model):
    if cls == 'ordered':
        return list(model)
    if cls == 'caplist':
        return sorted(model, key=lambda u: ((ORDER.index(model[u].capability), '') if model[u].capability in ORDER
                                            else (len(ORDER), model[u].capability or ''), u))
    return sorted(model)


def run(c, h):
    cls = c['cls']
    o = {'list': ResourceList, 'ordered': lambda: ResourceList(resources_class=ResourceListOrdered),
         'desc': SourceDescription, 'caplist': CapabilityList}[cls]()
    err = ResourceListDupeError if cls in ('list', 'ordered') else ResourceSetDupeError
    model = {}
    for kind, rep, items in c['ops']:
        rs = [Resource(uri=u, capability=cap) for u, cap in items]
        if kind in ('one', 'set', 'cap'):
            rs = rs[:1]
        cap = kind == 'cap' and not rep and cls in ('caplist', 'desc')
        if cap and cls == 'desc':
            rs = [Resource(uri=items[0][0], capability='capabilitylist')]
        want = None
        for r in rs:
            if r.uri in model and not rep:
                want = err
                break
            model[r.uri] = r
        x = rs if kind == 'many' else iter(rs) if kind == 'gen' else rs[0]
        at = o.resources if kind == 'set' else o
        try:
            if cap and cls == 'desc':
                o.add_capability_list(rs[0].uri)
            elif cap:
                o.add_capability(uri=rs[0].uri, name=rs[0].capability)
            elif rep:
                at.add(x, replace=True)
            else:
                at.add(x)
            got = None
        except Exception as e:
            got = type(e)
        h.count('dupe' if want else 'add')
        if got is not want:
            return 'add gave %r, not %r' % (got, want)
        if cap and not want:
            r = next((r for r in o.resources if r.uri == rs[0].uri), None)
            if r is None or r.capability != rs[0].capability:
                return 'adding capability %s %s gives %r' % (rs[0].uri, rs[0].capability, r)
            model[r.uri] = r
        if len(o) != len(model):
            return 'holds %d resources, not %d' % (len(o), len(model))
    if cls == 'caplist' and any(r.capability is None for r in model.values()) and any(
            r.capability == '' for r in model.values()):
        return None
    exp = [model[u] for u in order(cls, model)]
    show = lambda rs: [(r.uri, r.capability) for r in rs]
    for what, it in (('container', iter(o)), ('collection', iter(o.resources))):
        got = list(it)
        if len(got) != len(exp) or any(a is not b for a, b in zip(got, exp)):
            return 'iteration of the %s gave %r, not %r' % (what, show(got), show(exp))
    if cls in ('list', 'ordered'):
        got = list(o.resources.sorted_iter())
        if [id(r) for r in got] != [id(model[u]) for u in sorted(model)]:
            return 'sorted iteration gave %r' % show(got)
    its, outs = [iter(o) for _ in range(3)], [[], [], []]
    for t in c['turns']:
        r = next(its[t], None)
        if r is not None:
            outs[t].append(r)
    for k in range(3):
        outs[k] += list(its[k])
        if [id(r) for r in outs[k]] != [id(r) for r in exp]:
            return 'iteration %d of three at once gave %r, not %r' % (k, show(outs[k]), show(exp))
    return None
