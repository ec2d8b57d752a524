"""C20: links."""
from resync.resource import Resource
from resync.resource_container import ResourceContainer
from resync.resource_list import ResourceList
from resync.change_list import ChangeList

WHAT = 'resources and containers with 0..6 links (relations from a small pool, repeats and missing ones), one operation'
RELS = ['up', 'index', 'describedby', 'contents', 'duplicate', 'alternate', '', 'Up', 'up ']
ATTS = ['type', 'pri', 'length', 'hash', 'modified', 'path', 'x y', 'rel', 'href']
VALS = ['', 'a', 'b', 'application/xml', '0', '1']


def gen(rng, h):
    lns = []
    for i in range(rng.choice([0, 1, 2, 3, 3, 6])):
        l = {}
        if rng.random() < .9:
            l['rel'] = rng.choice(RELS[:5] if rng.random() < .8 else RELS)
        l['href'] = rng.choice(['http://a/0', 'http://a/1', 'http://a/2', 'http://a/2', '', None])
        for a in rng.sample(ATTS[:7], rng.choice([0, 0, 1, 2])):
            l[a] = rng.choice(VALS)
        lns.append(l)
    atts = {a: rng.choice(VALS) for a in rng.sample(ATTS[:7] + h.strs[:0], rng.choice([0, 0, 1, 2, 3]))}
    op = rng.choice(['link', 'link_href', 'set', 'set', 'set', 'add', 'dup', 'short_get', 'short_set', 'reset'])
    return dict(cls=rng.choice(['R', 'R', 'C', 'L', 'CL']), lns=lns, nolist=rng.random() < .1, op=op,
                rel=rng.choice(RELS[:5] if rng.random() < .8 else RELS), href=rng.choice(['http://a/9', '', 'rel', 'http://a/0', None, 'http://a/9,b=c']),
                atts=atts)


def first(lns, rel):
    for i, l in enumerate(lns):
        if l.get('rel') == rel and 'rel' in l:
            return i
    return None


def run(c, h):
    R = c['cls'] == 'R'
    if R:
        o = Resource(uri='http://a/r')
    else:
        o = {'C': ResourceContainer, 'L': ResourceList, 'CL': ChangeList}[c['cls']]()
    objs = [dict(l) for l in c['lns']]
    nolist = c['nolist'] and R
    if nolist:
        objs = []
        o.ln = None
    else:
        o.ln = list(objs)
    before = [dict(l) for l in objs]
    op, rel = c['op'], c['rel']
    short = ['up', 'index', 'describedby'] + (['contents'] if R else [])
    if op.startswith('short') and rel not in short:
        rel = 'up'
    if not R and op in ('add', 'dup'):
        op = 'set'
    i = first(before, rel)
    if op in ('link', 'link_href', 'short_get'):
        if op == 'link':
            r = o.link(rel)
            ok = r is None if i is None else r is objs[i]
        elif op == 'link_href':
            r = o.link_href(rel)
            ok = r is None if i is None else r == before[i]['href']
        else:
            r = getattr(o, rel)
            ok = r is None if i is None else r == before[i]['href']
        if not ok:
            return '%s(%r) gives %r with links %r' % (op, rel, r, before)
        if objs != before or (o.ln is not None and o.ln != before) or (nolist and o.ln):
            return '%s(%r) changed the links %r to %r' % (op, rel, before, o.ln)
        return None
    atts, dup = dict(c['atts']), False
    times = 1
    if op == 'set':
        o.link_set(rel, c['href'], **atts)
    elif op == 'reset':
        o.link_set(rel, 'http://a/old', **atts)
        o.link_set(rel, c['href'], **atts)
    elif op == 'add':
        o.link_add(rel, c['href'], **atts)
        dup = True
    elif op == 'dup':
        o.link_set(rel, c['href'], allow_duplicates=True, **atts)
        dup = True
    else:
        setattr(o, rel, c['href'])
        if rel == 'contents':
            # the shortcut may set the type of the document
            atts = {k: v for k, v in (o.link(rel) or {}).items() if k == 'type' and v == 'application/xml'}
        else:
            atts = {}
    exp = [dict(l) for l in before]
    if dup or i is None:
        exp.append(dict(atts, rel=rel, href=c['href']))
    else:
        exp[i].update(atts, href=c['href'])
    if o.ln != exp:
        return '%s(%r, %r, %r) turns the links %r into %r, expected %r' % (op, rel, c['href'], atts, before, o.ln, exp)
    for j, l in enumerate(objs):
        if o.ln[j] is not l:
            return 'link %d was replaced by another object' % j
    h.count(op)


def shrink(c):
    for i in range(len(c['lns'])):
        yield dict(c, lns=c['lns'][:i] + c['lns'][i + 1:])
    for a in c['atts']:
        yield dict(c, atts={k: v for k, v in c['atts'].items() if k != a})
