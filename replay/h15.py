"""C15: reading an index."""
import os
import fake_web
from resync.resource_list import ResourceList
from resync.resource_dump import ResourceDump
from resync.change_list import ChangeList
from resync.change_dump import ChangeDump
from resync.capability_list import CapabilityList
from resync.list_base_with_index import ListBaseWithIndex
from resync.mapper import Mapper
from synclib import authority

WHAT = ('resource and change lists, and others, read from indexes of 0 to 5 components, remote (fake web) or local (files, mapped or '
        'not), with components that cannot be opened, are no sitemaps, are indexes, lie elsewhere or repeat entries')
BASE = 'http://a.example/src'
SM = 'xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/"'
CLS = dict(resource=ResourceList, dump=ResourceDump, change=ChangeList, plain=ListBaseWithIndex)
CAP = dict(resource='resourcelist', dump='resourcedump', change='changelist', plain='resourcelist')


def gen(rng, h):
    local = rng.random() < .5
    parts = []
    for i in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])):
        bad = rng.random() < .12
        parts.append(dict(
            fate='ok' if not bad else rng.choice(['missing', 'index', 'garbage', 'html', 'empty', 'error', 'badentry']),
            where=rng.choice(['own'] * 8 + ['sub'] * 2 + ['other', 'https', 'sibling', 'prefix', 'path', 'fileuri', 'self']),
            name=rng.choice(['c%d.xml', 'c%d.xml', 'd/c%d.xml', 'c %d.xml', 'c%d:x.xml', 'B%d.xml', '10c%d']) % i,
            n=rng.choice([0, 1, 1, 2, 3]), shared=rng.random() < .03))
    if rng.random() < .05 and parts:
        parts.append(dict(parts[0]))
    rng.shuffle(parts)
    return dict(local=local, how=rng.choice(['path', 'fileuri']), parts=parts, kind=rng.choice(['resource', 'resource', 'dump', 'plain']
                if rng.random() < .7 else ['change', 'change']), multi=rng.random() < .9, check=rng.random() < .6, index=rng.random() < .9,
                only=rng.random() < .07, mapped=rng.random() < .9, iname=rng.choice(['idx.xml', 'c0.xml', 'sm']),
                ientries=rng.random() < .5)


def entries(uris, kind, item='url', top='urlset', md=True):
    x = '<?xml version="1.0" encoding="UTF-8"?>\n<%s %s>' % (top, SM)
    if md:
        x += '<rs:md capability="%s"/>' % CAP[kind]
    for u in uris:
        x += '<%s><loc>%s</loc>%s</%s>' % (item, u, '<rs:md change="updated"/>' if kind == 'change' and item == 'url' else '', item)
    return (x + '</%s>' % top).encode()


def uri_of(c, p, d):
    w, f = p['where'], p['name']
    if w == 'path' and c['local']:
        return os.path.join(d, f)
    if w == 'fileuri' and c['local']:
        return 'file://' + os.path.join(d, f).replace(' ', '%20')
    return {'sub': 'http://sub.a.example/src/', 'other': 'http://b.example/src/', 'https': 'https://a.example/src/',
            'sibling': 'http://a.example/srcx/', 'prefix': 'http://xa.example/src/'}.get(w, BASE + '/') + f


def put(url, data, path=None):
    if path is None:
        fake_web.PAGES[url] = data
    elif data is not None and not isinstance(data, Exception):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)


def run(c, h):
    fake_web.reset()
    d = os.path.join(h.dir(), 'src')
    os.makedirs(d)
    uris = [uri_of(c, p, d) if p['where'] != 'self' else BASE + '/0' + c['iname'] for p in c['parts']]
    docs, fail = {}, None
    for i, (p, u) in enumerate(zip(c['parts'], uris)):
        es = ['http://a.example/r/%d-%d' % (i, k) for k in range(p['n'])]
        if p['shared']:
            es.append('http://a.example/r/shared')
        data = dict(ok=entries(es, c['kind']), missing=None, index=entries(es, c['kind'], 'sitemap', 'sitemapindex'),
                    garbage=entries(es, c['kind'])[:-5], html=b'<html><body/></html>', empty=b'', error=OSError('broken'),
                    badentry=entries(es, c['kind']).replace(b'</urlset>', b'<url><lastmod>x</lastmod></url></urlset>'))[p['fate']]
        if u not in docs:
            docs[u] = (p, es if p['fate'] == 'ok' and p['where'] != 'self' else None)
            if p['where'] != 'self':
                put(u, data, os.path.join(d, p['name']) if c['local'] else None)
    top = entries(uris, c['kind'], 'sitemap', 'sitemapindex') if c['index'] else entries(['http://a.example/r/%d' % i for i in range(
        len(c['parts']))], c['kind'])
    iname = '0' + c['iname']
    index = BASE + '/' + iname
    if c['local']:
        put(None, top, os.path.join(d, iname))
        index = os.path.join(d, iname) if c['how'] == 'path' else 'file://' + os.path.join(d, iname)
    else:
        put(index, top)
    l = CLS[c['kind']]()
    l.capability_name = CAP[c['kind']]
    l.mapper = Mapper([BASE, d if c['mapped'] else os.path.join(d, 'nowhere')])
    l.allow_multifile, l.check_url_authority = c['multi'], c['check']
    # what is to happen
    want, why = [], None
    if not c['index']:
        want = ['http://a.example/r/%d' % i for i in range(len(c['parts']))]
    elif not c['multi']:
        why = 'indexes are not allowed'
    elif not c['only']:
        for u in uris:
            p, es = docs[u]
            if c['local']:
                mapped = u.startswith('file:') or u.startswith('/') or u.startswith(BASE + '/')
                if not mapped:
                    why = why or 'no mapping for %s' % u
                    continue
                if u.startswith(BASE) and not c['mapped']:
                    es = None
            elif c['check'] and not authority(index, u, False):
                why = why or 'no authority over %s' % u
            if es is None:
                why = why or '%s cannot be read (%s)' % (u, p['fate'])
            else:
                want += es
        if why is None and c['kind'] in ('resource', 'dump') and len(set(want)) != len(want):
            why = 'repeated entries'
    try:
        l.read(index, index_only=c['only'])
        err = None
    except Exception as e:
        err = e
    if why is not None:
        h.count('refused')
        if err is None:
            return 'not refused: ' + why
        return None
    if err is not None:
        if c['only'] and c['index'] and (c['kind'] == 'change' or len(set(uris)) != len(uris)):
            return None    # the entries of an index that is not followed need not fit into the list
        return 'reading raises %s: %s' % (type(err).__name__, err)
    if c['only'] and c['index']:
        h.count('index only')
        if not l.sitemapindex or [x for x in fake_web.LOG if x['url'] != index]:
            return 'components are read, or it is not known to be an index'
        return None
    h.count('read')
    got = [r.uri for r in l]
    if sorted(got) != sorted(want):
        return 'has %r, not %r' % (sorted(got), sorted(want))
    for u in set(uris) if c['index'] else ():
        _, es = docs[u]
        at = [got.index(x) for x in es or []]
        if c['kind'] == 'plain' and len(set(want)) == len(want) and at != sorted(at):
            return 'entries of one document out of order'
    if not c['local']:
        asked = [x['url'] for x in fake_web.LOG]
        if c['index'] and sorted(asked) != sorted([index] + [u.replace(' ', '%20') for u in uris]) and \
                sorted(asked) != sorted([index] + uris):
            return 'asked for %r' % asked
    return None
