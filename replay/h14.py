"""C14: splitting a list."""
import os
import re
import xml.etree.ElementTree as ET
from resync.resource import Resource
from resync.resource_list import ResourceList
from resync.change_list import ChangeList
from resync.list_base_with_index import ListBaseWithIndex, ListBaseIndexError
from resync.mapper import Mapper

WHAT = ('change lists, resource lists and others of 0 to 13 entries with any maximum from 1 (or none), written to a scratch '
        'directory, as strings, as index and as every part, parsed by ElementTree and compared with the list')
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


def gen(rng, h):
    m = rng.choice([None, 1, 1, 2, 2, 3, 4, 5, 7])
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13] + ([m, m + 1, 2 * m, 2 * m + 1, 3 * m] if m else []))
    if rng.random() < .06 and m is not None:
        m, n = rng.choice([(1, 101), (3, 300), (50, 51), (10, 200), (100, 301), (128, 400), (250, 520)])
    return dict(n=n, m=m, kind=rng.choice(['change', 'change', 'resource', 'plain']), order=rng.sample(range(n), n),
                multi=rng.random() < .8, base=rng.choice(['sm.xml', 'sm.xml', 'list', 'a.xml.xml', 'x.XML', '.xml', 'd/e.xml', 'nm%05d.xml']),
                mapped=rng.random() < .92, index=rng.random() < .1, pretty=rng.random() < .3, part=rng.choice([0, 0, 1, 2, 3, 4, 5, 9]),
                dup=rng.random() < .3, again=rng.random() < .2)


def locs(data):
    root = ET.fromstring(data)
    kind = root.tag.replace(SM, '')
    item = 'sitemap' if kind == 'sitemapindex' else 'url'
    up = [e.get('href') for e in root.findall(RS + 'ln') if e.get('rel') == 'index']
    if [e for e in root if e.tag not in (RS + 'ln', RS + 'md', SM + item)]:
        kind = 'mixed ' + kind
    return kind, [e.find(SM + 'loc').text for e in root.findall(SM + item)], up


def run(c, h):
    d = h.dir()
    os.makedirs(os.path.join(d, 'd'))
    cls = dict(change=ChangeList, resource=ResourceList, plain=ListBaseWithIndex)[c['kind']]
    l = cls()
    uris = ['http://example.org/r%03d' % k for k in c['order']]
    if c['dup'] and c['kind'] != 'resource':
        uris = [u if i % 3 else 'http://example.org/r000' for i, u in enumerate(uris)]
    for u in uris:
        l.add(Resource(u, change='updated') if c['kind'] == 'change' else Resource(u))
    if c['kind'] == 'resource':
        uris = sorted(uris)
    n, m = c['n'], c['m']
    l.max_sitemap_entries = m
    l.allow_multifile = c['multi']
    l.pretty_xml = c['pretty']
    l.sitemapindex = c['index']
    l.mapper = Mapper(['http://example.org/m', d if c['mapped'] else '/elsewhere'])
    base = os.path.join(d, c['base'])
    more = m is not None and n > m
    err = None
    try:
        l.write(base)
        if c['again']:
            l.write(base)
    except ListBaseIndexError as e:
        err = e
    except Exception as e:
        return 'writing raises %s: %s' % (type(e).__name__, e)
    files = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f)) as fh:
                files[os.path.relpath(os.path.join(r, f), d)] = fh.read()
    uri = lambda f: 'http://example.org/m/' + f
    if more and (not c['multi'] or not c['mapped']):
        h.count('refused')
        if err is None:
            return 'not refused'
        if files:
            return 'refused, but written: %r' % sorted(files)
    elif err is not None:
        return 'raises %s' % err
    elif not more:
        h.count('one')
        if list(files) != [c['base']]:
            return 'files %r, not one' % sorted(files)
        got = locs(files[c['base']])
        if got != ('sitemapindex' if c['index'] else 'urlset', uris, []):
            return 'written %r' % (got,)
    else:
        h.count('several')
        kind, parts, up = locs(files[c['base']])
        if kind != 'sitemapindex':
            return 'index is a %s' % kind
        names = [p[len(uri('')):] for p in parts]
        if any(not p.startswith(uri('')) for p in parts) or len(set(names)) != len(names):
            return 'parts %r' % parts
        if set(names) | {c['base']} != set(files) or c['base'] in names:
            return 'files %r, listed %r' % (sorted(files), names)
        at = 0
        for k, f in enumerate(names):
            got = locs(files[f])
            want = uris[at:at + m]
            if got != ('urlset', want, [uri(c['base'])]):
                return 'part %d is %r, not %r' % (k, got, want)
            at += len(want)
        if at != n:
            return '%d of %d entries written' % (at, n)
    # strings
    try:
        x = l.as_xml(allow_multifile=c['multi'], basename='http://b/' + c['base'])
        err = None
    except ListBaseIndexError as e:
        err = e
    except Exception as e:
        return 'as_xml raises %s: %s' % (type(e).__name__, e)
    idx = None
    if more and not c['multi']:
        if err is None:
            return 'as_xml of too long a list is not refused'
    elif err is not None:
        return 'as_xml raises %s' % err
    else:
        got = locs(x)
        if not more:
            if got[:2] != ('sitemapindex' if c['index'] else 'urlset', uris):
                return 'as_xml gives %r' % (got,)
        else:
            idx = got
            if got[0] != 'sitemapindex' or len(got[1]) != -(-n // m) or len(set(got[1])) != len(got[1]):
                return 'as_xml gives index %r' % (got,)
    ks = {k for j in range(9, 10 ** 7, 99991 + 7 * n) for k in (j, j % 10 ** 5)}
    if len({l.part_name(base, k) for k in ks}) != len(ks):
        return 'names of parts are not distinct for large numbers'
    p = c['part']
    try:
        x = l.as_xml_part('http://b/' + c['base'], p)
        err = None
    except ListBaseIndexError as e:
        err = e
    except Exception as e:
        return 'part %d raises %s: %s' % (p, type(e).__name__, e)
    if not more or p * m >= n:
        if err is None:
            return 'part %d of %d entries at most %s is not refused' % (p, n, m)
    elif err is not None:
        return 'part %d raises %s' % (p, err)
    elif locs(x) != ('urlset', uris[p * m:p * m + m], ['http://b/' + c['base']]):
        return 'part %d is %r' % (p, locs(x))
    return None


def shrink(c):
    if c['n']:
        yield dict(c, n=c['n'] - 1, order=[k for k in c['order'] if k != c['n'] - 1])
    for k, v in (('kind', 'change'), ('dup', False), ('pretty', False), ('part', 0), ('base', 'sm.xml'), ('again', False), ('order', sorted(c['order']))):
        if c[k] != v:
            yield dict(c, **{k: v})
