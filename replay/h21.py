"""C21: where the resource list is looked for."""
import os
import re
from urllib.parse import urljoin, urlsplit
import fake_web
from resync.client import Client
from resync.client_utils import ClientError, ClientFatalError

WHAT = ('all places on one or two hosts or in scratch directories, each missing, broken, of another kind, or a list, description or capability '
        'list naming any of a few documents by absolute or relative URI; explicit sitemap, capability list and list name; the documents '
        'requested and what is found are compared with a search of its own')
NS = '<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/">'
REFS = ['http://h.org/cl1.xml', 'cl1.xml', '/cl1.xml', '../cl1.xml', 'http://h.org/a/cl1.xml', 'cl2.xml', '/a/cl2.xml', './cl2.xml', '?q=1',
        'http://other.org/cl1.xml', '//other.org/cl1.xml', 'x/cl1.xml', 'a/cl1.xml', 'http://h.org/cl1.xml?x=y']
LREFS = ['http://h.org/rl1.xml', 'rl1.xml', '/rl1.xml', '../rl1.xml', 'http://h.org/a/rl1.xml', 'resourcelist.xml', '/a/sitemap.xml', 'x/rl1.xml',
         'http://other.org/rl1.xml', '//other.org/a/rl1.xml', '', 'rl1.xml?a=b', '/resourcelist.xml']
CAPS = ['resourcelist', 'resourcelist', 'resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcelist-archive', 'other', None]
BASES = ['http://h.org', 'http://h.org/a', 'http://h.org/a', 'http://h.org/a/b', 'http://h.org:8080/a', 'https://h.org/a/']


def doc(rng, kinds):
    k = rng.choice(kinds)
    d = dict(kind=k)
    if k == 'description':
        d['refs'] = rng.sample(REFS, rng.choice([0, 1, 1, 1, 1, 1, 2, 3]))
    elif k == 'caps':
        d['caps'] = [[rng.choice(CAPS), r] for r in rng.sample(LREFS[:-3], rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    return d


def gen(rng, h):
    web = rng.random() < .75
    base = rng.choice(BASES) if web else rng.choice(['a', 'a', 'a/b', ''])
    none = ['missing'] * rng.choice([1, 2, 6])
    pages = {}
    # documents in the usual places, and those they may name
    b = base.rstrip('/') + '/' if base else ''
    host = '/'.join(base.split('/')[:3]) + '/' if web else ''
    for p in {b + '.well-known/resourcesync', host + '.well-known/resourcesync'}:
        pages[p] = doc(rng, none + ['description', 'description', 'junk', 'list', 'caps'])
    for p in {b + 'resourcelist.xml', b + 'sitemap.xml', host + 'sitemap.xml'}:
        pages[p] = doc(rng, none + ['list', 'plain', 'plain', 'junk', 'description', 'caps'])
    for p in list(pages) + [b + 'explicit.xml']:
        if not web:
            p = 'http://h.org/' + p
        for r in REFS:
            q = urljoin(p, r)
            q = q if web else q.replace('http://h.org/', '')
            if q not in pages:
                pages[q] = doc(rng, ['missing', 'caps', 'caps', 'caps', 'caps', 'caps', 'junk', 'list'])
        for r in LREFS:
            q = urljoin(p, r)
            q = q if web else q.replace('http://h.org/', '')
            if q and q not in pages:
                pages[q] = doc(rng, ['missing', 'list', 'list', 'list', 'junk', 'caps'])
    pages[b + 'explicit.xml'] = doc(rng, ['caps', 'caps', 'list', 'list', 'missing', 'junk', 'description'])
    x = [b + 'explicit.xml', b + 'cl1.xml', b + 'rl1.xml']
    return dict(web=web, base=base, pages=pages, sitemap=rng.choice(x) if rng.random() < .15 else None,
                caps=rng.choice(x) if rng.random() < .25 else None,
                name=rng.choice([None, None, None, 'x.xml', 'x/y.xml', host + 'zz/r.xml'] if web else [None, None, 'x.xml', 'x/y.xml']))


def text(u, d):
    k = d['kind']
    if k == 'junk':
        return b'this is no XML'
    if k in ('list', 'plain'):
        md = '<rs:md capability="resourcelist"/>' if k == 'list' else ''
        return (NS + md + '<url><loc>http://marker.org/%s</loc></url></urlset>' % u.replace('&', '&amp;')).encode()
    es = [('capabilitylist', r) for r in d['refs']] if k == 'description' else d['caps']
    md = '<rs:md capability="%s"/>' % ('description' if k == 'description' else 'capabilitylist')
    return (NS + md + ''.join('<url><loc>%s</loc>%s</url>' % (r, '<rs:md capability="%s"/>' % c if c else '') for c, r in es)
            + '</urlset>').encode()


class Stop(Exception):
    pass


def search(c, base):
    """What should be found, and the documents asked for on the way."""
    pages, log = c['pages'], []

    def read(u, kinds):
        log.append(u)
        d = pages.get(u, dict(kind='missing'))
        if d['kind'] not in kinds:
            raise LookupError(u)
        if d['kind'] == 'caps' and any(r == '' for _, r in d['caps']) or d['kind'] == 'caps' and len({r for _, r in d['caps']}) < len(d['caps']):
            raise LookupError(u)
        return d

    def alist(u):
        read(u, ('list', 'plain'))
        return ('list', 'http://marker.org/' + u)

    def caps(u):
        d = read(u, ('caps',))
        rs = sorted(r for x, r in d['caps'] if x == 'resourcelist')
        if not rs:
            raise Stop()
        return alist(urljoin(u, rs[0]))

    def desc(u):
        d = read(u, ('description',))
        if len(d['refs']) != 1:
            raise Stop()
        return caps(urljoin(u, d['refs'][0]))
    try:
        if c['sitemap']:
            return alist(c['sitemap']), log
        if c['caps']:
            return caps(c['caps']), log
    except LookupError:
        return ('error',), log
    except Stop:
        return ('fatal',), log
    s = c['name'] or 'resourcelist.xml'
    if not re.match(r'\w+:', s) and not s.startswith('/'):
        s = base + '/' + s
    p = urlsplit(s)
    host = '%s://%s' % (p.scheme, p.netloc) if p.scheme else ''
    for how, u in ((desc, urljoin(s, '.well-known/resourcesync')), (desc, urljoin(host, '.well-known/resourcesync')),
                   (alist, urljoin(s, 'resourcelist.xml')), (alist, urljoin(s, 'sitemap.xml')), (alist, urljoin(host, 'sitemap.xml'))):
        try:
            return how(u), log
        except LookupError:
            continue
        except Stop:
            return ('fatal',), log
    return ('fatal',), log


def run(c, h):
    fake_web.reset()
    d = h.dir()
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if c['web']:
            for u, p in c['pages'].items():
                if p['kind'] != 'missing':
                    fake_web.PAGES[u] = text(u, p)
        else:
            c = dict(c, pages=dict(c['pages']))
            for u, p in sorted(c['pages'].items()):
                if u.startswith('http:') or u.startswith('//') or u.startswith('/'):
                    c['pages'][u] = dict(kind='missing')
                    continue
                if p['kind'] == 'missing':
                    continue
                try:
                    os.makedirs(os.path.dirname(u) or '.', exist_ok=True)
                    with open(u, 'wb') as fh:
                        fh.write(text(u, p))
                except OSError:
                    c['pages'][u] = dict(kind='missing')
        base = c['base'].rstrip('/') if c['web'] else c['base'] or '.'
        k = Client()
        k.set_mappings([base, d])
        base = k.mapper.default_src_uri()
        k.sitemap_name, k.capability_list_uri = c['sitemap'], c['caps']
        if c['name']:
            k.resource_list_name = c['name']
        if not c['web']:
            norm(c)
        want, log = search(c, base)
        h.count(want[0])
        try:
            rl = k.find_resource_list()
            us = [r.uri for r in rl]
            got = ('list', us[0]) if len(us) == 1 else ('list', us)
        except ClientFatalError as e:
            got = ('fatal',)
        except ClientError as e:
            got = ('error',)
        except Exception as e:
            return 'the search ended with %s: %s' % (type(e).__name__, e)
    finally:
        os.chdir(cwd)
    if c['web']:
        asked = [x['url'] for x in fake_web.LOG]
        web = [u for u in log if '://' in u]
        if asked != web:
            return 'the documents asked for were %r, not %r (found %r, not %r)' % (asked, web, got, want)
    if not c['web'] and want[0] == 'list' and got[0] == 'list':
        want, got = [('list', os.path.normpath(x[1].replace('http://marker.org/', ''))) for x in (want, got)]
    if got != want:
        return 'found %r, not %r' % (got, want)


def norm(c):
    """Local names are found under all ways to write them."""
    class Files(dict):
        def get(self, u, other):
            for k, v in self.items():
                if not k.startswith('http') and v['kind'] != 'missing' and not u.startswith('/') \
                        and os.path.exists(u) and os.path.normpath(k) == os.path.normpath(u):
                    return v
            return other
    c['pages'] = Files({k: v for k, v in c['pages'].items()})


def shrink(c):
    for u, p in c['pages'].items():
        if p['kind'] != 'missing':
            yield dict(c, pages=dict(c['pages'], **{u: dict(kind='missing')}))
