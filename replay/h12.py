"""C12: a resource written as XML and read back."""
import copy
import io
from resync.resource import Resource
from resync.resource_list import ResourceList
from resync.change_list import ChangeList
from resync.resource_container import ResourceContainer
from resync.sitemap import Sitemap

WHAT = ('resources with any combination of attributes (zero, empty, large, non-ASCII, with markup and quotes) and up to five links, '
        'written alone or in a document, pretty or not, parsed by ElementTree and compared attribute by attribute')
TEXT = ['a', '', ' ', 'a b', 'text/html; charset="x"', "it's", '<&>"\'', 'é\u4e2d', '\U0001f600', 'a\tb\nc', '/x/../y', '%20+&amp;', '0']
NUM = [0, 1, 7, 10 ** 6, 2 ** 63, 10 ** 25]
TIME = [0, 0.0, 1, 1e-06, 1234567890.5, 1234567890.123456, 999999999.999999, 4102444800, 1.9999995, 86399.5, 253402300799]
HEX = ['abc', '', '0', 'd41d8cd98f00b204e9800998ecf8427e', 'a:b', 'MD5', 'Zm9v+/=']
URI = ['http://example.org/a', 'http://example.org/?a=1&b=<2>', 'x', 'urn:é', ' lead', "http://e/'\"", '0', 'a\nb']
TIMES = ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
ATTS = dict({k: TIME for k in TIMES}, length=NUM, md5=HEX, sha1=HEX, sha256=HEX, mime_type=TEXT, path=TEXT, capability=TEXT,
            change=['created', 'updated', 'deleted'])
LINK = dict(length=NUM, pri=[1, 2, 999999], hash=TEXT, path=TEXT, modified=TEXT, mime_type=TEXT)


def gen(rng, h):
    p = rng.choice([.1, .5, .9])
    r = {k: rng.choice(v) for k, v in ATTS.items() if rng.random() < p}
    if 'timestamp' in r and rng.random() < .5:
        r['timestamp'] = rng.random() * 4e9
    ln = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        q = rng.choice([.1, .5, .9])
        d = dict(rel=rng.choice(TEXT), href=rng.choice(TEXT))
        d.update({k: rng.choice(v + [None]) for k, v in LINK.items() if rng.random() < q})
        items = list(d.items())
        rng.shuffle(items)
        ln.append(dict(items))
    uri = rng.choice(URI)
    for d in ln:
        if rng.random() < .15:
            d.update(href=uri, rel=rng.choice(['duplicate', 'up', 'self', 'collection']))
    return dict(uri=uri, atts=r, ln=ln, pretty=rng.random() < .5, how=rng.choice(['alone', 'list', 'change list']))


def state(r):
    d = {k: getattr(r, k) for k in list(ATTS) + ['uri']}
    d['ln'] = copy.deepcopy(r.ln)
    return d


def run(c, h):
    atts = dict(c['atts'])
    if c['how'] == 'change list':
        atts.setdefault('change', 'updated')
    r = Resource(uri=c['uri'], ln=copy.deepcopy(c['ln']) or None, **atts)
    was = state(r)
    s = Sitemap(pretty_xml=c['pretty'])
    other = Resource(uri='http://other.example/', length=5, change='created')
    try:
        if c['how'] == 'alone':
            xml = s.resource_as_xml(r)
            import xml.etree.ElementTree as ET
            ns = 'xmlns="%s" xmlns:rs="%s"' % ('http://www.sitemaps.org/schemas/sitemap/0.9', 'http://www.openarchives.org/rs/terms/')
            xml = xml.replace('<url', '<url ' + ns, 1)
            q = Sitemap().resource_from_etree(ET.fromstring(xml), Resource)
        else:
            cls = ResourceList if c['how'] == 'list' else ChangeList
            m = cls(pretty_xml=c['pretty']) if False else cls()
            m.pretty_xml = c['pretty']
            m.add(r)
            m.add(other)
            xml = m.as_xml()
            n = cls()
            n.parse(str_data=xml)
            got = [x for x in n if x.uri != other.uri]
            if len(got) != 1 or len(n) != 2:
                return 'the document holds %d entries, not 2' % len(n)
            q = got[0]
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)
    if state(r) != was:
        return 'writing changes the resource: %r' % {k: (was[k], state(r)[k]) for k in was if was[k] != state(r)[k]}
    new = state(q)
    h.count(c['how'])
    for k in was:
        a, b = was[k], new[k]
        if k == 'ln':
            a = [{x: y for x, y in d.items() if y is not None} for d in a or []]
            b = b or []
            if a != b:
                return 'links %r read as %r' % (a, b)
        elif k in TIMES and a is not None:
            if b is None or abs(a - b) > 1e-6 + abs(a) * 3e-16:
                return '%s %r read as %r' % (k, a, b)
        elif a != b:
            return '%s %r read as %r' % (k, a, b)
    return None


def shrink(c):
    for k in c['atts']:
        yield dict(c, atts={x: y for x, y in c['atts'].items() if x != k})
    for i in range(len(c['ln'])):
        yield dict(c, ln=c['ln'][:i] + c['ln'][i + 1:])
    for i, d in enumerate(c['ln']):
        for k in d:
            if k not in ('rel', 'href'):
                yield dict(c, ln=c['ln'][:i] + [{x: y for x, y in d.items() if x != k}] + c['ln'][i + 1:])
    for k, v in (('pretty', False), ('how', 'alone')):
        if c[k] != v:
            yield dict(c, **{k: v})
