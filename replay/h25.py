"""C25: what a document says of itself."""
import os
import time
import xml.etree.ElementTree as ET
from datetime import datetime
from resync.archives import ResourceListArchive, ResourceDumpArchive, ChangeListArchive, ChangeDumpArchive
from resync.capability_list import CapabilityList
from resync.change_dump import ChangeDump
from resync.change_dump_manifest import ChangeDumpManifest
from resync.change_list import ChangeList
from resync.list_base_with_index import ListBaseWithIndex
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_dump import ResourceDump
from resync.resource_dump_manifest import ResourceDumpManifest
from resync.resource_list import ResourceList
from resync.source_description import SourceDescription
from resync.w3c_datetime import str_to_datetime

WHAT = ('all twelve kinds of documents with 0 to 5 entries, times set (and set again) from texts, timestamps, "now" and None, own '
        'capability or none, 0 to 3 links, given when made or set, as string, as file and in several parts, read by ElementTree and back')
SM, RS = '{http://www.sitemaps.org/schemas/sitemap/0.9}', '{http://www.openarchives.org/rs/terms/}'
KINDS = {'resourcelist': ResourceList, 'changelist': ChangeList, 'resourcedump': ResourceDump, 'changedump': ChangeDump,
         'resourcedump-manifest': ResourceDumpManifest, 'changedump-manifest': ChangeDumpManifest,
         'capabilitylist': CapabilityList, 'description': SourceDescription, 'resourcelist-archive': ResourceListArchive,
         'resourcedump-archive': ResourceDumpArchive, 'changelist-archive': ChangeListArchive,
         'changedump-archive': ChangeDumpArchive}
TIMES = ['at', 'completed', 'from', 'until']
VALUES = ['2013-01-01', '2013-01-01T00:00:00Z', '2020-02-29T23:59:59.999999Z', 'any text', '', 'Now', 'now', 'now', None, 0, 1.5, 1357000000,
          1e9, 123456789.25]


def gen(rng, h):
    sets = [[rng.choice(TIMES), rng.choice(VALUES)] for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
    links = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        l = dict(rel=rng.choice(['up', 'describedby', 'resourcelist', 'x']), href=rng.choice(['http://a/0', 'http://a/1?b&c', 'e']))
        for k, v in (('length', 0), ('length', 7), ('pri', 1), ('hash', 'md5:x'), ('modified', '2013-01-01'), ('path', '/p')):
            if rng.random() < .2:
                l[k] = v
        links.append(l)
    return dict(kind=rng.choice(sorted(KINDS)), n=rng.choice([0, 1, 1, 2, 3, 5]), sets=sets, links=links, own=rng.random() < .25,
                made=rng.random() < .3, pretty=rng.random() < .3, most=rng.choice([None, None, 1, 2, 3]), version=rng.choice(['1.1', '1.1', '1.0']),
                again=rng.random() < .2)


def head(data):
    """What a document says of itself: times and capability, links, kind, whether there is more than one piece of metadata."""
    root = ET.fromstring(data)
    mds = root.findall(RS + 'md')
    if len(mds) > 1:
        return 'metadata twice'
    return (dict(mds[0].attrib) if mds else {}, [dict(e.attrib) for e in root.findall(RS + 'ln')], root.tag.replace(SM, ''))


def run(c, h):
    cls = KINDS[c['kind']]
    md, ln = {}, []
    l = cls(md=md, ln=ln) if c['made'] else cls()
    l.pretty_xml = c['pretty']
    l.spec_version = c['version']
    want = {}
    for t in TIMES:
        if getattr(l, 'md_' + t) is not None:
            return 'md_%s of a new document is %r' % (t, getattr(l, 'md_' + t))
    for t, v in c['sets']:
        a = time.time()
        setattr(l, 'md_' + t, v)
        b = time.time()
        got = getattr(l, 'md_' + t)
        if v == 'now':
            if not isinstance(got, str) or not a - .001 <= str_to_datetime(got) <= b + .001 or got[-1:] != 'Z':
                return 'md_%s set to now is %r' % (t, got)
        elif v is None or isinstance(v, str):
            if got != v:
                return 'md_%s set to %r is %r' % (t, v, got)
        elif got != datetime.utcfromtimestamp(v).isoformat() + 'Z':
            return 'md_%s set to %r is %r' % (t, v, got)
        want[t] = got
        for x in TIMES:
            if getattr(l, 'md_' + x) != want.get(x):
                return 'setting %s makes %s %r, not %r' % (t, x, getattr(l, 'md_' + x), want.get(x))
    want = {k: v for k, v in want.items() if v is not None}
    if l.capability is not None:
        return 'capability of a new document is %r' % l.capability
    if c['own']:
        l.capability = c['kind']
        if l.capability != c['kind']:
            return 'capability set to %r is %r' % (c['kind'], l.capability)
    for x in c['links']:
        l.ln.append(dict(x))
    for i in range(c['n']):
        l.add(Resource('http://example.org/r%d' % i, change='updated', ts_datetime=100 + i, timestamp=100 + i, capability='resourcelist'))
    texts = [{k: str(v) for k, v in x.items()} for x in c['links']]
    says = (dict(want, capability=c['kind']), texts, 'urlset')

    def same():
        now = {t: getattr(l, 'md_' + t) for t in TIMES if getattr(l, 'md_' + t) is not None}
        if now != want:
            return 'writing turns the times %r into %r' % (want, now)
        if l.ln != c['links']:
            return 'writing turns the links %r into %r' % (c['links'], l.ln)
        if l.capability not in (None, c['kind']):
            return 'writing makes the capability %r' % l.capability

    def back(text, uri=None):
        q = cls()
        if uri:
            q.read(uri=uri)
        else:
            q.parse(str_data=text)
        got = ({t: getattr(q, 'md_' + t) for t in TIMES if getattr(q, 'md_' + t) is not None}, q.capability, q.ln)
        exp = (want, c['kind'], c['links'])
        if got != exp:
            return 'read back as %r, not %r' % (got, exp)
    d = h.dir()
    base = os.path.join(d, 'doc.xml')
    indexed = isinstance(l, ListBaseWithIndex)
    x = l.as_xml()
    m = (None if head(x) == says else 'as_xml says %r, not %r' % (head(x), says)) or same() or back(x)
    if m:
        return m
    for _ in range(2 if c['again'] else 1):
        l.write(base)
        with open(base) as fh:
            x = fh.read()
        m = (None if head(x) == says else 'the file says %r, not %r' % (head(x), says)) or same() or back(x) or back(x, base)
        if m:
            return m
    os.unlink(base)
    if not indexed or c['most'] is None or c['n'] <= c['most']:
        h.count('one')
        return None
    h.count('several')
    l.max_sitemap_entries, l.allow_multifile, l.mapper = c['most'], True, Mapper(['http://example.org/m', d])
    l.write(base)
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as fh:
            got = head(fh.read())
        if f == 'doc.xml':
            exp = (says[0], texts, 'sitemapindex')
        else:
            exp = (says[0], texts + [dict(rel='index', href='http://example.org/m/doc.xml')], 'urlset')
        if got != exp:
            return '%s of several says %r, not %r' % (f, got, exp)
    m = same()
    if m:
        return m
    for got in (head(l.as_xml(allow_multifile=True, basename='http://b/doc.xml')), head(l.as_xml_part('http://b/doc.xml', 0))):
        if got[0].get('capability') != c['kind']:
            return 'part or index as text says %r' % (got,)
    return same()


def shrink(c):
    for i in range(len(c['sets'])):
        yield dict(c, sets=c['sets'][:i] + c['sets'][i + 1:])
    for i in range(len(c['links'])):
        yield dict(c, links=c['links'][:i] + c['links'][i + 1:])
    if c['n']:
        yield dict(c, n=c['n'] - 1)
    for k, v in (('own', False), ('made', False), ('pretty', False), ('most', None), ('version', '1.1'), ('again', False)):
        if c[k] != v:
            yield dict(c, **{k: v})
