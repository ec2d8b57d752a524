"""C24: change lists written by the client."""
import contextlib
import glob
import hashlib
import io
import os
import xml.etree.ElementTree as ET
import fake_web
from resync.client import Client
from synclib import *

WHAT = ('write_change_list() of the real client for reference lists in scratch files or on a stand-in for the network, single or with '
        'index, against a second list or files on disk: same, changed, new and missing entries, unreadable lists, indexes disabled, '
        'no mapping, small maximum of entries, to a file or standard output; what is written is parsed independently')
SM, RS = '{http://www.sitemaps.org/schemas/sitemap/0.9}', '{http://www.openarchives.org/rs/terms/}'
LISTS = 'http://a.example/lists'


def entries(rng):
    es = [dict(uri=u, lastmod=rng.choice([None, 90, 90.5, 91.5, 0]), length=rng.choice([None, 0, 5]), md5=rng.choice([None, None, 'x', 'y']))
          for u in URIS if rng.random() < .6]
    return es


def gen(rng, h):
    ref = entries(rng)
    new = entries(rng) if rng.random() < .5 else [dict(e, **({'length': rng.choice([None, 0, 5])} if rng.random() < .3 else {}))
                                                   for e in ref if rng.random() < .8]
    rng.shuffle(new)
    disk = rng.random() < .4
    mapping = rng.random() < .9
    return dict(ref=ref, new=new, disk=disk, mapping=mapping, kinds=[rng.choice(['one'] * 4 + ['index'] * 3 + ['missing']),
                                                                   rng.choice(['one'] * 4 + ['index', 'index', 'missing'])],
                web=rng.random() < .3, multi=rng.random() < .6, out=rng.random() < .6, verbose=rng.random() < .2,
                most=rng.choice([None, None, 1, 2, 5]) if mapping else None, empty=rng.random() < .1, md5=rng.random() < .3,
                paths=rng.random() < .2, exclude=rng.choice([None, None, None, 'f1', 'd']), links=rng.choice([0, 0, 1, 2]))


FIXED = [dict(ref=[dict(uri=URIS[i], lastmod=90, length=5, md5=None) for i in (0, 1)], new=[dict(uri=URIS[i], lastmod=90, length=5, md5=None) for i in (0, 2)],
              disk=d, mapping=True, kinds=['index', 'one'], web=w, multi=m, out=o, verbose=False, most=None, empty=False, md5=False, paths=False,
              exclude=None, links=1) for d in (False, True) for w in (False, True) for m in (False, True) for o in (False, True)]


def md5(s):
    return hashlib.md5(s.encode()).hexdigest()


def put(where, name, kind, es, web, mapping):
    """Writes a resource list; its URI."""
    if kind == 'missing':
        return LISTS + '/no.xml' if web else where + '/no.xml'
    es = [dict(e, md5=md5(e['md5']) if e['md5'] else None) for e in es]

    def save(n, data):
        if web:
            fake_web.PAGES[LISTS + '/' + n] = data
            return LISTS + '/' + n
        with open(where + '/' + n, 'wb') as f:
            f.write(data)
        return where + '/' + n
    if kind == 'one':
        return save(name + '.xml', doc('resourcelist', es))
    k = len(es) // 2
    locs = []
    for i, part in enumerate((es[:k], es[k:])):
        at = save('%s%d.xml' % (name, i), doc('resourcelist', part))
        locs.append(LISTS + '/%s%d.xml' % (name, i) if mapping else at)
    return save(name + '.xml', ('<?xml version="1.0"?>\n<sitemapindex xmlns="%s" xmlns:rs="%s"><rs:md capability="resourcelist"/>%s</sitemapindex>' % (
        SM[1:-1], RS[1:-1], ''.join('<sitemap><loc>%s</loc></sitemap>' % x for x in locs))).encode())


def same(a, b):
    if (a['lastmod'] is None) != (b['lastmod'] is None):
        return False
    if a['lastmod'] is not None and abs(a['lastmod'] - b['lastmod']) >= 1:
        return False
    return all(a[k] is None or b[k] is None or a[k] == b[k] for k in ('length', 'md5'))


def seconds(s):
    import calendar
    import datetime
    if s is None:
        return None
    d = datetime.datetime.fromisoformat(s.replace('Z', '+00:00'))
    return calendar.timegm(d.timetuple()) + d.microsecond / 1e6


def run(c, h):
    d, w = h.dir(), h.dir()
    os.mkdir(d + '/data')
    os.mkdir(d + '/out')
    os.mkdir(d + '/lists')
    here = os.getcwd()
    os.chdir(w)
    try:
        return check(c, h, d)
    finally:
        os.chdir(here)


def check(c, h, d):
    cl = Client(hashes=['md5'] if c['md5'] else None, verbose=c['verbose'])
    if c['mapping']:
        cl.set_mappings([BASE + '=' + d + '/data', 'http://a.example/out=' + d + '/out'] + (
            [] if c['disk'] else [LISTS + '=' + d + '/lists']))     # what is mapped is scanned
    else:
        from resync.mapper import Mapper
        cl.mapper = Mapper()
    cl.allow_multifile, cl.max_sitemap_entries = c['multi'], c['most']
    if c['exclude']:
        cl.exclude_patterns = [c['exclude']]
    web = c['web']
    ref = put(d + '/lists', 'ref', c['kinds'][0], c['ref'], web, web or c['mapping'] and not c['disk'])
    old = [dict(e, md5=md5(e['md5']) if e['md5'] else None) for e in c['ref']]
    kw = dict(ref_sitemap=ref)
    if c['disk']:
        fill(d + '/data', {rel(e['uri']): ((e['md5'] or 'z') * (e['length'] or 0), e['lastmod'] or 0) for e in c['new']})
        new = []
        for e in c['new']:
            if c['exclude'] and (c['exclude'] in rel(e['uri']).split('/')[-1] or not c['paths'] and '/' in rel(e['uri']) and c['exclude'] in rel(e['uri']).split('/')[0]):
                continue
            if c['paths'] and not rel(e['uri']).startswith('d/'):
                continue
            new.append(dict(uri=e['uri'], lastmod=e['lastmod'] or 0, length=e['length'] or 0,
                            md5=md5((e['md5'] or 'z') * (e['length'] or 0)) if c['md5'] else None))
        if c['paths']:
            os.makedirs(d + '/data/d', exist_ok=True)
            kw['paths'] = d + '/data/d'
    else:
        kw['newref_sitemap'] = put(d + '/lists', 'new', c['kinds'][1], c['new'], web, c['mapping'] or web)
        new = [dict(e, md5=md5(e['md5']) if e['md5'] else None) for e in c['new']]
        if c['paths']:          # of no account
            kw['paths'] = d + '/out'
    links = [dict(rel='up', href='http://a.example/cap.xml'), dict(rel='describedby', href='http://a.example/d')][:c['links']]
    if links:
        kw['links'] = links
    if c['empty']:
        kw['empty'] = True
    if c['out']:
        kw['outfile'] = d + '/out/cl.xml'
    read = [c['kinds'][0]] + ([] if c['disk'] else [c['kinds'][1]])
    ok = c['empty'] or ('missing' not in read and (c['multi'] or 'index' not in read) and (c['mapping'] or not c['disk']))
    a, b = {e['uri']: e for e in old}, {e['uri']: e for e in new}
    want = {} if c['empty'] else {u: (k, x[u]) for k, x, us in (
        ('created', b, set(b) - set(a)), ('deleted', a, set(a) - set(b)),
        ('updated', b, {u for u in a if u in b and not same(a[u], b[u])})) for u in us}
    split = c['most'] is not None and len(want) > c['most']
    if split and not c['out']:
        ok = False
    err, so = None, io.StringIO()
    try:
        with contextlib.redirect_stdout(so):
            cl.write_change_list(**kw)
    except Exception as e:
        err = e
    text = so.getvalue()
    text = text[text.index('<?xml'):] if '<?xml' in text else ''
    files = sorted(glob.glob(d + '/out/*'))
    if c['empty'] and fake_web.LOG:
        return 'reads %r for an empty list' % fake_web.LOG
    if not ok:
        h.count('refused')
        if err is None:
            return 'no error'
        return 'something was written in spite of %r' % err if files or text else None
    if err is not None:
        return 'raises %s: %s' % (type(err).__name__, err)
    if bool(files) != c['out'] or bool(text) == c['out']:
        return 'written are files %r and %d characters' % (files, len(text))
    docs = [text] if not c['out'] else [open(f, 'rb').read() for f in files]
    got = []
    for t in docs:
        root = ET.fromstring(t.encode() if isinstance(t, str) else t)
        md = root.find(RS + 'md')
        if md is None or md.get('capability') != 'changelist':
            return 'written is no change list'
        if not split:
            ln = [(x.get('rel'), x.get('href')) for x in root.findall(RS + 'ln')]
            if ln != [(x['rel'], x['href']) for x in links]:
                return 'links written are %r' % ln
        for e in root.findall(SM + 'url'):
            m = e.find(RS + 'md')
            got.append((e.findtext(SM + 'loc'), m.get('change'), e.findtext(SM + 'lastmod'), m.get('length'), m.get('hash')))
    h.count('split' if split else 'one' if want else 'no change')
    if sorted(x[0] for x in got) != sorted(want):
        return 'entries are %r, not %r' % (sorted((x[1], x[0]) for x in got), sorted((k, u) for u, (k, e) in want.items()))
    for uri, ch, t, n, hs in got:
        k, e = want[uri]
        if ch != k:
            return '%s is stated as %s, not %s' % (uri, ch, k)
        t = seconds(t)
        if (t is None) != (e['lastmod'] is None) or t is not None and abs(t - e['lastmod']) > 1e-5:
            return '%s (%s) has time %r, not %r' % (uri, ch, t, e['lastmod'])
        if n != (None if e['length'] is None else str(e['length'])) or hs != (None if e['md5'] is None else 'md5:' + e['md5']):
            return '%s (%s) has length %r and hash %r, not those of %r' % (uri, ch, n, hs, e)


def shrink(c):
    for k in ('ref', 'new'):
        for i in range(len(c[k])):
            yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    for k, v in (('links', 0), ('most', None), ('verbose', False), ('exclude', None), ('paths', False), ('md5', False), ('web', False)):
        if c[k] != v:
            yield dict(c, **{k: v})
