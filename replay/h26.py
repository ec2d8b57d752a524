"""C26: resource lists, capability lists and source descriptions written by the client."""
import contextlib
import glob
import hashlib
import io
import os
import re
import zipfile
import xml.etree.ElementTree as ET
from datetime import datetime
from resync.client import Client
from synclib import *

WHAT = ('write_resource_list(), write_capability_list() and write_source_description() of the real client: trees of files with paths, '
        'exclude patterns, digests and no mapping, as list or as dump; capabilities and capability lists given, some twice; '
        'to a file or standard output; read by ElementTree')
SM, RS = '{http://www.sitemaps.org/schemas/sitemap/0.9}', '{http://www.openarchives.org/rs/terms/}'
NAMES = ['a', 'b.txt', 'd/a', 'd/e/f', 'g/x.txt', 'Z']
CAPS = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'changelist-archive', 'other']


def gen(rng, h):
    op = rng.choice(['list', 'list', 'list', 'dump', 'caps', 'caps', 'desc'])
    return dict(op=op, files=[[n, rng.choice(['', 'x', 'some text']), rng.choice([400000000, 1000000001, 1000000002])] for n in NAMES if rng.random() < .6],
                paths=rng.choice([None, None, 'd', 'g', 'd,g', 'g,d', 'none']), exclude=rng.choice([None, None, 'txt', 'e', 'a']),
                md5=rng.random() < .4, mapping=rng.random() < .92, out=rng.random() < .6, links=rng.choice([None, 0, 1, 2]),
                caps=None if rng.random() < .1 else [[k, 'http://e.org/%s.xml' % rng.choice([k] * 8 + ['same'])] for k in rng.sample(CAPS, rng.randrange(6))],
                lists=None if rng.random() < .1 else ['http://e.org/%d/caps.xml' % rng.choice([i] * 9 + [0]) for i in range(rng.randrange(5))],
                pretty=rng.random() < .2, most=rng.choice([None, None, None, 2]))


def run(c, h):
    d, w = h.dir(), h.dir()
    os.chdir(w)
    try:
        return check(c, h, d, w)
    finally:
        os.chdir('/')


def said(text):
    root = ET.fromstring(text)
    es = []
    for e in root.findall(SM + 'url'):
        m = e.find(RS + 'md')
        lm = e.find(SM + 'lastmod')
        es.append((e.find(SM + 'loc').text, None if lm is None else lm.text, {} if m is None else dict(m.attrib)))
    m = root.find(RS + 'md')
    return dict(kind=root.tag.replace(SM, ''), es=es, links=[dict(e.attrib) for e in root.findall(RS + 'ln')], cap=None if m is None else m.get('capability'))


def check(c, h, d, w):
    data = d + '/data'
    os.mkdir(data)
    os.mkdir(d + '/out')
    fill(data, {n: (t, s) for n, t, s in c['files']})
    cl = Client()
    if c['mapping']:
        cl.set_mappings([BASE + '=' + data])
    else:
        from resync.mapper import Mapper
        cl.mapper = Mapper()
    cl.pretty_xml = c['pretty']
    if c['md5']:
        cl.hashes = {'md5'}
    if c['exclude']:
        cl.exclude_patterns = [c['exclude']]
    links = None if c['links'] is None else [dict(rel='up', href='http://e.org/up.xml'), dict(rel='describedby', href='http://e.org/d')][:c['links']]
    kw = {} if links is None else dict(links=[dict(l) for l in links])
    if c['out']:
        kw['outfile'] = d + '/out/doc.xml'
    before = tree(data)
    fails, want, cap = False, None, None
    if c['op'] in ('list', 'dump'):
        ps = [data] if c['paths'] is None else [data + '/' + p for p in c['paths'].split(',')]
        if c['paths'] is not None:
            kw['paths'] = ','.join(ps)
        fails = not c['mapping']
        want = {}
        for p in ps:
            for n, t, s in c['files']:
                if not (data + '/' + n).startswith(p + '/'):
                    continue
                below = (data + '/' + n)[len(p) + 1:].split('/')
                if c['exclude'] and any(re.match(c['exclude'], x) for x in below):
                    continue
                md = dict(length=str(len(t)))
                if c['md5']:
                    md['hash'] = 'md5:' + hashlib.md5(t.encode()).hexdigest()
                want[BASE + '/' + n] = (datetime.utcfromtimestamp(s).isoformat() + 'Z', md)
        cap = 'resourcelist'
        f = cl.write_resource_list
        if c.get('most') and (c['op'] == 'dump' or not c['out']):
            cl.max_sitemap_entries = c['most']
            fails = fails or c['op'] == 'list' and len(want) > c['most']
        if c['op'] == 'dump':
            kw['dump'] = True
            cl.default_resource_dump = d + '/out/default'
    elif c['op'] == 'caps':
        if c['caps'] is not None:
            kw['capabilities'] = dict(c['caps'])
            uris = [u for _, u in c['caps']]
            fails = len(set(uris)) != len(uris)
        want = {u: (None, dict(capability=k)) for k, u in c['caps'] or []}
        cap, f = 'capabilitylist', cl.write_capability_list
    else:
        if c['lists'] is not None:
            kw['capability_lists'] = list(c['lists'])
            fails = len(set(c['lists'])) != len(c['lists'])
        want = {u: (None, dict(capability='capabilitylist')) for u in c['lists'] or []}
        cap, f = 'description', cl.write_source_description
    err, so = None, io.StringIO()
    try:
        with contextlib.redirect_stdout(so):
            f(**kw)
    except Exception as e:
        err = e
    files = sorted(glob.glob(d + '/out/*'))
    if tree(data) != before:
        return 'files on disk have been changed'
    if os.listdir(w) or sorted(os.listdir(d)) != ['data', 'out']:
        return 'files are written elsewhere: %r' % (os.listdir(w) + os.listdir(d))
    if fails:
        h.count('refused')
        if err is None:
            return 'not refused'
        if files or so.getvalue().strip():
            return 'refused, but something is written: %r' % (files or so.getvalue()[:200])
        return None
    if err is not None:
        return 'raises %s: %s' % (type(err).__name__, err)
    h.count(c['op'])
    if c['op'] == 'dump':
        base = d + '/out/' + ('doc.xml' if c['out'] else 'default')
        if so.getvalue().strip():
            return 'a dump is printed: %r' % so.getvalue()[:200]
        zips = [x for x in files if x.endswith('.zip')]
        if any(not x.startswith(base) for x in files):
            return 'dump at %r, not %r' % (files, base)
        got = []
        for z in zips:
            with zipfile.ZipFile(z) as zf:
                m = said(zf.read('manifest.xml').decode())
                for u, lm, md in m['es']:
                    n = u[len(BASE) + 1:]
                    if zf.read(md['path'].lstrip('/')).decode() != [t for x, t, s in c['files'] if x == n][0]:
                        return 'content of %s in the dump' % u
                    if u in want and (lm != want[u][0] or {k: v for k, v in md.items() if k != 'path'} != want[u][1]):
                        return 'entry of %s in the dump says %r, not %r' % (u, (lm, md), want[u])
                    got.append(u)
        return None if sorted(got) == sorted(want) else 'dump of %r, not %r' % (sorted(got), sorted(want))
    if c['out']:
        if files != [d + '/out/doc.xml'] or so.getvalue().strip():
            return 'written to %r and printed %r' % (files, so.getvalue()[:100])
        with open(files[0]) as fh:
            text = fh.read()
    else:
        if files:
            return 'files written: %r' % files
        text = so.getvalue()
    try:
        got = said(text)
    except ET.ParseError as e:
        return 'written is no document: %s %r' % (e, text[:200])
    us = [u for u, _, _ in got['es']]
    if got['kind'] != 'urlset' or got['cap'] != cap or got['links'] != (links or []):
        return 'document is %s of %s with links %r, not urlset of %s with %r' % (got['kind'], got['cap'], got['links'], cap, links)
    if len(set(us)) != len(us) or {u: (t, m) for u, t, m in got['es']} != want:
        return 'entries %r, not %r' % (got['es'], want)
    return None


def shrink(c):
    for k in ('files', 'caps', 'lists'):
        for i in range(len(c[k] or [])):
            yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    for k, v in (('links', None), ('paths', None), ('exclude', None), ('md5', False), ('out', True), ('pretty', False)):
        if c[k] != v:
            yield dict(c, **{k: v})
