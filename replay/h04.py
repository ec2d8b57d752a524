"""C04: incremental sync."""
import os
import fake_web
import mapsafe
from resync.client import Client
from resync.client_state import ClientState
from synclib import *

WHAT = ('incremental() of the real client with a change list served by a stand-in for the network and local copies in a '
        'scratch tree: repeated URIs, times of either kind or none, starting time given, stored or neither, mapped, unmapped '
        'and unsafe, authority of either document, strict or off, failing downloads, dry runs, the tree and state compared')


def gen(rng, h):
    es = []
    for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 8])):
        e = dict(uri=rng.choice(URIS[:rng.choice([1, 3, 6])]), change=rng.choice(['created', 'updated', 'updated', 'deleted']),
                 when=rng.choice([50, 100, 150, 150.5, 200, 250, 300]), lastmod=rng.choice([None, None, 90, 150, 290.75]))
        es.append(e)
    if rng.random() < .7:
        es.sort(key=lambda e: e['when'])
    odd = rng.random()
    if es and odd < .08:
        rng.choice(es)['when'] = None
    elif es and odd < .12:
        e = rng.choice(es)
        e['when'] = e['lastmod'] = None
    elif es and odd < .3:
        rng.choice(es)['uri'] = rng.choice(ODD)
    ver = '1.1' if rng.random() < .85 else '1.0'
    if ver == '1.0':
        for e in es:
            if rng.random() < .95:
                e['lastmod'] = e['lastmod'] if e['lastmod'] is not None else e['when']
            if rng.random() < .8:
                e['when'] = None
    return dict(entries=es, version=ver, start=rng.choice(['from', 'from', 'state', 'state', 'none', 'bad', 'both']),
                at=rng.choice([0, 100, 150, 150.5, 200, 301]), mapping=rng.choice(['ok'] * 12 + ['none', 'unsafe', 'part', 'part']), pairs=mapsafe.pairs(rng), part=rng.randrange(5),
                allow=rng.random() < .6, dryrun=rng.random() < .12, noauth=rng.random() < .3, strict=rng.random() < .3,
                explicit=rng.choice([None, None, '', 'http://a.example/src/changelist.xml', 'http://b.example/cl.xml',
                                     'cl2.xml', 'http://a.example/src/d/cl.xml', 'http://a.example/cl.xml']),
                sitemap=rng.choice([None, None, 'http://a.example/sm.xml', 'http://b.example/sm.xml']),
                read=rng.random() < .96, fail=rng.choice([None, None, None, rng.choice(URIS)]), ignore=rng.random() < .5,
                local=rng.sample(range(6), rng.randrange(5)))


def run(c, h):
    bad = mapsafe.check(c.get('pairs', []))
    if bad:
        return bad
    d, w = h.dir(), h.dir()
    os.chdir(w)
    try:
        return check(c, h, d)
    finally:
        os.chdir('/')


def check(c, h, d):
    files = {rel(URIS[i]): ('old %d' % i, 1000.0 + i) for i in c['local']}
    files['other'] = ('other', 77.0)
    fill(d, files)
    cl = Client()
    if c['mapping'] == 'ok':
        cl.set_mappings([BASE, d])
    elif c['mapping'] == 'unsafe':
        cl.set_mappings([d, d])
    elif c['mapping'] == 'part':
        x = h.dir()         # one mapping of two is unsafe
        cl.set_mappings([BASE + '=' + d, ['%s=%s/y', '%s/y=%s', '%s=%s', '%s/y/..=%s', '%s/.//z=%s'][c.get('part', 0)] % (x, x)])
    else:
        from resync.mapper import Mapper
        cl.mapper = Mapper()
    cl.spec_version = c['version']
    cl.noauth, cl.strictauth, cl.dryrun, cl.ignore_failures, cl.tries = c['noauth'], c['strict'], c['dryrun'], c['ignore'], 1
    cl.sitemap_name = c['sitemap']
    site = c['sitemap'] or BASE + '/resourcelist.xml'
    if c['mapping'] == 'unsafe' and not c['sitemap']:
        site = d + '/resourcelist.xml'
    clu = c['explicit'] or 'changelist.xml'
    clu = clu if ':' in clu else BASE + '/' + clu
    ClientState().set_state('http://other.example/', 5)
    if c['start'] in ('state', 'both'):
        ClientState().set_state(site, c['at'] if c['start'] == 'state' else 5000)
    frm = {'from': w3c(c['at']), 'both': w3c(c['at']), 'bad': 'yesterday'}.get(c['start'])
    if c['read']:
        fake_web.PAGES[clu] = doc('changelist', c['entries'])
    for i, e in enumerate(c['entries']):
        if e['uri'] != c['fail']:
            fake_web.PAGES[e['uri']] = ('new ' + e['uri']).encode()
    before = tree(d)
    old = ClientState().get_state(site)
    err = None
    try:
        cl.incremental(**(dict(allow_deletion=c['allow']) if c['allow'] or c['ignore'] else {}), change_list_uri=c['explicit'], from_datetime=frm)
    except Exception as e:
        err = e
    after = tree(d)
    new = ClientState().get_state(site)
    if ClientState().get_state('http://other.example/') != 5:
        return 'the state of another site has changed'
    gets = [x['url'] for x in fake_web.LOG]
    # what should happen
    es = c['entries']
    when = lambda e: e['when'] if e['when'] is not None else e['lastmod']
    by = lambda e: e['lastmod'] if c['version'] == '1.0' else e['when']
    ok = (c['mapping'] == 'ok' and c['start'] not in ('none', 'bad') and c['read']
          and all(when(e) is not None and by(e) is not None for e in es)
          and (c['noauth'] or all(authority(clu, e['uri'], c['strict']) or (
              not c['explicit'] and authority(site, e['uri'], False)) for e in es)))
    if not ok:
        h.count('refused')
        if err is None:
            return 'not refused'
        if after != before or new != old or [g for g in gets if g != clu]:
            return 'refused, but something was done: %s' % (differ(after, before) or [old, new, gets])
        return None
    late = [e for e in es if by(e) >= c['at']]
    pend = []
    for i, e in enumerate(late):
        same = [f for f in late if f['uri'] == e['uri']]
        if same[-1] is e and not (e['change'] == 'deleted' and len(same) > 1 and same[0]['change'] == 'created'):
            pend.append(e)
    want, got, seen, failed = dict(before), [], [], False
    todo = [e for e in pend if e['change'] != 'deleted' or c['allow']]
    if todo:
        for e in pend:
            if rel(e['uri']) is None:
                failed = True
                break
            if e['change'] == 'deleted':
                if c['allow'] and not c['dryrun']:
                    want.pop(rel(e['uri']), None)
                seen.append(e['lastmod'])
            elif not c['dryrun']:
                got.append(e['uri'])
                if e['uri'] == c['fail']:
                    if c['ignore']:
                        continue
                    failed = True
                    break
                want[rel(e['uri'])] = ('new ' + e['uri'], None if e['lastmod'] is None else float(int(e['lastmod'])))
                seen.append(e['lastmod'])
    m = differ(after, want)
    if m:
        return m
    if gets != [clu] + got:
        return 'requests %r, not %r' % (gets, [clu] + got)
    if failed:
        h.count('stopped')
        if err is None:
            return 'no error'
        return None if new == old else 'state recorded after an error'
    if err is not None:
        return 'raises %s: %s' % (type(err).__name__, err)
    top = max([0] + [when(e) for e in es] + [t for t in seen if t is not None])
    if todo and not c['dryrun'] and top > 0:
        h.count('recorded')
        if new != top:
            return 'recorded %r, not %r' % (new, top)
    elif new != old:
        return 'recorded %r where nothing should be' % (new,)
    return None


def shrink(c):
    for i in range(len(c['entries'])):
        yield dict(c, entries=c['entries'][:i] + c['entries'][i + 1:])
    for k, v in (('local', []), ('fail', None), ('noauth', False), ('strict', False), ('sitemap', None), ('explicit', None),
                 ('dryrun', False), ('ignore', False), ('version', '1.1')):
        if c[k] != v:
            yield dict(c, **{k: v})
