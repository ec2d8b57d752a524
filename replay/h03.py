"""C03: baseline sync and audit."""
import hashlib
import os
import fake_web
import mapsafe
from resync.client import Client
from resync.client_state import ClientState
from synclib import *

WHAT = ('baseline_or_audit() of the real client with a resource list served by a stand-in for the network and local copies '
        'in a scratch tree: same, changed by size, time or digest, new and unlisted, mapped, unmapped and unsafe, authority '
        'strict or off, deletion, dry runs, failing downloads, audits; the tree and the state compared')


def gen(rng, h):
    es = []
    for i, u in enumerate(URIS):
        if rng.random() < .6:
            es.append(dict(uri=u, lastmod=rng.choice([None, 90, 150, 290.75, 0, 1000.5]), size=rng.choice([None, None, 0, 5, 7]),
                           md5=rng.random() < .3))
    odd = rng.random()
    if odd < .2:
        es.append(dict(uri=rng.choice(ODD), lastmod=rng.choice([None, 5]), size=None, md5=False))
    elif odd < .3:
        es = []
    rng.shuffle(es)
    local = {}
    for i, u in enumerate(URIS):
        if rng.random() < .5:
            local[u] = dict(t=rng.choice([90, 90.5, 150, 151.5, 290, 5000]), size=rng.choice([0, 5, 7]), body=rng.choice('xy'))
    if rng.random() < .3:
        local[BASE + '/other'] = dict(t=9999, size=5, body='x')
    return dict(entries=es, local=local, mapping=rng.choice(['ok'] * 12 + ['none', 'unsafe', 'part', 'part']), pairs=mapsafe.pairs(rng), part=rng.randrange(5), audit=rng.choice([None, False, True]),
                allow=rng.random() < .6, dryrun=rng.random() < .12, noauth=rng.random() < .35, strict=rng.random() < .3,
                sitemap=rng.choice([None, None, None, 'http://a.example/sm.xml', 'http://b.example/sm.xml', BASE + '/d/sm.xml']),
                read=rng.random() < .96, fail=rng.choice([None, None, None, rng.choice(URIS)]), ignore=rng.random() < .5,
                hashes=rng.random() < .3, old=rng.choice([None, 7]))


def text(e):
    return ('x' * e['size'] if e['size'] is not None else 'new ' + e['uri'])


def md5(s):
    return hashlib.md5(s.encode()).hexdigest()


def run(c, h):
    bad = mapsafe.check(c.get('pairs', []))
    if bad:
        return bad
    d, w = h.dir(), h.dir()
    os.chdir(w)
    try:
        return check(c, h, d)
    finally:
        os.chdir('/')


def check(c, h, d):
    fill(d, {rel(u): (f['body'] * f['size'], f['t']) for u, f in c['local'].items()})
    cl = Client()
    if c['mapping'] == 'ok':
        cl.set_mappings([BASE, d])
    elif c['mapping'] == 'unsafe':
        cl.set_mappings([d, d])
    elif c['mapping'] == 'part':
        x = h.dir()         # one mapping of two is unsafe
        cl.set_mappings([BASE + '=' + d, ['%s=%s/y', '%s/y=%s', '%s=%s', '%s/y/..=%s', '%s/.//z=%s'][c.get('part', 0)] % (x, x)])
    else:
        from resync.mapper import Mapper
        cl.mapper = Mapper()
    cl.noauth, cl.strictauth, cl.dryrun, cl.ignore_failures, cl.tries = c['noauth'], c['strict'], c['dryrun'], c['ignore'], 1
    cl.sitemap_name = c['sitemap']
    if c['hashes']:
        cl.hashes = {'md5'}
    site = c['sitemap'] or (d if c['mapping'] == 'unsafe' else BASE) + '/resourcelist.xml'
    ClientState().set_state('http://other.example/', 5)
    if c['old'] is not None:
        ClientState().set_state(site, c['old'])
    if c['read'] and site.startswith('http'):
        fake_web.PAGES[site] = doc('resourcelist', [dict(uri=e['uri'], lastmod=e['lastmod'], length=e['size'],
                                                         md5=md5(text(e)) if e['md5'] else None) for e in c['entries']])
    for e in c['entries']:
        if e['uri'] != c['fail']:
            fake_web.PAGES[e['uri']] = text(e).encode()
    before = tree(d)
    old = ClientState().get_state(site)
    err = None
    try:
        kw = dict(allow_deletion=c['allow']) if c['allow'] or c['dryrun'] else {}     # not allowed by default
        if c['audit'] is not None:
            kw['audit_only'] = c['audit']
        cl.baseline_or_audit(**kw)
    except Exception as e:
        err = e
    after = tree(d)
    new = ClientState().get_state(site)
    if ClientState().get_state('http://other.example/') != 5:
        return 'the state of another site has changed'
    gets = [x['url'] for x in fake_web.LOG if not x['url'].endswith(('.xml', 'resourcesync'))]
    # what should happen
    es = {e['uri']: e for e in c['entries']}
    loc = c['local']
    md5s = c['hashes'] and any(e['md5'] for e in c['entries'])

    def same(e, f):
        return ((e['lastmod'] is not None and abs(e['lastmod'] - f['t']) < 1)
                and (e['size'] is None or e['size'] == f['size'])
                and not (md5s and e['md5'] and md5(text(e)) != md5(f['body'] * f['size'])))
    created = sorted(u for u in es if u not in loc)
    updated = sorted(u for u in es if u in loc and not same(es[u], loc[u]))
    deleted = sorted(u for u in loc if u not in es)
    quiet = c['audit'] or not (created or updated or deleted)
    ok = (c['mapping'] != 'none' and (c['audit'] or c['mapping'] == 'ok') and c['read'] and site.startswith('http') and es
          and (quiet or c['noauth'] or all(authority(site, u, c['strict']) for u in es)))
    if not ok or quiet:
        h.count('audit' if ok and c['audit'] else 'in sync' if ok else 'refused')
        if ok and err is not None and c['mapping'] in ('ok', 'part'):
            return 'raises %s: %s' % (type(err).__name__, err)
        if not ok and err is None:
            return 'not refused'
        if after != before or new != old or gets:
            return 'something was done: %s' % (differ(after, before) or [old, new, gets])
        return None
    want, got, seen, failed = dict(before), [], [], False
    for us in (created, updated):
        for u in us:
            if rel(u) is None:
                failed = True
                break
            if c['dryrun']:
                continue
            got.append(u)
            if u == c['fail']:
                if c['ignore']:
                    continue
                failed = True
                break
            t = es[u]['lastmod']
            want[rel(u)] = (text(es[u]), None if t is None else float(int(t)))
            seen.append(t)
        if failed:
            break
    if not failed and c['allow'] and not c['dryrun']:
        for u in deleted:
            want.pop(rel(u), None)
    m = differ(after, want)
    if m:
        return m
    if gets != got:
        return 'requests %r, not %r' % (gets, got)
    if failed:
        h.count('stopped')
        if err is None:
            return 'no error'
        return None if new == old else 'state recorded after an error'
    if err is not None:
        return 'raises %s: %s' % (type(err).__name__, err)
    top = max([0] + [t for t in seen if t is not None])
    if not c['dryrun'] and top > 0:
        h.count('recorded')
        if new != top:
            return 'recorded %r, not %r' % (new, top)
    elif new != old:
        return 'recorded %r where nothing should be' % (new,)
    return None


def shrink(c):
    for i in range(len(c['entries'])):
        yield dict(c, entries=c['entries'][:i] + c['entries'][i + 1:])
    for u in c['local']:
        yield dict(c, local={k: f for k, f in c['local'].items() if k != u})
    for k, v in (('fail', None), ('noauth', False), ('strict', False), ('sitemap', None), ('dryrun', False), ('ignore', False),
                 ('hashes', False), ('old', None), ('audit', None)):
        if c[k] != v:
            yield dict(c, **{k: v})
