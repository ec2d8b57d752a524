"""C05: update and delete of one resource."""
import http.client
import io
import os
import socket
import fake_web
from resync.client import Client, ClientFatalError
from resync.resource import Resource

WHAT = ('update_resource / delete_resource on files in a scratch tree, with timeouts, failures (when opening, while reading, '
        'making the directory), 1..4 attempts, timestamps of every kind, dry runs; the whole tree is compared')
FAILS = ['timeout', 'os', 'http', 'incomplete', 'value', 'url', 'late-timeout', 'late-os', 'late-http', '404']


def gen(rng, h):
    outcomes = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        outcomes.append(rng.choice(['timeout', 'timeout', 'late-timeout', 'ok', 'ok', rng.choice(FAILS)]))
    ts = rng.choice([None, 0, 1, 1.5, 999999999.999, 1500000000, 1600000000.25, 3e9])
    last = rng.choice([0, 0, 1.5, 1500000000, 2e9])
    if ts is not None and rng.random() < .3:
        last = max(ts + rng.choice([-1, -.5, -.001, .001, .5, 1]), 0)
    return dict(op=rng.choice(['update', 'update', 'update', 'delete']), outcomes=outcomes, ts=ts,
                last=last, tries=rng.choice([1, 2, 3, 4]),
                ignore=rng.random() < .5, dryrun=rng.random() < .15, allow=rng.random() < .7,
                target=rng.choice(['new', 'old', 'deep', 'dir', 'blocked']), timeout=rng.choice([None, 0.5, 3]),
                length=rng.choice([None, 0, 4, 7]), hash=rng.choice([None, 'md5', 'wrong']),
                change=rng.choice([None, 'created', 'updated', 'deleted']),
                content=rng.choice(['', 'x', 'body', 'b' * 40000]))


class Late(io.BytesIO):
    def __init__(self, e):
        io.BytesIO.__init__(self, b'part')
        self.e = e

    def read(self, *a):
        d = io.BytesIO.read(self, *a)
        if not d:
            raise self.e
        return d


def exc(o, body):
    k = o.split('-')[-1]
    e = {'timeout': lambda: socket.timeout('timed out'), 'os': lambda: OSError('broken'), 'value': lambda: ValueError('bad'),
         'http': lambda: http.client.BadStatusLine('x'), 'incomplete': lambda: http.client.IncompleteRead(b''),
         'url': lambda: http.client.InvalidURL('bad')}[k]()
    return Late(e) if o.startswith('late') else e


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            p = os.path.join(r, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = (f.read(), os.stat(p).st_mtime)
    return out


def run(c, h):
    d = h.dir()
    for n in ('other.txt', 'old'):
        with open(os.path.join(d, n), 'w') as f:
            f.write('was ' + n)
        os.utime(os.path.join(d, n), (1000, 1000))
    os.mkdir(os.path.join(d, 'dir'))
    rel = {'new': 'new.txt', 'old': 'old', 'deep': 'a/b/new.txt', 'dir': 'dir', 'blocked': 'old/x'}[c['target']]
    path = os.path.join(d, rel)
    body = c['content'].encode()
    n = [0]

    def page(req):
        o = c['outcomes'][min(n[0], len(c['outcomes']) - 1)]
        n[0] += 1
        if o == 'ok':
            return body
        if o == '404':
            return None
        return exc(o, body)
    uri = 'http://a.example/res/1'
    fake_web.PAGES[uri] = page
    cl = Client()
    cl.tries, cl.timeout, cl.ignore_failures, cl.dryrun = c['tries'], c['timeout'], c['ignore'], c['dryrun']
    cl.last_timestamp = c['last']
    if c['hash']:
        cl.hashes = {'md5', 'sha-256'}
    r = Resource(uri=uri, timestamp=c['ts'], length=c['length'], md5=c['hash'])
    before = tree(d)
    try:
        got = cl.update_resource(r, path, c['change']) if c['op'] == 'update' else cl.delete_resource(
            r, path, *([c['allow']] if c['allow'] or c['tries'] > 1 else []))
    except ClientFatalError as e:
        got = 'fatal'
    after = tree(d)
    urls = [x['url'] for x in fake_web.LOG]
    grown = max(c['last'], c['ts']) if c['ts'] is not None else c['last']
    if any(u != uri for u in urls):
        return 'requests %r' % urls
    if any(x['timeout'] != c['timeout'] for x in fake_web.LOG):
        return 'timeouts %r, not %r' % ([x['timeout'] for x in fake_web.LOG], c['timeout'])
    rest = lambda t, *x: {k: v for k, v in t.items() if k not in x}
    if c['op'] == 'delete':
        if urls:
            return 'delete makes requests'
        if got not in (0, 1):
            return 'delete gives %r' % (got,)
        ok = c['allow'] and not c['dryrun'] and c['target'] == 'old'
        if got != (1 if ok else 0):
            return 'delete gives %r, file %s' % (got, 'removable' if ok else 'to be kept or not there')
        if rest(after, rel) != rest(before, rel) if ok else after != before:
            return 'delete changes other files, or what it must not'
        if ok and rel in after:
            return 'not removed'
        if cl.last_timestamp != grown:
            return 'latest timestamp %r not %r' % (cl.last_timestamp, grown)
        return None
    if c['dryrun']:
        if got != 0 or urls or after != before or cl.last_timestamp != c['last']:
            return 'dry run: %r, %d requests, disk %s, latest %r' % (got, len(urls), after != before, cl.last_timestamp)
        return None
    # what should happen
    nreq, ok = 0, False
    if c['target'] != 'blocked':
        for i in range(c['tries']):
            o = c['outcomes'][min(i, len(c['outcomes']) - 1)]
            nreq += 1
            if c['target'] == 'dir' and (o == 'ok' or o.startswith('late')):
                break
            if o == 'ok':
                ok = True
                break
            if 'timeout' not in o:
                break
    if len(urls) != nreq:
        return '%d requests, not %d' % (len(urls), nreq)
    h.count('ok' if ok else 'fails')
    if ok:
        if got != 1:
            return 'downloaded but gives %r' % (got,)
        if rest(after, rel, 'a', 'a/b') != rest(before, rel):
            return 'changes other files'
        if after[rel][0] != body:
            return 'wrong content written'
        if c['ts'] is not None and after[rel][1] != int(c['ts']):
            return 'modification time %r for timestamp %r' % (after[rel][1], c['ts'])
        if cl.last_timestamp != grown:
            return 'latest timestamp %r not %r' % (cl.last_timestamp, grown)
    else:
        if got != (0 if c['ignore'] else 'fatal'):
            return 'failed download gives %r' % (got,)
        if rest(after, rel, 'a', 'a/b') != rest(before, rel):
            return 'changes other files'
        if rel in after and after[rel] is not None and after[rel] != before.get(rel) and c['ts'] is not None \
                and after[rel][1] == int(c['ts']):
            return 'sets the time after a failure'
        if cl.last_timestamp != c['last']:
            return 'latest timestamp %r after a failure' % (cl.last_timestamp,)
    return None


def shrink(c):
    for k, v in (('hash', None), ('length', None), ('change', None), ('content', 'x'), ('timeout', None), ('last', 0),
                 ('ts', None), ('tries', 1), ('dryrun', False), ('target', 'old')):
        if c[k] != v:
            yield dict(c, **{k: v})
    for i in range(len(c['outcomes'])):
        if len(c['outcomes']) > 1:
            yield dict(c, outcomes=c['outcomes'][:i] + c['outcomes'][i + 1:])
