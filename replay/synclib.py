"""Common parts of h03 and h04: documents, authority, the tree of local copies."""
import os
import xml.sax.saxutils as sx
from urllib.parse import urlsplit

BASE = 'http://a.example/src'
URIS = [BASE + '/f0', BASE + '/f1', BASE + '/f2', BASE + '/d/f3', BASE + '/d/f4', BASE + '/e f']
ODD = ['http://sub.a.example/src/f0', 'http://b.example/src/f1', 'https://a.example/src/f1', 'http://a.example/srcx/f1',
       'http://xa.example/src/f2', 'http://a.example/up']


def w3c(t):
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return d.isoformat() + 'Z'


def doc(capability, entries):
    x = ['<?xml version="1.0" encoding="UTF-8"?>\n<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
         'xmlns:rs="http://www.openarchives.org/rs/terms/"><rs:md capability="%s"/>' % capability]
    for e in entries:
        x.append('<url><loc>%s</loc>' % sx.escape(e['uri']))
        if e.get('lastmod') is not None:
            x.append('<lastmod>%s</lastmod>' % w3c(e['lastmod']))
        at = ''
        if e.get('change') is not None:
            at += ' change="%s"' % e['change']
        if e.get('when') is not None:
            at += ' datetime="%s"' % w3c(e['when'])
        if e.get('length') is not None:
            at += ' length="%d"' % e['length']
        if e.get('md5') is not None:
            at += ' hash="md5:%s"' % e['md5']
        if at:
            x.append('<rs:md%s/>' % at)
        x.append('</url>')
    return (''.join(x) + '</urlset>').encode()


def authority(url, uri, strict):
    a, b = urlsplit(url), urlsplit(uri)
    if a.scheme != b.scheme:
        return False
    if not (a.netloc == b.netloc or b.netloc.endswith('.' + a.netloc)):
        return False
    if strict:
        da, db = a.path.split('/')[:-1], b.path.split('/')[:-1]
        return db[:len(da)] == da
    return True


def rel(uri):
    """Path below the destination of a mapped URI, else None."""
    return uri[len(BASE) + 1:] if uri.startswith(BASE + '/') else None


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = (fh.read().decode(), os.stat(p).st_mtime)
    return out


def fill(d, files):
    for name, (body, mtime) in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(body)
        os.utime(p, (mtime, mtime))


def differ(got, want, loose=()):
    """Difference of two trees; for names in loose the time does not count."""
    for k in sorted(set(got) | set(want)):
        if k not in got:
            return '%s is not there' % k
        if k not in want:
            return '%s should not be there' % k
        if got[k][0] != want[k][0]:
            return '%s has content %r, not %r' % (k, got[k][0], want[k][0])
        if want[k][1] is not None and got[k][1] != want[k][1]:
            return '%s has time %r, not %r' % (k, got[k][1], want[k][1])
    return None
