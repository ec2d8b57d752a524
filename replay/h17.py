"""C17: dumps."""
import os
import xml.etree.ElementTree as ET
import zipfile
import harness
from resync.dump import Dump, DumpError
from resync.resource import Resource
from resync.resource_list import ResourceList

WHAT = ('dumps of 0 to 9 files of 0 to 40 bytes in nested scratch directories, given as list, resource list or change list, with any '
        'limits, absolute or relative paths, missing files, wrong or missing lengths, written as ZIP files that are read back')
RS = '{http://www.openarchives.org/rs/terms/}'
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
NAMES = ['a', 'b', 'ab', 'abc', 'd/a', 'd/b', 'd/e/a', 'd/e/f/a', 'de/a', 'de/b', 'd e/a', 'd/..x', 'x..y/a', '.hid/a', 'd/manifest.xmlx',
         'dd/a.txt', 'd/e/b', '\u00e9/a', 'd/\u00fc', 'd/e/f/b', 'abd/c', 'a+b/c&d', 'd/...', '..d/a', '-x']


def gen(rng, h):
    under = rng.choice(['', '', 'd/', 'd/e/', 'ab/', 'q/r/s/'])
    names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9]))
    fs = [dict(name=under + n, size=rng.choice([0, 1, 2, 5, 5, 10, 20, 40]), length='ok' if rng.random() < .4 else None,
               how=rng.choice(['', '', '', '', '', '//', './'])) for n in names]
    if fs and rng.random() < .15:
        rng.choice(fs)[rng.choice(['length'])] = rng.choice([-1, 1, 7])
    if fs and rng.random() < .06:
        rng.choice(fs)['gone'] = True
    if fs and rng.random() < .05:
        rng.choice(fs)['nopath'] = True
    if fs and rng.random() < .02:
        rng.choice(fs)['name'] = under + 'manifest.xml'
    return dict(files=fs, max_size=rng.choice([1, 5, 10, 11, 20, 40, 41, 60, 100, 1000, 1000]), max_files=rng.choice([1, 1, 2, 2, 3, 4, 100]),
                relative=rng.random() < .4, kind=rng.choice(['list', 'list', 'resource']), compress=rng.random() < .5,
                separate=rng.random() < .3, fmt=rng.choice([None, 'zip', 'zip', 'tar']) if rng.random() < .1 else None,
                part=rng.random() < .2)


def run(c, h):
    d = h.dir()
    os.makedirs(os.path.join(d, 'src'))
    os.makedirs(os.path.join(d, 'out'))
    cwd = os.getcwd()
    os.chdir(os.path.join(d, 'src'))
    try:
        return pack(c, h, d)
    finally:
        os.chdir(cwd)


def pack(c, h, d):
    src = os.path.join(d, 'src')
    rs, want, bad = [], [], None
    for i, f in enumerate(c['files']):
        p = f['name']
        data = (b'%d:' % i + b'x' * 50)[:f['size']]
        if not f.get('gone'):
            os.makedirs(os.path.dirname(os.path.join(src, p)), exist_ok=True)
            with open(os.path.join(src, p), 'wb') as fh:
                fh.write(data)
        how = f['how']
        q = p if how == '' else p.replace('/', '//', 1) if how == '//' else './' + p
        if not c['relative']:
            q = os.path.join(src, q)
        n = f['length']
        length = None if n is None else f['size'] if n == 'ok' else max(0, f['size'] + n)
        if f.get('nopath'):
            q, bad = None, bad or 'no path'
        elif f.get('gone'):
            bad = bad or 'no file'
        elif length is not None and length != f['size']:
            bad = bad or 'length'
        elif f['size'] > c['max_size']:
            bad = bad or 'too large'
        rs.append(Resource('http://example.org/%02d' % i, path=q, length=length))
        want.append((rs[-1].uri, p, data))
    if c['kind'] == 'resource':
        given = ResourceList()
        for r in rs:
            given.add(r)
    else:
        given = rs
    dump = Dump(resources=given, format=c['fmt'], compress=c['compress'])
    dump.max_size, dump.max_files = c['max_size'], c['max_files']
    if c['part']:
        for r, (u, p, data) in zip(rs, want):
            r.length = len(data)
        return parts(c, h, [[r.uri for r in m.resources] for m in dump.partition_dumps()], want)
    base = os.path.join(d, 'out', 'x_')
    try:
        n = dump.write(base, c['separate'])
    except (DumpError, OSError) as e:
        if bad is None and c['fmt'] == 'tar' and rs and isinstance(e, DumpError):
            return None
        h.count('refused')
        if bad is None:
            return 'refused: %s' % e
        if os.listdir(os.path.join(d, 'out')):
            return 'refused (%s) after writing %r' % (e, os.listdir(os.path.join(d, 'out')))
        return None
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)
    if bad is not None:
        return 'not refused: ' + bad
    if c['fmt'] == 'tar':
        return 'unknown format is written' if rs else None
    for r, (u, p, data) in zip(rs, want):
        if r.length != len(data):
            return 'length of %s is %r, not %d' % (p, r.length, len(data))
    out = sorted(f for f in os.listdir(os.path.join(d, 'out')) if f.endswith('.zip'))
    if out != ['x_%05d.zip' % i for i in range(n)]:
        return 'wrote %d, there are %r' % (n, out)
    top = [p.split('/')[:-1] for u, p, data in want]
    cut = 0
    while top and all(len(t) > cut for t in top) and len({t[cut] for t in top}) == 1:
        cut += 1
    groups, removed, plain = [], set(), all(f['how'] == '' for f in c['files'])
    for f in out:
        with zipfile.ZipFile(os.path.join(d, 'out', f)) as z:
            names = z.namelist()
            if names.count('manifest.xml') > 1:
                return harness.known('manifest-name', 'a package has a file manifest.xml besides the manifest')
            if not names or names[0] != 'manifest.xml':
                return 'no manifest first: %r' % names
            listed = []
            for e in ET.fromstring(z.read('manifest.xml')).findall(SM + 'url'):
                md = e.find(RS + 'md')
                listed.append((e.find(SM + 'loc').text, md.get('path'), md.get('length')))
            if len(set(names)) != len(names) or sorted(names[1:]) != sorted(x[1] for x in listed):
                return 'files %r, listed %r' % (names, listed)
            groups.append([x[0] for x in listed])
            by = {u: (p, data) for u, p, data in want}
            for u, p, l in listed:
                if u not in by:
                    return 'lists %s' % u
                q, data = by[u]
                full = q if c['relative'] else os.path.join(src, q)
                removed.add(full[:len(full) - len(p)])
                if not ('/' + full).endswith('/' + p) or len(removed) > 1 or (plain and p != '/'.join(q.split('/')[cut:])):
                    return '%s is %r in the package' % (q, p)
                if z.read(p) != data:
                    return '%s has the content %r' % (p, z.read(p))
                if l != str(len(data)):
                    return 'length %r of %s' % (l, p)
    return parts(c, h, groups, want)


def parts(c, h, groups, want):
    """The resources are in order, and packages closed in time."""
    if [u for g in groups for u in g] != [u for u, p, data in want]:
        return 'packed %r' % groups
    size = {u: len(data) for u, p, data in want}
    h.count('packages %d' % min(len(groups), 3))
    for i, g in enumerate(groups):
        if not g:
            return 'empty package'
        full = lambda x: sum(size[u] for u in x) >= c['max_size'] or len(x) >= c['max_files']
        if i < len(groups) - 1 and not full(g):
            return 'package %d closed early: %r' % (i, groups)
        if any(full(g[:k]) for k in range(1, len(g))):
            return 'package %d closed late: %r' % (i, groups)
    return None


FIXED = [dict(files=[dict(name='s/manifest.xml', size=3, length=None, how=''), dict(name='s/b', size=2, length=None, how='')],
              max_size=100, max_files=10, relative=False, kind='list', compress=True, separate=False, fmt=None, part=False)]
