"""C19: building a resource list from disk."""
import hashlib
import os
import re
from resync.mapper import Mapper
from resync.resource_list import ResourceList, ResourceListDupeError
from resync.resource_list_builder import ResourceListBuilder

WHAT = ('scratch trees of up to 14 files in nested directories (hidden, with spaces, not ASCII), links to files, to directories and to '
        'nothing, files and directories that cannot be read, one or two mappings or paths given (also single files, missing ones), up to 4 exclude '
        'patterns, all options; compared with a walk of its own')
SEG = ['a', 'b', 'ab', 'a.txt', '.hid', 'x y', 'CVS', '.git', 'tmp', 'b.bak', '\u00e9', 'core', 'a~', 'abc', 'd', 'dd', 'd.d', '-x', 'a+b', 'A']
PATS = ['a', 'b$', r'.*\.bak$', r'\.', 'CVS', 'd', 'd$', r'.*~', 'ab', '[xy]', 'tmp$', '.*', 'zzz', 'A', '.*a$', '(?i)cvs', r'.*\/b', '', 'a|b', '.+b', '(', '*a']
HASH = ['md5', 'sha-1', 'sha-256']


def gen(rng, h):
    pats = PATS + [re.escape(s) for s in h.strs if 0 < len(s) < 8][:20]
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14])
    files = []
    for _ in range(n):
        p = '/'.join(rng.choice(SEG) for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, 4])))
        files.append(dict(path=p, size=rng.choice([0, 1, 3, 20, 20000]), mtime=rng.choice([0, 1, 1e9, 1.5e9 + .25, 1234567.5]),
                          kind=rng.choice(['file'] * 12 + ['link', 'link', 'dirlink', 'broken', 'unreadable', 'closed', 'list only'])))
    ways = rng.choice(['map', 'map', 'map', 'map2', 'paths', 'paths'])
    paths = []
    if ways == 'paths':
        for _ in range(rng.choice([0, 1, 1, 2])):
            paths.append(rng.choice(['', '', 'a', 'd', 'nothing'] + [f['path'] for f in files] +
                                    [os.path.dirname(f['path']) for f in files]))
    return dict(files=files, ways=ways, paths=paths, exclude=rng.sample(pats, rng.choice([0, 0, 1, 1, 2, 3, 4])),
                calls=rng.choice([1, 1, 2]), links=rng.random() < .4, length=rng.random() < .6, setpath=rng.random() < .4,
                hashes=rng.sample(HASH, rng.choice([0, 0, 1, 1, 2, 3])), nohash=rng.random() < .5, given=rng.random() < .3,
                at=rng.random() < .5, log=rng.choice([1, 2, 50000]), init=rng.random() < .5)


FIXED = [dict(files=[dict(path='a', size=3, mtime=5, kind='file'), dict(path='b', size=3, mtime=5, kind='unreadable'),
                     dict(path='c', size=3, mtime=5, kind='file')], ways='map', paths=[], exclude=[], calls=1, links=False, length=True,
              setpath=False, hashes=['md5'], nohash=False, given=False, at=False, log=50000, init=True),
         dict(files=[dict(path=p, size=1, mtime=7, kind='file') for p in ('a/x', 'ab/x', 'abc/y', 'b/a/z', 'b/c')], ways='map', paths=[],
              exclude=['a'], calls=1, links=False, length=True, setpath=True, hashes=[], nohash=True, given=False, at=False, log=1, init=False)]


def below(top, start, names):
    """All paths of what is no directory, below start; directories whose name is in names() are left out."""
    out = []
    try:
        es = sorted(os.listdir(start))
    except OSError:
        return []
    for e in es:
        p = start + ('' if start.endswith('/') else '/') + e
        if os.path.isdir(p):
            if not os.path.islink(p) and not names(e):
                out += below(top, p, names)
        else:
            out.append((e, p))
    return out


def run(c, h):
    locked = []
    try:
        return scan(c, h, locked)
    finally:
        for p in reversed(locked):
            os.chmod(p, 0o700)


def scan(c, h, locked):
    d = h.dir()
    tops = [os.path.join(d, 'one'), os.path.join(d, 'two')]
    out = os.path.join(d, 'out')
    for x in tops + [out]:
        os.makedirs(x)
    with open(os.path.join(out, 'real'), 'wb') as fh:
        fh.write(b'real')
    os.makedirs(os.path.join(out, 'dir'))
    with open(os.path.join(out, 'dir', 'inner'), 'wb') as fh:
        fh.write(b'inner')
    for i, f in enumerate(c['files']):
        top = tops[i % 2] if c['ways'] == 'map2' else tops[0]
        p = os.path.join(top, f['path'])
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                continue
            if f['kind'] in ('link', 'dirlink', 'broken'):
                os.symlink(os.path.join(out, {'link': 'real', 'dirlink': 'dir', 'broken': 'none'}[f['kind']]), p)
                continue
            if f['kind'] in ('closed', 'list only'):
                os.makedirs(p)
                with open(os.path.join(p, 'inner'), 'wb') as fh:
                    fh.write(b'inner')
                os.chmod(p, 0 if f['kind'] == 'closed' else 0o400)
                locked.append(p)
                continue
            with open(p, 'wb') as fh:
                fh.write((b'%d:' % i + b'x' * f['size'])[:f['size']])
            os.utime(p, (f['mtime'], f['mtime']))
            if f['kind'] == 'unreadable':
                os.chmod(p, 0)
                locked.append(p)
        except OSError:
            continue        # something else is there
    src = ['http://example.org/p', 'http://example.org/q/r']
    n = 2 if c['ways'] == 'map2' else 1
    mapper = Mapper(['%s=%s' % (src[i], tops[i]) for i in range(n)])
    hs = list(c['hashes']) if c['hashes'] or not c['nohash'] else None
    if c['init']:
        b = ResourceListBuilder(mapper=mapper, set_hashes=hs, set_length=c['length'], set_path=c['setpath'])
    else:
        b = ResourceListBuilder(set_hashes=hs, set_length=c['length'], set_path=c['setpath'])
        b.mapper = mapper
    b.include_symlinks = c['links']
    b.log_count_increment = c['log']
    try:
        ps = c['exclude']
        if c['calls'] == 1:
            b.add_exclude_patterns(ps)
        else:
            b.add_exclude_patterns(ps[:1])
            b.add_exclude_patterns(ps[1:])
    except ValueError:
        return None if any(bad(p) for p in ps) else 'good patterns were refused'
    if any(bad(p) for p in ps):
        return 'a bad pattern was accepted'
    given, at = None, None
    if c['given']:
        given = ResourceList()
        if c['at']:
            at = given.md_at = '2001-01-01T00:00:00Z'
    paths = None
    if c['ways'] == 'paths':
        paths = [os.path.join(tops[0], p) if p else tops[0] for p in c['paths']]
    # what should be there
    ex = lambda name: any(re.compile(p).match(name) for p in ps)
    want, dupe = {}, False
    for start in (paths if paths is not None else tops[:n]):
        cand = below(start, start, ex) if os.path.isdir(start) else [(start, start)]
        for name, p in cand:
            if ex(name) or (os.path.islink(p) and not c['links']):
                continue
            try:
                s = os.stat(p)
                data = b''
                if hs:
                    with open(p, 'rb') as fh:
                        data = fh.read()
            except OSError:
                h.count('cannot be examined')
                continue
            i = 0 if p.startswith(tops[0] + '/') else 1
            uri = src[i] + p[len(tops[i]):]
            dupe = dupe or uri in want
            dig = {x: hashlib.new(x.replace('-', ''), data).hexdigest() for x in hs or []}
            want[uri] = (s.st_mtime, s.st_size if c['length'] else None, p if c['setpath'] else None,
                         dig.get('md5'), dig.get('sha-1'), dig.get('sha-256'))
    try:
        got = b.from_disk(given, paths) if paths is not None else b.from_disk(given) if given is not None else b.from_disk()
    except ResourceListDupeError:
        h.count('twice')
        return None if dupe else 'a file was found twice'
    except Exception as e:
        return 'the scan ended with %s: %s' % (type(e).__name__, e)
    if dupe:
        return 'a file found twice was taken without an error'
    if given is not None and got is not given:
        return 'the list given was not extended'
    have = {}
    for r in got:
        if r.uri in have:
            return '%s is listed twice' % r.uri
        have[r.uri] = (r.timestamp, r.length, r.path, r.md5, r.sha1, r.sha256)
    cut = lambda u: u.replace(d, '')
    for u in sorted(want):
        if u not in have:
            return '%s is not listed' % cut(u)
        if have[u] != want[u]:
            return 'the entry of %s is %r, not %r' % (cut(u), have[u], want[u])
    for u in sorted(have):
        if u not in want:
            return '%s is listed' % cut(u)
    if at is not None and got.md_at != at or got.md_at is None or got.md_completed is None:
        return 'the times of the scan are %r, %r' % (got.md_at, got.md_completed)
    h.count('listed' if want else 'empty')


def bad(p):
    try:
        re.compile(p)
    except re.error:
        return True
    return False


def shrink(c):
    for i in range(len(c['files'])):
        yield dict(c, files=c['files'][:i] + c['files'][i + 1:])
    for i in range(len(c['exclude'])):
        yield dict(c, exclude=c['exclude'][:i] + c['exclude'][i + 1:])
    for k, v in (('hashes', []), ('given', False), ('setpath', False), ('links', False), ('length', False), ('calls', 1), ('init', True)):
        if c[k] != v:
            yield dict(c, **{k: v})
