"""C19: building a resource list from disk."""
import re

import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

B_ = 'resource_list_builder.ResourceListBuilder.'
ADD = 'resource_list.ResourceList.add'
TYPES = [('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')]
G = lambda ex, k: ex.st.ghost[k].t


def inc(ex, k):
    ex.st.ghost[k] = T('int', G(ex, k) + 1)


def zero(ex, *ks):
    for k in ks:
        ex.st.ghost[k] = T('int', z3.IntVal(0))


def st(ex, v):
    return ex.term(ex.split(v), 'str')


def exclude(u):
    """A name is excluded exactly if one of the patterns matches it (from its start)."""
    ex = u.ex
    P = ('ref', 'Pattern')
    s = u.old(u.seq(P, 'patterns'))
    name = u.sym('str', 'name')
    MATCH = z3.Function('matches', z3.IntSort(), ex.SS, z3.BoolSort())
    b = u.new('resource_list_builder.ResourceListBuilder')
    ex.cell(b).attrs['compiled_exclude_patterns'] = ex.alloc(ListCell(None, s))

    def attr(ex, p, nm):
        if nm not in ('match', 'search', 'fullmatch'):
            raise Unsupported('pattern.%s' % nm)
        M = MATCH if nm == 'match' else z3.Function(nm + 'es', z3.IntSort(), ex.SS, z3.BoolSort())

        def match(ex, a, k):
            return Opaque('match') if ex.branch(M(p.t, st(ex, a[0]))) else None
        return Builtin(nm, match)
    ex.ext['attr:ref:Pattern'] = attr
    none = u.fold(Pred('no match', s, lambda ex, e, i: z3.Not(MATCH(e.t, name.t))))
    k, r = u.attempt(lambda: u.method(b, '_exclude', name))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    u.prove('excluded exactly if a pattern matches', B(ex.truth(r)) == z3.Not(none.all_to(ex, z3.Length(s.t))))
    u.cover('excluded', z3.Not(none.all_to(ex, z3.Length(s.t))))
    u.cover('not excluded', z3.Length(s.t) > 1)


def patterns(u):
    """Patterns given are added to those there are, and all of them are compiled, in order."""
    ex = u.ex
    old, new = u.seq('str', 'old'), u.old(u.seq('str', 'new'))
    allp = z3.Concat(old.t, new.t)
    b = u.new('resource_list_builder.ResourceListBuilder')
    at = ex.cell(b).attrs
    at['exclude_patterns'] = ex.alloc(ListCell(None, old))
    at['compiled_exclude_patterns'] = ex.alloc(ListCell(None, u.seq(('ref', 'Pattern'), 'compiled before')))
    RE, GOOD = z3.Function('compiled', ex.SS, z3.IntSort()), z3.Function('is regular expression', ex.SS, z3.BoolSort())

    def compile_(ex, a, k):
        p = st(ex, a[0])
        u.prove('compiled without flags', len(a) == 1 and not k)
        if not ex.branch(GOOD(p)):
            raise_re(ex)
        return Ref(RE(p), 'Pattern')
    ex.ext['re.compile'] = compile_
    raise_re = lambda ex: ex.raise_(re.error, 'bad')
    k_ = z3.Int('k')

    def cands(ex, loop):
        out = []
        if loop.along is None:
            return out
        for q in loop.mod:
            c = loop.get(loop.entry_sym, q)
            if not isinstance(c, ListCell) or q in loop.poison:
                continue
            S = lambda v, q=q: v.loop.get(v.ex.st, q).seq.t
            if c.seq is not None and c.seq.ek == 'str':
                out.append(('added so far', lambda v, S=S: S(v) == z3.Concat(old.t, z3.Extract(new.t, 0, v.i))))
            else:
                out.append(('compiled so far', lambda v, S=S: z3.And(z3.Length(S(v)) == v.i, z3.ForAll([k_], z3.Implies(
                    z3.And(0 <= k_, k_ < v.i), nth(S(v), k_) == RE(v.loop.along.t[k_]))))))
                out.append(('all right so far', lambda v: z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < v.i), GOOD(v.loop.along.t[k_])))))
        return out

    def facts(ex, loop, i):
        if loop.along is None or not loop.along.t.eq(new.t):
            return []
        return [z3.Implies(z3.And(i >= 0, i < z3.Length(new.t)),
                           z3.Extract(new.t, 0, i + 1) == z3.Concat(z3.Extract(new.t, 0, i), z3.Unit(new.t[i])))]
    u.fold(Extra(cands, facts))
    k, r = u.attempt(lambda: u.method(b, 'add_exclude_patterns', ex.alloc(ListCell(None, new))))
    ps = seq_term(ex, u.get(b, 'exclude_patterns'), 'str')
    j = z3.Int('any pattern')
    u.prove('the patterns given are added to those there are', ps == allp)
    if k == 'raise':
        u.prove('refused with a value error (%s)' % r.name, u.is_exc(r, 'ValueError'))
        u.prove('only for a bad pattern', z3.Not(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < z3.Length(ps)), GOOD(ps[k_])))))
        u.cover('refused')
        return
    cs = seq_term(ex, u.get(b, 'compiled_exclude_patterns'), ('ref', 'Pattern'))
    u.prove('as many compiled', z3.Length(cs) == z3.Length(ps))
    u.prove('each is compiled', z3.Implies(z3.And(0 <= j, j < z3.Length(ps)), nth(cs, j) == RE(ps[j])))
    u.cover('compiled', z3.Length(new.t) > 1)


def disk(u):
    """Trusted contracts of what tells about files, as functions of the path."""
    ex = u.ex
    f = lambda n, s: z3.Function(n, ex.SS, s)
    D = dict(LINK=f('is link', z3.BoolSort()), STAT=f('can be examined', z3.BoolSort()), READ=f('can be read', z3.BoolSort()),
             MTIME=f('mtime', z3.RealSort()), SIZE=f('size', z3.IntSort()), MAPPED=f('is mapped', z3.BoolSort()), URI=f('uri of', ex.SS),
             EXC=f('is excluded', z3.BoolSort()), JOIN=z3.Function('join', ex.SS, ex.SS, ex.SS),
             DIGEST={a: f(a + ' of', ex.SS) for _, a in TYPES})

    def stat(ex, a, k):
        p = st(ex, a[0])
        if not ex.branch(D['STAT'](p)):
            ex.raise_(OSError, 'cannot be examined')
        return Opaque('stat', p)

    def sattr(ex, o, nm):
        if nm == 'st_mtime':
            return T('real', D['MTIME'](o.data))
        if nm == 'st_size':
            return T('int', D['SIZE'](o.data))
        raise Unsupported('stat.%s' % nm)

    def to_src(ex, a):
        p = st(ex, [v for k, v in a.items() if k != 'self'][0])
        if not ex.branch(D['MAPPED'](p)):
            ex.raise_(ex.project.cls('mapper.MapperError'), 'no URI')
        return T('str', D['URI'](p))
    ex.ext.update({'os.path.join': lambda ex, a, k: T('str', D['JOIN'](st(ex, a[0]), st(ex, a[1]))), 'os.stat': stat, 'attr:stat': sattr,
                   'os.path.islink': lambda ex, a, k: T('bool', D['LINK'](st(ex, a[0]))),
                   'os.path.getsize': lambda ex, a, k: sattr(ex, stat(ex, a, k), 'st_size'),
                   'os.path.getmtime': lambda ex, a, k: sattr(ex, stat(ex, a, k), 'st_mtime')})
    ex.models.update({'mapper.Mapper.dst_to_src': to_src,
                      B_ + '_exclude': lambda ex, a: T('bool', D['EXC'](st(ex, [v for k, v in a.items() if k != 'self'][0])))})
    return D


def add_file(u):
    ex = u.ex
    D = disk(u)
    name = u.sym('str', 'name')
    dir_ = u.opt('str', 'dir')
    path = z3.If(absent(dir_), name.t, D['JOIN'](val(dir_), name.t))
    links, length, setpath = [u.sym('bool', x) for x in ('include symlinks', 'set length', 'set path')]
    asked = u.seq('str', 'digests asked for')
    some = z3.Length(asked.t) > 0
    want = {a: z3.Contains(asked.t, z3.Unit(ex.lit(t))) for t, a in TYPES}
    types = None if u.when(z3.Bool('no digests')) else ex.alloc(ListCell(None, asked))
    if types is None:
        u.assume(z3.Length(asked.t) == 0)
    b = u.new('resource_list_builder.ResourceListBuilder', set_hashes=types, set_length=length, set_path=setpath,
              mapper=u.bare('mapper.Mapper'))
    ex.cell(b).attrs['include_symlinks'] = links
    rl = u.bare('resource_list.ResourceList')
    zero(ex, 'added')

    def hashes(ex, a):
        u.prove('the digests asked for are calculated', z3.BoolVal(ex.split(a['hashes']) == types))
        p = st(ex, a['file'])
        u.prove('those of the file', p == path)
        if not ex.branch(D['READ'](p)):
            ex.raise_(OSError, 'cannot be read')

    def set_(ex, a):
        r = ex.split([v for k, v in a.items() if k != 'self'][0])
        for t, x in TYPES:
            ex.setattr(r, x, U([(want[x], T('str', D['DIGEST'][x](path))), (z3.Not(want[x]), u.get(r, x))]))
    DUPE = z3.Const('is there already', z3.BoolSort())

    def add(ex, a):
        v = [v for k, v in a.items() if k != 'self']
        r = ex.split(v[0])
        u.prove('to the list given', z3.BoolVal(ex.split(a['self']) == rl))
        u.prove('no other is replaced', B(ex.truth(v[1])) == False if len(v) > 1 else True)
        is_ = lambda nm, there, t, kind: u.prove('the %s is that of the file' % nm if kind != 'none' else nm, is_opt(ex, u.get(r, nm), there, t, kind))
        is_('uri', True, D['URI'](path), 'str')
        is_('timestamp', True, D['MTIME'](path), 'real')
        is_('length', length.t, D['SIZE'](path), 'int')
        is_('path', setpath.t, path, 'str')
        for _, x in TYPES:
            is_(x, want[x], D['DIGEST'][x](path), 'str')
        for nm in ('change', 'mime_type', 'modified'):
            if nm in ('change', 'mime_type'):
                u.prove('nothing else is told (%s)' % nm, absent(u.get(r, nm)))
        inc(ex, 'added')
        if ex.branch(DUPE):
            ex.raise_(ex.project.cls('resource_list.ResourceListDupeError'), 'there already')
    ex.models.update({'hashes.Hashes.__init__': hashes, 'hashes.Hashes.set': set_, ADD: add})
    listed = z3.And(z3.Not(D['EXC'](name.t)), z3.Or(links.t, z3.Not(D['LINK'](path))), D['STAT'](path), z3.Or(z3.Not(some), D['READ'](path)))
    k, r = u.attempt(lambda: u.method(b, 'add_file', rl, dir_, name))
    n = G(ex, 'added')
    if k == 'raise':
        if u.is_exc(r, 'MapperError') is True:
            u.prove('an error if it has no URI', z3.And(z3.Not(D['MAPPED'](path)), n == 0))
        else:
            u.prove('or if its URI is there already (%s)' % r.name, z3.And(z3.BoolVal(r.name == 'ResourceListDupeError'), DUPE, n == 1))
        return
    u.prove('the file is listed exactly if it should be', z3.Implies(D['MAPPED'](path), z3.And(
        listed == (n == 1), z3.Or(n == 0, n == 1))))
    u.prove('without a URI it is not', z3.Implies(z3.Not(D['MAPPED'](path)), z3.And(n == 0, z3.Not(listed))))
    u.cover('listed', n == 1)
    u.cover('a link', z3.And(D['LINK'](path), links.t, n == 1))
    u.cover('cannot be examined', z3.And(z3.Not(D['STAT'](path)), D['MAPPED'](path)))
    u.cover('with digests', z3.And(some, n == 1))


def from_path(u):
    """All files of the directories that are gone through, and just those directories that are not excluded are gone into."""
    ex = u.ex
    V = ('ref', 'Visit')
    visits = u.old(u.seq(V, 'visits'))
    m = z3.Length(visits.t)
    SQ = z3.SeqSort(ex.SS)
    DIR, DIRS, FILES = [z3.Function(x, z3.IntSort(), y) for x, y in (('dir', ex.SS), ('dirs', SQ), ('files', SQ))]
    EXC = z3.Function('is excluded', ex.SS, z3.BoolSort())
    ISDIR = z3.Function('is directory', ex.SS, z3.BoolSort())
    path, x = u.sym('str', 'path'), u.sym('str', 'any directory').t
    X = z3.Unit(x)
    b = u.new('resource_list_builder.ResourceListBuilder', mapper=u.bare('mapper.Mapper'))
    rl = u.bare('resource_list.ResourceList')
    inc_ = u.sym('int', 'log count')
    u.assume(inc_.t > 0)
    ex.cell(b).attrs['log_count_increment'] = inc_
    zero(ex, 'added', 'visits', 'walks')
    ex.st.ghost['left'] = T('bool', z3.BoolVal(True))
    visit = lambda ex: visits.t[G(ex, 'visits') - 1]

    def walk(ex, a, k):
        top = a[1] if len(a) > 1 else k.get('topdown', True)
        follow = a[3] if len(a) > 3 else k.get('followlinks', False)
        u.prove('the directory given is gone through', st(ex, a[0] if a else k['top']) == path.t)
        u.prove('from the top', B(ex.truth(top)))
        u.prove('links are not followed', z3.Not(B(ex.truth(follow))))
        inc(ex, 'walks')
        return Opaque('walk')

    def over(ex, v):
        if not ex.in_for:
            raise Unsupported('os.walk gone through all at once')
        return ('seq', visits)

    def got(ex, v):
        inc(ex, 'visits')
        zero(ex, 'added')
        ex.st.ghost['left'] = T('bool', z3.Contains(DIRS(v.t), X))
        return ('list', [(True, T('str', DIR(v.t))), (True, Opaque('dirs', v.t)),
                         (True, ex.alloc(ListCell(None, Seq(FILES(v.t), 'str'))))])

    def dattr(ex, o, nm):
        if nm != 'remove':
            raise Unsupported('dirs.%s' % nm)

        def remove(ex, a, k):
            y = st(ex, a[0])
            u.prove('the list is not changed while it is gone through', z3.BoolVal(all(w is not o for w in ex.iterating)))
            u.prove('only a directory that is there is removed', z3.Implies(y == x, z3.Contains(DIRS(o.data), X)))
            ex.st.ghost['left'] = T('bool', z3.And(G(ex, 'left'), y != x))
        return Builtin('remove', remove)

    def dset(ex, o, idx, v):
        if not (isinstance(idx, slice) and idx.start is None and idx.stop is None and idx.step is None):
            raise Unsupported('dirs[..] =')
        s = seq_term(ex, v, 'str')
        u.prove('no other directories come in', z3.Implies(z3.Contains(s, X), G(ex, 'left')))
        ex.st.ghost['left'] = T('bool', z3.Contains(s, X))

    def unchanged(ex, o):
        s = Seq(DIRS(o.data), 'str')
        if ex.feasible(G(ex, 'left') != z3.Contains(s.t, X)):
            raise Unsupported('going through the directories after a change')
        return s
    diter = lambda ex, o: ('seq', unchanged(ex, o))
    dlen = lambda ex, o: T('int', z3.Length(unchanged(ex, o).t))
    dget = lambda ex, o, idx: ex.bi.getitem(ex.alloc(ListCell(None, unchanged(ex, o))), idx)

    def next_(ex, v):
        u.prove('all files of the directory were looked at', G(ex, 'added') == z3.Length(FILES(v.t)))
        u.prove('just the directories not excluded are gone into', G(ex, 'left') == z3.And(z3.Contains(DIRS(v.t), X), z3.Not(EXC(x))))

    def add(ex, a):
        v = visit(ex)
        i = G(ex, 'added')
        f = st(ex, a['file'])
        d = ex.split(a['dir'])
        u.prove('the list given is added to', z3.BoolVal(ex.split(a['resource_list']) == rl))
        if ex.branch(ISDIR(path.t)):
            u.prove('the next file of the directory', z3.And(i < z3.Length(FILES(v)), f == FILES(v)[i]))
            u.prove('in this directory', st(ex, d) == DIR(v) if d is not None else False)
        else:
            u.prove('the file itself', z3.And(f == path.t, z3.BoolVal(d is None)))
        inc(ex, 'added')
    ex.ext.update({'os.path.isdir': lambda ex, a, k: T('bool', ISDIR(st(ex, a[0]))), 'os.walk': walk, 'iter:walk': over, 'iter:ref:Visit': got,
                   'attr:dirs': dattr, 'setitem:dirs': dset, 'iter:dirs': diter, 'len:dirs': dlen, 'getitem:dirs': dget, 'next:ref:Visit': next_})
    ex.models.update({B_ + '_exclude': lambda ex, a: T('bool', EXC(st(ex, [v for k, v in a.items() if k != 'self'][0]))), B_ + 'add_file': add})

    def cands(ex, loop):
        if loop.along is None:
            return []
        out = []
        s = loop.along
        if s.t.eq(visits.t):
            return [('directories so far', lambda v: G(v.ex, 'visits') == v.i)]
        if ('ghost', 'added') in loop.mod:
            out.append(('files so far', lambda v: G(v.ex, 'added') == v.i))
        part = lambda v: z3.Extract(s.t, 0, v.i)
        for q in loop.mod:
            c = loop.get(loop.entry_sym, q)
            if isinstance(c, ListCell) and q not in loop.poison:
                S = lambda v, q=q: v.loop.get(v.ex.st, q).seq.t
                out += [('%s has the excluded ones' % q[-1], lambda v, S=S: z3.Contains(S(v), X) == z3.And(EXC(x), z3.Contains(part(v), X))),
                        ('%s has the other ones' % q[-1], lambda v, S=S: z3.Contains(S(v), X) == z3.And(z3.Not(EXC(x)), z3.Contains(part(v), X)))]
        if ('ghost', 'left') in loop.mod:
            l0 = loop.entry_sym.ghost['left'].t
            out += [('those gone through are removed', lambda v: G(v.ex, 'left') == z3.And(l0, z3.Not(z3.Contains(part(v), X)))),
                    ('the excluded ones are removed', lambda v: G(v.ex, 'left') == z3.And(l0, z3.Not(z3.And(EXC(x), z3.Contains(part(v), X)))))]
        return out

    def facts(ex, loop, i):
        if loop.along is None or loop.along.ek != 'str':
            return []
        s = loop.along.t
        C = lambda t: z3.Contains(t, X)
        E = lambda k: z3.Extract(s, 0, k)
        return [z3.Implies(z3.And(0 <= i, i < z3.Length(s)), C(E(i + 1)) == z3.Or(C(E(i)), s[i] == x)),
                z3.Not(C(E(z3.IntVal(0)))), C(E(z3.Length(s))) == C(s)]
    u.fold(Extra(cands, facts))
    k, r = u.attempt(lambda: u.method(b, 'from_disk_add_path', path, rl))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    isdir = ISDIR(path.t)
    u.prove('a directory is gone through once, and to the end', z3.Implies(isdir, z3.And(G(ex, 'walks') == 1, G(ex, 'visits') == m)))
    u.prove('a file is looked at once', z3.Implies(z3.Not(isdir), z3.And(G(ex, 'walks') == 0, G(ex, 'added') == 1)))
    u.cover('directory', m > 1)
    u.cover('file', z3.Not(isdir))


def from_disk(u):
    ex = u.ex
    MP = ('ref', 'Map')
    maps, given = u.old(u.seq(MP, 'mappings')), u.old(u.seq('str', 'paths'))
    mine = u.when(z3.Bool('paths given'))
    mp = u.bare('mapper.Mapper', mappings=ex.alloc(ListCell(None, maps)))
    b = u.new('resource_list_builder.ResourceListBuilder', mapper=mp)
    NOW = z3.Function('now', z3.IntSort(), ex.SS)
    zero(ex, 'done', 'times')

    def now(ex, a):
        if ex.split(a['dt']) is None:
            return None
        if not ex.branch(B(ex.eq(ex.split(a['dt']), 'now'))):
            raise Unsupported('other time')
        inc(ex, 'times')
        return T('str', NOW(G(ex, 'times')))
    want = lambda i: given.t[i] if mine else val(ex.ref_get(Ref(maps.t[i], 'Map'), 'dst_path'))
    n = z3.Length(given.t) if mine else z3.Length(maps.t)
    rl = None
    i_ = z3.Int('i')
    u.assume(z3.ForAll([i_], NOW(i_) != ex.lit('now')))
    ex.models['w3c_datetime.datetime_to_str'] = now
    md = u.opt('str', 'md_at')
    if u.when(z3.Bool('list given')):
        rl = u.new('resource_list.ResourceList')
        u.assume(z3.Or(absent(md), val(md) != ex.lit('now')))
        ex.setattr(rl, 'md_at', md)
    ex.st.ghost['list'] = rl

    def add_path(ex, a):
        i = G(ex, 'done')
        l = ex.split(a['resource_list'])
        u.prove('each path in turn', z3.And(i < n, st(ex, a['path']) == want(i)))
        u.prove('the time of the start is told', z3.Not(absent(u.get(l, 'md_at'))))
        u.prove('the same list for all', z3.BoolVal(isinstance(l, Oid) and (rl is None or l == rl)))
        inc(ex, 'done')
        ex.st.ghost['times'] = T('int', G(ex, 'times') + 1)
    ex.models.update({B_ + 'from_disk_add_path': add_path})

    def cands(ex, loop):
        out = [('paths so far', lambda v: G(v.ex, 'done') == v.i)] if ('ghost', 'done') in loop.mod else []
        k_ = z3.Int('k')
        for q in loop.mod:
            c = loop.get(loop.entry_sym, q)
            if isinstance(c, ListCell) and q not in loop.poison and c.seq is not None and c.seq.ek == 'str':
                S = lambda v, q=q: v.loop.get(v.ex.st, q).seq.t
                out.append(('the paths of the mappings', lambda v, S=S: z3.And(z3.Length(S(v)) == v.i, z3.ForAll([k_], z3.Implies(
                    z3.And(0 <= k_, k_ < v.i), nth(S(v), k_) == want(k_))))))
        return out
    u.fold(Extra(cands))
    k, r = u.attempt(lambda: u.method(b, 'from_disk', *([rl, ex.alloc(ListCell(None, given))] if mine else [rl])))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    r = ex.split(r)
    u.prove('every path is looked at', G(ex, 'done') == n)
    if rl is not None:
        u.prove('the list given is extended', z3.BoolVal(r == rl))
    at = u.get(r, 'md_at')
    had = z3.Not(absent(md)) if rl is not None else z3.BoolVal(False)
    u.prove('the time of the start is that of this scan unless it was told before', z3.And(
        z3.Not(absent(at)), z3.If(had, val(at) == val(md), val(at) == NOW(z3.IntVal(1)))))
    done = u.get(r, 'md_completed')
    u.prove('the time of the end is told', z3.And(z3.Not(absent(done)), val(done) == NOW(G(ex, 'times')), G(ex, 'times') > n))
    u.cover('some', n > 1)


RT = {'Resource': RESOURCE}
UNITS = [Unit('exclusion', exclude, B_ + '_exclude', reftypes={'Pattern': {}}, covers=['excluded', 'not excluded']),
         Unit('patterns', patterns, [B_ + 'add_exclude_patterns', B_ + '_compile_excludes'], reftypes={'Pattern': {}},
              covers=['refused', 'compiled']),
         Unit('one file', add_file, [B_ + 'add_file', B_ + '__init__'], reftypes=RT,
              covers=['listed', 'a link', 'cannot be examined', 'with digests']),
         Unit('one path', from_path, B_ + 'from_disk_add_path', reftypes={'Visit': {}}, covers=['directory', 'file']),
         Unit('scan', from_disk, B_ + 'from_disk', reftypes={'Map': {'dst_path': 'str'}}, covers=['some'])]
CONF = dict(assumptions=[
    'os.walk as documented: top down, it gives the files of each directory and goes into those directories left in the list it gave, not following links',
    'os.stat, islink, isdir tell about the file of the path given; a file does not change during the scan of it; digests by the contract of Hashes (C16)',
    'a compiled pattern matches as re.match of the pattern; paths without a URI and URIs listed twice are errors, not left out'])
