"""C17: packing a dump."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

D = 'dump.Dump.'
PACKED = dict(RESOURCE, length='int', path='str')       # as check_files leaves them
M = ('ref', 'Manifest')
RT = {'Resource': PACKED, 'Manifest': {'start': 'int', 'stop': 'int'}}


def partition(u):
    """Manifests are numbered as they are made, and know from where to where in the list they have the resources."""
    ex = u.ex
    s = u.old(u.seq(R, 'resources'))
    n = z3.Length(s.t)
    d = u.new('dump.Dump')
    at = ex.cell(d).attrs
    at['resources'] = ex.alloc(ListCell(None, s))
    top, files = u.sym('int', 'max_size').t, u.sym('int', 'max_files').t
    at['max_size'], at['max_files'] = T('int', top), T('int', files)
    size = u.fold(Fold('size', s, 'int', z3.IntVal(0), lambda ex, q, e, i: q + val(fget(ex, 'length', e.t))))
    P = lambda i: size.at(ex, i)
    full = lambda a, b: z3.Or(P(b) - P(a) >= top, b - a >= files)
    g = ex.st.ghost
    g['made'] = g['at'] = T('int', z3.IntVal(0))
    G = lambda ex, k: ex.st.ghost[k].t

    def make(ex, a, k):
        m = Ref(G(ex, 'made'), 'Manifest')
        ex.st.ghost['made'] = T('int', G(ex, 'made') + 1)
        ex.ref_set(m, 'start', T('int', G(ex, 'at')))
        ex.ref_set(m, 'stop', T('int', G(ex, 'at')))
        return m

    def attr(ex, m, nm):
        if nm != 'add':
            raise Unsupported('manifest.%s' % nm)

        def add(ex, a, k):
            r = ex.split(a[0])
            pos = G(ex, 'at')
            u.prove('the next resource is added, and to the manifest that goes on there', z3.And(
                pos < n, r.t == s.t[pos], ex.ref_get(m, 'stop').t == pos))
            ex.ref_set(m, 'stop', T('int', pos + 1))
            ex.st.ghost['at'] = T('int', pos + 1)
        return Builtin('add', add)
    at['manifest_class'] = Builtin('manifest_class', make)
    ex.ext['attr:ref:Manifest'] = attr
    start, stop = [lambda v, m, nm=nm: v.ex.ref_get(Ref(m, 'Manifest'), nm).t for nm in ('start', 'stop')]

    def whole(v, ys, cnt):
        """The manifests given out so far follow each other from the start, are full and were not full before."""
        k, p = z3.Int('k'), z3.Int('p')
        a, b = start(v, k), stop(v, k)
        return [('given out in the order made', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), nth(ys, k) == k))),
                ('one after another', z3.ForAll([k], z3.Implies(z3.And(0 < k, k < cnt), a == stop(v, k - 1)))),
                ('from the start', z3.Implies(cnt > 0, start(v, z3.IntVal(0)) == 0)),
                ('not empty', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), z3.And(0 <= a, a < b)))),
                ('full', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), full(a, b)))),
                ('never before', z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < cnt, a < p, p < b), z3.Not(full(a, p)))))]

    def cands(ex, loop):
        if ('ghost', 'at') not in loop.mod:
            return []
        out = [('one resource each time', lambda v: G(v.ex, 'at') == v.i)]
        ys = [k for k in loop.mod if k[0] == 'cell' and isinstance(loop.get(loop.entry_sym, k), ListCell)]
        for k in ys:
            Y = lambda v, k=k: v.ex.seq_of(v.loop.get(v.ex.st, k), M).t
            cnt = lambda v, Y=Y: z3.Length(Y(v))
            out.append(('as many made as given out, and one', lambda v, cnt=cnt: G(v.ex, 'made') == cnt(v) + 1))
            for i, nm in enumerate(('given out in the order made', 'one after another', 'from the start', 'not empty', 'full', 'never before')):
                out.append((nm, lambda v, i=i, Y=Y, cnt=cnt: whole(v, Y(v), cnt(v))[i][1]))
            p = z3.Int('p')
            c = lambda v, cnt=cnt: cnt(v)
            out += [('the manifest at hand goes on there', lambda v, c=c: z3.And(
                        start(v, c(v)) == z3.If(c(v) == 0, 0, stop(v, c(v) - 1)), 0 <= start(v, c(v)), start(v, c(v)) <= v.i,
                        stop(v, c(v)) == v.i)),
                    ('and is not full', lambda v, c=c: z3.ForAll([p], z3.Implies(z3.And(start(v, c(v)) < p, p <= v.i), z3.Not(
                        full(start(v, c(v)), p)))))]
            for q in loop.mod:
                if q[0] != 'local' or q in loop.poison:
                    continue
                x = loop.get(loop.entry_sym, q)
                if isinstance(x, Ref) and x.cls == 'Manifest':
                    out.append(('%s is the manifest at hand' % q[-1], lambda v, q=q, c=c: v.loop.get(v.ex.st, q).t == c(v)))
                elif isinstance(x, T) and x.k == 'int' or (isinstance(x, int) and not isinstance(x, bool)):
                    y = lambda v, q=q: v.ex.term(v.loop.get(v.ex.st, q), "int")
                    out += [('%s is the size' % q[-1], lambda v, y=y, c=c: y(v) == P(v.i) - P(start(v, c(v)))),
                            ('%s is the number of files' % q[-1], lambda v, y=y, c=c: y(v) == v.i - start(v, c(v)))]
        return out
    u.fold(Extra(cands))
    k, r = u.attempt(lambda: ex.bi.list_of(u.method(d, 'partition_dumps')) if False else u.method(d, 'partition_dumps'))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    src = ex.bi.items_of(r)
    ys = src[1].t if src[0] == 'seq' else seq_term(ex, tuple(v for _, v in src[1]), M)
    cnt = z3.Length(ys)
    kk, p = z3.Int('any package'), z3.Int('any place')
    S, E = lambda m: ex.ref_get(Ref(m, 'Manifest'), 'start').t, lambda m: ex.ref_get(Ref(m, 'Manifest'), 'stop').t
    inn = z3.And(0 <= kk, kk < cnt)
    at = lambda k: nth(ys, k)
    u.lemma('packages in the order made', z3.And(z3.Implies(inn, at(kk) == kk), z3.Implies(z3.And(inn, kk > 0), at(kk - 1) == kk - 1),
                                                 z3.Implies(cnt > 0, z3.And(at(0) == 0, at(cnt - 1) == cnt - 1))))
    a, b = S(kk), E(kk)       # those of at(kk), by the lemma
    u.prove('nothing is packed if there is nothing', (n == 0) == (cnt == 0))
    u.prove('the first package has the first resource', z3.Implies(n > 0, S(at(0)) == 0))
    u.prove('the last package has the last resource', z3.Implies(n > 0, E(at(cnt - 1)) == n))
    u.prove('the next goes on where the last one ends', z3.Implies(z3.And(inn, kk > 0), a == E(kk - 1)))
    u.prove('no package is empty', z3.Implies(inn, a < b))
    u.prove('a package is closed when it is full', z3.Implies(z3.And(inn, kk < cnt - 1), full(a, b)))
    u.prove('and never before', z3.Implies(z3.And(inn, a < p, p < b), z3.Not(full(a, p))))
    u.cover('several', cnt > 2)
    u.cover('none', n == 0)



def J(p):
    """The path of a directory with the slash that ends it."""
    e, sl = z3.StringVal(''), z3.StringVal('/')
    return z3.If(z3.Or(p == e, z3.SuffixOf(sl, p)), p, z3.Concat(p, sl))


def paths(u, D, target):
    """Trusted contracts of os.path.commonprefix and dirname (D: any path of a directory, with its slash; target: any path)."""
    ex = u.ex
    CP, DN = z3.Function('commonprefix', ex.SS, ex.SS, ex.SS), z3.Function('dirname', ex.SS, ex.SS)
    st = lambda v: ex.term(ex.split(v), 'str')

    def commonprefix(ex, a, k):
        xs = ex.bi.concrete_items(ex.split(a[0]))
        if len(xs) != 2:
            raise Unsupported('commonprefix of %d' % len(xs))
        x, y = [st(v) for v in xs]
        c = CP(x, y)
        ex.assume(z3.And(z3.PrefixOf(c, x), z3.PrefixOf(c, y),
                         z3.Implies(z3.And(z3.PrefixOf(D, x), z3.PrefixOf(D, y)), z3.PrefixOf(D, c))))
        # what begins with x begins with c
        ex.assume(z3.Implies(z3.Or(z3.PrefixOf(x, target), z3.PrefixOf(y, target)), z3.PrefixOf(c, target)))
        # a part of something without // has none
        ex.assume(z3.Implies(z3.And(NN(x), NN(y)), NN(c)))
        return T('str', c)

    def dirname(ex, a, k):
        p = st(a[0])
        d = DN(p)
        ex.assume(z3.PrefixOf(J(d), p))
        ex.assume(z3.Implies(z3.PrefixOf(p, target), z3.PrefixOf(J(d), target)))
        ex.assume(z3.Implies(z3.And(NN(p), z3.PrefixOf(D, p)), z3.PrefixOf(D, J(d))))
        ex.assume(z3.Implies(NN(p), NN(J(d))))
        return T('str', d)
    NN = z3.Function('no_double_slash', ex.SS, z3.BoolSort())
    ex.ext.update({'os.path.commonprefix': commonprefix, 'os.path.dirname': dirname})
    return NN


def check(fine):
    def unit(u):
        ex = u.ex
        s = u.old(u.seq(R, 'resources'))
        n = z3.Length(s.t)
        d = u.new('dump.Dump')
        at = ex.cell(d).attrs
        at['resources'] = ex.alloc(ListCell(None, s))
        top = u.sym('int', 'max_size').t
        at['max_size'] = T('int', top)
        SIZE, THERE = z3.Function('size_on_disk', ex.SS, z3.IntSort()), z3.Function('file_is_there', ex.SS, z3.BoolSort())
        dd = u.sym('str', 'directory').t
        u.assume(z3.SuffixOf(z3.StringVal('/'), dd))
        def getsize(ex, a, k):
            p = ex.term(ex.split(a[0]), 'str')
            if not ex.branch(THERE(p)):
                ex.raise_(OSError, 'no such file')
            return T('int', SIZE(p))
        ex.ext['os.path.getsize'] = getsize
        has = lambda k: z3.Not(absent(fget(ex, 'path', s.t[k])))
        path = lambda k: val(fget(ex, 'path', s.t[k]))
        l0 = fget(ex, 'length', z3.Int('x'))
        none0, len0 = [z3.simplify(x) for x in (absent(l0), val(l0))]
        NONE0, LEN0 = [lambda k, t=t: z3.substitute(t, (z3.Int('x'), s.t[k])) for t in (none0, len0)]
        size = lambda k: SIZE(path(k))
        good = lambda k: z3.And(has(k), THERE(path(k)), z3.Or(NONE0(k), LEN0(k) == size(k)), size(k) <= top)
        j, k_ = z3.Ints('any k')
        NN = paths(u, dd, path(j))
        u.assume(z3.And(0 <= j, j < n))
        if fine:
            u.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), good(k_))))
            u.assume(z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n), z3.And(z3.PrefixOf(dd, path(k_)), NN(path(k_))))))
        else:
            u.assume(z3.Not(good(j)))

        def cur(v, k):
            x = v.ex.ref_get(Ref(s.t[k], 'Resource'), 'length')
            return absent(x), val(x)

        def cands(ex, loop):
            if loop.along is None or not loop.along.t.eq(s.t):
                return []
            out = [('all were fine', lambda v: z3.Implies(j < v.i, good(j)))]

            def lengths(v, k):
                a, b = cur(v, k)
                return z3.Or(z3.And(a == NONE0(k), z3.Implies(z3.Not(a), b == LEN0(k))), z3.And(z3.Not(a), b == size(k), NONE0(k), has(k)))
            out.append(('lengths are as they were, or filled in', lambda v: z3.ForAll([k_], z3.Implies(
                z3.And(0 <= k_, k_ < n), lengths(v, k_)))))
            out.append(('lengths are filled in', lambda v: z3.Implies(j < v.i, z3.And(z3.Not(cur(v, j)[0]), cur(v, j)[1] == size(j)))))
            for q in loop.mod:
                if q[0] != 'local' or q in loop.poison or not fine:
                    continue
                x = lambda v, q=q: v.loop.get(v.ex.st, q)

                def common(v, x=x):
                    p = [w for _, w in alts(x(v)) if w is not None]
                    if len(p) != 1:
                        return absent(x(v)) == (v.i == 0)
                    t = v.ex.term(p[0], 'str')
                    return z3.And(absent(x(v)) == (v.i == 0), z3.Implies(v.i > 0, z3.And(z3.PrefixOf(dd, J(t)), NN(J(t)))))

                def of_any(v, x=x):
                    p = [w for _, w in alts(x(v)) if w is not None]
                    return z3.BoolVal(True) if len(p) != 1 else z3.Implies(j < v.i, z3.PrefixOf(J(v.ex.term(p[0], 'str')), path(j)))
                e = loop.get(loop.entry_sym, q)
                if e is None or isinstance(e, U):
                    out += [('%s: directory common so far' % q[-1], common), ('%s: directory of each' % q[-1], of_any)]
            return out
        u.fold(Extra(cands))
        k, r = u.attempt(lambda: u.method(d, 'check_files'))
        if k == 'raise':
            u.prove('an error only if something is wrong (%s)' % r.name, not fine)
            u.prove('the error says so', r.name in ('DumpError', 'OSError', 'FileNotFoundError'))
            u.cover('refused')
            return
        u.prove('accepted only if all is right', fine)
        if not fine:
            return
        x = ex.ref_get(Ref(s.t[j], 'Resource'), 'length')
        u.prove('the length is that of the file', z3.And(z3.Not(absent(x)), val(x) == size(j)))
        p = u.get(d, 'path_prefix')
        u.prove('there is a common directory', z3.Not(absent(p)))
        u.prove('every path begins with it', z3.PrefixOf(J(val(p)), path(j)))
        u.prove('it is as long as can be', z3.PrefixOf(dd, J(val(p))))
        u.cover('accepted', n > 1)
    return unit


def any_of(x):
    """Regular expression: some .. segment."""
    sl, every = z3.Re('/'), z3.Full(z3.ReSort(z3.StringSort()))
    return z3.InRe(x, z3.Concat(z3.Option(z3.Concat(every, sl)), z3.Re('..'), z3.Option(z3.Concat(sl, every))))


def in_archive(u):
    """The path less the common directory."""
    ex = u.ex
    d = u.new('dump.Dump')
    p = u.sym('str', 'path')
    rest = u.sym('str', 'rest').t
    st = lambda v: ex.term(ex.split(v), 'str')
    REL, NORM = z3.Function('relpath', ex.SS, ex.SS, ex.SS), z3.Function('normpath', ex.SS, ex.SS)
    PLAIN = z3.Function('plain', ex.SS, z3.BoolSort())     # segments, none of them empty, . or ..
    UP = any_of
    u.assume(z3.Implies(PLAIN(rest), z3.And(z3.Not(z3.PrefixOf(z3.StringVal('/'), rest)), z3.Not(UP(rest)), rest != z3.StringVal(''))))

    def relpath(ex, a, k):
        x, b = st(a[0]), st(a[1])
        r = REL(x, b)
        # trusted: below the start, what follows it, normalized
        ex.assume(z3.Implies(z3.And(x == z3.Concat(J(b), rest), PLAIN(rest)), r == rest))
        ex.assume(z3.Implies(z3.And(x == z3.Concat(J(b), rest), z3.Not(UP(rest))), z3.And(
            z3.Not(UP(r)), z3.Not(z3.PrefixOf(z3.StringVal('/'), r)))))
        return T('str', r)

    def normpath(ex, a, k):
        x = st(a[0])
        r = NORM(x)
        ex.assume(z3.And(z3.Implies(PLAIN(x), r == x), z3.Implies(z3.Not(UP(x)), z3.Not(UP(r)))))
        return T('str', r)
    ex.ext.update({'os.path.relpath': relpath, 'os.path.normpath': normpath})
    if u.when(z3.Bool('common directory')):
        pre = u.sym('str', 'prefix')
        u.assume(pre.t != z3.StringVal(''))
        u.assume(p.t == z3.Concat(J(pre.t), rest))
        ex.cell(d).attrs['path_prefix'] = pre
    else:
        ex.cell(d).attrs['path_prefix'] = None if u.when(z3.Bool('not looked for')) else ''
        pre = None
        u.assume(p.t == rest)
    k, r = u.attempt(lambda: u.method(d, 'archive_path', p))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    t = st(r)
    u.prove('the path less the common directory', z3.Implies(PLAIN(rest), t == rest))
    u.prove('never absolute', z3.Implies(z3.Not(UP(rest)), z3.Not(z3.PrefixOf(z3.StringVal('/'), t))))
    if pre is not None:
        u.prove('never up', z3.Implies(z3.Not(UP(rest)), z3.Not(UP(t))))
        u.cover('below', PLAIN(rest))
    else:
        sl = z3.Star(z3.Re('/'))
        k = z3.Int('slashes')
        u.prove('never up', z3.Implies(z3.Not(UP(rest)), z3.Not(z3.PrefixOf(z3.StringVal('../'), t))))
        u.cover('as it is', PLAIN(rest))


def write_zip(u):
    ex = u.ex
    s = u.old(u.seq(R, 'resources'))
    n = z3.Length(s.t)
    d = u.new('dump.Dump', compress=u.sym('bool', 'compress'))
    k, l = z3.Ints('k l')
    path0 = lambda i: val(fget(ex, 'path', s.t[i]))
    P0 = z3.Function('path_before', z3.IntSort(), ex.SS)
    u.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), P0(k) == path0(k))))
    AP = z3.Function('archive_path', ex.SS, ex.SS)
    inn = lambda *xs: z3.And(*[z3.And(0 <= x, x < n) for x in xs])
    u.assume(z3.ForAll([k, l], z3.Implies(z3.And(inn(k, l), k != l), s.t[k] != s.t[l])))
    u.assume(z3.ForAll([k, l], z3.Implies(z3.And(inn(k, l), AP(P0(k)) == AP(P0(l))), P0(k) == P0(l))))
    g = ex.st.ghost
    for x in ('packed', 'manifests', 'opened', 'closed'):
        g[x] = T('int', z3.IntVal(0))
    G = lambda ex, x: ex.st.ghost[x].t
    inc = lambda ex, x: ex.st.ghost.__setitem__(x, T('int', G(ex, x) + 1))
    st = lambda v: ex.term(ex.split(v), 'str')
    now = lambda ex, i: val(ex.ref_get(Ref(s.t[i], 'Resource'), 'path'))
    file = u.sym('str', 'dumpfile')
    lst = ex.alloc(ListCell(None, s))
    text = z3.Const('manifest text', ex.SS)

    def archive_path(ex, a):
        return T('str', AP(st([v for x, v in a.items() if x != 'self'][0])))

    def zipfile(ex, a, kw):
        u.prove('the file asked for is written', z3.And(B(ex.eq(ex.split(a[0]), file)), z3.BoolVal(
            (a[1] if len(a) > 1 else kw.get('mode')) == 'w')))
        inc(ex, 'opened')
        return Opaque('zip', None)

    def attr(ex, v, nm):
        def writestr(ex, a, kw):
            u.prove('the manifest has its name', ex.eq(a[0], 'manifest.xml') is True)
            u.prove('the manifest is the text of the manifest', B(ex.eq(a[1], T('str', text))))
            u.prove('the manifest comes first', z3.And(G(ex, 'packed') == 0, G(ex, 'manifests') == 0))
            inc(ex, 'manifests')

        def write(ex, a, kw):
            m = G(ex, 'packed')
            u.prove('no more files than resources', m < n)
            name = kw.get('arcname', a[1] if len(a) > 1 else None)
            u.prove('the content is that of the file of the next resource', st(a[0]) == P0(m))
            u.prove('its name is its path in the archive', st(name) == AP(P0(m)))
            inc(ex, 'packed')

        def close(ex, a, kw):
            inc(ex, 'closed')
        if nm not in ('writestr', 'write', 'close'):
            raise Unsupported('ZipFile.%s' % nm)
        return Builtin(nm, dict(writestr=writestr, write=write, close=close)[nm])

    def as_xml(ex, a):
        m = ex.split(a['self'])
        u.prove('the manifest lists the resources packed', z3.BoolVal(ex.split(u.get(m, 'resources')) == lst))
        i = z3.Int('any')
        ex.assume(inn(i))
        u.prove('and under the names that they have in the package', now(ex, i) == AP(P0(i)))
        return T('str', text)
    ex.models.update({D + 'archive_path': archive_path, 'list_base_with_index.ListBaseWithIndex.as_xml': as_xml})
    ex.ext.update({'zipfile.ZipFile': zipfile, 'attr:zip': attr, 'enter:zip': lambda ex, v: v, 'exit:zip': lambda ex, v: inc(ex, 'closed'),
                   'zipfile.ZIP_DEFLATED': 8, 'zipfile.ZIP_STORED': 0, 'os.path.getsize': lambda ex, a, kw: ex.fresh('int', 'zipsize')})

    def cands(ex, loop):
        if loop.along is None or not loop.along.t.eq(s.t):
            return []
        out = []
        if ('ghost', 'packed') in loop.mod:
            out.append(('packed so far', lambda v: G(v.ex, 'packed') == v.i))
        out += [('paths not come to are as before', lambda v: z3.ForAll([k], z3.Implies(z3.And(v.i <= k, k < n), now(v.ex, k) == P0(k)))),
                ('others are those in the archive', lambda v: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.i), now(v.ex, k) == AP(P0(k)))))]
        for q in loop.mod:
            c = loop.get(loop.entry_sym, q)
            if isinstance(c, DictCell) and c.sym is not None and c.sym[2] == 'str':
                dv = lambda v, q=q: v.loop.get(v.ex.st, q).sym
                out += [('known by the name in the archive', lambda v, dv=dv: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.i), z3.Select(
                    dv(v)[0], AP(P0(k)))))),
                        ('the file that has it', lambda v, dv=dv: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.i), z3.Select(
                            dv(v)[1], AP(P0(k))) == P0(k))))]
        return out
    u.fold(Extra(cands))
    kk, r = u.attempt(lambda: u.method(d, 'write_zip', lst, file))
    if kk == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    g = ex.st.ghost
    u.prove('all resources are packed', g['packed'].t == n)
    u.prove('one manifest', g['manifests'].t == 1)
    u.prove('one package, closed', z3.And(g['opened'].t == 1, g['closed'].t == 1))
    u.cover('packed', n > 1)


def write(u):
    ex = u.ex
    ys = u.seq(M, 'packages')
    n = z3.Length(ys.t)
    sep = u.sym('bool', 'separate manifests')
    zipped = u.when(z3.Bool('zip'))
    d = u.new('dump.Dump', format='zip' if zipped else 'tar')
    base = u.sym('str', 'basename')
    g = ex.st.ghost
    g['checked'] = g['written'] = T('int', z3.IntVal(0))
    G = lambda ex, x: ex.st.ghost[x].t
    inc = lambda ex, x: ex.st.ghost.__setitem__(x, T('int', G(ex, x) + 1))
    FMT = lambda i: ex.bi.uf('fmt%05d', [T('int', i)], 'str').t
    name = lambda i, e: z3.Concat(base.t, FMT(i), z3.StringVal(e))

    def check(ex, a):
        u.prove('lengths are checked and filled in', all(B(ex.truth(v)) is True or z3.is_true(z3.simplify(B(ex.truth(v))))
                                                         for x, v in a.items() if x != 'self'))
        inc(ex, 'checked')
        return True

    def partition(ex, a):
        u.prove('checked before packing', G(ex, 'checked') == 1)
        return ex.alloc(ListCell(None, ys))

    def attr(ex, m, nm):
        if nm == 'resources':
            return Ref(m.t, 'Package')
        if nm != 'write':
            raise Unsupported('manifest.%s' % nm)
        return Builtin('write', lambda ex, a, k: u.prove('separate manifests only if asked for', sep.t))

    def zip_(ex, a):
        r, f = [ex.split(v) for x, v in a.items() if x != 'self']
        i = G(ex, 'written')
        u.prove('each package is written in turn', z3.And(z3.BoolVal(isinstance(r, Ref) and r.cls == 'Package'), i < n, r.t == ys.t[i]))
        u.prove('under its own name', ex.term(f, 'str') == name(i, '.zip'))
        inc(ex, 'written')
    ex.ext['attr:ref:Manifest'] = attr
    ex.models.update({D + 'check_files': check, D + 'partition_dumps': partition, D + 'write_zip': zip_})

    def cands(ex, loop):
        out = [('written so far', lambda v: G(v.ex, 'written') == v.i)] if ('ghost', 'written') in loop.mod else []
        return out if zipped else out + [('no round is done', lambda v: v.i == 0)]
    u.fold(Extra(cands))
    k, r = u.attempt(lambda: u.method(d, 'write', base, sep))
    if k == 'raise':
        u.prove('refused only if the format is not known (%s)' % r.name, z3.And(z3.BoolVal(not zipped and r.name == 'DumpError'), n > 0))
        u.cover('format')
        return
    u.prove('another format is refused', z3.Or(z3.BoolVal(zipped), n == 0))
    u.prove('all packages are written', z3.Implies(z3.BoolVal(zipped), G(ex, 'written') == n))
    u.prove('the number of packages is told', B(ex.eq(r, T('int', n))))
    i, j = z3.Ints('i j')
    u.assume(z3.And(0 <= i, 0 <= j, z3.Implies(FMT(i) == FMT(j), i == j)))
    u.prove('different packages have different names', z3.Implies(name(i, '.zip') == name(j, '.zip'), i == j))
    u.cover('written', n > 1)


OPT = {'Resource': RESOURCE}
UNITS = [Unit('packages', partition, D + 'partition_dumps', reftypes=RT, covers=['several', 'none']),
         Unit('check, all right', check(True), D + 'check_files', reftypes=OPT, opaque=False, covers=['accepted']),
         Unit('check, something wrong', check(False), D + 'check_files', reftypes=OPT, opaque=False, covers=['refused']),
         Unit('names', in_archive, D + 'archive_path', opaque=False, covers=['below', 'as it is']),
         Unit('package', write_zip, D + 'write_zip', reftypes=RT, covers=['packed']),
         Unit('dump', write, D + 'write', opaque=False, reftypes=dict(RT, Package={}), covers=['written', 'format'])]
CONF = dict(assumptions=[
    'os.path.commonprefix, dirname, relpath and normpath as documented (contracts stated in contracts/c17.py); paths without double slashes for the directory to be the longest',
    'the generator of packages is run to its end before packing: making packages depends on lengths only, packing changes paths only',
    'ZipFile stores what it is given under the names it is given; resources of a package are different objects, with different paths in it',
    'WARC output is not covered (the library is not there); a file manifest.xml in the common directory is a known finding'])
