"""When mappings are unsafe for a sync (C03, C04): contracts of Map.unsafe, Mapper.unsafe and len(mapper)."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Pred
from .lib import *

M = ('ref', 'Map')
RT = {'Map': {'src_uri': 'str', 'dst_path': 'str'}}
SL = z3.StringVal('/')


def unsafe_map(u):
    ex = u.ex
    S = ex.SS
    NORM = z3.Function('normpath', S, S)
    st = lambda v: ex.term(ex.split(v), 'str')

    def normpath(ex, a, k):
        p, r = st(a[0]), NORM(st(a[0]))
        # no slash at the end, except that of the root; not empty
        ex.assume(z3.Or(z3.Not(z3.SuffixOf(SL, r)), r == SL, r == z3.StringVal('//')))
        ex.assume(z3.Length(r) > 0)
        return T('str', r)

    def commonprefix(ex, a, k):
        xs = [st(v) for v in ex.bi.concrete_items(ex.split(a[0]))]
        if len(xs) != 2:
            raise Unsupported('commonprefix of %d' % len(xs))
        x, y = xs
        c = ex.fresh('str', 'commonprefix').t
        n = z3.Length(c)
        ex.assume(z3.And(z3.PrefixOf(c, x), z3.PrefixOf(c, y)))
        # the longest: one of both, or the next characters differ
        ex.assume(z3.Or(c == x, c == y, z3.And(n < z3.Length(x), n < z3.Length(y),
                                               z3.SubString(x, n, 1) != z3.SubString(y, n, 1))))
        ex.assume(z3.Implies(z3.PrefixOf(x, y), c == x))
        ex.assume(z3.Implies(z3.PrefixOf(y, x), c == y))
        return T('str', c)
    ex.ext.update({'os.path.normpath': normpath, 'os.path.commonprefix': commonprefix})
    b, d = u.sym('str', 'src_uri'), u.sym('str', 'dst_path')
    m = u.bare('mapper.Map', src_uri=b, dst_path=d)
    scheme = ex.bi.uf('urlparse.scheme', [b], 'str').t
    for x in (b, d):
        normpath(ex, [x], {})
    s, t = NORM(b.t), NORM(d.t)
    dash = lambda x: z3.If(z3.SuffixOf(SL, x), x, z3.Concat(x, SL))
    nested = z3.Or(s == t, z3.PrefixOf(dash(s), t), z3.PrefixOf(dash(t), s))
    bad = ex.truth(u.method(m, 'unsafe'))
    bad = z3.BoolVal(bad) if isinstance(bad, bool) else bad
    local = scheme == z3.StringVal('')
    u.prove('a mapping from a web URI is safe', z3.Implies(z3.Not(local), z3.Not(bad)))
    u.prove('a mapping of a local path to itself is unsafe', z3.Implies(z3.And(local, s == t), bad))
    u.prove('a mapping into the source is unsafe', z3.Implies(z3.And(local, z3.PrefixOf(dash(s), t)), bad))
    u.prove('a mapping to a place above the source is unsafe', z3.Implies(z3.And(local, z3.PrefixOf(dash(t), s)), bad))
    u.prove('a mapping between unrelated paths is safe', z3.Implies(
        z3.And(z3.Not(z3.PrefixOf(s, t)), z3.Not(z3.PrefixOf(t, s))), z3.Not(bad)))
    u.cover('unsafe', z3.And(local, nested))
    u.cover('safe', z3.Not(z3.Or(z3.PrefixOf(s, t), z3.PrefixOf(t, s))))


def model(ex, a):
    return ex.bi.uf('Map.unsafe', [a['self']], 'bool')


def a_mapper(u):
    s = u.seq(M, 'maps')
    mp = u.new('mapper.Mapper')
    u.ex.cell(mp).attrs['mappings'] = u.ex.alloc(ListCell(None, s))
    return mp, s, z3.Length(s.t)


def unsafe_mapper(u):
    ex = u.ex
    mp, s, n = a_mapper(u)
    bad = lambda e: ex.bi.uf('Map.unsafe', [e], 'bool').t
    none = u.fold(Pred('safe', s, lambda ex, e, i: z3.Not(bad(e))))
    r = ex.truth(u.method(mp, 'unsafe'))
    r = z3.BoolVal(r) if isinstance(r, bool) else r
    j = z3.Int('j')
    u.prove('not unsafe only if no mapping is', z3.Implies(z3.Not(r), none.all_to(ex, n)))
    u.prove('unsafe only if a mapping is', z3.Implies(r, z3.Exists([j], z3.And(
        0 <= j, j < n, bad(Ref(s.t[j], 'Map'))))))
    u.prove('the mappings are not changed', seq_term(ex, u.get(mp, 'mappings'), M) == s.t)
    u.cover('unsafe', r)
    u.cover('safe', z3.And(z3.Not(r), n > 2))


def length(u):
    mp, s, n = a_mapper(u)
    u.prove('number of mappings', u.ex.term(u.method(mp, '__len__'), 'int') == n)


MM = 'mapper.Mapper.'
UNITS = [Unit('Map.unsafe', unsafe_map, 'mapper.Map.unsafe', opaque=False, covers=['unsafe', 'safe']),
         Unit('Mapper.unsafe', unsafe_mapper, MM + 'unsafe', reftypes=RT, models={'mapper.Map.unsafe': model}, covers=['unsafe', 'safe']),
         Unit('len(mapper)', length, MM + '__len__', reftypes=RT)]
ASSUMED = ['os.path.normpath gives a path that is not empty and has no slash at the end, except the root; os.path.commonprefix '
           'gives the longest common beginning; urlparse gives the scheme']
