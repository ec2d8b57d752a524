"""C09: mapping between URIs and paths."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

SL = z3.StringVal('/')
DD = z3.StringVal('/../')
M = ('ref', 'Map')
RT = {'Map': {'src_uri': 'str', 'dst_path': 'str'}}


def base(u, name):
    b = u.sym('str', name)
    u.assume(z3.Not(z3.SuffixOf(SL, b.t)))      # what the constructor establishes
    return b


def a_map(u):
    b, d = base(u, 'src_uri'), base(u, 'dst_path')
    return u.bare('mapper.Map', src_uri=b, dst_path=d), b.t, d.t


def applies(b, x):
    return z3.Or(x == b, z3.PrefixOf(z3.Concat(b, SL), x))


def rest(b, x):
    return z3.If(x == b, SL, z3.SubString(x, z3.Length(b), z3.Length(x) - z3.Length(b)))


def dots(r):
    return z3.Contains(z3.Concat(SL, r, SL), DD)


def opt_result(u, v, ok, term, what):
    """v is term when ok, else None."""
    v = v if isinstance(v, U) else U([(True, v)])
    u.prove(what + ' gives a result exactly when the mapping applies', absent(v) == z3.Not(ok))
    for g, w in v.alts:
        if w is not None:
            u.prove(what + ' gives base and remainder', z3.Implies(B(g), u.ex.term(w, 'str') == term))


def src_to_dst(u):
    m, b, d = a_map(u)
    x = u.sym('str', 'uri')
    ok = z3.And(applies(b, x.t), z3.Not(dots(rest(b, x.t))))
    opt_result(u, u.method(m, 'src_to_dst', x), ok, z3.Concat(d, rest(b, x.t)), 'src_to_dst')
    u.cover('mapped', z3.And(ok, x.t != b))
    u.cover('not mapped', z3.Not(ok))


def dst_to_src(u):
    m, b, d = a_map(u)
    x = u.sym('str', 'path')
    ok = applies(d, x.t)
    opt_result(u, u.method(m, 'dst_to_src', x), ok, z3.Concat(b, rest(d, x.t)), 'dst_to_src')
    u.cover('mapped', z3.And(ok, x.t != d))
    u.cover('not mapped', z3.Not(ok))


def undo(first, second, how):
    def unit(u):
        m, b, d = a_map(u)
        x = u.sym('str', 'x')
        mine = b if first == 'src_to_dst' else d
        k, y = u.attempt(lambda: u.ex.split(u.method(m, first, x)))
        if k == 'raise':
            return u.prove('no error', False)
        if y is None:
            return
        z = u.ex.split(u.method(m, second, y))
        r = rest(mine, x.t)
        if z is None:
            u.prove('%s applies to what %s gives, but for ..' % (second, first),
                    dots(r) if second == 'src_to_dst' else False)
        else:
            u.prove('%s undoes %s' % (second, first), u.ex.term(z, 'str') == z3.If(x.t == mine, z3.Concat(x.t, SL), x.t))
            u.cover('round trip')
    return unit


def constructor(u):
    ex = u.ex
    s, d = u.sym('str', 's'), u.sym('str', 'd')
    m = u.new('mapper.Map', s, d)
    slashes = z3.Star(z3.Re('/'))
    for a, t in (('src_uri', s.t), ('dst_path', d.t)):
        v = ex.term(ex.split(u.get(m, a)), 'str')
        u.prove(a + ' does not end in a slash', z3.Not(z3.SuffixOf(SL, v)))
        u.prove(a + ' is the argument without its trailing slashes', z3.And(
            z3.PrefixOf(v, t), z3.InRe(z3.SubString(t, z3.Length(v), z3.Length(t) - z3.Length(v)), slashes)))
    u.cover('reached')


# ---- lists of mappings
def one(name):
    """Call-site contract of Map.src_to_dst / Map.dst_to_src: some function of the map and the string."""
    def model(ex, a):
        m = a['self']
        x = [v for k, v in a.items() if k != 'self'][0]
        no = ex.bi.uf(name + ' does not apply', [m, x], 'bool').t
        return U([(no, None), (z3.Not(no), ex.bi.uf(name, [m, x], 'str'))])
    return model


MODELS = {'mapper.Map.src_to_dst': one('Map.src_to_dst'), 'mapper.Map.dst_to_src': one('Map.dst_to_src')}


def first_applies(name):
    def unit(u):
        ex = u.ex
        s = u.seq(M, 'maps')
        n = z3.Length(s.t)
        mp = u.new('mapper.Mapper')
        ex.cell(mp).attrs['mappings'] = ex.alloc(ListCell(None, s))
        x = u.sym('str', 'x')
        no = lambda e: ex.bi.uf('Map.%s does not apply' % name, [e, x], 'bool').t
        none = u.fold(Pred('does not apply', s, lambda ex, e, i: no(e)))
        k, v = u.attempt(lambda: u.method(mp, name, x))
        if k == 'ok':
            j = z3.Int('j')
            e = lambda i: Ref(s.t[i], 'Map')
            r = ex.term(ex.split(v), 'str')
            u.prove('the result is that of the first mapping that applies', z3.Exists([j], z3.And(
                0 <= j, j < n, none.all_to(ex, j), z3.Not(no(e(j))),
                r == ex.bi.uf('Map.' + name, [e(j), x], 'str').t)))
            u.cover('mapped')
        else:
            u.prove('MapperError', u.is_exc(v, 'MapperError'))
            u.prove('an error only if no mapping applies', none.all_to(ex, n))
            u.cover('no mapping')
        u.prove('the mappings are not changed', seq_term(ex, u.get(mp, 'mappings'), M) == s.t)
    return unit


def strip(ex, t):
    return ex.bi.uf("str.rstrip('/')", [T('str', t)], 'str').t


def parse(direct):
    def unit(u):
        ex = u.ex
        s = u.seq('str', 'strings')
        n = z3.Length(s.t)
        eqs = lambda i: ex.bi.uf("str.split('=')", [T('str', s.t[i])], ('seq', 'str')).t
        has_eq = lambda i: ex.bi.uf("re.search('=')", [T('str', s.t[i])], 'bool').t
        u.assume(n >= 1)
        u.assume(z3.Or(n != 2, has_eq(0), has_eq(1)))
        src = lambda i: strip(ex, eqs(i)[0])
        dst = lambda i: strip(ex, eqs(i)[1])
        two = u.fold(Pred('two parts', s, lambda ex, e, i: z3.Length(eqs(i)) == 2))
        top = ex.top()
        i, j = z3.Ints('i!p j!p')

        def distinct(k):
            return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), z3.And(
                src(i) != src(j), dst(i) != dst(j))))

        def built(seq, fs, fd, k):
            return z3.And(z3.Length(seq) == k, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(
                nth(seq, i) == top.t + i, z3.Select(fs, top.t + i) == src(i), z3.Select(fd, top.t + i) == dst(i)))))

        def cands(ex, loop):
            if loop.along is None:
                return []
            out = []
            if loop.along.t.eq(s.t):
                for k in loop.mod:
                    c = loop.get(loop.entry_sym, k)
                    if isinstance(c, ListCell) and c.seq is not None and c.seq.ek == M:
                        out.append(('mappings built so far', lambda v, k=k: built(
                            v.loop.get(v.ex.st, k).seq.t, ex.farr('Map', 'src_uri', '', ex.SS),
                            ex.farr('Map', 'dst_path', '', ex.SS), v.i)))
                out.append(('distinct so far', lambda v: distinct(v.i)))
            elif loop.along.ek == M:
                # the new mapping differs from those already checked
                new = [w for w in loop.entry_sym.frames[-1].locals.values() if isinstance(w, Oid)
                       and isinstance(ex.cell(w), ObjCell) and getattr(ex.cell(w).cls, 'name', '') == 'Map']
                for w in new:
                    def differs(v, w=w):
                        c = v.ex.cell(w)
                        a, b = v.ex.term(c.attrs['src_uri']), v.ex.term(c.attrs['dst_path'])
                        q = loop.along.t
                        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.i), z3.And(
                            z3.Select(ex.farr('Map', 'src_uri', '', ex.SS), q[i]) != a,
                            z3.Select(ex.farr('Map', 'dst_path', '', ex.SS), q[i]) != b)))
                    out.append(('new mapping differs from those before', differs))
            return out
        u.fold(Extra(cands))
        if direct == 'client':
            u.assume(z3.Or(n != 1, has_eq(0)))
            c = u.bare('client.Client')
            mp = None
            k, v = u.attempt(lambda: u.method(c, 'set_mappings', ex.alloc(ListCell(None, s))))
            if k == 'ok':
                mp = ex.split(u.get(c, 'mapper'))
        elif direct:
            mp = None
            k, v = u.attempt(lambda: u.new('mapper.Mapper', ex.alloc(ListCell(None, s))))
            mp = v
        else:
            mp = u.new('mapper.Mapper')
            k, v = u.attempt(lambda: u.method(mp, 'parse', ex.alloc(ListCell(None, s))))
        if k == 'ok':
            u.prove('every mapping has a URI and a path', two.all_to(ex, n))
            u.prove('no base URI or path twice', distinct(n))
            u.prove('one mapping for each, in order', built(
                seq_term(ex, u.get(mp, 'mappings'), M), ex.farr('Map', 'src_uri', '', ex.SS),
                ex.farr('Map', 'dst_path', '', ex.SS), n))
            u.cover('three mappings', n == 3)
        else:
            u.prove('MapperError', u.is_exc(v, 'MapperError'))
            u.prove('refused only for a bad or repeated mapping', z3.Not(z3.And(two.all_to(ex, n), distinct(n))))
            u.cover('refused')
    return unit


def parse_pair(u):
    ex = u.ex
    a, b = u.sym('str', 'a'), u.sym('str', 'b')
    for x in (a, b):
        u.assume(z3.Not(ex.bi.uf("re.search('=')", [x], 'bool').t))
    mp = u.new('mapper.Mapper', ex.new_list([a, b]))
    items = ex.bi.concrete_items(u.get(mp, 'mappings'))
    u.prove('one mapping', len(items) == 1)
    u.prove('from the URI', ex.term(u.get(items[0], 'src_uri')) == strip(ex, a.t))
    u.prove('to the path', ex.term(u.get(items[0], 'dst_path')) == strip(ex, b.t))


def default_path(u):
    """One URI without a path: the path made of it (path_from_uri: not under contract, checked by the harness of C09)."""
    ex = u.ex
    a = u.sym('str', 'uri')
    u.assume(z3.Not(ex.bi.uf("re.search('=')", [a], 'bool').t))
    made = u.sym('str', 'made')

    def path(ex, x):
        u.prove('the path is made from the URI given', ex.term(ex.split(x['uri']), 'str') == a.t)
        return made
    ex.models['mapper.Mapper.path_from_uri'] = path
    c = u.bare('client.Client')
    u.method(c, 'set_mappings', ex.new_list([a]))
    items = ex.bi.concrete_items(u.get(u.get(c, 'mapper'), 'mappings'))
    u.prove('one mapping', len(items) == 1)
    u.prove('from the URI', ex.term(u.get(items[0], 'src_uri')) == strip(ex, a.t))
    u.prove('to the path made of it', ex.term(u.get(items[0], 'dst_path')) == strip(ex, made.t))


SM, MM = 'mapper.Map.', 'mapper.Mapper.'
UNITS = [
    Unit('Map.src_to_dst', src_to_dst, SM + 'src_to_dst', opaque=False),
    Unit('Map.dst_to_src', dst_to_src, SM + 'dst_to_src', opaque=False),
    Unit('Map there and back', undo('src_to_dst', 'dst_to_src', 0), (SM + 'src_to_dst', SM + 'dst_to_src'), opaque=False),
    Unit('Map back and there', undo('dst_to_src', 'src_to_dst', 1), (SM + 'src_to_dst', SM + 'dst_to_src'), opaque=False),
    Unit('Map()', constructor, (SM + '__init__', SM + 'strip_trailing_slashes'), opaque=False),
    Unit('Mapper.src_to_dst', first_applies('src_to_dst'), MM + 'src_to_dst', reftypes=RT, models=MODELS),
    Unit('Mapper.dst_to_src', first_applies('dst_to_src'), MM + 'dst_to_src', reftypes=RT, models=MODELS),
    Unit('Mapper.parse', parse(False), MM + 'parse', reftypes=RT, covers=['three mappings', 'refused']),
    Unit('Mapper(mappings)', parse(True), (MM + '__init__', MM + 'parse'), reftypes=RT, covers=['refused']),
    Unit('Client.set_mappings', parse('client'), ('client.Client.set_mappings', MM + '__init__', MM + 'parse'), reftypes=RT,
         covers=['refused', 'three mappings']),
    Unit('Client.set_mappings([uri])', default_path, ('client.Client.set_mappings', MM + '__init__', MM + 'parse')),
    Unit('Mapper([uri, path])', parse_pair, (MM + '__init__', MM + 'parse')),
]
CONF = dict(bounded=['mapper.Mapper.path_from_uri: URIs of the harness distribution only (re.sub is not under contract)'],
            assumptions=['str.split gives parts containing no separator (in membership tests)', 're matches as documented'])
