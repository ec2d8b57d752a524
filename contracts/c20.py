"""C20: links of resources and of documents."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Pred, Extra
from .lib import *

L = ('ref', 'dict')
RT = {'dict': {}}


def state(ex):
    """(dom, val) arrays of all links now."""
    SS = ex.SS
    return (ex.farr('dict', 'dom', '', z3.ArraySort(SS, z3.BoolSort())),
            ex.farr('dict', 'val', '', z3.ArraySort(SS, SS)))


def holder(u, cls, maybe_none=False):
    """An object with links: (object, Seq of links or None)."""
    ex = u.ex
    s = u.old(u.seq(L, 'links'))
    i, j = z3.Ints('i j')
    n = z3.Length(s.t)
    # no link is twice in the list
    u.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), s.t[i] != s.t[j])))
    lst = ex.alloc(ListCell(None, s))
    if cls == 'resource':
        o = u.new('resource.Resource', uri='http://example.org/r')
        if maybe_none:
            return o, None
        ex.cell(o).attrs['ln'] = lst
    else:
        o = u.new('resource_container.ResourceContainer')
        ex.cell(o).attrs['ln'] = lst
    return o, s


def matcher(u, s, rel):
    ex = u.ex
    d0, v0 = state(ex)
    relk = ex.lit('rel')
    is_rel = lambda e: z3.And(z3.Select(z3.Select(d0, e), relk), z3.Select(z3.Select(v0, e), relk) == rel.t)
    none = u.fold(Pred('has another relation', s, lambda ex, e, i: z3.Not(is_rel(e.t)))) if s is not None else None
    return is_rel, none


def lookup(cls):
    def unit(u):
        ex = u.ex
        o, s = holder(u, cls)
        n = z3.Length(s.t)
        rel = u.sym('str', 'rel')
        is_rel, none = matcher(u, s, rel)
        d0, v0 = state(ex)
        r = ex.split(u.method(o, 'link', rel))
        j = z3.Int('j')
        if r is None:
            u.prove('none only if no link has the relation', none.all_to(ex, n))
            u.cover('none')
        else:
            u.prove('the first link with the relation', z3.Exists([j], z3.And(
                0 <= j, j < n, none.all_to(ex, j), is_rel(s.t[j]), r.t == s.t[j])))
            u.cover('found')
        d1, v1 = state(ex)
        u.prove('looking up changes nothing', z3.And(d1 == d0, v1 == v0, seq_term(ex, u.get(o, 'ln'), L) == s.t))
    return unit


def lookup_href(cls):
    def unit(u):
        ex = u.ex
        o, s = holder(u, cls)
        n = z3.Length(s.t)
        rel = u.sym('str', 'rel')
        is_rel, none = matcher(u, s, rel)
        d0, v0 = state(ex)
        i, j = z3.Int('i'), z3.Int('j')
        href = ex.lit('href')
        u.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(z3.Select(d0, s.t[i]), href))))
        r = ex.split(u.method(o, 'link_href', rel))
        if r is None:
            u.prove('none only if no link has the relation', none.all_to(ex, n))
        else:
            u.prove('the target of the first link with the relation', z3.Exists([j], z3.And(
                0 <= j, j < n, none.all_to(ex, j), is_rel(s.t[j]),
                ex.term(r, 'str') == z3.Select(z3.Select(v0, s.t[j]), href))))
            u.cover('found')
    return unit


def lookup_nolist(u):
    o, _ = holder(u, 'resource', True)
    rel = u.sym('str', 'rel')
    u.prove('no link without links', u.ex.is_none(u.method(o, 'link', rel)))
    u.prove('no target without links', u.ex.is_none(u.method(o, 'link_href', rel)))


def attributes(u):
    """Any keyword arguments: a symbolic dict in some order."""
    ex = u.ex
    SS = ex.SS
    keys = u.seq('str', 'names')
    n = z3.Length(keys.t)
    dom = z3.Const('att_dom', z3.ArraySort(SS, z3.BoolSort()))
    val = z3.Const('att_val', z3.ArraySort(SS, SS))
    pos = z3.Function('att_pos', SS, z3.IntSort())
    i, x = z3.Int('i'), z3.Const('x', SS)
    u.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, keys.t[i]), pos(keys.t[i]) == i))))
    u.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(0 <= pos(x), pos(x) < n, keys.t[pos(x)] == x))))
    for p in ('self', 'rel', 'href', 'allow_duplicates'):
        u.assume(z3.Not(z3.Select(dom, ex.lit(p))))
    d = ex.alloc(DictCell(None, (dom, val, 'str', 'str'), keys))

    def cands(ex, loop):
        """Links being given attributes one after the other."""
        if loop.along is None or not loop.along.t.eq(keys.t):
            return []
        out = []
        ent = loop.entry_sym
        for k in loop.mod:
            c = loop.get(ent, k)
            if isinstance(c, DictCell) and c.sym is not None:
                def f(v, k=k, c=c):
                    now = v.loop.get(v.ex.st, k).sym
                    return z3.ForAll([x], upto(v.i, x, c.sym[0], c.sym[1], now[0], now[1]))
                out.append(('attributes given so far to %s' % (k,), f))
        if any(k[0] == 'field' for k in loop.mod):
            d0, v0 = ent.fields['dict.dom'], ent.fields['dict.val']
            refs = {}
            for fr in ent.frames:
                for w in fr.locals.values():
                    for y in (w.alts if isinstance(w, U) else [(True, w)]):
                        if isinstance(y[1], Ref) and y[1].cls == 'dict':
                            refs[y[1].t.get_id()] = y[1].t
            for t in refs.values():
                def g(v, t=t):
                    d1, v1 = state(v.ex)
                    return z3.ForAll([x], upto(v.i, x, z3.Select(d0, t), z3.Select(v0, t), z3.Select(d1, t), z3.Select(v1, t)))

                def only(v, t=t):
                    d1, v1 = state(v.ex)
                    r = z3.Int('r!only')
                    return z3.ForAll([r], z3.Implies(r != t, z3.And(
                        z3.Select(d0, r) == z3.Select(d1, r), z3.Select(v0, r) == z3.Select(v1, r))))
                out.append(('attributes given so far to link', g))
                out.append(('other links unchanged', only))
        return out

    def upto(k, x, d0, v0, d1, v1):
        m = z3.And(z3.Select(dom, x), pos(x) < k)
        return z3.And(z3.Select(d1, x) == z3.Or(z3.Select(d0, x), m),
                      z3.Select(v1, x) == z3.If(m, z3.Select(val, x), z3.Select(v0, x)))
    u.fold(Extra(cands))
    return d, dom, val


def setting(cls, name, dups=False, nolist=False, explicit=None):
    def unit(u):
        ex = u.ex
        o, s = holder(u, cls, nolist)
        rel, href = u.sym('str', 'rel'), u.sym('str', 'href')
        is_rel, none = matcher(u, s, rel)
        d0, v0 = state(ex)
        atts, dom, val = attributes(u)
        kw = {'**': atts}
        if explicit is not None:
            kw['allow_duplicates'] = explicit
        u.method(o, name, rel, href, **kw)
        d1, v1 = state(ex)
        x, j, r = z3.Const('x', ex.SS), z3.Int('j'), z3.Int('r')
        relk, hrefk = ex.lit('rel'), ex.lit('href')

        def given(t, has, get):
            """Link t now has the target and attributes given and else what has / get say."""
            nd, nv = z3.Select(d1, t), z3.Select(v1, t)
            return z3.ForAll([x], z3.And(
                z3.Select(nd, x) == z3.Or(z3.Select(dom, x), x == hrefk, has(x)),
                z3.Implies(z3.Select(nd, x), z3.Select(nv, x) == z3.If(z3.Select(dom, x), z3.Select(val, x),
                                                                       z3.If(x == hrefk, href.t, get(x))))))

        def same(t):
            return z3.And(z3.Select(d0, t) == z3.Select(d1, t), z3.Select(v0, t) == z3.Select(v1, t))
        if s is None:
            n = z3.IntVal(0)
            before = empty(ex, L)
        else:
            n = z3.Length(s.t)
            before = s.t
        ln = ex.split(u.get(o, 'ln'))
        after = seq_term(ex, ln, L)
        d1, v1 = state(ex)
        added = z3.And(z3.Length(after) == n + 1, z3.Extract(after, z3.IntVal(0), n) == before, nth(after, n) >= ex.top0,
                       given(nth(after, n), lambda x: x == relk, lambda x: rel.t))
        if dups or s is None:
            u.prove('one new link with the relation, target and attributes is appended', added)
            u.prove('all other links are unchanged', z3.ForAll([r], z3.Implies(r < ex.top0, same(r))))
            u.cover('appended')
            return
        if u.when(none.all_to(ex, n)):
            u.prove('without such a link, one is appended', added)
            u.prove('without such a link, all links are unchanged', z3.ForAll([r], z3.Implies(r < ex.top0, same(r))))
            u.cover('appended')
        else:
            # the first link with the relation: it exists, as not all have another one
            j0 = z3.Const(ex.fresh_name('first'), z3.IntSort())
            t = s.t[j0]
            u.assume(z3.And(0 <= j0, j0 < n, none.all_to(ex, j0), is_rel(t)))
            u.prove('no link is added or moved', after == before)
            u.prove('the first link with the relation is set',
                    given(t, lambda x: z3.Select(z3.Select(d0, t), x), lambda x: z3.Select(z3.Select(v0, t), x)))
            u.prove('all other links are unchanged', z3.ForAll([r], z3.Implies(z3.And(r < ex.top0, r != t), same(r))))
            u.cover('set in place')
    return unit


# ---- shortcuts
def rec(ex, a):
    a = dict(a)
    kw = a.pop('atts')
    a['atts'] = tuple(ex.bi.concrete_dict(kw))
    ex.st.ghost['set'] = ex.st.ghost.get('set', ()) + (tuple(sorted((k, v) for k, v in a.items() if k != 'self')) + (('self', a['self']),),)
    return None


def ghref(ex, a):
    none = ex.bi.uf('no link', [a['rel']], 'bool').t
    return U([(none, None), (z3.Not(none), ex.bi.uf('href of', [a['rel']], 'str'))])


def shortcut(cls, rel, typed=False):
    def unit(u):
        ex = u.ex
        o, s = holder(u, cls)
        v = u.get(o, rel)
        want = ghref(ex, {'rel': rel})
        u.prove('reads the link %s' % rel, ex.eq(v, want))
        uri = u.sym('str', 'uri')
        ex.setattr(o, rel, uri)
        calls = ex.st.ghost.get('set', ())
        u.prove('sets one link', len(calls) == 1)
        c = dict(calls[0])
        u.prove('sets the link %s of the object' % rel, c['rel'] == rel and c['self'] == o)
        u.prove('to the URI', ex.eq(c['href'], uri))
        u.prove('with no other attributes' if not typed else 'with type application/xml',
                dict(c['atts']) == ({'type': 'application/xml'} if typed else {}))
        u.prove('in place', c.get('allow_duplicates', False) is False)
    return unit


RK, CK = 'resource.Resource.', 'resource_container.ResourceContainer.'
UNITS = [
    Unit('Resource.link', lookup('resource'), RK + 'link', reftypes=RT),
    Unit('ResourceContainer.link', lookup('container'), CK + 'link', reftypes=RT),
    Unit('Resource.link_href', lookup_href('resource'), RK + 'link_href', reftypes=RT),
    Unit('ResourceContainer.link_href', lookup_href('container'), CK + 'link_href', reftypes=RT),
    Unit('Resource without links', lookup_nolist, RK + 'link', reftypes=RT),
    Unit('Resource.link_set', setting('resource', 'link_set'), RK + 'link_set', reftypes=RT,
         covers=['appended', 'set in place'], merge=False),
    Unit('Resource.link_set allow_duplicates', setting('resource', 'link_set', True, explicit=True), RK + 'link_set', reftypes=RT),
    Unit('Resource.link_set without links', setting('resource', 'link_set', nolist=True), RK + 'link_set', reftypes=RT),
    Unit('Resource.link_add', setting('resource', 'link_add', True), (RK + 'link_add', RK + 'link_set'), reftypes=RT),
    Unit('Resource.link_add without links', setting('resource', 'link_add', True, nolist=True), RK + 'link_add', reftypes=RT),
    Unit('ResourceContainer.link_set', setting('container', 'link_set'), CK + 'link_set', reftypes=RT,
         covers=['appended', 'set in place'], merge=False),
]
for _c, _k, _rels in (('resource', RK, ('up', 'index', 'describedby', 'contents')),
                      ('container', CK, ('up', 'index', 'describedby'))):
    for _r in _rels:
        UNITS.append(Unit('%s.%s' % (_k.split('.')[1], _r), shortcut(_c, _r, _r == 'contents'), (_k + _r, _k + _r + '@setter'),
                          reftypes=RT, models={_k + 'link_set': rec, _k + 'link_href': ghref}))
CONF = dict(assumptions=['link attributes are strings', 'no link object is twice in a list of links', 'a link that is looked up for its target has one'])
