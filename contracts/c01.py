"""C01: comparing two resource lists partitions their URIs exactly."""
import ast
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Extra, Poison
from pydv import solver
from . import c08
from .lib import *
from .coll import Coll, val_uri

RT = {'Resource': RESOURCE}
KINDS = ('same', 'updated', 'deleted', 'created')


def eq_model(u):
    """Call-site contract of Resource.equal (C02): a symmetric relation, nothing changed."""
    ex = u.ex
    I = z3.IntSort()
    EQ = z3.Function('equal', I, I, z3.RealSort(), z3.BoolSort())

    def equal(ex, a):
        x, y = ex.split(a['self']), ex.split(a['other'])
        if y is None or x is None:
            return False
        d = ex.term(a.get('delta', 0.0), 'real')
        ex.assume(EQ(x.t, y.t, d) == EQ(y.t, x.t, d))
        return T('bool', EQ(x.t, y.t, d))
    ex.models['resource.Resource.equal'] = equal
    a, b = z3.Ints('a b')
    u.assume(z3.ForAll([a, b], EQ(a, b, 1) == EQ(b, a, 1)))
    return lambda a, b: EQ(a, b, z3.RealVal(1))


def sorted_iter_model(u, colls):
    """Call-site contract of sorted_iter: every resource once, in strict order of URI (the first units prove it)."""
    ex = u.ex

    def sorted_iter(ex, a):
        o = ex.split(a['self'])
        c = [c for c in colls if c.obj.id == o.id]
        if not c or not c[0].is_now():
            raise Unsupported('sorted_iter of something else')
        c = c[0]
        s = ex.fresh_seq(R, 'sorted')
        n = z3.Length(s.t)
        pos = z3.Function(ex.fresh_name('at'), ex.SS, z3.IntSort())
        i = z3.Int('i')
        k, l = z3.Const('k', ex.SS), z3.Const('l', ex.SS)
        uri = lambda e: val_uri(ex, e)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            z3.Select(c.dom, uri(s.t[i])), s.t[i] == z3.Select(c.val, uri(s.t[i])), pos(uri(s.t[i])) == i))))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(c.dom, k), z3.And(
            0 <= pos(k), pos(k) < n, s.t[pos(k)] == z3.Select(c.val, k)))))
        ex.assume(z3.ForAll([k, l], z3.Implies(z3.And(z3.Select(c.dom, k), z3.Select(c.dom, l)),
                                               (k < l) == (pos(k) < pos(l)))))
        return ex.alloc(IterCell(('seq', s), 0))
    ex.models['resource_list.SortedIterMixin.sorted_iter'] = sorted_iter


def boundary(ex, loc, v):
    """(all taken, URI of the first entry not yet dealt with) of a look-ahead variable, or None."""
    if isinstance(v, Ref):
        return z3.BoolVal(False), val(fget(ex, 'uri', v.t))
    if isinstance(v, U):
        refs = [w for _, w in v.alts if isinstance(w, Ref)]
        if len(refs) == 1 and all(w is None or isinstance(w, Ref) for _, w in v.alts):
            return absent(v), val(fget(ex, 'uri', refs[0].t))
    if v is None:
        return z3.BoolVal(True), z3.RealVal(0)
    return None


def compare(dcls, scls, alias=False):
    def fn(u):
        ex = u.ex
        EQ = eq_model(u)
        dst = u.new('resource_list.ResourceList', resources_class=u.cls(dcls))
        D = Coll(u, None, 'dst', ordered='Ordered' in dcls, obj=u.get(dst, 'resources'))
        if alias:
            src, S = dst, D
        else:
            src = u.new('resource_list.ResourceList', resources_class=u.cls(scls))
            S = Coll(u, None, 'src', ordered='Ordered' in scls, obj=u.get(src, 'resources'))
        sorted_iter_model(u, [D, S])
        x = z3.Const('x', ex.SS)
        sel = z3.Select
        both = lambda x: z3.And(sel(D.dom, x), sel(S.dom, x))
        eq = lambda x: EQ(sel(D.val, x), sel(S.val, x))
        spec = {'same': (lambda x: z3.And(both(x), eq(x)), D), 'updated': (lambda x: z3.And(both(x), z3.Not(eq(x))), S),
                'deleted': (lambda x: z3.And(sel(D.dom, x), z3.Not(sel(S.dom, x))), D),
                'created': (lambda x: z3.And(sel(S.dom, x), z3.Not(sel(D.dom, x))), S)}

        def side(loop, s):
            """Which of the lists a sequence of resources is taken from."""
            memo = loop.__dict__.setdefault('sides', {})
            k = s.t.get_id()
            if k not in memo:
                out = []
                i = z3.Int('i!side')
                hy = [t for _, t in loop.entry.pc] + ex.lit_axioms() + list(ex.axioms)
                for nm, c in (('D', D), ('S', S)):
                    g = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z3.Length(s.t)),
                                                  s.t[i] == sel(c.val, val_uri(ex, s.t[i]))))
                    if solver.prove(hy, g, 1000)[0] == 'proved':
                        out.append(nm)
                        break
                memo[k] = (out, s.t)
            return memo[k][0]

        def cands(ex, loop):
            out = []
            bounds = {'D': [], 'S': []}
            iters = []
            st = loop.entry_sym
            for k, c in st.heap.items():
                if isinstance(c, IterCell) and c.src[0] == 'seq' and isinstance(c.src[1].ek, tuple):
                    iters.append((('cell', k), c.src[1], side(loop, c.src[1])))
            looks = []
            for d, f in enumerate(st.frames):
                for nm, v in f.locals.items():
                    k = ('local', d, nm)
                    if k in loop.poison or not isinstance(v, (Ref, U)) and k not in loop.shapes:
                        continue
                    if boundary(ex, k, v) is None:
                        continue
                    looks.append(k)
            get = lambda v, k: v.loop.get(v.ex.st, k)
            for k in looks:
                for ik, s, sd in iters:
                    if not sd:
                        continue

                    def at(v, k=k, ik=ik, s=s):
                        p = get(v, ik).pos
                        p = p if is_z3(p) else z3.IntVal(p)
                        n = z3.Length(s.t)
                        none, _ = boundary(v.ex, k, get(v, k))
                        w = get(v, k)
                        r = [y for _, y in alts(w) if isinstance(y, Ref)]
                        here = z3.And(p >= 1, p <= n, r[0].t == s.t[p - 1]) if r else z3.BoolVal(False)
                        return z3.And(z3.If(none, p == n, here), p >= 0)
                    memo = loop.__dict__.setdefault('looks', {})
                    if (k, ik) not in memo:
                        save = ex.st
                        ex.st = st.copy()
                        from pydv.loops import View
                        try:
                            g = at(View(ex, loop, z3.IntVal(0)))
                            memo[k, ik] = solver.prove(ex.hyps() + ex.lit_axioms() + list(ex.axioms), g, 1500)[0] == 'proved'
                        finally:
                            ex.st = save
                    if not memo[k, ik]:
                        continue
                    out.append(('%s is the next of %s' % (k[2], sd[0]), at))
                    for x_ in sd:
                        bounds[x_].append((k[2], lambda v, k=k: boundary(v.ex, k, get(v, k))))
            if isinstance(loop.node, ast.For) and loop.seq is None:
                for ik, s, sd in iters:         # a loop over what an iterator has left
                    if ik in loop.mod:
                        def rest(v, ik=ik, s=s):
                            p = get(v, ik).pos
                            p = p if is_z3(p) else z3.IntVal(p)
                            return p >= z3.Length(s.t), val_uri(v.ex, s.t[p])
                        out.append(('position of the iterator', lambda v, ik=ik, s=s: z3.And(
                            rest_pos(get(v, ik)) >= 0, rest_pos(get(v, ik)) <= z3.Length(s.t))))
                        for x_ in sd:
                            bounds[x_].insert(0, ('what is left', rest))
            if loop.seq is not None and isinstance(loop.seq.ek, tuple):
                for x_ in side(loop, loop.seq):
                    bounds[x_].append(('element', lambda v: (v.i == loop.n, val_uri(v.ex, loop.seq.t[v.i]))))
            for q in 'DS':
                if not bounds[q] or loop.seq is not None:
                    bounds[q].append(('all', lambda v: (z3.BoolVal(True), z3.RealVal(0))))
                if loop.seq is not None:
                    bounds[q].append(('nothing', None))
            if alias:
                bounds['S'] = bounds['D'] = bounds['D'] + bounds['S']
            c = {'D': D.dom, 'S': S.dom}

            def taken(v, b, q, x):
                if b is None:
                    return z3.BoolVal(False)
                none, uri = b(v)
                return z3.And(sel(c[q], x), z3.Or(none, x < uri))
            dicts = []
            for k in loop.mod:
                d = st.heap.get(k[1]) if k[0] == 'cell' else None
                if isinstance(d, DictCell) and d.sym is not None and d.sym[2] == 'str':
                    names = [nm for f in st.frames for nm, v in f.locals.items() if nm in KINDS and isinstance(v, Oid)
                             and holds_dict(st, v, k[1])]
                    dicts.append((k, names[:1] or KINDS))
            for bd, fd in bounds['D']:
                for bs, fs in bounds['S']:
                    if fd is not None and fs is not None and not (bd == bs == 'all'):
                        def front(v, fd=fd, fs=fs):
                            dn, du = fd(v)
                            sn, su = fs(v)
                            return z3.ForAll([x], z3.And(
                                z3.Implies(z3.And(taken(v, fd, 'D', x), z3.Not(sn)), x < su),
                                z3.Implies(z3.And(taken(v, fs, 'S', x), z3.Not(dn)), x < du)))
                        out.append(('entries dealt with come before %s and %s' % (bd, bs), front))
                    for k, names in dicts:
                        for kind in names:
                            def dom(v, k=k, kind=kind, fd=fd, fs=fs):
                                sp = spec[kind][0]
                                t = {'same': z3.And(taken(v, fd, 'D', x), taken(v, fs, 'S', x)),
                                     'deleted': taken(v, fd, 'D', x), 'created': taken(v, fs, 'S', x)}
                                t['updated'] = t['same']
                                return z3.ForAll([x], sel(get(v, k).sym[0], x) == z3.And(sp(x), t[kind]))

                            def vals(v, k=k, kind=kind):
                                m = get(v, k).sym
                                return z3.ForAll([x], z3.Implies(sel(m[0], x), sel(m[1], x) == sel(spec[kind][1].val, x)))
                            out.append(('%s are those up to %s and %s' % (kind, bd, bs), dom))
                            if bd == bounds['D'][0][0] and bs == bounds['S'][0][0]:
                                out.append(('entries of %s' % kind, vals))
            return out
        u.fold(Extra(cands))
        f0 = dict(ex.st.fields)
        k, v = u.attempt(lambda: u.method(dst, 'compare', src))
        if k == 'raise':
            u.prove('no error: %s' % (v,), False)
            return
        r = ex.split(v)
        if not isinstance(r, tuple):
            r = tuple(w for _, w in ex.cell(r).items)
        u.prove('four lists', z3.BoolVal(len(r) == 4))
        got = {}
        for kind, o in zip(KINDS, r):
            o = ex.split(o)
            u.prove('%s is a resource list' % kind, z3.BoolVal(ex.cell(o).cls.name == 'ResourceList'))
            b = ex.cell(ex.cell(ex.split(u.get(o, 'resources'))).base)
            got[kind] = b
            if b.sym is None:
                ex.bi.to_sym_dict(b, 'str', R)
            d, w = b.sym[0], b.sym[1]
            u.prove('%s: only the URIs it should have' % kind,
                    z3.ForAll([x], z3.Implies(sel(d, x), spec[kind][0](x))))
            u.prove('%s: every URI it should have' % kind,
                    z3.ForAll([x], z3.Implies(spec[kind][0](x), sel(d, x))))
            u.prove('%s: with the resource of the %s' % (kind, 'destination' if kind in ('same', 'deleted') else 'source'),
                    z3.ForAll([x], z3.Implies(sel(d, x), sel(w, x) == sel(spec[kind][1].val, x))))
        u.prove('four different lists', z3.BoolVal(len({id(b) for b in got.values()}) == 4 and len(set(r)) == 4))
        u.prove('every URI of either list is in exactly one', z3.ForAll([x], z3.Implies(
            z3.Or(sel(D.dom, x), sel(S.dom, x)),
            z3.PbEq([(sel(got[kd].sym[0], x), 1) for kd in KINDS], 1))))
        u.prove('the destination is as it was', D.unchanged())
        u.prove('the source is as it was', S.unchanged())
        u.prove('no resource is changed', z3.And(*[a == f0[n] if n in f0 else str(a) == 'fld0:' + n
                                                   for n, a in ex.st.fields.items()]))
        u.cover('one kind' if alias else 'all kinds', z3.And(*[z3.Exists([x], sel(got[kd].sym[0], x)) for kd in (('same',) if alias else KINDS)]))
    return fn


def rest_pos(c):
    return c.pos if is_z3(c.pos) else z3.IntVal(c.pos)


def holds_dict(st, oid, cell):
    """Whether the list object keeps its resources in the given dict."""
    c = st.heap.get(oid.id)
    if not isinstance(c, ObjCell):
        return False
    r = c.attrs.get('resources')
    return isinstance(r, Oid) and isinstance(st.heap.get(r.id), ObjCell) and st.heap[r.id].base is not None and st.heap[r.id].base.id == cell


D_, O_ = 'resource_list.ResourceListDict', 'resource_list.ResourceListOrdered'
SI = 'resource_list.SortedIterMixin.sorted_iter'
TG = 'resource_list.ResourceList.compare'
RX = {'Resource': dict(RESOURCE, _extra='extra', **{'_extra.capability': ('opt', 'str')})}
UNITS = [Unit('ResourceListDict.sorted_iter', c08.iterate(D_, 'sorted_iter'), SI, reftypes=RX, merge=False),
         Unit('ResourceListOrdered.sorted_iter', c08.iterate(O_, 'sorted_iter', True), SI, reftypes=RX, merge=False),
         Unit("compare", compare(D_, D_), TG, reftypes=RT, budget=250),
         Unit('compare ordered lists', compare(O_, O_), TG, reftypes=RT, budget=250),
         Unit('compare an ordered list with another', compare(O_, D_), TG, reftypes=RT, budget=250),
         Unit('compare a list with itself', compare(D_, D_, True), TG, reftypes=RT, budget=250)]
CONF = dict(assumptions=['sorted() gives a sorted permutation', 'string order is a strict total order (strings as elements of an ordered set)'])
