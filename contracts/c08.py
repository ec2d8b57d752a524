"""C08: URI-keyed collections hold one resource per URI and iterate in canonical order."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .coll import Coll, val_uri
from .c07 import RTF

RT = {'Resource': dict(RESOURCE, _extra='extra', **{'_extra.capability': ('opt', 'str')})}


def add(cls, err, ordered):
    def fn(u):
        ex = u.ex
        c = Coll(u, cls, ordered=ordered)
        r = u.sym(R, 'resource')
        rep = u.sym('bool', 'replace')
        uri = val_uri(ex, r.t)
        k, v = u.attempt(lambda: u.method(c.obj, 'add', r, rep))
        d, w, o = c.now()
        x = z3.Const('x', ex.SS)
        if k == 'raise':
            u.prove('a duplicate error', u.is_exc(v, err))
            u.prove('only for a URI that is there, without replacement', z3.And(z3.Select(c.dom, uri), z3.Not(rep.t)))
            u.prove('nothing is changed', c.unchanged())
            u.cover('refused')
        else:
            u.prove('not for a URI that is there without replacement', z3.Or(z3.Not(z3.Select(c.dom, uri)), rep.t))
            u.prove('the URIs are those of before and the new one',
                    z3.ForAll([x], z3.Select(d, x) == z3.Or(x == uri, z3.Select(c.dom, x))))
            u.prove('the new resource is the one for its URI', z3.Select(w, uri) == r.t)
            u.prove('the others are as they were', z3.ForAll([x], z3.Implies(
                z3.And(x != uri, z3.Select(c.dom, x)), z3.Select(w, x) == z3.Select(c.val, x))))
            u.prove('every resource is stored under its own URI', c.inv(d, w))
            if ordered:
                u.prove('a new URI comes last, a replacement keeps its place', o.t == z3.If(
                    z3.Select(c.dom, uri), c.order.t, z3.Concat(c.order.t, z3.Unit(uri))))
            u.cover('added', z3.Not(z3.Select(c.dom, uri)))
            u.cover('replaced', z3.Select(c.dom, uri))
    return fn


def once_sorted(u, c, s, goal):
    """The resources in sequence s are those of the collection, each once, in order of URI."""
    ex = u.ex
    i, j = z3.Ints('i j')
    n = z3.Length(s)
    x = z3.Const('x', ex.SS)
    u.prove(goal + ': only resources of the collection', z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < n), z3.And(z3.Select(c.dom, val_uri(ex, s[i])),
                                      s[i] == z3.Select(c.val, val_uri(ex, s[i]))))))
    u.prove(goal + ': in strict order of URI', z3.ForAll([i, j], z3.Implies(
        z3.And(0 <= i, i < j, j < n), val_uri(ex, s[i]) < val_uri(ex, s[j]))))
    u.prove(goal + ': every resource of the collection', z3.ForAll([x], z3.Implies(
        z3.Select(c.dom, x), z3.Exists([i], z3.And(0 <= i, i < n, s[i] == z3.Select(c.val, x))))))


def iterate(cls, how, ordered=False):
    def fn(u):
        ex = u.ex
        c = Coll(u, cls, ordered=ordered)
        it = u.ex.bi.make_iter(c.obj) if how is None else u.method(c.obj, how)
        cell = ex.cell(it)
        u.prove('iteration starts at the beginning', z3.BoolVal(not is_z3(cell.pos) and cell.pos == 0))
        s = cell.src[1].t
        if ordered and how is None:
            i = z3.Int('i')
            n = z3.Length(s)
            u.prove('as many as there are', n == z3.Length(c.order.t))
            u.prove('in order of addition', z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n), s[i] == z3.Select(c.val, c.order.t[i]))))
        else:
            once_sorted(u, c, s, 'iteration gives')
        u.prove('the collection is as it was', c.unchanged())
        u.cover('several', z3.Length(s) > 2)
    return fn


def interleaved(cls, how=None, ordered=False):
    """Two iterations at once: each goes on where it was."""
    def fn(u):
        ex = u.ex
        c = Coll(u, cls, ordered=ordered)
        new = lambda: u.ex.bi.make_iter(c.obj) if how is None else u.method(c.obj, how)
        nxt = lambda it: ex.split(ex.bi.f_next(ex, [it], {}))
        a = new()
        s = ex.cell(a).src[1].t
        u.assume(z3.Length(s) > 2)
        u.prove('first of the first', nxt(a).t == s[0])
        b = new()
        t = ex.cell(b).src[1].t
        u.assume(z3.Length(t) > 2)
        u.prove('first of the second', nxt(b).t == t[0])
        u.prove('second of the second', nxt(b).t == t[1])
        u.prove('second of the first', nxt(a).t == s[1])
        u.prove('third of the second', nxt(b).t == t[2])
        u.prove('third of the first', nxt(a).t == s[2])
    return fn


def folds(u, c, s, rep):
    ex = u.ex
    V = z3.ArraySort(ex.SS, ex.sort(R))
    dom = u.fold(Fold('uris', s, None, c.dom, lambda ex, a, e, i: z3.Store(a, val_uri(ex, e.t), z3.BoolVal(True)),
                      sort=c.dom.sort(), accum=False))
    vals = u.fold(Fold('resources', s, None, c.val, lambda ex, a, e, i: z3.Store(a, val_uri(ex, e.t), e.t), sort=V, accum=False))
    good = u.fold(Pred('may be added', s, lambda ex, e, i: z3.Or(rep, z3.Not(z3.Select(dom.at(ex, i), val_uri(ex, e.t))))))

    def cands(ex, loop):
        if dom.index(ex, loop) is None:
            return []
        out = []
        for k in loop.mod:
            d = loop.get(loop.entry_sym, k)
            if isinstance(d, DictCell) and d.sym is not None:
                out.append(('URIs of %s' % (k,), lambda v, k=k: v.loop.get(v.ex.st, k).sym[0] == dom.at(ex, v.i)))
                out.append(('resources of %s' % (k,), lambda v, k=k: v.loop.get(v.ex.st, k).sym[1] == vals.at(ex, v.i)))
        return out
    u.fold(Extra(cands))
    return dom, vals, good


def container(cls, coll, err, many):
    """add() of a list class hands resources to its collection, one after the other."""
    def fn(u):
        ex = u.ex
        o = u.new(cls)
        c = Coll(u, None, obj=u.get(o, 'resources'))
        u.prove('the collection is of the class with one resource per URI',
                z3.BoolVal(ex.cell(c.obj).cls.name == coll))
        rep = u.sym('bool', 'replace')
        if many:
            s = u.old(u.seq(R, 'added'))
            arg = ex.alloc(ListCell(None, s))
        else:
            r = u.sym(R, 'resource')
            s = Seq(z3.Unit(r.t), R)
            arg = r
        n = z3.Length(s.t)
        dom, vals, good = folds(u, c, s, rep.t)
        for i in (0, 1):
            for f in (dom, vals):
                for g in f.defn(ex, z3.IntVal(i)):
                    if not many or i == 0:
                        u.assume(g)
        k, v = u.attempt(lambda: u.method(o, 'add', arg, rep))
        d, w, _ = c.now()
        u.prove('the same collection is used', z3.BoolVal(u.get(o, 'resources') == c.obj))
        if k == 'ok':
            u.prove('only without duplicates or with replacement', good.all_to(ex, n))
            u.prove('every URI is there, and those of before', d == dom.at(ex, n))
            u.prove('each with the last resource added for it', w == vals.at(ex, n))
            u.cover('added', z3.BoolVal(True))
        else:
            u.prove('a duplicate error', u.is_exc(v, err))
            u.prove('only for a duplicate, without replacement', z3.And(z3.Not(rep.t), z3.Not(good.all_to(ex, n))))
            if not many:
                u.prove('nothing is changed', c.unchanged())
            u.cover('refused')
    return fn


def capability(cls, coll, err, meth):
    """A new resource for a capability is added like any other."""
    def fn(u):
        ex = u.ex
        o = u.new(cls)
        c = Coll(u, None, obj=u.get(o, 'resources'))
        uri, name = u.sym('str', 'uri'), u.opt('str', 'name')
        k, v = u.attempt(lambda: ex.call(ex.getattr(o, meth), [], dict(uri=uri, name=name)) if meth == 'add_capability' else u.method(o, meth, uri))
        d, w, _ = c.now()
        there = z3.Select(c.dom, uri.t)
        if k == 'raise':
            u.prove('a duplicate error', u.is_exc(v, err))
            u.prove('only for a duplicate', there)
            u.prove('nothing is changed', c.unchanged())
            u.cover('refused')
            return
        x = z3.Const('x', ex.SS)
        u.prove('only for a URI that was not there', z3.Not(there))
        u.prove('the URI is there, and those of before', d == z3.Store(c.dom, uri.t, z3.BoolVal(True)))
        r = z3.Select(w, uri.t)
        u.prove('a resource of that URI', val_uri(ex, r) == uri.t)
        got = u.get(Ref(r, 'Resource'), 'capability')
        if meth == 'add_capability':
            u.prove('of that capability', B(ex.equals(got, ex.split(name))))
        else:
            u.prove('of capability capabilitylist', B(ex.equals(got, 'capabilitylist')))
        u.prove('the others are as they were', z3.ForAll([x], z3.Implies(
            z3.And(x != uri.t, z3.Select(c.dom, x)), z3.Select(w, x) == z3.Select(c.val, x))))
        u.cover('added')
    return fn


UNITS = []
for _cls, _err, _ord in (('resource_list.ResourceListDict', 'ResourceListDupeError', False),
                         ('resource_list.ResourceListOrdered', 'ResourceListDupeError', True),
                         ('resource_set.ResourceSet', 'ResourceSetDupeError', False),
                         ('capability_list.CapabilitySet', 'ResourceSetDupeError', False)):
    _n = _cls.split('.')[1]
    _t = {'CapabilitySet': 'resource_set.ResourceSet'}.get(_n, _cls)
    UNITS.append(Unit(_n + '.add', add(_cls, _err, _ord), _t + '.add', reftypes=RT, merge=False,
                      covers=['added', 'replaced', 'refused']))
for _cls, _how, _ord, _t in (
        ('resource_list.ResourceListDict', None, False, 'resource_list.SortedIterMixin.sorted_iter'),
        ('resource_list.ResourceListDict', 'sorted_iter', False, 'resource_list.SortedIterMixin.sorted_iter'),
        ('resource_list.ResourceListOrdered', None, True, 'resource_list.ResourceListOrdered.__iter__'),
        ('resource_list.ResourceListOrdered', 'sorted_iter', True, 'resource_list.SortedIterMixin.sorted_iter'),
        ('resource_set.ResourceSet', None, False, 'resource_set.ResourceSet.__iter__')):
    UNITS.append(Unit('%s.%s' % (_cls.split('.')[1], _how or '__iter__'), iterate(_cls, _how, _ord), _t,
                      reftypes=RT, merge=False, covers=['several']))
    UNITS.append(Unit('%s.%s twice at once' % (_cls.split('.')[1], _how or '__iter__'), interleaved(_cls, _how, _ord), _t,
                      reftypes=RT, merge=False))
for _cls, _coll, _err in (('resource_list.ResourceList', 'ResourceListDict', 'ResourceListDupeError'),
                          ('source_description.SourceDescription', 'ResourceSet', 'ResourceSetDupeError'),
                          ('capability_list.CapabilityList', 'CapabilitySet', 'ResourceSetDupeError')):
    for _many in (False, True):
        UNITS.append(Unit('%s.add of %s' % (_cls.split('.')[1], 'many' if _many else 'one'),
                          container(_cls, _coll, _err, _many), _cls + '.add', reftypes=RT, merge=False,
                          covers=['added', 'refused']))
for _cls, _coll, _err, _m in (('capability_list.CapabilityList', 'CapabilitySet', 'ResourceSetDupeError', 'add_capability'),
                              ('source_description.SourceDescription', 'ResourceSet', 'ResourceSetDupeError', 'add_capability_list')):
    UNITS.append(Unit('%s.%s' % (_cls.split('.')[1], _m), capability(_cls, _coll, _err, _m), _cls + '.' + _m, reftypes=RTF,
                      merge=False, covers=['added', 'refused']))
CONF = dict(bounded=['capability_list.CapabilitySet.__iter__: every collection of up to 3 resources with capabilities '
                     'from 12 names (2 URIs orders), and random larger ones, on the real code'], assumptions=['sorted() gives a sorted permutation', 'a dict keeps one value per key, in order of first insertion'])
