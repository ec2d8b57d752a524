"""C07: change lists admit only valid changes, in order."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

FULL = dict(RESOURCE, ln=('opt', ('ref', 'links')), _extra='extra')
for _k in ('capability',):
    FULL['_extra.' + _k] = ('opt', 'str')
for _k in ('ts_at', 'ts_completed', 'ts_from', 'ts_until'):
    FULL['_extra.' + _k] = ('opt', 'real')
RT = {'Resource': RESOURCE}
RTF = {'Resource': FULL}
RTC = {'Resource': CHANGED}
TYPES = ('created', 'updated', 'deleted')


def valid(ex, t):
    return z3.Or(*[t == ex.lit(x) for x in TYPES])


def change_list(u, name='entries'):
    ex = u.ex
    s = u.old(u.seq(R, name))
    cl = u.new('change_list.ChangeList')
    ex.cell(cl).attrs['resources'] = ex.alloc(ListCell(None, s))
    return cl, s


def now(u, cl):
    return seq_term(u.ex, u.get(cl, 'resources'), R)


def add_one(u):
    ex = u.ex
    cl, s = change_list(u)
    r = u.sym(R, 'resource')
    c = ex.ref_get(r, 'change')
    k, v = u.attempt(lambda: u.method(cl, 'add', r))
    if k == 'ok':
        u.prove('only with a change type', z3.Not(absent(c)))
        u.prove('added at the end', now(u, cl) == z3.Concat(s.t, z3.Unit(r.t)))
        u.cover('added')
    else:
        u.prove('a change type error', u.is_exc(v, 'ChangeTypeError'))
        u.prove('only without a change type', absent(c))
        u.prove('the list is as it was', now(u, cl) == s.t)
        u.cover('refused')


def add_many(u):
    ex = u.ex
    cl, s = change_list(u)
    a = u.old(u.seq(R, 'added'))
    n = z3.Length(a.t)
    has = u.fold(Pred('has a change type', a, lambda ex, e, i: z3.Not(absent(fget(ex, 'change', e.t)))))
    acc = u.fold(Fold('taken', a, ('seq', R), empty(ex, R), lambda ex, q, e, i: z3.Concat(q, z3.Unit(e.t))))
    u.induct_all('the entries taken are the first ones',
                 lambda i: z3.Implies(z3.And(0 <= i, i <= n), acc.at(ex, i) == z3.Extract(a.t, z3.IntVal(0), i)), n,
                 lambda i: acc.defn(ex, i))
    k, v = u.attempt(lambda: u.method(cl, 'add', ex.alloc(ListCell(None, a))))
    after = now(u, cl)
    if k == 'ok':
        u.prove('only if all have a change type', has.all_to(ex, n))
        u.prove('all are added at the end, in order', after == z3.Concat(s.t, a.t))
        u.cover('added', n > 1)
    else:
        u.prove('a change type error', u.is_exc(v, 'ChangeTypeError'))
        m = z3.Length(after) - z3.Length(s.t)
        u.prove('only if one has no change type', z3.Not(has.all_to(ex, n)))
        u.prove('only entries before the first without one are added', z3.And(
            0 <= m, m < n, has.all_to(ex, m), after == z3.Concat(s.t, z3.Extract(a.t, z3.IntVal(0), m))))
        u.cover('refused')


def fields(ex):
    """Everything stored of resources: key -> (array now)."""
    for a, ty in FULL.items():
        ex.ref_get(Ref(z3.Int('probe'), 'Resource'), a) if '.' not in a else None
    for a in FULL:
        if '.' in a:
            ex.farr('Resource', a, '!', z3.BoolSort())
            ex.ref_dec(Ref(z3.Int('probe'), 'Resource'), a, FULL[a])
    return {k: v for k, v in ex.st.fields.items() if k.startswith('Resource.')}


EXTRAS = [k for k in FULL if k.startswith('_extra.')]


def data(ex, f, r):
    """What is known of resource r in field state f, apart from the change: list of terms, normalised."""
    out = []
    for a, ty in FULL.items():
        if a in ('change', '_extra'):
            continue
        opt = isinstance(ty, tuple) and ty[0] == 'opt'
        v = z3.Select(f['Resource.' + a], r)
        none = z3.Select(f['Resource.%s?' % a], r) if opt else z3.BoolVal(False)
        if '.' in a:
            none = z3.Or(none, z3.Select(f['Resource._extra?'], r), z3.Not(z3.Select(f['Resource.%s!' % a], r)))
        out.append((a, none, v))
    return out


def same_data(ex, f, r, g, q):
    return z3.And(*[z3.And(n == m, z3.Implies(z3.Not(n), v == w))
                    for (_, n, v), (_, m, w) in zip(data(ex, f, r), data(ex, g, q))])


def changed(u):
    ex = u.ex
    cl, s = change_list(u)
    a = u.old(u.seq(R, 'resources'))
    n = z3.Length(a.t)
    f0 = dict(fields(ex))
    i, r = z3.Ints('i r')
    cnone = lambda f, t: z3.Select(f['Resource.change?'], t)
    chg = lambda f, t: z3.Select(f['Resource.change'], t)
    u.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Or(cnone(f0, a.t[i]), valid(ex, chg(f0, a.t[i]))))))
    c = u.sym('str', 'change')
    top0 = ex.top0
    new = u.fold(Fold('new', a, ('seq', R), empty(ex, R), lambda ex, q, e, i: z3.Concat(q, z3.Unit(top0 + i))))

    def cands(ex, loop):
        if new.index(ex, loop) is None or '_top' not in loop.entry_sym.ghost:
            return []
        out = []
        t0 = loop.entry_sym.ghost['_top'].t
        if not z3.simplify(t0).eq(top0):
            return []

        def copied(v):
            return copy(v.ex.st.fields, v.i)
        out.append(('the change type is valid', lambda v: z3.Or(v.i == 0, valid(ex, c.t))))
        out.append(('new entries have the data of the originals', copied))
        return out

    def copy(f, k, j0=None):
        j = z3.Int('j!copied')
        if not set(f0) <= set(f):
            return z3.BoolVal(False)

        def one(j):
            return z3.Implies(z3.And(0 <= j, j < k), z3.And(
                same_data(ex, f, top0 + j, f0, a.t[j]), z3.Not(cnone(f, top0 + j)), chg(f, top0 + j) == c.t))
        return z3.ForAll([j], one(j)) if j0 is None else one(j0)

    def facts(ex, loop, i):
        # in a later pass over the new entries: the same for entry i
        if loop.along is None or loop.along.ek != R or new.index(ex, loop) is not None:
            return []
        q = loop.along.t
        return [z3.Implies(z3.And(q == new.at(ex, n), 0 <= i, i < n), q[i] == top0 + i),
                z3.Implies(copy(ex.st.fields, n), copy(ex.st.fields, n, i))]
    u.fold(Extra(cands, facts))
    u.induct_all('the new entries are the new objects, one each', lambda k: z3.And(
        z3.Length(new.at(ex, k)) == k, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), new.at(ex, k)[i] == top0 + i))),
        n, lambda k: new.defn(ex, k))
    k, v = u.attempt(lambda: u.method(cl, 'add_changed_resources', ex.alloc(ListCell(None, a)), change=c))
    after = now(u, cl)
    f1 = fields(ex)
    if k == 'ok':
        u.prove('one new entry for each', z3.Length(after) == z3.Length(s.t) + n)
        u.prove('after the earlier entries', z3.Extract(after, z3.IntVal(0), z3.Length(s.t)) == s.t)
        j = z3.Int(ex.fresh_name('any'))
        u.assume(z3.And(0 <= j, j < n))
        e = after[z3.Length(s.t) + j]
        N = new.at(ex, n)
        u.prove('the new objects follow the earlier entries', after == z3.Concat(s.t, N))
        u.lemma('entry j is the j-th new object', e == top0 + j, [
            after == z3.Concat(s.t, N), N[j] == top0 + j, z3.Length(N) == n, 0 <= j, j < n], only=True)
        u.prove('the j-th new object', N[j] == top0 + j)
        u.prove('that is an object of its own', e >= top0)
        u.prove('has all data of the original', same_data(ex, f1, e, f0, a.t[j]))
        u.prove('has the change type given', z3.And(z3.Not(cnone(f1, e)), chg(f1, e) == c.t))
        u.prove('which is a valid one', valid(ex, c.t))
        u.cover('added', n > 1)
    else:
        u.prove('a change type error, if the type is not valid', z3.And(B(u.is_exc(v, 'ChangeTypeError')), z3.Not(valid(ex, c.t))))
        u.prove('nothing is added then', after == s.t)
        u.cover('refused')
    u.prove('the originals are as they were', z3.And(*[
        z3.ForAll([r], z3.Implies(r < top0, z3.Select(f1[x], r) == z3.Select(f0[x], r))) for x in f0]))


def change_check(how):
    def unit(u):
        ex = u.ex
        c = u.opt('str', 'change')
        ok = z3.Or(absent(c), valid(ex, val(c)))
        if how == 'set':
            old = u.opt('str', 'before')
            u.assume(z3.Or(absent(old), valid(ex, val(old))))
            o = u.new('resource.Resource', 'http://example.org/')
            ex.cell(o).attrs['change'] = old
            k, v = u.attempt(lambda: ex.setattr(o, 'change', c))
        elif how == 'init':
            k, v = u.attempt(lambda: u.new('resource.Resource', 'http://example.org/', change=c))
            o = v
        else:
            src = u.sym(R, 'source')
            sc = ex.ref_get(src, 'change')
            u.assume(z3.Or(absent(sc), valid(ex, val(sc))))
            k, v = u.attempt(lambda: u.new('resource.Resource', resource=src, change=c))
            o = v
        if k == 'raise':
            u.prove('a change type error', u.is_exc(v, 'ChangeTypeError'))
            u.prove('only for a type that is not valid', z3.Not(ok))
            if how == 'set':
                u.prove('the change is as it was', ex.eq(u.get(o, 'change'), old))
            u.cover('refused')
        else:
            u.prove('only a valid type', ok)
            want = c if how != 'copy' else U([(absent(c), sc), (z3.Not(absent(c)), T('str', val(c)))])
            now_ = u.get(o, 'change')
            if how == 'copy':
                u.prove('the change is that given, or else that of the original', z3.And(
                    z3.Implies(absent(c), z3.And(absent(now_) == absent(sc), z3.Implies(z3.Not(absent(sc)), val(now_) == val(sc)))),
                    z3.Implies(z3.Not(absent(c)), z3.And(z3.Not(absent(now_)), val(now_) == val(c)))))
            else:
                u.prove('the change is that given', ex.eq(now_, c))
            u.cover('accepted')
    return unit


CL, RK = 'change_list.ChangeList.', 'resource.Resource.'
UNITS = [
    Unit('ChangeList.add one', add_one, (CL + 'add', CL + 'add_if_changed'), reftypes=RT, merge=False, covers=['added', 'refused']),
    Unit('ChangeList.add many', add_many, (CL + 'add', CL + 'add_if_changed'), reftypes=RT, merge=False, covers=['added', 'refused']),
    Unit('ChangeList.add_changed_resources', changed, (CL + 'add_changed_resources', RK + '__init__'), reftypes=RTF,
         covers=['added', 'refused']),
    Unit('Resource.change set', change_check('set'), RK + '__setattr__', merge=False, covers=['accepted', 'refused']),
    Unit('Resource(change=)', change_check('init'), RK + '__setattr__', merge=False, covers=['accepted', 'refused']),
    Unit('Resource(resource=, change=)', change_check('copy'), RK + '__setattr__', merge=False, reftypes=RT, covers=['accepted', 'refused']),
]
CONF = dict(assumptions=['the lists hold resource descriptions made before', 'extra attributes of resources are capability and the at, completed, from and until times'])
