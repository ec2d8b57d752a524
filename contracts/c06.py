"""C06: pruning a change list."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred
from .lib import *

RT = {'Resource': RESOURCE}
RTC = {'Resource': CHANGED}


def change_list(u, s):
    cl = u.new('change_list.ChangeList')
    lst = u.ex.alloc(ListCell(None, s))
    u.ex.cell(cl).attrs['resources'] = lst
    return cl, lst


def before(version, attr, explicit=True):
    def unit(u):
        ex = u.ex
        s = u.seq(R, 'entries')
        n = z3.Length(s.t)
        t = u.sym('real', 'timestamp')
        cl, lst = change_list(u, s)

        def when(e):
            return fget(ex, attr, e.t)

        def keep(e):
            return val(when(e)) >= t.t
        kept = u.fold(Fold('kept', s, ('seq', R), empty(ex, R),
                           lambda ex, a, e, i: z3.If(keep(e), z3.Concat(a, z3.Unit(e.t)), a)))
        gone = u.fold(Fold('dropped', s, 'int', z3.IntVal(0), lambda ex, a, e, i: z3.If(keep(e), a, a + 1)))
        timed = u.fold(Pred('has a time', s, lambda ex, e, i: z3.Not(absent(when(e)))))
        args = {'spec_version': version} if explicit else {}
        k, v = u.attempt(lambda: u.method(cl, 'prune_updates_before', t, **args))
        if k == 'ok':
            u.induct('dropped(i) == i - |kept(i)|',
                     lambda i: gone.at(ex, i) == i - z3.Length(kept.at(ex, i)), n,
                     lambda i: kept.defn(ex, i) + gone.defn(ex, i))
            u.prove('every entry has a time', timed.all_to(ex, n))
            u.prove('exactly the entries at or after the time are kept, in order',
                    seq_term(ex, u.get(cl, 'resources'), R) == kept.total(ex))
            u.prove('returns the number removed', ex.term(ex.split(v), 'int') == n - z3.Length(kept.total(ex)))
            u.cover('pruned', n > 1)
        else:
            j = z3.Int('j')
            u.prove('an error only if some entry has no time', z3.Not(timed.all_to(ex, n)))
            u.prove('an error changes nothing', seq_term(ex, u.get(cl, 'resources'), R) == s.t)
            u.cover('refused')
        u.prove('entries themselves are not changed', fields_same(ex))
    return unit


def fields_same(ex):
    return all(z3.is_const(a) and str(a).startswith('fld0:') for a in ex.st.fields.values())


def dupes(u):
    ex = u.ex
    s = u.seq(R, 'entries')
    n = z3.Length(s.t)
    cl, lst = change_list(u, s)
    SS = ex.SS
    uri = lambda t: fget(ex, 'uri', t).t
    chg = lambda t: fget(ex, 'change', t).t
    CRE, DEL = ex.lit('created'), ex.lit('deleted')
    # suffix i..n: URIs that occur, change of the first entry per URI, URIs whose last entry is a delete
    seen = u.fold(Fold('uris_from', s, ('set', 'str'), z3.K(SS, z3.BoolVal(False)),
                       lambda ex, a, e, i: z3.Store(a, uri(e.t), z3.BoolVal(True)), backward=True))
    first = u.fold(Fold('first_change_from', s, None, z3.K(SS, ex.lit('')),
                        lambda ex, a, e, i: z3.Store(a, uri(e.t), chg(e.t)), backward=True,
                        sort=z3.ArraySort(SS, SS), accum=False))
    is_last = lambda i, e: z3.Not(z3.Select(seen.at(ex, i + 1), uri(e)))
    dels = u.fold(Fold('deleted_last', s, ('set', 'str'), z3.K(SS, z3.BoolVal(False)),
                       lambda ex, a, e, i: z3.If(z3.And(is_last(i, e.t), chg(e.t) == DEL),
                                                 z3.Store(a, uri(e.t), z3.BoolVal(True)), a), backward=True))
    lasts = u.fold(Fold('lasts_reversed', s, ('seq', R), empty(ex, R),
                        lambda ex, a, e, i: z3.If(is_last(i, e.t), z3.Concat(a, z3.Unit(e.t)), a), backward=True))
    ndup = u.fold(Fold('dups', s, 'int', z3.IntVal(0),
                       lambda ex, a, e, i: z3.If(is_last(i, e.t), a, a + 1), backward=True))
    # the specification: an entry is kept if it is the last of its URI, unless it is a delete and the first of
    # the URI was a create
    keep = lambda i, e: z3.And(is_last(i, e), z3.Not(z3.And(
        chg(e) == DEL, z3.Select(first.at(ex, z3.IntVal(0)), uri(e)) == CRE)))
    kept = u.fold(Fold('kept', s, ('seq', R), empty(ex, R),
                       lambda ex, a, e, i: z3.If(keep(i, e.t), z3.Concat(z3.Unit(e.t), a), a),
                       backward=True, accum=False))
    folds = (seen, first, dels, lasts, ndup, kept)

    def unfold(i):
        return [f for x in folds for f in x.defn(ex, i)]

    from pydv.loops import Extra

    def cands(ex, loop):
        ix = seen.index(ex, loop)
        out = []
        if ix is None:
            return out
        for k in loop.mod:
            c = loop.get(loop.entry_sym, k)
            if isinstance(c, DictCell) and c.sym is not None:
                def vals(v, k=k):
                    d = v.loop.get(v.ex.st, k).sym
                    x = z3.Const('x', SS)
                    i = ix[0](v.i)
                    return z3.ForAll([x], z3.Implies(z3.Select(d[0], x),
                                                     z3.Select(d[1], x) == z3.Select(first.at(ex, i), x)))

                def sub(v, k=k):
                    d = v.loop.get(v.ex.st, k).sym
                    x = z3.Const('x', SS)
                    i = ix[0](v.i)
                    return z3.ForAll([x], z3.Implies(z3.Select(d[0], x), z3.Select(seen.at(ex, i), x)))
                out.append(('values of %s are the first changes' % (k,), vals))
                out.append(('keys of %s have been seen' % (k,), sub))
        return out
    u.fold(Extra(cands))
    # second pass: what a filter of any sequence by the same condition gives
    SeqS = z3.SeqSort(z3.IntSort())
    Filt = z3.Function('filtered', SeqS, z3.IntSort(), SeqS)
    Cnt = z3.Function('filtered_out', SeqS, z3.IntSort(), z3.IntSort())
    DLc = dels.at(ex, z3.IntVal(0))
    FCc = first.at(ex, z3.IntVal(0))
    drop2 = lambda e: z3.And(z3.Select(DLc, uri(e)), z3.Select(FCc, uri(e)) == CRE)

    def filt_def(q, j):
        e = q[j]
        r = z3.And(0 <= j, j < z3.Length(q))
        return [Filt(q, 0) == z3.Empty(SeqS), Cnt(q, 0) == 0,
                z3.Implies(r, Filt(q, j + 1) == z3.If(drop2(e), Filt(q, j), z3.Concat(Filt(q, j), z3.Unit(e)))),
                z3.Implies(r, Cnt(q, j + 1) == z3.If(drop2(e), Cnt(q, j) + 1, Cnt(q, j)))]

    def cands2(ex, loop):
        out = []
        if loop.along is None or loop.along.ek != R:
            return out
        q = loop.along.t
        for k in loop.mod:
            c = loop.get(loop.entry_sym, k)
            if isinstance(c, ListCell) and c.seq is not None:
                out.append(('%s == filtered' % (k,), lambda v, k=k: v.loop.get(v.ex.st, k).seq.t == Filt(q, v.i)))
            elif isinstance(c, (int, T)) and ex.kind(c) == 'int':
                e = ex.term(c, 'int')
                out.append(('%s == entry + filtered_out' % (k,),
                            lambda v, k=k, e=e: ex.term(v.loop.get(v.ex.st, k), 'int') == e + Cnt(q, v.i)))
                out.append(('%s == filtered_out' % (k,),
                            lambda v, k=k: ex.term(v.loop.get(v.ex.st, k), 'int') == Cnt(q, v.i)))
        return out

    def facts2(ex, loop, i):
        return filt_def(loop.along.t, i) + filt_def(loop.along.t, i - 1) if loop.along is not None and loop.along.ek == R else []
    u.fold(Extra(cands2, facts2))
    v = u.method(cl, 'prune_dupes')
    res = seq_term(ex, u.get(cl, 'resources'), R)
    # lemmas relating the two passes to the specification
    rev = ex.bi.rev(R)
    zero = z3.IntVal(0)
    x, q, j = z3.Int('x'), z3.Const('q', SeqS), z3.Int('j')
    xq = z3.Concat(z3.Unit(x), q)
    shift = lambda j: z3.Implies(z3.And(0 <= j, j <= z3.Length(q)), z3.And(
        Filt(xq, j + 1) == z3.If(drop2(x), Filt(q, j), z3.Concat(z3.Unit(x), Filt(q, j))),
        Cnt(xq, j + 1) == z3.If(drop2(x), 1, 0) + Cnt(q, j)))
    u.induct('filtering x:q is filtering q', shift, z3.Length(q),
             lambda j: filt_def(q, j) + filt_def(xq, j + 1) + filt_def(xq, zero) + filt_def(q, zero)
             + [z3.Implies(z3.And(j >= 0, j < z3.Length(q)), xq[j + 1] == q[j])], at=[])
    ex.assume(z3.ForAll([x, q, j], shift(j), patterns=[Filt(xq, j + 1)]))
    ex.assume(rev(z3.Empty(SeqS)) == z3.Empty(SeqS))      # definition of reversal
    ex.assume(z3.ForAll([q], z3.Length(rev(q)) == z3.Length(q), patterns=[rev(q)]))

    def both(i):
        r = rev(lasts.at(ex, i))
        return z3.And(Filt(r, z3.Length(r)) == kept.at(ex, i),
                      Cnt(r, z3.Length(r)) + ndup.at(ex, i) == (n - i) - z3.Length(kept.at(ex, i)))

    def facts(i):
        e = s.t[i]
        l1 = lasts.at(ex, i + 1)
        r1 = rev(l1)
        xr = z3.Concat(z3.Unit(e), r1)
        m = z3.Length(r1)
        return unfold(i) + unfold(n - 1) + [
            rev(z3.Concat(l1, z3.Unit(e))) == xr,
            Filt(xr, m + 1) == z3.If(drop2(e), Filt(r1, m), z3.Concat(z3.Unit(e), Filt(r1, m))),
            Cnt(xr, m + 1) == z3.If(drop2(e), 1, 0) + Cnt(r1, m),
            z3.Length(xr) == m + 1,
            Filt(z3.Empty(SeqS), 0) == z3.Empty(SeqS), Cnt(z3.Empty(SeqS), 0) == 0,
            # the URI's last entry is e: whether it is a delete is decided here
            z3.Implies(z3.And(0 <= i, i < n, is_last(i, e)), z3.Select(DLc, uri(e)) == (chg(e) == DEL))]
    # once seen, whether a URI's last change is a delete does not change any more
    y = z3.Const('y', SS)
    u.induct('the last change of a URI seen is settled', lambda i: z3.Implies(
        i >= 0, z3.ForAll([y], z3.Implies(z3.Select(dels.at(ex, i), y), z3.Select(seen.at(ex, i), y)))),
        n, unfold, down=True, at=[])
    ex.assume(z3.ForAll([j, y], z3.Implies(z3.And(0 <= j, j <= n, z3.Select(dels.at(ex, j), y)),
                                           z3.Select(seen.at(ex, j), y)), patterns=[z3.Select(dels.at(ex, j), y)]))
    m0 = z3.Int(ex.fresh_name('m0'))

    def settled(i):
        # for i' = m0 - i going down from m0: dels(i')[y] == dels(m0)[y] for y seen from m0 on
        k = m0 - i
        return z3.Implies(k >= 0, z3.ForAll([y], z3.Implies(z3.Select(seen.at(ex, m0), y), z3.And(
            z3.Select(seen.at(ex, k), y), z3.Select(dels.at(ex, k), y) == z3.Select(dels.at(ex, m0), y)))))
    ex.assume(z3.And(0 <= m0, m0 <= n))     # arbitrary
    u.induct('settled', settled, m0, lambda i: unfold(m0 - i - 1), at=[])
    ex.assume(z3.ForAll([j, y], z3.Implies(z3.And(0 <= j, j <= n, z3.Select(seen.at(ex, j), y)),
                                           z3.Select(DLc, y) == z3.Select(dels.at(ex, j), y)),
                        patterns=[z3.Select(seen.at(ex, j), y)]))
    i0 = z3.Int(ex.fresh_name('i0'))
    e0 = s.t[i0]
    rng = z3.And(0 <= i0, i0 < n)
    u.lemma('a last entry decides', z3.Implies(is_last(i0, e0), z3.Select(DLc, uri(e0)) == (chg(e0) == DEL)),
            [rng] + unfold(i0))
    u.induct('every entry is a last one or not', lambda i: ndup.at(ex, i) + z3.Length(lasts.at(ex, i)) == n - i,
             n, facts, down=True)
    u.induct('the two passes give the specified list', both, n, facts, down=True)
    u.prove('keeps exactly the last entries, without created-and-deleted ones, in order', res == kept.total(ex))
    u.prove('returns the number removed', ex.term(ex.split(v), 'int') == n - z3.Length(res))
    u.prove('entries themselves are not changed', fields_same(ex))
    u.cover('several entries', n > 2)


UNITS = [
    Unit('prune_updates_before 1.1', before('1.1', 'ts_datetime'), 'change_list.ChangeList.prune_updates_before',
         reftypes=RT, covers=['pruned', 'refused']),
    Unit('prune_updates_before default', before('1.1', 'ts_datetime', False),
         'change_list.ChangeList.prune_updates_before', reftypes=RT, covers=['pruned', 'refused']),
    Unit('prune_updates_before 1.0', before('1.0', 'timestamp'), 'change_list.ChangeList.prune_updates_before',
         reftypes=RT, covers=['pruned', 'refused']),
    Unit('prune_dupes', dupes, 'resource_container.ResourceContainer.prune_dupes', reftypes=RTC,
         covers=['several entries']),
]
