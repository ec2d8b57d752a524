"""C04: incremental sync applies exactly the pending changes."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .syncing import Sync, CLIENT, tbool
from . import mapsafe

RT = {'Resource': CHANGED}


def incremental(default):
    def fn(u):
        ex = u.ex
        y = Sync(u)
        v = y.v
        s = u.seq(R, 'listed')              # the change list as read
        p1 = u.seq(R, 'from_start')         # pruned by time (C06)
        p2 = u.seq(R, 'pending')            # of these the last of each resource (C06)
        n, n1, n2 = [z3.Length(q.t) for q in (s, p1, p2)]
        from_ = u.opt('str', 'from_datetime')
        y.from_ = from_
        y.allow = u.sym('bool', 'allow_deletion').t
        uri = None
        if default:
            arg = u.opt('str', 'change_list_uri')
            # an empty name counts as none
            u.assume(z3.Or(absent(arg), val(arg) == ex.lit('')))
            doc = y.SMU(v['change_list_name'].t)
        else:
            arg = u.sym('str', 'change_list_uri')
            u.assume(arg.t != ex.lit(''))
            doc = y.SMU(arg.t)
        chg = lambda e: fget(ex, 'change', e).t
        is_ = lambda e, *ts: z3.Or(*[chg(e) == ex.lit(t) for t in ts])
        version = u.sym('str', 'spec_version')
        ex.cell(y.c).attrs['spec_version'] = version

        # call-site contracts of the change list
        def content(ex, a):
            o = ex.cell(ex.split(a['self']))
            r = ex.split(o.attrs['resources'])
            c = ex.cell(r)
            return o, (ex.cell(c.base) if isinstance(c, ObjCell) else c)

        def read(ex, a):
            u.prove('the change list is read from its URI', ex.term(ex.split(a.get('uri')), 'str') == doc)
            if ex.branch(z3.Bool('cannot_read')):
                y.fail('Exception', 'bad')
            ex.cell(ex.split(a['self'])).attrs['resources'] = ex.alloc(ListCell(None, s))
            ex.st.ghost['read'] = tbool(True)
            return None

        def before(ex, a):
            o, c = content(ex, a)
            u.prove('what is pruned by time is the change list as read', z3.BoolVal(c.seq is not None and c.seq.t.eq(s.t)))
            u.prove('it is pruned from the starting time', ex.term(ex.split(a['timestamp']), 'real') == start)
            u.prove('it is pruned by the times of the version of the specification',
                    ex.eq(a.get('spec_version', '1.1'), version))
            if ex.branch(z3.Bool('no_change_time')):
                y.fail('Exception', 'no time')
            o.attrs['resources'] = ex.alloc(ListCell(None, p1))
            return T('int', n - n1)

        def dupes(ex, a):
            o, c = content(ex, a)
            u.prove('duplicates are pruned after pruning by time', z3.BoolVal(c.seq is not None and c.seq.t.eq(p1.t)))
            o.attrs['resources'] = ex.alloc(ListCell(None, p2))
            return T('int', n1 - n2)
        u.assume(z3.And(n1 <= n, n2 <= n1))
        ex.models.update({'list_base_with_index.ListBaseWithIndex.read': read,
                          'list_base_with_index.ListBaseWithIndex.hashes': lambda ex, a: ex.alloc(SetCell(
                              {h: z3.Bool('listed ' + h) for h in ('md5', 'sha-1', 'sha-256')})),
                          'change_list.ChangeList.prune_updates_before': before,
                          'resource_container.ResourceContainer.prune_dupes': dupes})
        start = z3.If(absent(from_), val(y.start), y.parsed.t)

        # what the specification says
        def when(e):
            d, t = fget(ex, 'ts_datetime', e), fget(ex, 'timestamp', e)
            return z3.If(absent(d), val(t), val(d))
        timed = u.fold(Pred('has a time', s, lambda ex, e, i: z3.Not(z3.And(
            absent(fget(ex, 'ts_datetime', e.t)), absent(fget(ex, 'timestamp', e.t))))))
        late = u.fold(Fold('latest_change', s, 'real', z3.RealVal(0), lambda ex, a, e, i: z3.If(when(e.t) > a, when(e.t), a)))
        may = u.fold(Pred('within authority', s, lambda ex, e, i: z3.Or(
            y.may(e.t, url=doc, strict=v['strictauth'].t), *([y.may(e.t, strict=z3.BoolVal(False))] if default else []))))
        known = u.fold(Pred('known change type', p2, lambda ex, e, i: is_(e.t, 'created', 'updated', 'deleted')))
        # applied: created and updated, and deleted ones if deletion is allowed
        exp = u.fold(Fold('applied', p2, ('seq', R), empty(ex, R), lambda ex, a, e, i: z3.If(
            z3.Or(is_(e.t, 'created', 'updated'), z3.And(is_(e.t, 'deleted'), y.allow)), z3.Concat(a, z3.Unit(e.t)), a)))
        counts = [u.fold(Fold('number_' + t, p2, 'int', z3.IntVal(0),
                              lambda ex, a, e, i, t=t: z3.If(is_(e.t, t), a + 1, a))) for t in ('updated', 'created', 'deleted')]
        for t, c in zip(('updated', 'created', 'deleted'), counts):
            fl = u.fold(Fold('entries_' + t, p2, ('seq', R), empty(ex, R), lambda ex, a, e, i, t=t: z3.If(
                is_(e.t, t), z3.Concat(a, z3.Unit(e.t)), a)))
            u.induct('as many as are counted are ' + t, lambda i, c=c, fl=fl: z3.Length(fl.at(ex, i)) == c.at(ex, i), n2,
                     lambda i, c=c, fl=fl: c.defn(ex, i) + fl.defn(ex, i))
        u.induct_all('nothing is counted only if nothing is to be applied', lambda i: z3.And(
            *[c.at(ex, i) >= 0 for c in counts], z3.Implies(
                z3.And(counts[0].at(ex, i) + counts[1].at(ex, i) == 0, z3.Or(counts[2].at(ex, i) == 0, z3.Not(y.allow))),
                exp.at(ex, i) == empty(ex, R)), z3.Implies(
                exp.at(ex, i) == empty(ex, R), z3.And(counts[0].at(ex, i) + counts[1].at(ex, i) == 0,
                                                      z3.Or(counts[2].at(ex, i) == 0, z3.Not(y.allow))))), n2,
            lambda i: [f for x in counts + [exp] for f in x.defn(ex, i)])
        L = late.total(ex)
        dry = v['dryrun'].t
        acts0 = lambda v: v.ex.st.ghost['acts'].t

        def live(ex, loop):
            ix = exp.index(ex, loop)
            if ix is None or ('ghost', 'acts') not in loop.mod:
                return []
            return [('what was done is what is to be applied so far', lambda v: acts0(v) == z3.If(
                dry, empty(v.ex, R), exp.at(v.ex, ix[0](v.i))))]
        u.fold(Extra(live))
        y.growing(L)

        def ready():
            return z3.And(y.nmap.t >= 1, z3.Not(y.unsafe.t),
                          z3.Or(z3.Not(absent(from_)), z3.Not(absent(y.start))),
                          timed.all_to(ex, n), z3.Or(v['noauth'].t, may.all_to(ex, n)))

        def change_arg(ex, r, ch):
            u.prove('only created and updated resources are downloaded', is_(r.t, 'created', 'updated'))
            u.prove('with the change type of the entry', z3.BoolVal(True) if ch is None else ex.term(ch, 'str') == chg(r.t))

        def delete_arg(ex, r):
            u.prove('only deleted resources are deleted', is_(r.t, 'deleted'))

        def before_act(r):
            u.prove('nothing is applied unless all conditions hold', z3.And(ready(), known.all_to(ex, n2)))
        y.change_arg, y.delete_arg, y.before_act = change_arg, delete_arg, before_act
        k, res = u.attempt(lambda: u.method(y.c, 'incremental', allow_deletion=tbool(y.allow), change_list_uri=arg,
                                            from_datetime=from_))
        acts, rec, state = y.g('acts'), y.g('recorded'), y.g('state')
        if k == 'raise':
            j = z3.Int('j')
            u.prove('nothing is recorded after an error', rec == 0)
            u.prove('what was applied before an error is the first part of what is to be applied', z3.Or(
                acts == empty(ex, R), z3.Exists([j], z3.And(0 <= j, j <= n2, acts == exp.at(ex, j)))))
            u.prove('an error only for a reason', z3.Or(y.g('cause'), z3.Not(ready()), z3.Not(known.all_to(ex, n2))))
            if u.is_exc(res, 'ClientError') or u.is_exc(res, 'ClientFatalError'):
                u.cover('refused')
            return
        u.prove('all conditions hold', ready())
        u.prove('exactly the pending changes are applied, in order', z3.If(dry, acts == empty(ex, R), acts == exp.at(ex, n2)))
        some = exp.at(ex, n2) != empty(ex, R)
        u.prove('nothing is recorded in a dry run or if nothing is to be applied',
                z3.Implies(z3.Or(dry, z3.Not(some)), rec == 0))
        u.prove('the state is recorded once after applying', z3.Implies(
            z3.And(z3.Not(dry), some, L > 0), rec == 1))
        top = z3.If(y.g('latest_all') > L, y.g('latest_all'), L)
        u.prove('recorded is the latest time of the change list', z3.Implies(rec > 0, z3.And(rec == 1, state == top)))
        u.cover('applied', z3.And(z3.Not(dry), some, rec == 1))
        u.cover('dry run', z3.And(dry, some))
        u.cover('nothing to do', z3.Not(some))
    return fn


COV = ['refused', 'applied', 'dry run', 'nothing to do']
UNITS = [Unit('incremental, change list given', incremental(False), CLIENT + 'incremental', reftypes=RT, covers=COV, budget=250),
         Unit('incremental, default change list', incremental(True), CLIENT + 'incremental', reftypes=RT, covers=COV, budget=250)]
UNITS += mapsafe.UNITS
CONF = dict(assumptions=mapsafe.ASSUMED + ['entries of a change list have a change type (C07)'])
