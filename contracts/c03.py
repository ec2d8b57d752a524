"""C03: baseline sync and audit act only as the comparison and options allow."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .syncing import Sync, CLIENT, tbool
from . import mapsafe

RT = {'Resource': RESOURCE}


def run(audit):
    def fn(u):
        ex = u.ex
        y = Sync(u)
        v = y.v
        src = u.seq(R, 'listed')
        parts = {k: u.seq(R, k) for k in ('same', 'updated', 'deleted', 'created')}
        n = z3.Length(src.t)
        y.allow = u.sym('bool', 'allow_deletion').t
        doc = y.sitemap
        RL = ex.project.cls('resource_list.ResourceList')

        def listed(seq):
            """A resource list, known by what iterating over it gives (C08)."""
            o = u.new('resource_list.ResourceList')
            ex.cell(o).attrs['resources'] = ex.alloc(ListCell(None, seq))
            return o
        g = ex.st.ghost
        g['src'] = None

        def find(ex, a):
            """C21: the resource list found, or an error."""
            if ex.branch(z3.Bool('cannot_read')):
                y.fail('ClientFatalError' if ex.branch(z3.Bool('fatal')) else 'ClientError', 'bad')
            o = listed(src)
            ex.st.ghost['src'] = o
            return o

        def from_disk(ex, a):
            """C19: the list of local files, as URIs of the mapping of the builder."""
            at = ex.cell(ex.split(a['self'])).attrs
            u.prove('local files are listed with the mapper of the client', ex.split(at['mapper']) == y.mapper)
            u.prove('all mapped paths are scanned', ex.is_none(a.get('paths')))
            o = u.new('resource_list.ResourceList')
            ex.st.ghost['dst'] = o
            return o

        def compare(ex, a):
            """C01."""
            u.prove('the local files are compared with the list found', z3.BoolVal(
                ex.split(a['self']) == ex.st.ghost.get('dst') and ex.split(a['src']) == ex.st.ghost['src']))
            return tuple(listed(parts[k]) for k in ('same', 'updated', 'deleted', 'created'))
        ex.models.update({
            CLIENT + 'find_resource_list': find, 'resource_list_builder.ResourceListBuilder.from_disk': from_disk,
            'resource_list.ResourceList.compare': compare,
            'list_base_with_index.ListBaseWithIndex.hashes': lambda ex, a: ex.alloc(SetCell(
                {h: z3.Bool('listed ' + h) for h in ('md5', 'sha-1', 'sha-256')}))})
        may = u.fold(Pred('within authority', src, lambda ex, e, i: y.may(e.t)))
        C, U_, D = [parts[k].t for k in ('created', 'updated', 'deleted')]
        dry = v['dryrun'].t
        up = lambda v: v.ex.st.ghost['ups'].t
        dl = lambda v: v.ex.st.ghost['dels'].t
        E = empty(ex, R)

        def cands(ex, loop):
            if loop.along is None or not isinstance(loop.along.ek, tuple):
                return []
            out = []
            for k, of, live in (('ups', up, z3.Not(dry)), ('dels', dl, z3.And(y.allow, z3.Not(dry)))):
                if ('ghost', k) in loop.mod:
                    e = loop.entry_sym.ghost[k].t
                    out.append(('%s are those so far' % k, lambda v, of=of, live=live, e=e: of(v) == z3.If(
                        live, z3.Concat(e, z3.Extract(loop.along.t, z3.IntVal(0), v.i)), e)))
            return out
        u.fold(Extra(cands))
        y.growing(z3.RealVal(0))

        def ready():
            return z3.And(y.nmap.t >= 1, z3.Not(y.unsafe.t), n > 0, z3.Or(v['noauth'].t, may.all_to(ex, n)))
        ready_, = [ready()]

        def before_act(r):
            u.prove('nothing is done in an audit', z3.BoolVal(not audit))
            u.prove('nothing is done unless all conditions hold', ready())
        y.before_act = before_act
        args = dict(allow_deletion=tbool(y.allow))
        if audit is not None:
            args['audit_only'] = bool(audit)
        k, res = u.attempt(lambda: u.method(y.c, 'baseline_or_audit', **args))
        ups, dels, rec, state = y.g('ups'), y.g('dels'), y.g('recorded'), y.g('state')
        if k == 'raise':
            u.prove('nothing is recorded after an error', rec == 0)
            u.prove('an error only for a reason', z3.Or(y.g('cause'), z3.Not(y.nmap.t >= 1), n == 0, z3.And(
                z3.BoolVal(not audit), z3.Not(ready()))))
            j = z3.Int('j')
            ux = z3.Concat(C, U_)
            uy = z3.Concat(U_, C)
            u.prove('what was done before an error is a part of what is to be done', z3.And(
                z3.Or(ups == E, *[p(j_) for s in (ux, uy) for p in (lambda j_, s=s: z3.PrefixOf(ups, s),) for j_ in (0,)]),
                z3.PrefixOf(dels, D)))
            u.cover('refused')
            return
        nothing = z3.And(z3.Length(C) == 0, z3.Length(U_) == 0, z3.Length(D) == 0)
        u.prove('a source list with entries and a mapping are there', z3.And(y.nmap.t >= 1, n > 0))
        if audit:
            u.prove('an audit changes nothing', z3.And(ups == E, dels == E, rec == 0))
            u.cover('audit', z3.Not(nothing))
            return
        u.prove('all conditions hold if there is something to do', z3.Or(nothing, ready()))
        u.prove('created and updated resources are downloaded, each once', z3.If(
            dry, ups == E, z3.Or(ups == z3.Concat(C, U_), ups == z3.Concat(U_, C))))
        u.prove('local copies of deleted resources are removed exactly if allowed', dels == z3.If(
            z3.And(y.allow, z3.Not(dry)), D, E))
        u.prove('recorded is the latest timestamp of what was downloaded, if positive and in no dry run', z3.If(
            z3.And(z3.Not(dry), y.g('latest') > 0), z3.And(rec == 1, state == y.g('latest')), rec == 0))
        u.cover('done', z3.And(rec == 1, y.allow, z3.Length(D) > 0))
        u.cover('dry run', z3.And(dry, z3.Not(nothing)))
        u.cover('nothing to do', nothing)
    return fn


UNITS = [Unit('baseline', run(False), CLIENT + 'baseline_or_audit', reftypes=RT, covers=['refused', 'done', 'dry run', 'nothing to do'], budget=250),
         Unit('baseline by default', run(None), CLIENT + 'baseline_or_audit', reftypes=RT, budget=250),
         Unit('audit', run(True), CLIENT + 'baseline_or_audit', reftypes=RT, covers=['audit', 'refused'])]
UNITS += mapsafe.UNITS
CONF = dict(assumptions=mapsafe.ASSUMED + ['resource lists are known by what iterating over them gives (C08)'])
