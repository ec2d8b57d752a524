"""C24: a change list written for two resource lists states exactly their differences."""
import z3
from pydv.unit import Unit
from pydv.values import *
from .lib import *
from .syncing import Sync, CLIENT, tbool, tint

RT = {'Resource': RESOURCE}
KINDS = ('updated', 'deleted', 'created')
LBI = 'list_base_with_index.ListBaseWithIndex.'


def changes(new, empty_=False):
    """new: 'list' (a second resource list) or 'disk'."""
    def fn(u):
        ex = u.ex
        y = Sync(u)
        at = ex.cell(y.c).attrs
        multi, pretty, verbose = (u.sym('bool', x) for x in ('allow_multifile', 'pretty_xml', 'verbose'))
        most = u.opt('int', 'max_sitemap_entries')
        excl = ex.alloc(ListCell(None, u.seq('str', 'exclude_patterns')))
        at.update(allow_multifile=multi, pretty_xml=pretty, verbose=verbose, max_sitemap_entries=most, exclude_patterns=excl)
        ref, newref = u.sym('str', 'ref_sitemap'), u.sym('str', 'newref_sitemap')
        paths, out, dump = u.opt('str', 'paths'), u.opt('str', 'outfile'), u.opt('str', 'dump')
        links = u.opt(('ref', 'dict'), 'links') if False else None
        seqs = {k: u.seq(R, k) for k in ('reference', 'present', 'components', 'same') + KINDS}
        g = ex.st.ghost
        for k in KINDS:
            g['added ' + k] = tint(0)
        g['calls'], g['written'], g['printed'], g['reads'] = tint(0), tint(0), tint(0), tint(0)
        for k in ('reference', 'present', 'changes', 'same') + KINDS:
            g['l ' + k] = None
        g['xml'] = None
        g['excluded'] = tbool(False)
        more = lambda k: ex.st.ghost.__setitem__(k, T('int', ex.st.ghost[k].t + 1))
        st = lambda v: ex.term(ex.split(v), 'str')
        note = lambda k, o: ex.st.ghost.__setitem__('l ' + k, o)
        noted = lambda k: ex.split(ex.st.ghost['l ' + k])

        def listed(seq):
            """A resource list, known by what iterating over it gives (C08)."""
            o = u.new('resource_list.ResourceList')
            ex.cell(o).attrs['resources'] = ex.alloc(ListCell(None, seq))
            return o

        def read(ex, a):
            """C15."""
            o = ex.split(a['self'])
            c = ex.cell(o)
            u.prove('a resource list is read', z3.BoolVal(c.cls.name == 'ResourceList'))
            u.prove('with the mapper of the client', z3.BoolVal(ex.split(c.attrs['mapper']) == y.mapper))
            t = st(a['uri'])
            which = 'reference' if t.eq(ref.t) else 'present' if t.eq(newref.t) and new == 'list' else None
            u.prove('only the lists given are read', z3.BoolVal(which is not None))
            u.prove('each once', z3.BoolVal(which is None or noted(which) is None))
            more('reads')
            if ex.branch(z3.Bool('cannot_read ' + which)):
                y.fail('OSError', 'cannot read')
            index = ex.branch(z3.Bool('is_index ' + which))
            if index:
                u.prove('an index is refused if indexes are disabled', z3.Implies(
                    z3.Not(multi.t), z3.Not(B(ex.truth(c.attrs['allow_multifile'])))))
                if not ex.branch(B(ex.truth(c.attrs['allow_multifile']))):
                    y.fail('ListBaseIndexError', 'index')
                u.prove('entries of an index are no resources', z3.Not(B(ex.truth(ex.split(a.get('index_only', False))))))
            c.attrs['resources'] = ex.alloc(ListCell(None, seqs[which]))
            note(which, o)
            return None

        def add_patterns(ex, a):
            u.prove('the exclude patterns of the client are used', z3.BoolVal(
                ex.split(list(v for k, v in a.items() if k != 'self')[0]) == excl))
            ex.st.ghost['excluded'] = tbool(True)
            if ex.branch(z3.Bool('bad pattern')):
                y.fail('ValueError', 'pattern')

        def from_disk(ex, a):
            """C19."""
            b = ex.cell(ex.split(a['self'])).attrs
            u.prove('files are scanned only if no second list is given', z3.BoolVal(new == 'disk'))
            u.prove('local files are listed with the mapper of the client', z3.BoolVal(ex.split(b['mapper']) == y.mapper))
            u.prove('after setting the patterns', ex.st.ghost['excluded'].t)
            u.prove('the paths given are scanned, or all mapped ones', B(ex.is_none(a.get('paths'))) == absent(paths))
            u.prove('a mapping is needed', y.nmap.t >= 1)
            if ex.branch(z3.Bool('cannot scan')):
                y.fail('ValueError', 'scan')
            o = listed(seqs['present'])
            note('present', o)
            return o

        def compare(ex, a):
            """C01."""
            u.prove('the reference is compared with the present list', z3.BoolVal(
                ex.split(a['self']) == noted('reference') and ex.split(a['src']) == noted('present')))
            r = {k: listed(seqs[k]) for k in ('same',) + KINDS}
            for k, o in r.items():
                note(k, o)
            return tuple(r[k] for k in ('same',) + KINDS)

        def add(ex, a):
            """C07."""
            o, rs, ch = ex.split(a['self']), ex.split(a['resources']), ex.split(a.get('change'))
            u.prove('changes are added to a change list', z3.BoolVal(ex.cell(o).cls.name == 'ChangeList'))
            note('changes', o)
            more('calls')
            if isinstance(ch, str) and ch in KINDS:
                u.prove('resources %s are marked %s' % (ch, ch), z3.BoolVal(rs == noted(ch)))
                more('added ' + ch)
            else:
                u.prove('a known kind of change', False)

        def doc(ex, o):
            """What is written is the change list, with the settings of the client."""
            c = ex.cell(o)
            u.prove('a change list is written', z3.BoolVal(c.cls.name == 'ChangeList'))
            if not empty_:
                u.prove('the one changes were added to', z3.BoolVal(noted('changes') == o))
            u.prove('all changes have been added', ex.st.ghost['calls'].t == (0 if empty_ else 3))
            m = c.attrs['max_sitemap_entries']
            u.prove('the maximum number of entries of the client is used if set', z3.Or(
                absent(most), B(ex.equals(ex.split(m), ex.split(most)))))
            u.prove('with the mapper of the client', z3.BoolVal(ex.split(c.attrs['mapper']) == y.mapper))

        def write(ex, a):
            """C14."""
            doc(ex, ex.split(a['self']))
            u.prove('to the file named', z3.And(z3.Not(absent(out)), st(a['basename']) == val(out)))
            if ex.branch(z3.Bool('cannot write')):
                y.fail('OSError', 'write')
            more('written')

        def as_xml(ex, a):
            doc(ex, ex.split(a['self']))
            if ex.branch(z3.Bool('too many')):
                y.fail('ListBaseIndexError', 'too many')
            ex.st.ghost['xml'] = x = ex.fresh('str', 'xml')
            return x

        def print_(ex, a, k):
            v = ex.split(a[0]) if len(a) == 1 else None
            x = ex.split(ex.st.ghost['xml'])
            if isinstance(v, T) and x is not None and v.t.eq(x.t):
                more('printed')
        ex.bi.f_print = print_
        ex.models.update({
            LBI + 'read': read, 'resource_list_builder.ResourceListBuilder.add_exclude_patterns': add_patterns,
            'resource_list_builder.ResourceListBuilder.from_disk': from_disk, 'resource_list.ResourceList.compare': compare,
            'change_list.ChangeList.add_changed_resources': add, LBI + 'write': write, LBI + 'as_xml': as_xml,
            'resource.Resource.__str__': lambda ex, a: ex.fresh('str', 'text')})
        kw = dict(paths=paths, outfile=out, ref_sitemap=ref, empty=empty_ or None, dump=dump)
        if new == 'list':
            kw['newref_sitemap'] = newref
        k, r = u.attempt(lambda: ex.call(ex.getattr(y.c, 'write_change_list'), [], kw))
        g = ex.st.ghost
        w, p = g['written'].t, g['printed'].t
        if k == 'raise':
            u.prove('nothing is written after an error', z3.And(w == 0, p == 0))
            u.prove('an error only for a reason', z3.Or(g['cause'], y.nmap.t < 1) if not isinstance(g['cause'], T) else z3.Or(
                g['cause'].t, z3.And(z3.BoolVal(new == 'disk'), y.nmap.t < 1)))
            u.cover('refused')
            return
        for x in KINDS:
            u.prove('%s resources are stated once' % x, g['added ' + x].t == (0 if empty_ else 1))
        u.prove('nothing else is stated', g['calls'].t == (0 if empty_ else 3))
        if empty_:
            u.prove('nothing is read for an empty list', g['reads'].t == 0)
        u.prove('written once, to the file or else to standard output', z3.If(
            absent(out), z3.And(w == 0, p == 1), z3.And(w == 1, p == 0)))
        u.cover('to a file', z3.Not(absent(out)))
        u.cover('printed', absent(out))
    return fn


COV = ['to a file', 'printed', 'refused']
W = (CLIENT + 'write_change_list', CLIENT + 'read_reference_resource_list')
UNITS = [Unit('change list of two lists', changes('list'), W, reftypes=RT, covers=COV),
         Unit('change list against files', changes('disk'), W + (CLIENT + 'build_resource_list',), reftypes=RT, covers=COV),
         Unit('empty change list', changes('list', True), CLIENT + 'write_change_list', reftypes=RT, covers=COV)]
CONF = dict(assumptions=['comparison, copying of resources with a change type, reading, disk scan and writing by the contracts of '
                         'C01, C07, C15, C19 and C14'])
