"""C26: what the client writes (resource lists, capability lists, source descriptions) lists exactly what it was asked to."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Extra
from .lib import *
from .syncing import Sync, CLIENT, tbool, tint

RT = {'Resource': RESOURCE}
LBI = 'list_base_with_index.ListBaseWithIndex.'
S = 'str'


class Out:
    """Where documents go, with ghost counts; `doc` states what must hold of the document when it is written."""

    def __init__(self, u, y, out, doc):
        ex = u.ex
        self.u, self.ex, self.y, self.out, self.doc = u, ex, y, out, doc
        g = ex.st.ghost
        g['written'], g['printed'], g['xml'] = tint(0), tint(0), None
        ex.bi.f_print = self.print_
        ex.models.update({LBI + 'write': self.write, LBI + 'as_xml': self.as_xml,
                          'list_base.ListBase.write': self.write, 'list_base.ListBase.as_xml': self.as_xml})

    def more(self, k):
        g = self.ex.st.ghost
        g[k] = T('int', g[k].t + 1)

    def write(self, ex, a):
        """C14."""
        self.doc(ex.split(a['self']))
        v = list(v for k, v in a.items() if k != 'self')[0]
        self.u.prove('to the file named', z3.And(z3.Not(absent(self.out)), ex.term(ex.split(v), S) == val(self.out)))
        if ex.branch(z3.Bool('cannot write')):
            self.y.fail('OSError', 'write')
        self.more('written')

    def as_xml(self, ex, a):
        """C14; too many entries for one document are refused."""
        self.doc(ex.split(a['self']))
        if ex.branch(z3.Bool('too many')):
            self.y.fail('ListBaseIndexError', 'too many')
        ex.st.ghost['xml'] = x = ex.fresh(S, 'xml')
        return x

    def print_(self, ex, a, k):
        v = ex.split(a[0]) if len(a) == 1 else None
        x = ex.split(ex.st.ghost['xml'])
        self.u.prove('what is printed is the document', z3.BoolVal(isinstance(v, T) and x is not None and v.t.eq(x.t)))
        self.more('printed')

    def end(self, k, why=None):
        u, g = self.u, self.ex.st.ghost
        w, p = g['written'].t, g['printed'].t
        if k == 'raise':
            u.prove('nothing is written after an error', z3.And(w == 0, p == 0))
            u.prove('an error only for a reason', z3.Or(g['cause'].t, why) if why is not None else g['cause'].t)
            u.cover('refused')
            return False
        u.prove('no failure is passed over', z3.Not(z3.Or(g['cause'].t, why) if why is not None else g['cause'].t))
        u.prove('written once, to the file or else to standard output', z3.If(
            absent(self.out), z3.And(w == 0, p == 1), z3.And(w == 1, p == 0)))
        u.cover('to a file', z3.Not(absent(self.out)))
        u.cover('printed', absent(self.out))
        return True


def val_of(v):
    return T('str', val(v))


def links_of(u, given):
    return u.ex.alloc(ListCell(None, u.seq('int', 'links'))) if given else None


def same_links(u, o, links, own=None):
    """The links of o are those given, or its own if none are."""
    ex = u.ex
    ln = ex.split(ex.cell(o).attrs['ln'])
    if links is None:
        c = ex.cell(ln)
        u.prove('no links are added', z3.BoolVal(
            ln == own if own is not None else c.items == [] if c.items is not None else False))
    else:
        u.prove('the links are those given', B(ex.equals(ln, links)))


def settings(u, y):
    at = u.ex.cell(y.c).attrs
    s = {x: u.sym('bool', x) for x in ('allow_multifile', 'pretty_xml', 'verbose')}
    s['max_sitemap_entries'] = u.opt('int', 'max_sitemap_entries')
    s['exclude_patterns'] = u.ex.alloc(ListCell(None, u.seq(S, 'exclude_patterns')))
    s['default_resource_dump'] = u.sym(S, 'default_resource_dump')
    s['dump_format'] = u.opt(S, 'dump_format')
    at.update(s)
    return s


def resource_list(given, as_dump):
    def fn(u):
        ex = u.ex
        y = Sync(u)
        s = settings(u, y)
        g = ex.st.ghost
        paths, out = u.opt(S, 'paths'), u.opt(S, 'outfile')
        dump = u.sym('bool', 'dump')
        links = links_of(u, given)
        g['excluded'], g['scanned'], g['list'], g['dumped'], g['dumps'] = tbool(False), tint(0), None, None, tint(0)
        own = ex.alloc(ListCell([]))
        more = lambda k: ex.st.ghost.__setitem__(k, T('int', ex.st.ghost[k].t + 1))
        st = lambda v: ex.term(ex.split(v), S)

        def add_patterns(ex, a):
            u.prove('the exclude patterns of the client are used', B(ex.equals(
                ex.split(list(v for k, v in a.items() if k != 'self')[0]), s['exclude_patterns'])))
            ex.st.ghost['excluded'] = tbool(True)
            if ex.branch(z3.Bool('bad pattern')):
                y.fail('ValueError', 'pattern')

        def from_disk(ex, a):
            """C19."""
            b = ex.cell(ex.split(a['self'])).attrs
            u.prove('files are listed with the mapper of the client', z3.BoolVal(ex.split(b['mapper']) == y.mapper))
            u.prove('with the exclude patterns', ex.st.ghost['excluded'].t)
            u.prove('a mapping is needed', y.nmap.t >= 1)
            for x in ('md5', 'sha-1', 'sha-256'):
                have = ex.split(b['set_hashes'])
                have = z3.BoolVal(False) if have is None else B(ex.bi.contains(have, x))
                u.prove('%s digests are given if the client is to give them' % x, have == B(
                    ex.bi.contains(ex.split(ex.cell(y.c).attrs['hashes']), x)))
            if as_dump:
                u.prove('with the path of each resource', B(ex.truth(b['set_path'])))
            else:
                u.prove('without paths, which are for dumps', z3.Not(B(ex.truth(b['set_path']))))
            ps = a.get('paths')
            none = B(ex.is_none(ps))
            u.prove('the paths given are scanned, or all mapped ones', none == absent(paths))
            if not ex.branch(none):
                u.prove('split at the commas', B(ex.equals(ex.split(ps), ex.split(u.method(val_of(paths), 'split', ',')))))
            if ex.branch(z3.Bool('cannot scan')):
                y.fail('ValueError', 'scan')
            o = u.new('resource_list.ResourceList')
            ex.cell(o).attrs.update(resources=ex.alloc(ListCell(None, u.seq(R, 'files'))), ln=own)
            more('scanned')
            ex.st.ghost['list'] = o
            return o

        def doc(o):
            l = ex.split(ex.st.ghost['list'])
            u.prove('what is written is the list of the files', z3.BoolVal(l is not None and l == o))
            c = ex.cell(o).attrs
            same_links(u, o, links, own)
            m = c['max_sitemap_entries']
            u.prove('the maximum number of entries of the client is used if set', z3.Or(
                absent(s['max_sitemap_entries']), B(ex.equals(ex.split(m), ex.split(s['max_sitemap_entries'])))))
            u.prove('with the mapper of the client', z3.BoolVal(ex.split(c['mapper']) == y.mapper))
            for k in ('allow_multifile', 'pretty_xml'):
                u.prove('with %s of the client' % k, B(ex.truth(c[k])) == s[k].t)

        def single(o):
            u.prove('a list is written only if no dump is asked for', z3.BoolVal(not as_dump))
            doc(o)
        w = Out(u, y, out, single)

        def dump_write(ex, a):
            """C17."""
            o = ex.split(a['self'])
            c = ex.cell(o).attrs
            u.prove('a dump is written only if asked for', z3.BoolVal(as_dump))
            doc(ex.split(c['resources']))
            f = ex.split(c['format'])
            u.prove('in the format of the client, or as a ZIP file', ex.term(f, S) == z3.If(
                absent(s['dump_format']), ex.lit('zip'), val(s['dump_format'])))
            u.prove('to the file named, or the default one', st(a['basename']) == z3.If(
                absent(out), s['default_resource_dump'].t, val(out)))
            if ex.branch(z3.Bool('cannot dump')):
                y.fail('DumpError', 'dump')
            more('dumps')
            return ex.fresh('int', 'files')
        ex.models.update({
            'resource_list_builder.ResourceListBuilder.add_exclude_patterns': add_patterns,
            'resource_list_builder.ResourceListBuilder.from_disk': from_disk, 'dump.Dump.write': dump_write})
        if as_dump:
            u.assume(dump.t)
        kw = dict(paths=paths, outfile=out)
        if given:
            kw['links'] = links
        if as_dump:
            kw['dump'] = True
        k, r = u.attempt(lambda: ex.call(ex.getattr(y.c, 'write_resource_list'), [], kw))
        g = ex.st.ghost
        why = y.nmap.t < 1
        if not as_dump:
            if w.end(k, why):
                u.prove('the files are scanned once', g['scanned'].t == 1)
            u.prove('no dump is written', g['dumps'].t == 0)
            return
        u.prove('no list is written', z3.And(g['written'].t == 0, g['printed'].t == 0))
        if k == 'raise':
            u.prove('no dump is written after an error', g['dumps'].t == 0)
            u.prove('an error only for a reason', z3.Or(g['cause'].t, why))
            u.cover('refused')
            return
        u.prove('no failure is passed over', z3.Not(z3.Or(g['cause'].t, why)))
        u.prove('the dump is written once', z3.And(g['dumps'].t == 1, g['scanned'].t == 1))
        u.cover('to a file', z3.Not(absent(out)))
        u.cover('default name', absent(out))
    return fn


def described(what, given, any_=True):
    """A capability list (what = 'caps') or source description (what = 'lists')."""
    caps = what == 'caps'
    cls = 'CapabilityList' if caps else 'SourceDescription'

    def fn(u):
        ex = u.ex
        y = Sync(u)
        s = settings(u, y)
        out = u.opt(S, 'outfile')
        links = links_of(u, given)
        g = ex.st.ghost
        ss = ex.sort(S)
        keys = u.seq(S, 'keys') if any_ else None
        n = z3.Length(keys.t) if any_ else z3.IntVal(0)
        full = keys.t if any_ else z3.Empty(z3.SeqSort(ss))
        M = z3.Array('uri_of', ss, ss)
        arg = None
        if any_ and caps:
            i, j = z3.Ints('ki kj')
            dom = z3.Array('dom', ss, z3.BoolSort())
            arg = ex.alloc(DictCell(sym=(dom, M, S, S), order=keys))
            x = z3.Const('kx', ss)
            u.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), keys.t[i] != keys.t[j])))
            u.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(dom, keys.t[i]))))
            u.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.Contains(keys.t, z3.Unit(x)))))
        elif any_:
            arg = ex.alloc(ListCell(None, keys))
        g['names'] = Seq(z3.Empty(z3.SeqSort(ss)), S)

        def the_one(o):
            return z3.BoolVal([i for i, c in ex.st.heap.items() if isinstance(c, ObjCell) and c.cls.name == cls] == [o.id])

        def add(ex, a):
            """C08: an entry with a URI already listed is refused."""
            o, r = ex.split(a['self']), ex.split(a['resource'])
            u.prove('entries are added to the one %s' % cls, the_one(o))
            u.prove('one with the same URI is not replaced', z3.Not(B(ex.truth(a.get('replace', False)))))
            uri, cap = ex.term(ex.split(ex.getattr(r, 'uri')), S), ex.term(ex.split(ex.getattr(r, 'capability')), S)
            if caps:
                u.prove('each entry has the URI given for the capability', uri == z3.Select(M, cap))
            else:
                u.prove('each entry is a capability list', cap == ex.lit('capabilitylist'))
            if ex.branch(ex.fresh('bool', 'listed already').t):
                y.fail('ResourceSetDupeError', 'twice')
            q = ex.st.ghost['names']
            ex.st.ghost['names'] = Seq(z3.Concat(q.t, z3.Unit(cap if caps else uri)), S)

        def doc(o):
            c = ex.cell(o)
            u.prove('the one %s is written' % cls, the_one(o))
            u.prove('each %s is listed once, in the order given' % ('capability' if caps else 'capability list'),
                    ex.st.ghost['names'].t == full)
            same_links(u, o, links)
            u.prove('with pretty_xml of the client', B(ex.truth(c.attrs['pretty_xml'])) == s['pretty_xml'].t)

        def cands(ex, loop):
            if ('ghost', 'names') not in loop.mod or loop.along is None:
                return []
            e = loop.entry_sym.ghost['names'].t
            return [('those so far are listed', lambda v: v.ex.st.ghost['names'].t == z3.Concat(
                e, z3.Extract(loop.along.t, z3.IntVal(0), v.i)))]
        u.fold(Extra(cands))
        w = Out(u, y, out, doc)
        ex.models.update({'capability_list.CapabilityList.add': add, 'source_description.SourceDescription.add': add})
        kw = dict(outfile=out)
        if any_:
            kw['capabilities' if caps else 'capability_lists'] = arg
        if given:
            kw['links'] = links
        k, r = u.attempt(lambda: ex.call(ex.getattr(
            y.c, 'write_capability_list' if caps else 'write_source_description'), [], kw))
        if w.end(k):
            u.prove('nothing more is listed', ex.st.ghost['names'].t == full)
            if any_:
                u.cover('some listed', n >= 2)
    return fn


COV = ['to a file', 'printed', 'refused']
RL = (CLIENT + 'write_resource_list', CLIENT + 'build_resource_list')
CL = (CLIENT + 'write_capability_list', 'capability_list.CapabilityList.add_capability')
SD = (CLIENT + 'write_source_description', 'source_description.SourceDescription.add_capability_list')
DCOV = ['to a file', 'default name', 'refused']
UNITS = [Unit('resource list', resource_list(False, False), RL, reftypes=RT, covers=COV),
         Unit('resource list with links', resource_list(True, False), RL, reftypes=RT, covers=COV),
         Unit('resource dump', resource_list(False, True), RL, reftypes=RT, covers=DCOV),
         Unit('resource dump with links', resource_list(True, True), RL, reftypes=RT, covers=DCOV),
         Unit('capability list', described('caps', False), CL, reftypes=RT, covers=COV + ['some listed']),
         Unit('capability list with links', described('caps', True), CL, reftypes=RT, covers=COV + ['some listed']),
         Unit('empty capability list', described('caps', True, False), CL, reftypes=RT, covers=COV),
         Unit('source description', described('lists', False), SD, reftypes=RT, covers=COV + ['some listed']),
         Unit('source description with links', described('lists', True), SD, reftypes=RT, covers=COV + ['some listed']),
         Unit('empty source description', described('lists', True, False), SD, reftypes=RT, covers=COV)]
CONF = dict(assumptions=['disk scan, adding of entries, writing and dumping by the contracts of C19, C08, C14 and C17'])
