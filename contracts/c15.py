"""C15: reading an index gathers every listed document."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

LWI, S = 'list_base_with_index.ListBaseWithIndex.', 'sitemap.Sitemap.'
RC = 'resource_container.ResourceContainer.'
RT = {'Resource': RESOURCE}
CLASSES = {'list': 'list_base_with_index.ListBaseWithIndex', 'resource list': 'resource_list.ResourceList',
           'change list': 'change_list.ChangeList'}


def given(a):
    return [v for k, v in a.items() if k != 'self']


class Web:
    """What can be read where, and call-site contracts for opening (C22), mapping (C09), authority (C10)."""

    def __init__(self, u):
        self.u, ex = u, u.ex
        SS, Bo = ex.SS, z3.BoolSort()
        self.DOC = z3.Function('entries_at', SS, z3.SeqSort(ex.sort(R)))
        self.LOCAL, self.OPENS, self.SITEMAP, self.MAPS = [z3.Function(n, SS, Bo) for n in (
            'is_local', 'can_be_opened', 'is_a_good_sitemap', 'is_mapped')]
        self.MAP = z3.Function('local_file_of', SS, SS)
        self.AUTH = z3.Function('has_authority', SS, SS, Bo)
        ex.st.ghost['opened'] = Seq(empty(ex, 'str'), 'str')
        self.mapper = ex.alloc(ObjCell(ex.project.cls('mapper.Mapper'), {}))
        ex.models.update({LWI + 'is_file_uri': self.is_file_uri, 'mapper.Mapper.src_to_dst': self.src_to_dst,
                          'url_or_file_open.url_or_file_open': self.open,
                          'url_authority.UrlAuthority.__init__': self.authority,
                          'url_authority.UrlAuthority.has_authority_over': self.has_authority})
        ex.ext.update({'attr:handle': self.handle, 'getitem:headers': self.header})

    def s(self, v):
        return self.u.ex.term(self.u.ex.split(v), 'str')

    def is_file_uri(self, ex, a):
        """Proved by the unit 'local URIs'."""
        return T('bool', self.LOCAL(self.s(given(a)[0])))

    def src_to_dst(self, ex, a):
        self.u.prove('the mapper of the list', z3.BoolVal(ex.split(a['self']) == self.mapper))
        t = self.s(given(a)[0])
        if not ex.branch(self.MAPS(t)):
            ex.raise_(ex.project.cls('mapper.MapperError'), 'no mapping')
        return T('str', self.MAP(t))

    def authority(self, ex, a):
        v = given(a)
        strict = v[1] if len(v) > 1 else False
        self.u.prove('authority of the index, not strict', z3.Not(B(ex.truth(strict))))
        ex.cell(ex.split(a['self'])).attrs['of'] = T('str', self.s(v[0]))
        return None

    def has_authority(self, ex, a):
        return T('bool', self.AUTH(self.s(ex.cell(ex.split(a['self'])).attrs['of']), self.s(given(a)[0])))

    def open(self, ex, a):
        t = self.s(a['uri'])
        if not ex.branch(self.OPENS(t)):
            ex.raise_(OSError, 'cannot be opened')
        g = ex.st.ghost
        g['opened'] = Seq(z3.Concat(g['opened'].t, z3.Unit(t)), 'str')
        return Opaque('handle', t)

    def handle(self, ex, v, nm):
        if nm != 'info':
            raise Unsupported('handle.%s' % nm)
        return Builtin('info', lambda ex, a, k: Opaque('headers', v.data))

    def header(self, ex, v, k):
        if ex.branch(z3.Bool(ex.fresh_name('no_length'))):
            ex.raise_(KeyError, 'Content-Length') if ex.branch(z3.Bool(ex.fresh_name('mapping'))) else None
            return None
        return ex.fresh('int', 'content_length')


def a_list(u, cls, w, **kw):
    ex = u.ex
    o = u.new(cls, **kw)
    at = ex.cell(o).attrs
    at['allow_multifile'] = u.sym('bool', 'allow_multifile')
    at['mapper'] = w.mapper
    at['check_url_authority'] = u.sym('bool', 'check_url_authority')
    return o


def add_model(u, o):
    """C08: adds, unless there is an entry with that URI (or, for a change list, no change)."""
    def add(ex, a):
        u.prove('added to the list', z3.BoolVal(ex.split(a['self']) == o))
        r = ex.split(given(a)[0])
        if not isinstance(r, Ref) or r.cls != 'Resource':
            raise Unsupported('adding something else')
        u.prove('added as it is, replacing nothing', len(given(a)) < 2 or z3.Not(B(ex.truth(given(a)[1]))))
        if ex.branch(z3.Bool(ex.fresh_name('cannot_be_added'))):
            ex.st.ghost['refused'] = T('bool', z3.BoolVal(True))
            ex.raise_(ex.project.cls('resource_list.ResourceListDupeError'), 'duplicate')
        ex.st.ghost['resources'] = Seq(z3.Concat(ex.st.ghost['resources'].t, z3.Unit(r.t)), R)
        return None
    for c in ('resource_list.ResourceList', 'change_list.ChangeList', 'resource_container.ResourceContainer'):
        u.ex.models[c + '.add'] = add
    u.ex.models['resource_list.ResourceListDict.__len__'] = lambda ex, a: ex.fresh('int', 'n')


def component(which):
    def unit(u):
        ex = u.ex
        w = Web(u)
        o = a_list(u, CLASSES[which], w)
        index, uri, local = u.sym('str', 'index_uri'), u.sym('str', 'uri'), u.sym('bool', 'index_is_local')
        check = u.get(o, 'check_url_authority').t
        before = u.old(u.seq(R, 'before'))
        ex.st.ghost['entries'] = T('int', z3.IntVal(0))
        ex.st.ghost['refused'] = T('bool', z3.BoolVal(False))
        if which == 'list':
            ex.cell(o).attrs['resources'] = ex.alloc(ListCell(None, before))
            now = lambda: seq_term(ex, u.get(o, 'resources'), R)
        else:
            ex.st.ghost['resources'] = before
            now = lambda: ex.st.ghost['resources'].t
            add_model(u, o)
        target = z3.If(z3.And(local.t, z3.Not(w.LOCAL(uri.t))), w.MAP(uri.t), uri.t)
        doc = Seq(w.DOC(target), R)
        u.old(doc)
        sm = u.new('sitemap.Sitemap')

        def parse(ex, a):
            """C13: the entries of the document, or an error."""
            fh = ex.split(a.get('fh'))
            ok = isinstance(fh, Opaque) and fh.tag == 'handle'
            u.prove('what was opened is parsed', z3.BoolVal(ok))
            u.prove('the document of the component', fh.data == target)
            x = ex.split(a.get('sitemapindex'))
            u.prove('a component must not be an index', z3.BoolVal(x is not None) if x is None else z3.Not(B(ex.truth(x))))
            u.prove('no capability is asked for that it may not have', ex.is_none(a.get('capability')))
            if not ex.branch(w.SITEMAP(target)):
                ex.raise_(ex.project.cls('sitemap.SitemapIndexError' if ex.branch(z3.Bool(ex.fresh_name('index')))
                                         else 'sitemap.SitemapParseError'), 'not a sitemap', None)
            c = ex.split(a.get('resources'))
            if c is not None:
                raise Unsupported('parsed into something given')
            c = u.new('resource_container.ResourceContainer')
            ex.cell(c).attrs['resources'] = ex.alloc(ListCell(None, doc))
            return c
        ex.models[S + 'parse_xml'] = parse

        def cands(ex, loop):
            key = ('ghost', 'resources') if which != 'list' else ('cell', u.get(o, 'resources').id)
            if key not in loop.mod:
                return []
            return [('the entries so far', lambda v: (seq_term(v.ex, v.loop.get(v.ex.st, key), R) if False else (
                v.ex.st.ghost['resources'].t if which != 'list' else v.loop.get(v.ex.st, key).seq.t)) == z3.Concat(
                    before.t, z3.Extract(doc.t, 0, v.i))),
                    ('as many', lambda v: z3.Length(v.ex.st.ghost['resources'].t if which != 'list' else
                                                    v.loop.get(v.ex.st, key).seq.t) == z3.Length(before.t) + v.i)]
        u.fold(Extra(cands))
        fine = z3.And(z3.Implies(z3.And(local.t, z3.Not(w.LOCAL(uri.t))), w.MAPS(uri.t)),
                      z3.Implies(z3.And(z3.Not(local.t), check), w.AUTH(index.t, uri.t)),
                      w.OPENS(target), w.SITEMAP(target))
        k, r = u.attempt(lambda: u.method(o, 'read_component_sitemap', index, uri, sm, local))
        if k == 'raise':
            u.prove('refused only for a reason (%s)' % r.name, z3.Not(z3.And(fine, z3.Not(ex.st.ghost['refused'].t))))
            u.cover('refused: authority', z3.And(z3.Not(local.t), check, z3.Not(w.AUTH(index.t, uri.t))))
            u.cover('refused: not opened', z3.Not(w.OPENS(target)))
            u.cover('refused: not a sitemap', z3.Not(w.SITEMAP(target)))
            return
        u.prove('gathered only if all is well', fine)
        u.prove('the document is opened, once', ex.st.ghost['opened'].t == z3.Unit(target))
        u.prove('its entries are added, in order', now() == z3.Concat(before.t, doc.t))
        u.cover('mapped', z3.And(local.t, z3.Not(w.LOCAL(uri.t)), z3.Length(doc.t) > 1))
        u.cover('remote', z3.And(z3.Not(local.t), check, z3.Length(doc.t) > 1))
    return unit


def read(which):
    def unit(u):
        ex = u.ex
        w = Web(u)
        o = a_list(u, CLASSES[which], w)
        allow = u.get(o, 'allow_multifile')
        uri, only = u.sym('str', 'uri'), u.sym('bool', 'index_only')
        doc = u.old(Seq(w.DOC(uri.t), R))
        n = z3.Length(doc.t)
        is_index, good = z3.Bool('is an index'), z3.Bool('well formed')
        g = ex.st.ghost
        g['refused'] = T('bool', z3.BoolVal(False))
        md = ex.alloc(DictCell({}))
        GOOD = z3.Function('component_is_good', ex.SS, z3.BoolSort())
        g['read'] = Seq(empty(ex, 'str'), 'str')
        g['parsed'] = T('int', z3.IntVal(0))
        old = u.get(o, 'resources')

        def parse(ex, a):
            u.prove('what was opened is parsed', z3.And(z3.BoolVal(
                isinstance(ex.split(a.get('fh')), Opaque)), ex.split(a['fh']).data == uri.t))
            u.prove('expecting its capability', ex.eq(a.get('capability'), u.get(o, 'capability_name')))
            u.prove('index or not', ex.is_none(a.get('sitemapindex')))
            if not ex.branch(good):
                ex.raise_(ex.project.cls('sitemap.SitemapParseError'), 'not well formed')
            ex.st.ghost['parsed'] = T('int', ex.st.ghost['parsed'].t + 1)
            ex.cell(ex.split(a['self'])).attrs['parsed_index'] = T('bool', is_index)
            c = ex.split(a['resources'])
            if ex.cell(c).attrs.get('resources') == old and which != 'list':
                raise Unsupported('parsed into the list itself')
            u.prove('into something empty', z3.Length(seq_term(ex, u.get(c, 'resources'), R)) == 0)
            ex.cell(c).attrs['resources'] = ex.alloc(ListCell(None, doc))
            ex.cell(c).attrs['md'] = md
            return c
        ex.models[S + 'parse_xml'] = parse
        if which != 'list':
            ex.st.ghost['resources'] = Seq(empty(ex, R), R)
            add_model(u, o)
        f = u.fold(Fold('uris of the entries', doc, ('seq', 'str'), empty(ex, 'str'), lambda ex, q, e, i: z3.Concat(
            q, z3.Unit(val_of(ex, e)))))
        i = z3.Int('i')
        u.induct_all('one URI for each', lambda k: z3.And(z3.Length(f.at(ex, k)) == k, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < k), f.at(ex, k)[i] == uri_of(ex, doc.t[i])))), n, lambda k: f.defn(ex, k))
        listed = f.at(ex, n)

        def now():
            if which != 'list':
                return ex.st.ghost['resources'].t
            return ex.merge_vals([(B(g_), Seq(seq_term(ex, x, R), R)) for g_, x in alts(u.get(o, 'resources'))]).t

        def comp(ex, a):
            """Proved by the units 'component'."""
            v = given(a)
            t = w.s(v[1])
            u.prove('the index is what was read', w.s(v[0]) == uri.t)
            u.prove('local or remote as the index is', B(ex.truth(v[3])) == w.LOCAL(uri.t))
            u.prove('the list is emptied of the entries of the index', z3.Length(now()) == 0)
            u.prove('into the list', z3.BoolVal(ex.split(a['self']) == o))
            if not ex.branch(GOOD(t)):
                ex.raise_(ex.project.cls('list_base_with_index.ListBaseIndexError'), 'component')
            ex.st.ghost['read'] = Seq(z3.Concat(ex.st.ghost['read'].t, z3.Unit(t)), 'str')
            return None
        ex.models[LWI + 'read_component_sitemap'] = comp

        def cands(ex, loop):
            if loop.along is None:
                return []
            i = z3.Int('i')
            L = loop.along.t
            out = []
            if ('ghost', 'read') in loop.mod:
                out += [('all before are read', lambda v: v.ex.st.ghost['read'].t == z3.Extract(L, 0, v.i)),
                        ('and good', lambda v: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.i), GOOD(L[i])))),
                        ('as many', lambda v: z3.Length(v.ex.st.ghost['read'].t) == v.i)]
            if L.eq(doc.t):
                for k in loop.mod:
                    if k == ('ghost', 'resources') or (k[0] == 'cell' and isinstance(loop.get(loop.entry_sym, k), ListCell)):
                        q = lambda v, k=k: (v.ex.st.ghost['resources'] if k[0] == 'ghost' else v.loop.get(v.ex.st, k).seq).t
                        out += [('added so far', lambda v, q=q: q(v) == z3.Extract(L, 0, v.i)),
                                ('as many', lambda v, q=q: z3.Length(q(v)) == v.i)]
            return out
        u.fold(Extra(cands))
        k, r = u.attempt(lambda: u.method(o, 'read', uri, index_only=only))
        g = ex.st.ghost
        done = g['read'].t
        if k == 'raise':
            u.prove('the document itself is read if it can be (%s)' % r.name, z3.Not(z3.And(
                w.OPENS(uri.t), good, z3.Not(is_index), z3.Not(g['refused'].t))))
            u.prove('an index is refused only for a component', z3.Implies(z3.And(
                w.OPENS(uri.t), good, is_index, allow.t), z3.Or(g['refused'].t, z3.And(z3.Not(only.t), z3.Length(listed) > 0))))
            u.cover('refused: not allowed', z3.And(is_index, z3.Not(allow.t), good, w.OPENS(uri.t)))
            u.cover('refused: component', z3.Length(done) > 1)
            return
        u.prove('opened and parsed, once', z3.And(ex.st.ghost['opened'].t == z3.Unit(uri.t), w.OPENS(uri.t), good, ex.st.ghost['parsed'].t == 1))
        u.prove('the metadata is that of the document', z3.BoolVal(ex.split(u.get(o, 'md')) == md))
        u.prove('no index if indexes are not allowed', z3.Implies(is_index, allow.t))
        if not ex.branch(z3.And(is_index, z3.Not(only.t))):
            u.prove('no component is read', z3.Length(done) == 0)
            u.prove('the entries of the document', now() == doc.t)
            u.prove('an index of which only the index is read is marked', z3.Implies(is_index, B(ex.truth(u.get(o, 'sitemapindex')))))
            u.cover('sitemap', z3.And(z3.Not(is_index), n > 1))
            u.cover('index only', is_index)
            return
        u.prove('as many components are read as are listed', z3.Length(done) == z3.Length(listed))
        j = z3.Int('any listed')
        ex.assume(z3.And(0 <= j, j < z3.Length(listed)))
        at = where(u, done, listed, j)
        u.prove('every component listed is read', at)
        u.prove('every component listed is good', GOOD(listed[j]))
        u.prove('nothing else counts as a resource', z3.Length(now()) == 0)
        u.cover('index', z3.Length(listed) > 1)
    return unit


def where(u, done, listed, j):
    k = z3.Int('k')
    return z3.Exists([k], z3.And(0 <= k, k < z3.Length(done), done[k] == listed[j]))


def val_of(ex, e):
    return ex.term(ex.split(ex.getattr(e, 'uri')), 'str')


def uri_of(ex, i):
    return val(fget(ex, 'uri', i))


def local(u):
    ex = u.ex
    o = u.bare(CLASSES['list'])
    uri = u.sym('str', 'uri')
    k, r = u.attempt(lambda: u.method(o, 'is_file_uri', uri))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    t = B(ex.truth(r))
    P = lambda x: z3.PrefixOf(z3.StringVal(x), uri.t)
    letter = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'))
    u.prove('file: URIs are local', z3.Implies(P('file:'), t))
    u.prove('paths are local', z3.Implies(z3.InRe(uri.t, z3.Star(
        z3.Union(z3.Range('\x00', '9'), z3.Range(';', '\U0002ffff')))), t))
    u.prove('paths are local, whatever follows the first directory', z3.Implies(z3.Or(P('/'), P('./'), P('../')), t))
    u.prove('a letter is a drive', z3.Implies(z3.InRe(uri.t, z3.Concat(letter, z3.Re(':'), z3.Full(z3.ReSort(z3.StringSort())))), t))
    for x in ('http:', 'https:', 'ftp:', 'sftp:', 'gopher:'):
        u.prove(x + ' URIs are not', z3.Implies(P(x), z3.Not(t)))
    u.cover('local', t)
    u.cover('remote', z3.Not(t))


UNITS = [Unit('local URIs', local, LWI + 'is_file_uri', opaque=False, covers=['local', 'remote'])]
UNITS += [Unit('component (%s)' % k, component(k), LWI + 'read_component_sitemap', reftypes=RT,
              covers=['mapped', 'remote', 'refused: authority', 'refused: not opened', 'refused: not a sitemap']) for k in CLASSES]
UNITS += [Unit('read (%s)' % k, read(k), LWI + 'read', reftypes=RT, covers=['sitemap', 'index only', 'index', 'refused: not allowed'])
          for k in CLASSES]
CONF = dict(assumptions=[
    'opening (C22), parsing (C13: entries of the document, or an error), mapping (C09), authority (C10), ResourceList.add and uris (C08) '
    'are called by their contracts', 'the list is empty before it is read', 'a Content-Length header that is there is a number'])
