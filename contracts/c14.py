"""C14: splitting a large list into documents."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .etree import E as EL
from .c12 import STUB

LB, LWI, S = 'list_base.ListBase.', 'list_base_with_index.ListBaseWithIndex.', 'sitemap.Sitemap.'
RT = {'Resource': RESOURCE}


def a_list(u, **kw):
    """(list, Seq of its resources, maximum: Int or None)"""
    ex = u.ex
    s = u.old(u.seq(R, 'entries'))
    kw.setdefault('mapper', u.ex.alloc(ObjCell(ex.project.cls('mapper.Mapper'), {})))
    o = u.new('list_base_with_index.ListBaseWithIndex', **kw)
    ex.cell(o).attrs['resources'] = ex.alloc(ListCell(None, s))
    if u.when(z3.Bool('no maximum')):
        m = None
        ex.cell(o).attrs['max_sitemap_entries'] = None
    else:
        m = u.sym('int', 'maximum').t
        u.assume(m >= 1)
        ex.cell(o).attrs['max_sitemap_entries'] = T('int', m)
    return o, s, m


def cut(s, m, a, b=None):
    """Entries a to a + m (all if there is no maximum)."""
    n = z3.Length(s)
    e = n if m is None else z3.If(a + m < n, a + m, n)
    return z3.Extract(s, a, e - a)


def chunk(u):
    ex = u.ex
    o, s, m = a_list(u)
    n = z3.Length(s.t)
    p = u.sym('int', 'position').t
    first = z3.Bool('first given')
    u.assume(z3.And(0 <= p, p <= n))
    it = ex.alloc(IterCell(('seq', s), p))
    if u.when(first):
        u.assume(p >= 1)
        a = p - 1
        args = [it, Ref(s.t[p - 1], 'Resource')]
    else:
        a = p
        args = [it]

    def cands(ex, loop):
        if loop.it is None:
            return []
        out = [('the position grows', lambda v: pos(v) >= p)]
        for k in loop.mod:
            c0 = loop.get(loop.entry_sym, k)
            if isinstance(c0, ListCell) and c0.seq is not None:
                out.append(('entries taken so far', lambda v, k=k: v.loop.get(v.ex.st, k).seq.t == z3.Extract(
                    s.t, a, pos(v) - a)))
                out.append(('as many as taken', lambda v, k=k: z3.Length(v.loop.get(v.ex.st, k).seq.t) == pos(v) - a))
                if m is not None:
                    out.append(('not more than the maximum', lambda v, k=k: pos(v) - a < m))
        return out

    def pos(v):
        q = v.ex.st.heap[it.id].pos
        return q if is_z3(q) else z3.IntVal(q)
    u.fold(Extra(cands))
    k, r = u.attempt(lambda: u.method(o, 'get_resources_chunk', *args))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    c, nxt = r
    got = seq_term(ex, u.get(c, 'resources'), R)
    e = n if m is None else z3.If(a + m < n, a + m, n)
    u.prove('the chunk has the next entries, at most the maximum', got == z3.Extract(s.t, a, e - a))
    u.prove('there is a next one exactly if entries are left', absent(nxt) == (e == n))
    if any(w is not None for _, w in alts(nxt)):
        u.prove('the next one', z3.Implies(e < n, val(nxt) == s.t[e]))
    u.prove('the iterator is behind the next one', pos_of(ex, it) == z3.If(e < n, e + 1, n))
    u.prove('the list itself is unchanged', seq_term(ex, u.get(o, 'resources'), R) == s.t)
    u.cover('more', e < n)
    u.cover('last', z3.And(e == n, n > 1))


def pos_of(ex, it):
    q = ex.cell(it).pos
    return q if is_z3(q) else z3.IntVal(q)


def part_name(u):
    """Names of parts: made from the name of the index, different for different parts and from that of the index."""
    ex = u.ex
    o = u.bare('list_base_with_index.ListBaseWithIndex')
    b, i, j = u.sym('str', 'basename'), u.sym('int', 'i'), u.sym('int', 'j')
    u.assume(z3.And(i.t >= 0, j.t >= 0))
    x, y = u.method(o, 'part_name', b, i), u.method(o, 'part_name', b, j)
    D = lambda v: ex.bi.uf('fmt%05d', [v], 'str').t
    u.prove('only the name of the index and the number count', z3.Implies(i.t == j.t, ex.eq(x, y)))
    # trusted: %05d writes different numbers differently
    u.assume(z3.And(z3.Implies(D(i) == D(j), i.t == j.t), z3.Length(D(i)) >= 5))
    u.prove('different parts have different names', z3.Implies(i.t != j.t, z3.Not(B(ex.eq(x, y)))))
    u.prove('no part has the name of the index', z3.Not(B(ex.eq(x, b))))
    u.prove('parts are named as XML', z3.SuffixOf(z3.StringVal('.xml'), ex.term(x, 'str')))
    u.prove('the names begin as that of the index', z3.PrefixOf(z3.If(
        z3.SuffixOf(z3.StringVal('.xml'), b.t), z3.SubString(b.t, 0, z3.Length(b.t) - 4), b.t), ex.term(x, 'str')))
    u.cover('xml', z3.SuffixOf(z3.StringVal('.xml'), b.t))
    u.cover('other', z3.Not(z3.SuffixOf(z3.StringVal('.xml'), b.t)))


def multifile(u):
    """How many parts: the least number that is enough."""
    o, s, m = a_list(u)
    ex = u.ex
    n = z3.Length(s.t)
    k = ex.split(u.method(o, 'requires_multifile'))
    if k is False or k is None or k == 0:
        u.prove('one document if it is enough', True if m is None else n <= m)
        u.cover('one')
        return
    u.prove('several only if one is not enough', False if m is None else n > m)
    kt = ex.term(k, 'int')
    u.prove('the least number that is enough', z3.And((kt - 1) * m < n, n <= kt * m))
    u.cover('several')


class Docs:
    """Call-site contracts: documents written are recorded (the unit 'document' is about what is written of one)."""

    def __init__(self, u):
        self.u, ex = u, u.ex
        SS = ex.SS
        self.PART = z3.Function('part_name', SS, z3.IntSort(), SS)
        ex.models.update({LWI + 'part_name': self.part_name,
                          'resource_container.ResourceContainer.index': self.index})

    def part_name(self, ex, a):
        return T('str', self.PART(ex.term(ex.split(a['basename']), 'str'), ex.term(ex.split(a['part_number']), 'int')))

    def index(self, ex, a):
        """The link to the index (C20)."""
        o = ex.split(a['self'])
        if len(a) < 2:
            return ex.cell(o).attrs.get('ghost index')
        ex.cell(o).attrs['ghost index'] = ex.split([v for k, v in a.items() if k != 'self'][0])
        return None


def part(u):
    ex = u.ex
    o, s, m = a_list(u)
    n = z3.Length(s.t)
    d = Docs(u)
    base, p = u.sym('str', 'basename'), u.sym('int', 'part').t
    u.assume(p >= 0)
    wrote = []

    def write(ex, a):
        r = ex.split(a['resources'])
        src = ex.bi.items_of(r)
        wrote.append(1)
        got = src[1].t if src[0] == 'seq' else seq_term(ex, tuple(v for _, v in src[1]), R)
        end = z3.If((p + 1) * m < n, (p + 1) * m, n)
        u.prove('the part there is', p * m < n)
        u.prove('the entries of that part', got == z3.Extract(s.t, p * m, end - p * m))
        u.prove('a link to the index', ex.eq(ex.cell(r).attrs.get('ghost index'), base))
        u.prove('a part is no index', z3.Not(B(ex.truth(a.get('sitemapindex', False)))))
        u.prove('given back, not written', ex.is_none(a.get('fh')))
        return T('str', z3.Const('text', ex.SS))
    ex.models[S + 'resources_as_xml'] = write
    more = z3.BoolVal(False) if m is None else n > m
    if m is not None:
        u.lemma('parts follow each other', z3.And((p + 1) * m == p * m + m, p * m >= 0))
    multi(ex, m, n)
    k, r = u.attempt(lambda: u.method(o, 'as_xml_part', base, T('int', p)))
    if k == 'raise':
        u.prove('refused with an index error (%s)' % r.name, r.name == 'ListBaseIndexError')
        u.prove('refused only if there is no such part', z3.Not(z3.And(more, z3.BoolVal(False) if m is None else p * m < n)))
        u.cover('refused')
        return
    u.prove('the text of the document', ex.eq(r, T('str', z3.Const('text', ex.SS))))
    u.prove('only for a list that is split', more)
    u.cover('part')


def multi(ex, m, n):
    """requires_multifile as the unit 'number of parts' has it."""
    def requires(ex, a):
        if m is None or not ex.branch(n > m):
            return False
        k = ex.fresh('int', 'parts')
        ex.assume(z3.And((k.t - 1) * m < n, n <= k.t * m, k.t >= 2))
        return k
    ex.models[LWI + 'requires_multifile'] = requires


def as_xml(u):
    """as_xml and as_xml_index: one document, or the index of all parts, or an error."""
    ex = u.ex
    o, s, m = a_list(u)
    n = z3.Length(s.t)
    d = Docs(u)
    base, allow = u.sym('str', 'basename'), u.sym('bool', 'allow_multifile')
    index = u.sym('bool', 'is an index')
    ex.cell(o).attrs['sitemapindex'] = index
    j = z3.Int('j')
    more = z3.BoolVal(False) if m is None else n > m
    k_ = []

    def requires(ex, a):
        if m is None or not ex.branch(n > m):
            return False
        k = z3.Int('parts')
        ex.assume(z3.And((k - 1) * m < n, n <= k * m, k >= 2))
        return T('int', k)
    ex.models[LWI + 'requires_multifile'] = requires

    def add(ex, a):
        """An index is known by the URIs of its entries."""
        o = ex.split(a['self'])
        ex.bi.list_append(ex.cell(o).attrs['resources'], ex.split(u.get(ex.split(a['resource']), 'uri')))
    ex.models['resource_container.ResourceContainer.add'] = add

    def write(ex, a):
        r = ex.split(a['resources'])
        u.prove('given back, not written', ex.is_none(a.get('fh')))
        if r == o:
            u.prove('one document only if it is enough', z3.Not(more))
            u.prove('all entries', seq_term(ex, u.get(o, 'resources'), R) == s.t)
            u.prove('an index only if it is one', ex.eq(a.get('sitemapindex', False), index))
        else:
            u.prove('several only if one is not enough, and allowed', z3.And(more, allow.t))
            us = seq_term(ex, u.get(r, 'resources'), 'str')
            u.prove('the index is one', B(ex.truth(a.get('sitemapindex', False))))
            u.prove('it lists as many parts as there are', z3.Length(us) == z3.Int('parts'))
            i = z3.Int('any')
            ex.assume(z3.And(0 <= i, i < z3.Length(us)))
            u.prove('it lists the parts, in order', us[i] == d.PART(base.t, i))
        return T('str', z3.Const('text', ex.SS))
    ex.models[S + 'resources_as_xml'] = write
    k, r = u.attempt(lambda: u.method(o, 'as_xml', allow_multifile=allow, basename=base))
    if k == 'raise':
        u.prove('refused with an index error (%s)' % r.name, r.name == 'ListBaseIndexError')
        u.prove('refused only if it is too long for one document, and several are not allowed', z3.And(more, z3.Not(allow.t)))
        u.cover('refused')
        return
    u.prove('the text of the document', ex.eq(r, T('str', z3.Const('text', ex.SS))))
    u.cover('given')
    u.cover('index', more)



def write(u, head=None):
    """head: what is checked of the metadata and links of each document (C25)."""
    ex = u.ex
    o, s, m = a_list(u, allow_multifile=u.sym('bool', 'allow_multifile'))
    allow = u.get(o, 'allow_multifile')
    isx = u.sym('bool', 'is an index')
    ex.cell(o).attrs['sitemapindex'] = isx
    n = z3.Length(s.t)
    d = Docs(u)
    SS, I = ex.SS, z3.IntSort()
    SRC, MAPPED = z3.Function('uri_of_path', SS, SS), z3.Function('mapped', SS, z3.BoolSort())
    base = u.sym('str', 'basename')
    g = ex.st.ghost
    num = lambda k, v: g.__setitem__(k, T('int', z3.IntVal(v)))
    more = z3.BoolVal(False) if m is None else n > m
    G = lambda ex, k: ex.st.ghost[k].t
    for k in ('done', 'parts', 'single', 'indexes', 'open', 'failed'):
        num(k, 0)
    g['name'] = T('str', base.t)
    name = lambda j: SRC(d.PART(base.t, j))
    mapper = u.get(o, 'mapper')
    box = u.new('list_base.ListBase')
    if head:
        head.given(o, box)
    g['it'] = None

    def fail(ex, cls, *a):
        ex.st.ghost['failed'] = T('int', z3.IntVal(1))
        ex.raise_(cls, *a)

    def get(ex, a):
        """Proved by the unit 'chunk'."""
        it = ex.split(a['resource_iter'])
        c = ex.cell(it)
        if not isinstance(c, IterCell) or c.src[0] != 'seq' or not c.src[1].t.eq(s.t):
            raise Unsupported('chunks of something else')
        p = pos_of(ex, it)
        first = ex.split(a.get('first'))
        if first is None:
            b = p
        else:
            u.prove('first is the entry before', z3.And(p >= 1, first.t == s.t[p - 1]))
            b = p - 1
        e = n if m is None else z3.If(b + m < n, b + m, n)
        at = ex.cell(box).attrs
        ex.st.heap[at['resources'].id] = ListCell(None, Seq(z3.Extract(s.t, b, e - b), R))
        at['ghost index'] = None
        ex.cell(it).pos = z3.If(e < n, e + 1, n)
        ex.st.ghost['begin'] = T('int', b)
        return (box, U([(e < n, Ref(s.t[e], 'Resource')), (z3.Not(e < n), None)]))

    def dst_to_src(ex, a):
        u.prove('the mapper of the list', z3.BoolVal(ex.split(a['self']) == mapper))
        t = ex.term(ex.split([v for k, v in a.items() if k != 'self'][0]), 'str')
        if not ex.branch(MAPPED(t)):
            fail(ex, ex.project.cls('mapper.MapperError'), 'no mapping')
        return T('str', SRC(t))

    def open_(ex, a, k):
        if ex.split(a[1] if len(a) > 1 else k.get('mode', 'r')) not in ('w', 'wt'):
            raise Unsupported('mode')
        if ex.branch(z3.Bool(ex.fresh_name('cannot_open'))):
            fail(ex, OSError, 'cannot write')
        u.prove('one document is written at a time', G(ex, 'open') == 0)
        ex.st.ghost['open'] = T('int', z3.IntVal(1))
        ex.st.ghost['name'] = T('str', ex.term(ex.split(a[0]), 'str'))
        return Opaque('wfile', None)

    def close(ex, *a):
        ex.st.ghost['open'] = T('int', z3.IntVal(0))

    def attr(ex, v, nm):
        if nm == 'close':
            return Builtin('close', lambda ex, a, k: close(ex))
        raise Unsupported('file.%s' % nm)
    ex.ext.update({'open': open_, 'attr:wfile': attr, 'enter:wfile': lambda ex, v: v, 'exit:wfile': close,
                   'os.stat': lambda ex, a, k: stat(ex, a), 'attr:stat': lambda ex, v, nm: ex.fresh('real', 'mtime')})

    def stat(ex, a):
        last(ex, ex.term(ex.split(a[0]), 'str'))
        return Opaque('stat', None)

    def last(ex, f):
        u.prove('what is recorded of a part is that of the complete file', z3.And(
            f == d.PART(base.t, G(ex, 'parts') - 1), G(ex, 'open') == 0))

    def hashes(ex, a):
        last(ex, ex.term(ex.split([v for k, v in a.items() if k != 'self'][1]), 'str'))
        return None
    ex.models.update({'hashes.Hashes.__init__': hashes, 'hashes.Hashes.md5': lambda ex, a: ex.fresh('str', 'md5')})

    def add(ex, a):
        """An index is known by the URIs of its entries."""
        x = ex.split(a['self'])
        if x == box:
            raise Unsupported('adding to a chunk')
        r = ex.split(a['resource'])
        uri = ex.term(ex.split(u.get(r, 'uri')), 'str')
        k = G(ex, 'parts')
        u.prove('a part is listed by the URI of its file', uri == name(k - 1))
        u.prove('each part is listed once', z3.Length(seq_term(ex, ex.cell(x).attrs['resources'], 'str')) == k - 1)
        ex.bi.list_append(ex.cell(x).attrs['resources'], T('str', uri))

    def write_(ex, a):
        r, fh = ex.split(a['resources']), ex.split(a.get('fh'))
        u.prove('written to the open file', z3.And(z3.BoolVal(isinstance(fh, Opaque) and fh.tag == 'wfile'), G(ex, 'open') == 1))
        isi = B(ex.truth(a.get('sitemapindex', False)))
        if head:
            head.written(o, r)
        f, done, parts = G(ex, 'name'), G(ex, 'done'), G(ex, 'parts')
        if r == box:
            c = seq_term(ex, ex.cell(box).attrs['resources'], R)
            if not ex.branch(more):
                u.prove('one document of the name given', f == base.t)
                u.prove('all entries', c == s.t)
                u.prove('an index only if it is one', isi == isx.t)
                u.prove('no link to an index', ex.is_none(ex.cell(box).attrs.get('ghost index')))
                ex.st.ghost['single'] = T('int', G(ex, 'single') + 1)
                return None
            u.prove('several only if allowed', B(ex.truth(allow)))
            u.prove('each part under its own name', f == d.PART(base.t, parts))
            u.prove('a part is no index', z3.Not(isi))
            u.prove('a part goes on where the last one ended', z3.And(
                z3.PrefixOf(c, z3.Extract(s.t, done, n - done)), z3.Length(c) > 0))
            u.prove('all parts but the last have the maximum number of entries', z3.If(
                done + m < n, z3.Length(c) == m, z3.Length(c) == n - done))
            x = ex.split(ex.cell(box).attrs.get('ghost index'))
            u.prove('a part has a link to the index', z3.BoolVal(False) if x is None else ex.term(x, 'str') == SRC(base.t))
            ex.st.ghost['done'] = T('int', done + z3.Length(c))
            ex.st.ghost['parts'] = T('int', parts + 1)
            return None
        us = seq_term(ex, ex.cell(r).attrs['resources'], 'str')
        u.prove('the index under the name given', z3.And(f == base.t, isi))
        u.prove('the index after all parts', z3.And(more, done == n))
        u.prove('the index lists as many as there are', z3.Length(us) == parts)
        i = z3.Int('any')
        ex.assume(z3.And(0 <= i, i < parts))
        u.prove('the index lists the parts, in order', us[i] == name(i))
        ex.st.ghost['indexes'] = T('int', G(ex, 'indexes') + 1)
        return None
    ex.models.update({LWI + 'get_resources_chunk': get, 'mapper.Mapper.dst_to_src': dst_to_src,
                      'resource_container.ResourceContainer.add': add, S + 'resources_as_xml': write_})

    def cands(ex, loop):
        if ('ghost', 'parts') not in loop.mod:
            return []
        # the iterator and the list of the index are the cells that change
        its = [k for k in loop.mod if k[0] == 'cell' and isinstance(loop.get(loop.entry_sym, k), IterCell)]
        gv = lambda v, k: v.ex.st.ghost[k].t
        # the variables that hold what comes next
        nx = [k for k in loop.mod if k[0] == 'local' and k not in loop.poison and isinstance(loop.get(loop.entry_sym, k), (U, Ref))]
        bx = ('cell', ex.cell(box).attrs['resources'].id)
        e = lambda v: z3.If(gv(v, 'done') + m < n, gv(v, 'done') + m, n)
        out = [('done so far', lambda v: z3.And(0 <= gv(v, 'done'), gv(v, 'done') <= n, gv(v, 'parts') >= 0)),
               ('no file is open', lambda v: gv(v, 'open') == 0), ('nothing failed', lambda v: gv(v, 'failed') == 0),
               ('as many parts as iterations', lambda v: gv(v, 'parts') == v.i)]
        if bx in loop.mod:
            out.append(('the chunk at hand', lambda v: v.loop.get(v.ex.st, bx).seq.t == z3.Extract(
                s.t, gv(v, 'done'), e(v) - gv(v, 'done'))))
            out.append(('its length', lambda v: z3.Length(v.loop.get(v.ex.st, bx).seq.t) == e(v) - gv(v, 'done')))
        for k in its:
            out.append(('the position', lambda v, k=k: zint(v.loop.get(v.ex.st, k).pos) == z3.If(e(v) < n, e(v) + 1, n)))
        for k in nx:
            def nxt(v, k=k):
                x = v.loop.get(v.ex.st, k)
                h = [w for _, w in alts(x) if isinstance(w, Ref)]
                return z3.And(absent(x) == (e(v) == n), *[z3.Implies(e(v) < n, w.t == s.t[e(v)]) for w in h])
            out.append(('%s is what comes next' % k[-1], nxt))
        for k in loop.mod:
            c = loop.get(loop.entry_sym, k)
            if k != bx and isinstance(c, ListCell) and c.seq is not None and c.seq.ek == 'str':
                i = z3.Int('i!listed')
                q = lambda v, k=k: v.loop.get(v.ex.st, k).seq.t
                out.append(('as many are listed as written', lambda v, q=q: z3.Length(q(v)) == gv(v, 'parts')))
                out.append(('those written are listed', lambda v, q=q: z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < z3.Length(q(v))), q(v)[i] == name(i)))))
        return out
    u.fold(Extra(cands))
    k, r = u.attempt(lambda: u.method(o, 'write', base))
    done, parts = G(ex, 'done'), G(ex, 'parts')
    if k == 'raise':
        u.prove('an error only if a file cannot be written or mapped, or several are not allowed',
                z3.Or(G(ex, 'failed') == 1, z3.And(more, z3.Not(B(ex.truth(allow))))))
        u.prove('no index after an error', G(ex, 'indexes') == 0)
        u.prove('nothing at all is written if several are not allowed', z3.Implies(
            z3.And(more, z3.Not(B(ex.truth(allow)))), z3.And(parts == 0, G(ex, 'single') == 0, G(ex, 'open') == 0)))
        u.cover('refused', G(ex, 'failed') == 0)
        return
    u.prove('one document, or all parts and the index', z3.If(
        more, z3.And(G(ex, 'single') == 0, done == n, G(ex, 'indexes') == 1),
        z3.And(G(ex, 'single') == 1, parts == 0, G(ex, 'indexes') == 0)))
    u.prove('all files are closed', G(ex, 'open') == 0)
    u.cover('one', z3.And(z3.Not(more), n > 0))
    u.cover('several', more)


def zint(p):
    return p if is_z3(p) else z3.IntVal(p)


def document(u):
    """What is written of a list: its links and metadata, and then one element for each entry, in order."""
    ex = u.ex
    ci = ex.project.stub('stub_etree', STUB).classes['Element']
    ex.ext['xml.etree.ElementTree.Element'] = lambda ex, a, k: ex.instantiate(ci, a, k)
    s = u.old(u.seq(R, 'entries'))
    n = z3.Length(s.t)
    o = u.new('list_base.ListBase')
    ex.cell(o).attrs['resources'] = ex.alloc(ListCell(None, s))
    links = [ex.alloc(DictCell({'rel': (True, u.sym('str', 'rel%d' % i)), 'href': (True, u.sym('str', 'href%d' % i))})) for i in (0, 1)]
    ex.cell(o).attrs['ln'] = ex.new_list(links)
    cap, frm = u.opt('str', 'capability'), u.opt('str', 'from')
    ex.cell(o).attrs['md'] = ex.alloc(DictCell({'capability': (True, cap), 'md_from': (True, frm)}))
    index, given = u.sym('bool', 'sitemapindex'), z3.Bool('file given')
    I = z3.IntSort()
    ELR = z3.Function('element', I, ex.SS, I)
    g = ex.st.ghost
    g['written'] = g['meta'] = T('int', z3.IntVal(0))
    g['elements'] = Seq(empty(ex, EL), EL)
    want = lambda r: ELR(r, z3.If(index.t, ex.lit('sitemap'), ex.lit('url')))

    def element(ex, a):
        """C12."""
        return Ref(ELR(ex.split(a['resource']).t, ex.term(ex.split(a.get('element_name', 'url')), 'str')), 'Element')

    def append(ex, a):
        e = ex.split([v for k, v in a.items() if k != 'self'][0])
        if isinstance(e, Ref):
            ex.st.ghost['elements'] = Seq(z3.Concat(ex.st.ghost['elements'].t, z3.Unit(e.t)), EL)
        else:
            u.prove('links and metadata before the entries', z3.Length(ex.st.ghost['elements'].t) == 0)
            ex.st.ghost['meta'] = T('int', ex.st.ghost['meta'].t + 1)
            t, at = u.get(e, 'tag'), ex.cell(u.get(e, 'attrib')).entries
            if t == 'rs:md':
                u.prove('the metadata of the list', set(at) <= {'capability', 'from'})
                for nm, v in (('capability', cap), ('from', frm)):
                    h, w = at.get(nm, (False, None))
                    u.prove('%s of the list' % nm, z3.And(B(h) == z3.Not(absent(v)), z3.Implies(
                        B(h), True if w is None else B(ex.eq(w, T('str', val(v)))))))
            else:
                u.prove('the links of the list', z3.And(z3.BoolVal(t == 'rs:ln' and set(at) == {'rel', 'href'}), z3.Or(*[
                    z3.And(*[B(ex.eq(at[x][1], ex.cell(l).entries[x][1])) for x in ('rel', 'href')]) for l in links])))
        return None

    def tree(ex, a, k):
        return Opaque('tree', ex.split(a[0]))

    def attr(ex, v, nm):
        if nm != 'write':
            raise Unsupported('tree.%s' % nm)

        def write(ex, a, k):
            root = v.data
            at = ex.cell(u.get(root, 'attrib')).entries
            u.prove('the kind asked for', B(ex.eq(u.get(root, 'tag'), T('str', z3.If(
                index.t, ex.lit('sitemapindex'), ex.lit('urlset'))))))
            u.prove('the namespaces are declared', all(at.get(x, (0, 0))[1] == y for x, y in (
                ('xmlns', 'http://www.sitemaps.org/schemas/sitemap/0.9'), ('xmlns:rs', 'http://www.openarchives.org/rs/terms/'))))
            es = ex.st.ghost['elements'].t
            u.prove('as many elements as entries', z3.Length(es) == n)
            i = z3.Int('any')
            ex.assume(z3.And(0 <= i, i < n))
            u.prove('one element for each entry, in order', es[i] == want(s.t[i]))
            u.prove('links and metadata are there', ex.st.ghost['meta'].t == 2 + z3.If(z3.And(absent(cap), absent(frm)), 0, 1))
            u.prove('written as text, with a declaration', k.get('encoding') == 'unicode' and k.get('xml_declaration') is True
                    and k.get('method', 'xml') == 'xml')
            ex.st.ghost['written'] = T('int', ex.st.ghost['written'].t + 1)
            ex.st.ghost['to'] = ex.split(a[0])
            return None
        return Builtin('write', write)
    buf = Opaque('buffer', None)
    ex.ext.update({'xml.etree.ElementTree.ElementTree': tree, 'attr:tree': attr, 'io.StringIO': lambda ex, a, k: buf,
                   'attr:buffer': lambda ex, v, nm: Builtin(nm, lambda ex, a, k: T('str', z3.Const('text', ex.SS)))})
    ex.models.update({S + 'resource_etree_element': element, 'stub_etree.Element.append': append})
    w = u.fold(Fold('elements', s, ('seq', EL), empty(ex, EL), lambda ex, q, e, i: z3.Concat(q, z3.Unit(want(e.t)))))
    i = z3.Int('i')
    u.induct_all('one element for each', lambda k: z3.And(z3.Length(w.at(ex, k)) == k, z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < k), w.at(ex, k)[i] == want(s.t[i])))), n, lambda k: w.defn(ex, k))
    u.fold(Extra(lambda ex, loop: [('elements so far', lambda v: v.ex.st.ghost['elements'].t == w.at(ex, v.i))]
                 if ('ghost', 'elements') in loop.mod else []))
    sm = u.new('sitemap.Sitemap', pretty_xml=u.sym('bool', 'pretty'))
    fh = Opaque('wfile', None) if u.when(given) else None
    k, r = u.attempt(lambda: u.method(sm, 'resources_as_xml', o, sitemapindex=index, fh=fh))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    u.prove('written once', ex.st.ghost['written'].t == 1)
    to = ex.st.ghost.get('to')
    if fh is None:
        u.prove('the text is given back', z3.BoolVal(to is buf) if r is None else z3.And(
            z3.BoolVal(to is buf), B(ex.eq(r, T('str', z3.Const('text', ex.SS))))))
    else:
        u.prove('to the file given', to is fh)
    u.cover('index', z3.And(index.t, n > 1))
    u.cover('sitemap', z3.And(z3.Not(index.t), n > 1))


UNITS = [Unit('chunk', chunk, LWI + 'get_resources_chunk', reftypes=RT, covers=['more', 'last']),
         Unit('names of parts', part_name, LWI + 'part_name', opaque=False, covers=['xml', 'other']),
         Unit('number of parts', multifile, LWI + 'requires_multifile', reftypes=RT, covers=['one', 'several']),
         Unit('one part', part, LWI + 'as_xml_part', reftypes=RT, covers=['refused', 'part']),
         Unit('as_xml', as_xml, [LWI + 'as_xml', LWI + 'as_xml_index', LB + 'as_xml'], reftypes=RT, covers=['refused', 'given', 'index']),
         Unit('document', document, S + 'resources_as_xml', reftypes=RT, covers=['index', 'sitemap']),
         Unit('write', write, LWI + 'write', reftypes=RT, covers=['refused', 'one', 'several'], budget=200)]
CONF = dict(assumptions=[
    "'%05d' % n is taken to be different for different n of at least 0, and at least five characters long",
    'len(...) / max_sitemap_entries is taken to be the exact quotient (true for floats up to 2**53), and math.ceil as exact',
    'iterating over the list gives its entries in the order of the list (C08); the mapping of a file name to a URI is the contract '
    'proved in C09 (injective mapping of different names below one destination is a clause used here); links are set as proved in C20',
    'the element made for an entry is the contract proved in C12 (resource_etree_element); pretty printing changes no content',
    'ElementTree.write, io.StringIO and open are modelled by their documentation: text goes to the file given',
    'termination of the loop that writes the parts is not proved (each round uses up at least one entry, as the chunk contract says)'])
