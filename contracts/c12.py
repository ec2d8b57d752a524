"""C12: a resource written as XML and read back."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .etree import SM, RS, E as EL, whole
from .c16 import TYPES

S, RES = 'sitemap.Sitemap.', 'resource.Resource.'
# Trusted contract of ElementTree elements as they are made, and as they are after serialisation and parsing: tags without
# prefix are in the sitemap namespace, those with prefix rs: in the ResourceSync one; texts that are not empty and attributes
# come through; the serialiser and the parser are external
STUB = '''
class Element(object):
    def __init__(self, tag, attrib={}, **extra):
        self.tag = tag
        self.attrib = {}
        for k in attrib:
            self.attrib[k] = attrib[k]
        self.text = None
        self.tail = None
        self.children = []

    def append(self, e):
        self.children.append(e)

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def findall(self, path):
        return [c for c in self.children if c.tag == PATHS.get(path, '')]
PATHS = {'%sloc': 'loc', '%slastmod': 'lastmod', '%smd': 'rs:md', '%sln': 'rs:ln'}
''' % (SM, SM, RS, RS)
RTS = ['timestamp', 'ts_datetime']
EXTRA = ['ts_at', 'ts_completed', 'ts_from', 'ts_until']


def library(u):
    ex = u.ex
    ci = ex.project.stub('stub_etree', STUB).classes['Element']
    ex.ext['xml.etree.ElementTree.Element'] = lambda ex, a, k: ex.instantiate(ci, a, k)
    # C11
    SSo = ex.SS
    w3c = z3.Function('W3C', z3.RealSort(), SSo)
    when = z3.Function('timestamp_of_text', SSo, z3.RealSort())
    valid = z3.Function('is_w3c', SSo, z3.BoolSort())

    def fmt(ex, a):
        t = ex.split(a['dt'])
        if t is None:
            return None
        if not (isinstance(t, T) and t.kind == 'real'):
            raise Unsupported('formatting something else')
        x = w3c(t.t)
        ex.assume(z3.And(valid(x), when(x) == t.t))
        return T('str', x)

    def parse(ex, a):
        s = ex.split(a['s'])
        if s is None:
            return None
        x = ex.term(s, 'str')
        if not ex.branch(valid(x)):
            ex.raise_(ValueError, 'bad datetime')
        r = ex.fresh('real', 'read')
        ex.assume(z3.And(r.t - when(x) <= z3.Q(1, 1000000), when(x) - r.t <= z3.Q(1, 1000000)))
        return r
    ex.models.update({'w3c_datetime.datetime_to_str': fmt, 'w3c_datetime.str_to_datetime': parse})
    # hash strings: proved by the unit 'hash string' below
    B_ = z3.BoolSort()
    HASH = z3.Function('hash_string', *[s for _ in TYPES for s in (B_, SSo)], SSo)
    part = {alg: (z3.Function('has_' + alg, SSo, B_), z3.Function('the_' + alg, SSo, SSo)) for _, alg in TYPES}

    def hash_(ex, a):
        o = a['self']
        if len(a) < 2:
            vs = {alg: ex.getattr(o, alg) for _, alg in TYPES}
            args = []
            for alg in vs:
                w = [x for g, x in alts(vs[alg]) if x is not None]
                args += [z3.Not(absent(vs[alg])), ex.term(w[0], 'str') if w else ex.lit('')]
            x = HASH(*args)
            none = simp_and(*[absent(v) for v in vs.values()])
            for n, alg in enumerate(vs):
                has, the = part[alg]
                ex.assume(has(x) == args[2 * n])
                ex.assume(z3.Implies(args[2 * n], the(x) == args[2 * n + 1]))
            return U([(B(none), None), (z3.Not(B(none)), T('str', x))])
        x = ex.term(ex.split([v for k, v in a.items() if k != 'self'][0]), 'str')
        for _, alg in TYPES:
            has, the = part[alg]
            ex.setattr(o, alg, U([(has(x), T('str', the(x))), (z3.Not(has(x)), None)]))
        return None
    ex.models['resource.Resource.hash'] = hash_


def described(u, ln=None):
    ex = u.ex
    v = {k: u.opt('real', k) for k in RTS + EXTRA}
    v.update({k: u.opt('str', k) for k in ('mime_type', 'path', 'capability', 'change', 'md5', 'sha1', 'sha256')})
    v['length'] = u.opt('int', 'length')
    u.assume(z3.Or(absent(v['change']), *[val(v['change']) == ex.lit(c) for c in ('created', 'updated', 'deleted')]))
    v['uri'] = u.sym('str', 'uri')
    u.assume(v['uri'].t != ex.lit(''))
    return v, u.new('resource.Resource', ln=ln, **v)


def description(pretty):
    def unit(u):
        ex = u.ex
        library(u)
        v, r = described(u)
        s = u.new('sitemap.Sitemap', pretty_xml=pretty)
        k, e = u.attempt(lambda: u.method(s, 'resource_etree_element', r))
        if k == 'raise':
            u.prove('writing raises no error (%s)' % e.name, False)
            return
        for a in v:
            u.prove('writing leaves %s' % a, same(ex, u.get(r, a), v[a]))
        k, q = u.attempt(lambda: u.method(s, 'resource_from_etree', e, u.cls('resource.Resource')))
        if k == 'raise':
            u.prove('reading raises no error (%s)' % q.name, False)
            return
        for a in v:
            u.prove('%s is read as written' % a, same(ex, u.get(q, a), v[a], near=a in RTS + EXTRA))
        u.prove('there are no links', ex.is_none(u.get(q, 'ln')))
        u.cover('all', z3.And(*[z3.Not(absent(v[a])) for a in v]))
        u.cover('little', z3.And(*[absent(v[a]) for a in v if a != 'uri']))
    return unit


def same(ex, now, was, near=False):
    g = absent(now) == absent(was)
    ws = [(h, w) for h, w in alts(now) if w is not None]
    if not any(w is not None for _, w in alts(was)):
        return g
    old = val(was)
    for h, w in ws:
        t = ex.term(w)
        if near:
            d = z3.And(t - old <= z3.Q(1, 1000000), old - t <= z3.Q(1, 1000000))
        else:
            d = t == old
        g = z3.And(g, z3.Implies(z3.And(B(h), z3.Not(absent(was))), d))
    return g


LINK = {'rel': 'str', 'href': 'str', 'length': 'int', 'pri': 'int', 'hash': 'str', 'modified': 'str', 'path': 'str', 'mime_type': 'str'}


def link(pretty):
    def unit(u):
        ex = u.ex
        library(u)
        v = {k: u.opt(t, k) for k, t in LINK.items()}
        v['rel'], v['href'] = u.sym('str', 'rel'), u.sym('str', 'href')
        u.assume(z3.Or(absent(v['pri']), z3.And(val(v['pri']) >= 1, val(v['pri']) <= 999999)))
        # what is absent may be left out or be None
        out = {k: z3.Bool('no ' + k) for k in LINK if k not in ('rel', 'href')}
        d = ex.alloc(DictCell({k: (True if k not in out else z3.Not(out[k]), v[k]) for k in v}))
        s = u.new('sitemap.Sitemap', pretty_xml=pretty)
        top = u.call(u.ex.ext['xml.etree.ElementTree.Element'] and Builtin('Element', u.ex.ext['xml.etree.ElementTree.Element']), 'url')
        k, e = u.attempt(lambda: u.method(s, 'add_element_with_atts_to_etree', top, 'rs:ln', d))
        if k == 'raise':
            u.prove('writing raises no error (%s)' % e.name, False)
            return
        kids = ex.cell(u.get(top, 'children')).items
        u.prove('one element is written', len(kids) == 1 and kids[0][0] is True and u.get(kids[0][1], 'tag') == 'rs:ln')
        k, q = u.attempt(lambda: u.method(s, 'ln_from_etree', kids[0][1], 'context'))
        if k == 'raise':
            u.prove('reading raises no error (%s)' % q.name, False)
            return
        c, c0 = ex.cell(ex.split(q)), ex.cell(d)
        u.prove('nothing but what was written is read', set(c.entries) <= set(v))
        for a in v:
            for what, cell in (('%s is read as written', c), ('writing leaves %s', c0)):
                g, w = cell.entries.get(a, (False, None))
                none = z3.Or(absent(v[a]), out.get(a, z3.BoolVal(False)))
                hit = z3.And(B(g), z3.Not(absent(w)))
                u.prove(what % a, hit == z3.Not(none))
                for h, x in alts(w):
                    if x is not None:
                        u.prove(what % a, z3.Implies(z3.And(z3.Not(none), B(h)), ex.term(x) == val(v[a])))
        u.cover('all', z3.And(*[z3.Not(absent(v[a])) for a in v]))
        u.cover('little', z3.And(*[absent(v[a]) for a in out]))
    return unit


STUB2 = STUB.replace("return [c", "if path == '%sln':\n            return links(self)\n        return [c" % RS).replace(
    'class', 'from pydvghost import links\n\n\nclass', 1)
L = ('ref', 'dict')


def links(u):
    ex = u.ex
    library(u)
    ci = ex.project.stub('stub_etree_links', STUB2).classes['Element']
    ex.ext['xml.etree.ElementTree.Element'] = lambda ex, a, k: ex.instantiate(ci, a, k)
    I = z3.IntSort()
    ELN, LNE = z3.Function('element_of_link', I, I), z3.Function('link_of_element', I, I)
    ln = u.old(u.seq(L, 'ln'))
    n = z3.Length(ln.t)
    ex.st.ghost['lns'] = Seq(empty(ex, EL), EL)
    ex.st.ghost['to'] = None
    inner = ex.project.func(S + 'add_element_with_atts_to_etree')

    def add(ex, a):
        """Proved by the unit 'link'."""
        if a['name'] != 'rs:ln':
            return ex.inline(Func(inner, cls=inner.cls), a)
        w = ex.split(a['atts'])
        u.prove('links are written to the element of the resource', z3.BoolVal(ex.split(a['etree']) == ex.st.ghost['el']))
        ex.st.ghost['lns'] = Seq(z3.Concat(ex.st.ghost['lns'].t, z3.Unit(ELN(w.t))), EL)
        return None

    def made(ex, a, k):
        e = ex.instantiate(ci, a, k)
        if a[0] == 'url':
            ex.st.ghost['el'] = e
        return e
    ex.st.ghost['el'] = None
    ex.ext['xml.etree.ElementTree.Element'] = made
    ex.ext['pydvghost.links'] = lambda ex, a, k: ex.alloc(ListCell(None, ex.st.ghost['lns']))
    ex.models[S + 'add_element_with_atts_to_etree'] = add
    ex.models[S + 'ln_from_etree'] = lambda ex, a: Ref(LNE(ex.split(a['ln_element']).t), 'dict')
    t = u.opt('real', 'timestamp')
    r = u.new('resource.Resource', uri=u.sym('str', 'uri'), timestamp=t)
    u.assume(u.get(r, 'uri').t != ex.lit(''))
    ex.cell(r).attrs['ln'] = lst = ex.alloc(ListCell(None, ln))
    s = u.new('sitemap.Sitemap')
    w = u.fold(Fold('written', ln, ('seq', EL), empty(ex, EL), lambda ex, q, e, i: z3.Concat(q, z3.Unit(ELN(e.t)))))
    i = z3.Int('i')
    u.induct_all('one element for each link', lambda k: z3.And(z3.Length(w.at(ex, k)) == k, z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < k), w.at(ex, k)[i] == ELN(ln.t[i])))), n, lambda k: w.defn(ex, k))
    u.fold(Extra(lambda ex, loop: [('elements so far', lambda v: v.ex.st.ghost['lns'].t == w.at(ex, v.i))]
                 if ('ghost', 'lns') in loop.mod else []))
    k, e = u.attempt(lambda: u.method(s, 'resource_etree_element', r))
    if k == 'raise':
        u.prove('writing raises no error (%s)' % e.name, False)
        return
    u.prove('the links are all written, in order', ex.st.ghost['lns'].t == w.at(ex, n))
    u.prove('writing leaves the links', z3.And(seq_term(ex, u.get(r, 'ln'), L) == ln.t, z3.BoolVal(u.get(r, 'ln') == lst)))
    els = Seq(ex.st.ghost['lns'].t, EL)
    x = u.fold(Fold('read', els, ('seq', L), empty(ex, L), lambda ex, q, e, i: z3.Concat(q, z3.Unit(LNE(e.t)))))
    u.induct_all('one link for each element', lambda k: z3.And(z3.Length(x.at(ex, k)) == k, z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < k), x.at(ex, k)[i] == LNE(els.t[i])))), z3.Length(els.t), lambda k: x.defn(ex, k))
    k, q = u.attempt(lambda: u.method(s, 'resource_from_etree', e, u.cls('resource.Resource')))
    if k == 'raise':
        u.prove('reading raises no error (%s)' % q.name, False)
        return
    got = ex.split(u.get(q, 'ln'))
    if got is None:
        u.prove('no links only if there were none', n == 0)
        u.cover('none')
        return
    got = seq_term(ex, got, L)
    u.prove('as many links', z3.Length(got) == n)
    j = z3.Int('j')
    u.assume(z3.And(0 <= j, j < n))
    u.prove('each link is that read from its element, in order', got[j] == LNE(ELN(ln.t[j])))
    u.cover('several', n > 1)


def hash_string(u):
    """The digests read from a hash string are those it was made from."""
    ex = u.ex
    r = u.new('resource.Resource', uri='u')
    pieces = []
    had = {}
    for t, alg in TYPES:
        if u.when(z3.Bool('has ' + alg)):
            had[alg] = u.sym('str', alg)
            ex.cell(r).attrs[alg] = had[alg]
            pieces.append((t, had[alg]))
    if not pieces:
        u.prove('none without digests', ex.is_none(u.get(r, 'hash')))
        return
    h = u.get(r, 'hash')
    whole_ = z3.Concat(*[p for n, (t, v) in enumerate(pieces) for p in ([ex.lit(' ')] if n else []) + [ex.lit(t + ':'), v.t]])
    texts = {}

    def split(ex, x, a):
        """str.split: pieces without white space that are joined by single spaces; what comes before and after a first colon."""
        if a in ([], [None]):
            u.prove('the string holds the digests', ex.term(x, 'str') == whole_)
            out = []
            for t, v in pieces:
                p = T('str', z3.Concat(ex.lit(t + ':'), v.t))
                texts[p.t.get_id()] = (t, v)
                out.append(p)
            return ex.new_list(out)
        if a == [':', 1]:
            t, v = texts[ex.term(x, 'str').get_id()]
            return ex.new_list([t, v])
        raise Unsupported('split%r' % (a,))
    ex.ext['str.split'] = split
    q = u.new('resource.Resource', uri='u')
    for t, alg in TYPES:
        ex.cell(q).attrs[alg] = 'old'

    def setit():
        ex.setattr(q, 'hash', h)
    k, e = u.attempt(setit)
    if k == 'raise':
        u.prove('reading raises no error (%s)' % e.name, False)
        return
    for t, alg in TYPES:
        w = u.get(q, alg)
        u.prove('%s is read as written' % alg, ex.eq(w, had[alg]) if alg in had else ex.is_none(w))
    u.cover('all', z3.BoolVal(len(had) == 3))


W = [S + 'resource_etree_element', S + 'resource_from_etree']
UNITS = [Unit('description', description(False), W, covers=['all', 'little'], budget=250),
         Unit('description, pretty', description(True), W, covers=['all', 'little'], budget=250),
         Unit('link', link(False), [S + 'add_element_with_atts_to_etree', S + 'ln_from_etree'], covers=['all', 'little']),
         Unit('link, pretty', link(True), [S + 'add_element_with_atts_to_etree', S + 'ln_from_etree'], covers=['all', 'little']),
         Unit('all links', links, W, reftypes={'dict': {}}, covers=['several', 'none']),
         Unit('hash string', hash_string, RES + 'hash', opaque=False, merge=False, covers=['all'])]
CONF = dict(assumptions=['ElementTree: what is serialised and parsed again has the same elements, non-empty texts and attributes (contract stub in contracts/c12.py)',
                         'digests hold no white space; URIs are not empty',
                         'str.split gives back pieces without white space that were joined by single spaces (string level lemma)'])
