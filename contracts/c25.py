"""C25: what a document says of itself: times, capability, links."""
import z3
from pydv.unit import Unit
from pydv.values import *
from .lib import *
from . import c12, c13, c14
from .c13 import LISTS
from .c14 import LB, LWI, S

RC = 'resource_container.ResourceContainer.'
TIMES = ['at', 'completed', 'from', 'until']
KEYS = ['capability'] + ['md_' + t for t in TIMES]


def w3c(u):
    """C11: the W3C datetime of a timestamp, or of the present moment."""
    ex = u.ex
    f = z3.Function('W3C', z3.RealSort(), ex.SS)
    now = z3.Real('now')

    def fmt(ex, a):
        d = ex.split(a.get('dt', 'now'))
        if d is None:
            return None
        if a.get('no_fractions', False) is not False:
            raise Unsupported('without fractions')
        if isinstance(d, str) and d == 'now':
            return T('str', f(now))
        if isinstance(d, T) and d.kind == 'str' and not ex.branch(d.t != ex.lit('now')):
            return T('str', f(now))
        if isinstance(d, T) and d.kind in ('real', 'int'):
            return T('str', f(d.t if d.kind == 'real' else z3.ToReal(d.t)))
        u.prove('a text is not taken for a timestamp', False)
        raise Unsupported('formatting something else')
    ex.models['w3c_datetime.datetime_to_str'] = fmt
    return lambda t: f(t), f(now)


def metadata(u, **more):
    """A piece of metadata: each key is missing, None or a text; and what is said by it."""
    ex = u.ex
    v = {k: more.get(k, u.opt('str', k)) for k in KEYS}
    out = {k: z3.Bool('no ' + k) for k in KEYS}
    d = ex.alloc(DictCell({k: (z3.Not(out[k]), v[k]) for k in KEYS}))
    says = {k: (z3.And(z3.Not(out[k]), z3.Not(absent(v[k]))), text(ex, v[k])) for k in KEYS}
    return d, says, out


def text(ex, v):
    """The text of an optional one (when there is one)."""
    t = ex.lit('')
    for g, x in alts(v):
        if x is not None:
            t = z3.If(B(g), ex.term(x, 'str'), t)
    return t


def read(ex, d, k):
    """(given, text) of key k of a dict."""
    h, w = ex.cell(ex.split(d)).entries.get(k, (False, None))
    return z3.And(B(h), z3.Not(absent(w))), text(ex, w)


def reads(ex, got, says):
    h, t = says
    return z3.And(absent(got) == z3.Not(h), z3.Implies(h, text(ex, got) == t))


def alike(ex, d, says, keys=KEYS):
    g = []
    for k in keys:
        h, t = read(ex, d, k)
        g.append(z3.And(h == says[k][0], z3.Implies(h, t == says[k][1])))
    return z3.And(*g)


def times(how):
    def unit(u):
        ex = u.ex
        f, now = w3c(u)
        for t in TIMES:
            d, says, out = metadata(u)
            o = u.new('resource_container.ResourceContainer', md=d)
            got = u.get(o, 'md_' + t)
            u.prove('%s reads as it is' % t, reads(ex, got, says['md_' + t]))
            v = {'text': lambda: u.sym('str', 'text'), 'now': lambda: 'now', 'none': lambda: None, 'number': lambda: u.sym('real', 'time')}[how]()
            k, r = u.attempt(lambda: u.call(Builtin('set', lambda ex, a, k: ex.setattr(o, 'md_' + t, v))))
            if k == 'raise':
                u.prove('setting raises no error (%s)' % r.name, False)
                return
            want = {'text': lambda: (z3.BoolVal(True), z3.If(v.t == ex.lit('now'), now, v.t)), 'now': lambda: (z3.BoolVal(True), now),
                    'none': lambda: (z3.BoolVal(False), ex.lit('')), 'number': lambda: (z3.BoolVal(True), f(v.t))}[how]()
            md = u.get(o, 'md')
            u.prove('%s is as set, the rest as before' % t, alike(ex, md, dict(says, **{'md_' + t: want})))
            got = u.get(o, 'md_' + t)
            u.prove('%s reads as set' % t, reads(ex, got, want))
        u.cover('reached')
    return unit


def capability(u):
    ex = u.ex
    d, says, out = metadata(u, capability=u.sym('str', 'own capability'))
    name = u.opt('str', 'name of the kind')
    o = u.new('resource_container.ResourceContainer', md=d, capability_name=name)
    got = u.get(o, 'capability')
    h, x = says['capability']
    u.prove('capability reads as it is', reads(ex, got, says['capability']))
    u.method(o, 'default_capability')
    fill = z3.And(out['capability'], z3.Not(absent(name)))
    u.prove('the capability of the kind if there is none, and nothing else', alike(ex, u.get(o, 'md'), dict(
        says, capability=(z3.Or(fill, h), z3.If(fill, text(ex, name), x)))))
    c = u.sym('str', 'capability')
    ex.setattr(o, 'capability', c)
    u.prove('capability is as set, the rest as before', alike(ex, u.get(o, 'md'), dict(says, capability=(z3.BoolVal(True), c.t))))
    u.cover('filled in', fill)
    u.cover('given', h)


def element(pretty):
    """Metadata written as an element and read from it."""
    def unit(u):
        ex = u.ex
        ci = ex.project.stub('stub_etree', c12.STUB).classes['Element']
        ex.ext['xml.etree.ElementTree.Element'] = lambda ex, a, k: ex.instantiate(ci, a, k)
        d, says, out = metadata(u)
        s = u.new('sitemap.Sitemap', pretty_xml=pretty)
        top = ex.instantiate(ci, ['urlset'], {})
        k, e = u.attempt(lambda: u.method(s, 'add_element_with_atts_to_etree', top, 'rs:md', d))
        if k == 'raise':
            u.prove('writing raises no error (%s)' % e.name, False)
            return
        u.prove('writing leaves the metadata', alike(ex, d, says))
        kids = ex.cell(u.get(top, 'children'))
        some = z3.Or(*[h for h, _ in says.values()])
        ks = [(B(g), x) for g, x in kids.items] if kids.items is not None else None
        u.prove('one element if there is anything to say', z3.And(z3.BoolVal(ks is not None and len(ks) <= 1),
                                                                (ks[0][0] if ks else z3.BoolVal(False)) == some))
        if not ks or not u.when(some):
            u.cover('nothing')
            return
        el = ks[0][1]
        u.prove('its name', ex.eq(u.get(el, 'tag'), 'rs:md'))
        k, m = u.attempt(lambda: u.method(s, 'md_from_etree', el, 'preamble'))
        if k == 'raise':
            u.prove('reading raises no error (%s)' % m.name, False)
            return
        u.prove('read as written', alike(ex, m, says))
        u.prove('nothing else is read', set(ex.cell(m).entries) <= set(KEYS))
        u.cover('all', z3.And(*[h for h, _ in says.values()]))
    return unit


def links_of(u):
    ex = u.ex
    l = [ex.alloc(DictCell({'rel': (True, u.sym('str', 'rel%d' % i)), 'href': (True, u.sym('str', 'href%d' % i))})) for i in (0, 1)]
    return l, ex.new_list(list(l))


def same_links(ex, o, links, u):
    """The links of o are those given, in order (the same ones, or copies)."""
    c = ex.cell(ex.split(u.get(o, 'ln')))
    if not isinstance(c, ListCell) or c.items is None or len(c.items) != len(links):
        return z3.BoolVal(False)
    g = []
    for (h, x), y in zip(c.items, links):
        x = ex.split(x)
        a, b = ex.cell(x).entries, ex.cell(y).entries
        g.append(B(h))
        g.append(z3.BoolVal(x == y) if x == y else z3.And(z3.BoolVal(set(a) == set(b)), *[B(ex.eq(a[k][1], b[k][1])) for k in b if k in a]))
    return z3.And(*g)


def kinds(u):
    """Every kind of document says of itself what it is, and all that was set."""
    ex = u.ex
    for key, cap in LISTS.items():
        n = '%s: ' % key.split('.')[1]
        for how in ('as_xml', 'write'):
            links, ln = links_of(u)
            d, says, out = metadata(u, capability=u.sym('str', 'own capability'))
            wrote = []
            want = dict(says, capability=(z3.BoolVal(True), z3.If(out['capability'], ex.lit(cap), says['capability'][1])))

            def xml(ex, a):
                o = ex.split(a['resources'])
                wrote.append(o)
                u.prove(n + 'it says what it is, and all that was set', alike(ex, u.get(o, 'md'), want))
                u.prove(n + 'its links', same_links(ex, o, links, u))
                return T('str', z3.Const('text', ex.SS))
            ex.models.update({S + 'resources_as_xml': xml, LWI + 'requires_multifile': lambda ex, a: False})
            ex.ext.update({'open': lambda ex, a, k: Opaque('wfile', None), 'enter:wfile': lambda ex, v: v,
                           'exit:wfile': lambda ex, *a: None, 'attr:wfile': lambda ex, v, nm: Builtin(nm, lambda ex, a, k: None)})
            o = u.new(key, md=d, ln=ln)
            k, r = u.attempt(lambda: ex.getattr(o, 'capability_name'))
            u.prove(n + 'the kind', k != 'raise' and r == cap)
            k, r = u.attempt(lambda: u.method(o, how, *([] if how == 'as_xml' else [u.sym('str', 'name')])))
            if k == 'raise':
                u.prove(n + 'raises no error (%s)' % r.name, False)
                continue
            u.prove(n + 'written once', len(wrote) == 1)
            u.prove(n + 'writing leaves what was set', z3.And(
                alike(ex, d, says, KEYS[1:]), alike(ex, u.get(o, 'md'), says, KEYS[1:])))
            u.prove(n + 'and the links', same_links(ex, o, links, u))
    u.cover('reached')


class Head:
    """The metadata and links of each document of a list that is split."""

    def __init__(self, u):
        self.u = u
        self.links, self.ln = links_of(u)
        self.d, self.says, out = metadata(u, capability=u.sym('str', 'own capability'))
        self.cap = u.sym('str', 'name of the kind')
        self.want = dict(self.says, capability=(z3.BoolVal(True), z3.If(out['capability'], self.cap.t, self.says['capability'][1])))

    def given(self, o, box):
        ex = self.u.ex
        at = ex.cell(o).attrs
        at['md'], at['ln'], at['capability_name'] = self.d, self.ln, self.cap
        if box is not None:         # as proved by the unit 'metadata of a chunk'
            at = ex.cell(box).attrs
            at['md'] = ex.alloc(DictCell({k: (h, T('str', t)) for k, (h, t) in self.want.items()}))
            at['ln'] = ex.new_list(list(self.links))

    def written(self, o, r):
        u, ex = self.u, self.u.ex
        u.prove('each document says what it is, and all that was set', alike(ex, u.get(r, 'md'), self.want))
        u.prove('each document has the links', same_links(ex, r, self.links, u))

    def left(self, o):
        u, ex = self.u, self.u.ex
        u.prove('what was set is left', alike(ex, u.get(o, 'md'), self.says, KEYS[1:]))
        u.prove('the links are left', same_links(ex, o, self.links, u))


def writes(u):
    h = Head(u)
    c14.write(u, h)


def chunk(u):
    ex = u.ex
    h = Head(u)
    o, s, m = c14.a_list(u)
    h.given(o, None)
    it = ex.alloc(IterCell(('seq', s), z3.IntVal(0)))
    k, r = u.attempt(lambda: u.method(o, 'get_resources_chunk', it))
    if k == 'raise':
        u.prove('raises no error (%s)' % r.name, False)
        return
    h.written(o, r[0])
    h.left(o)
    u.prove('its metadata and links are its own', ex.split(u.get(r[0], 'ln')) != h.ln and ex.split(u.get(r[0], 'md')) != h.d)
    u.cover('reached')


SET = sum([(RC + 'md_' + t, RC + 'md_' + t + '@setter') for t in TIMES], ())
UNITS = [Unit('times set to a %s' % h, times(h), SET, covers=['reached']) for h in ('text', 'number')] + [
    Unit('times set to %s' % h, times(h), SET, covers=['reached']) for h in ('now', 'none')] + [
    Unit('capability', capability, (RC + 'capability', RC + 'capability@setter', RC + 'default_capability'), covers=['filled in', 'given']),
    Unit('metadata element', element(False), (S + 'add_element_with_atts_to_etree', S + 'md_from_etree'), covers=['all', 'nothing']),
    Unit('metadata element, pretty', element(True), (S + 'add_element_with_atts_to_etree', S + 'md_from_etree'), covers=['all', 'nothing']),
    Unit('kinds', kinds, (LB + 'as_xml', LB + 'write', LWI + 'as_xml', LWI + 'write'), covers=['reached']),
    Unit('metadata of a chunk', chunk, LWI + 'get_resources_chunk', reftypes=c14.RT, covers=['reached']),
    Unit('metadata of each part', writes, LWI + 'write', reftypes=c14.RT, covers=['one', 'several'], budget=200),
    # a document as it is written and read
    Unit('document written', c14.document, S + 'resources_as_xml', reftypes=c14.RT, covers=['index', 'sitemap']),
    Unit('document read', c13.document(False, True), S + 'parse_xml', reftypes=c13.RT, covers=['accepted']),
    Unit('index read', c13.document(True, False), S + 'parse_xml', reftypes=c13.RT, covers=['accepted']),
    Unit('lists', c13.lists, LB + 'parse', covers=['reached'])]
CONF = dict(assumptions=[
    'W3C datetimes are formatted as C11 has it; single links and entries are written and read as C12 and C13 have it',
    'ElementTree gives back the tags, attributes and order of the elements that are written'])
