"""Trusted contracts of ElementTree: parsed elements, which the code only reads."""
import z3
from pydv.values import *
from .lib import *

E = ('ref', 'Element')
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


class Trees:
    def __init__(self, u):
        ex = self.ex = u.ex
        SS, I = ex.SS, z3.IntSort()
        self.has = z3.Function('has_attribute', I, SS, z3.BoolSort())
        self.att = z3.Function('attribute', I, SS, SS)
        self.tag = z3.Function('tag', I, SS)
        self.notext = z3.Function('no_text', I, z3.BoolSort())
        self.text = z3.Function('text', I, SS)
        self.kids = z3.Function('children', I, z3.SeqSort(I))
        self.found = z3.Function('children_with_tag', I, SS, z3.SeqSort(I))
        ex.ext.update({'attr:ref:Element': self.attr, 'iter:ref:Element': self.items, 'attr:attrib': self.attrib,
                       'attr:etree': self.tree, 'defusedxml.ElementTree.parse': self.parse, 'getitem:attrib': self.getitem,
                       'in:attrib': lambda ex, v, n: self.has(v.data.t, ex.term(n, 'str'))})
        self.parsed = None

    def element(self, name):
        return Ref(z3.Int(name), 'Element')

    def parse(self, ex, a, k):
        if self.parsed is None or a[0] is not self.parsed[0]:
            raise Unsupported('parsing')
        return self.parsed[1]

    def tree(self, ex, v, name):
        if name != 'getroot':
            raise Unsupported('%s of a tree' % name)
        return Builtin('getroot', lambda ex, a, k: v.data)

    def items(self, ex, v):
        return ('seq', Seq(self.kids(v.t), E))

    def attr(self, ex, v, name):
        if name == 'tag':
            return T('str', self.tag(v.t))
        if name == 'text':
            return U([(self.notext(v.t), None), (z3.Not(self.notext(v.t)), T('str', self.text(v.t)))])
        if name == 'attrib':
            return Opaque('attrib', v)
        if name == 'get':
            return self.attrib(ex, Opaque('attrib', v), 'get')
        if name in ('findall', 'find', 'findtext', 'iterfind'):
            def find(ex, a, k):
                if len(a) != 1 or k:
                    raise Unsupported('options of %s' % name)
                t = self.found(v.t, ex.term(a[0], 'str'))
                if name == 'find':
                    some = z3.Length(t) > 0
                    return U([(some, Ref(t[0], 'Element')), (z3.Not(some), None)])
                if name == 'findtext':
                    raise Unsupported('findtext')
                return ex.alloc(ListCell(None, Seq(t, E)))
            return Builtin(name, find)
        if name in ('iter', 'getchildren', 'append', 'tail'):
            raise Unsupported('%s of an element' % name)
        ex.raise_(AttributeError)

    def attrib(self, ex, v, name):
        e = v.data.t

        def get(ex, a, k):
            n = ex.term(a[0], 'str')
            d = a[1] if len(a) > 1 else k.get('default')
            h = self.has(e, n)
            return U([(h, T('str', self.att(e, n)))] + [(simp_and(z3.Not(h), g), w) for g, w in alts(d)])
        if name == 'get':
            return Builtin('attrib.get', get)
        raise Unsupported('attrib.%s' % name)

    def getitem(self, ex, v, k):
        n = ex.term(k, 'str')
        if not ex.branch(self.has(v.data.t, n)):
            ex.raise_(KeyError)
        return T('str', self.att(v.data.t, n))


def whole(ex, t):
    """(is a whole number, its value) of a text, as int() reads it."""
    return ex.bi.uf('str_is_int', [T('str', t)], 'bool').t, ex.bi.uf('str_to_int', [T('str', t)], 'int').t
