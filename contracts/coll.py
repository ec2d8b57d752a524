"""Symbolic URI-keyed collections of resources (ResourceListDict, ResourceSet, ...)."""
import z3
from pydv.values import *
from .lib import *


class Coll:
    """A collection object with unknown content: any dict from URI to the resource with that URI."""

    def __init__(self, u, cls, name='coll', ordered=False, obj=None):
        ex = u.ex
        self.u, self.ordered = u, ordered
        self.obj = obj if obj is not None else u.new(cls)
        self.dom = z3.Const(name + '_dom', z3.ArraySort(ex.SS, z3.BoolSort()))
        self.val = z3.Const(name + '_val', z3.ArraySort(ex.SS, ex.sort(R)))
        c = ex.cell(ex.cell(self.obj).base)
        c.entries, c.sym = None, (self.dom, self.val, 'str', R)
        k = z3.Const('k', ex.SS)
        self.inv0 = self.inv(self.dom, self.val)
        u.assume(self.inv0)
        u.assume(z3.ForAll([k], z3.Implies(z3.Select(self.dom, k), z3.And(
            z3.Select(self.val, k) >= 0, z3.Select(self.val, k) < ex.top0))))
        if ordered:
            s = ex.fresh_seq('str', name + '_order')
            ex.bi.assume_enum(s, self.dom, 'str')
            c.order = s
            self.order = s

    def inv(self, dom, val):
        """Every resource is stored under its own URI."""
        ex = self.u.ex
        k = z3.Const('k', ex.SS)
        return z3.ForAll([k], z3.Implies(z3.Select(dom, k), val_uri(ex, z3.Select(val, k)) == k))

    def now(self):
        ex = self.u.ex
        c = ex.cell(ex.cell(self.obj).base)
        return c.sym[0], c.sym[1], c.order

    def is_now(self):
        d, v, o = self.now()
        return d.eq(self.dom) and v.eq(self.val) and (not self.ordered or o is self.order)

    def unchanged(self):
        d, v, o = self.now()
        g = [d == self.dom, v == self.val]
        if self.ordered:
            g.append(o.t == self.order.t if o is not None else z3.BoolVal(False))
        return z3.And(*g)


def val_uri(ex, r):
    return val(fget(ex, 'uri', r))
