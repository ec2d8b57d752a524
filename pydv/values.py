"""Values of the symbolic Python interpreter.

Concrete Python values (None, bool, int, float, str, bytes, tuple) stand for
themselves; everything else is one of the classes here.  All of them are
immutable: mutable objects are an Oid that names a cell of the heap.
"""
import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's subset (never a verdict)."""


class PyRaise(Exception):
    """A Python exception raised by the code being interpreted."""

    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    """The current path is dead."""


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class T:
    """Scalar symbolic value. kind: bool, int, real, str."""
    __slots__ = ('kind', 't', 'meta')

    def __init__(self, kind, t, meta=None):
        self.kind, self.t, self.meta = kind, t, meta

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.t)


class U:
    """One of several values; guards are exclusive and exhaustive on the path."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'U(%s)' % (self.alts,)


class Oid:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return '#%d' % self.id

    def __eq__(self, o):
        return isinstance(o, Oid) and o.id == self.id

    def __hash__(self):
        return hash(('oid', self.id))


class Ref:
    """Symbolic object: an element of a symbolic collection."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return '<ref %s %s>' % (self.cls, self.t)


class RefDict:
    """Dict with literal keys stored as fields of a Ref (for Resource._extra)."""
    __slots__ = ('ref', 'prefix')

    def __init__(self, ref, prefix):
        self.ref, self.prefix = ref, prefix


class Seq:
    """Immutable symbolic sequence. t: z3 Seq term; ek: element kind."""
    __slots__ = ('t', 'ek')

    def __init__(self, t, ek):
        self.t, self.ek = t, ek

    def __repr__(self):
        return '<seq %s>' % (self.t,)


class Func:
    __slots__ = ('fi', 'closure', 'cls')

    def __init__(self, fi, closure=None, cls=None):
        self.fi, self.closure, self.cls = fi, closure, cls


class Bound:
    __slots__ = ('self', 'func')

    def __init__(self, self_, func):
        self.self, self.func = self_, func


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ClassV:
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.ci is self.ci

    def __hash__(self):
        return id(self.ci)


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext:
    """Something of an external module, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class Opaque:
    """A value nothing is known about except its identity tag (e.g. a logger)."""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return '<opaque %s>' % self.tag


class Super:
    __slots__ = ('self', 'cls')

    def __init__(self, self_, cls):
        self.self, self.cls = self_, cls


class Exc:
    """Exception instance. cls: a Python exception class or a ClassInfo."""
    __slots__ = ('cls', 'args', 'oid')

    def __init__(self, cls, args=(), oid=None):
        self.cls, self.args, self.oid = cls, args, oid

    @property
    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name

    def __repr__(self):
        return 'Exc(%s)' % self.name


# ---- heap cells (mutable; copied on snapshot) ----

class Cell:
    pass


class ObjCell(Cell):
    def __init__(self, cls, attrs=None, base=None):
        self.cls, self.attrs, self.base = cls, attrs if attrs is not None else {}, base

    def copy(self):
        return ObjCell(self.cls, dict(self.attrs), self.base)


class ListCell(Cell):
    """items: list of (guard, value), guard True when certainly there; or seq."""

    def __init__(self, items=None, seq=None, frozen=None):
        self.items = items if items is not None or seq is not None else []
        self.seq = seq

    def copy(self):
        return ListCell(list(self.items) if self.items is not None else None, self.seq)


class DictCell(Cell):
    """entries: concrete key -> (guard, value); or symbolic map (dom, val, kk, vk).

    For a symbolic map vals is a tuple of arrays (an encoding of the value kind).
    order is None (unknown) or a Seq of the keys in insertion order.
    """

    def __init__(self, entries=None, sym=None, order=None):
        self.entries = entries if entries is not None or sym is not None else {}
        self.sym = sym
        self.order = order

    def copy(self):
        return DictCell(dict(self.entries) if self.entries is not None else None, self.sym, self.order)


class SetCell(Cell):
    """entries: concrete key -> guard; or symbolic (array, kk)."""

    def __init__(self, entries=None, sym=None):
        self.entries = entries if entries is not None or sym is not None else {}
        self.sym = sym

    def copy(self):
        return SetCell(dict(self.entries) if self.entries is not None else None, self.sym)


class IterCell(Cell):
    """src: ('list', [(guard,val)...]) or ('seq', Seq); pos int or z3 Int."""

    def __init__(self, src, pos=0):
        self.src, self.pos = src, pos

    def copy(self):
        return IterCell(self.src, self.pos)


class Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = Missing()


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def simp_and(*gs):
    out = []
    for g in gs:
        if g is True or (is_z3(g) and z3.is_true(g)):
            continue
        if g is False or (is_z3(g) and z3.is_false(g)):
            return False
        out.append(g)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def simp_or(*gs):
    out = []
    for g in gs:
        if g is False or (is_z3(g) and z3.is_false(g)):
            continue
        if g is True or (is_z3(g) and z3.is_true(g)):
            return True
        out.append(g)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def simp_not(g):
    if g is True or g is False:
        return not g
    if z3.is_true(g):
        return False
    if z3.is_false(g):
        return True
    if z3.is_not(g):
        return g.arg(0)
    return z3.Not(g)


def simp_imp(a, b):
    return simp_or(simp_not(a), b)


def B(g):
    """As a z3 Bool."""
    if g is True or g is False:
        return z3.BoolVal(g)
    return g
