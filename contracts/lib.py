"""Symbolic inputs and specification helpers shared by the contracts."""
import z3
from pydv.values import *

RESOURCE = {'uri': 'str', 'timestamp': ('opt', 'real'), 'length': ('opt', 'int'), 'mime_type': ('opt', 'str'),
            'md5': ('opt', 'str'), 'sha1': ('opt', 'str'), 'sha256': ('opt', 'str'), 'change': ('opt', 'str'),
            'ts_datetime': ('opt', 'real'), 'path': ('opt', 'str')}
CHANGED = dict(RESOURCE, change='str')    # an entry of a change list: it has a change type
R = ('ref', 'Resource')


def alts(v):
    return v.alts if isinstance(v, U) else [(True, v)]


def absent(v):
    return B(simp_or(*[g for g, w in alts(v) if w is None]))


def val(v):
    """Term of an optional value (when present)."""
    ws = [w for _, w in alts(v) if w is not None]
    if len(ws) != 1:
        raise Unsupported('value %r' % (v,))
    w = ws[0]
    return w.t if isinstance(w, (T, Ref, Seq)) else w


def items_of_list(ex, v):
    """The Seq of a list value (concrete lists of one kind included)."""
    v = ex.split(v)
    return ex.cell(v)


def seq_term(ex, v, ek):
    """z3 term of the content of list value v."""
    v = ex.split(v)
    if isinstance(v, Seq):
        return v.t
    if isinstance(v, tuple):
        return ex.seq_of(ListCell([(True, x) for x in v]), ek).t
    c = ex.cell(v)
    if isinstance(c, ObjCell) and c.base is not None:
        c = ex.cell(c.base)
    if not isinstance(c, ListCell):
        raise Unsupported('list expected, not %r' % (c,))
    return ex.seq_of(c, ek).t


def empty(ex, ek):
    return z3.Empty(z3.SeqSort(ex.sort(ek)))


def fget(ex, attr, e, cls='Resource'):
    """Field of a symbolic object in the state the unit starts in."""
    return ex.ref_get(Ref(e, cls), attr)


def nth(seq, i):
    """Element i of a sequence, taking a concatenation with single elements apart."""
    if z3.is_app(seq) and seq.decl().name() == 'seq.++':
        args = list(seq.children())
        last = args[-1]
        if z3.is_app(last) and last.decl().name() == 'seq.unit' and len(args) > 1:
            head = args[0] if len(args) == 2 else z3.Concat(*args[:-1])
            return z3.If(i < z3.Length(head), nth(head, i), last.arg(0))
    if z3.is_app(seq) and seq.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(seq.arg(0), nth(seq.arg(1), i), nth(seq.arg(2), i))
    return seq[i]


def is_opt(ex, v, there, t, kind):
    """The optional value v is t if there, else None."""
    return z3.If(there, B(simp_or(*[simp_and(g, ex.eq(w, T(kind, t))) for g, w in alts(v) if w is not None])), absent(v))
