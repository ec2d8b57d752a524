"""C23: command line link and capability options (str.split trusted)."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

M = 'client_utils.'


def split(ex, t, sep):
    return ex.bi.uf("str.split(%r)" % sep, [T('str', t)], ('seq', 'str')).t


def maps(ex):
    SS = ex.SS
    return z3.ArraySort(SS, z3.BoolSort()), z3.ArraySort(SS, SS)


def dict_state(ex, d):
    """(dom, val) of a dict value."""
    c = ex.cell(ex.split(d)).copy()
    if c.sym is None:
        ex.bi.to_sym_dict(c, 'str', 'str')
    return c.sym[0], c.sym[1]


def terms(u, s, d0, v0, ok):
    """Names and values stated by the terms of a sequence, the last of repeated ones counting."""
    ex = u.ex
    D, V = maps(ex)
    name = lambda e: split(ex, e, '=')[0]
    value = lambda e: split(ex, e, '=')[1]
    dom = u.fold(Fold('names', s, None, d0, lambda ex, a, e, i: z3.Store(a, name(e.t), z3.BoolVal(True)), sort=D, accum=False))
    vals = u.fold(Fold('values', s, None, v0, lambda ex, a, e, i: z3.Store(a, name(e.t), value(e.t)), sort=V, accum=False))
    good = u.fold(Pred('a term is right', s, lambda ex, e, i: ok(ex, e.t)))
    # order of the names: anything

    def cands(ex, loop):
        if dom.index(ex, loop) is None:
            return []
        out = []
        for k in loop.mod:
            c = loop.get(loop.entry_sym, k)
            if isinstance(c, DictCell) and c.sym is not None:
                out.append(('names of %s' % (k,), lambda v, k=k: v.loop.get(v.ex.st, k).sym[0] == dom.at(ex, v.i)))

                def agree(v, k=k):
                    x = z3.Const('x', ex.SS)
                    return z3.ForAll([x], z3.Implies(z3.Select(dom.at(ex, v.i), x), z3.Select(
                        v.loop.get(v.ex.st, k).sym[1], x) == z3.Select(vals.at(ex, v.i), x)))
                out.append(('values of %s' % (k,), agree))
        return out
    u.fold(Extra(cands))
    return dom, vals, good


def pair(ex, t):
    return z3.Length(split(ex, t, '=')) == 2


def pair_full(ex, t):
    p = split(ex, t, '=')
    e = ex.lit('')
    return z3.And(z3.Length(p) == 2, p[0] != e, p[1] != e)


def link(u):
    ex = u.ex
    opt = u.sym('str', 'option')
    segs = split(ex, opt.t, ',')
    n = z3.Length(segs)
    rest = Seq(z3.Extract(segs, z3.IntVal(2), n - 2), 'str')
    D, V = maps(ex)
    z = z3.K(ex.SS, z3.BoolVal(False))
    d0 = z3.Store(z3.Store(z, ex.lit('rel'), z3.BoolVal(True)), ex.lit('href'), z3.BoolVal(True))
    w0 = z3.Const('any_val', V)
    v0 = z3.Store(z3.Store(w0, ex.lit('rel'), segs[0]), ex.lit('href'), segs[1])
    dom, vals, good = terms(u, rest, d0, v0, pair_full)
    m = z3.Length(rest.t)
    # values of names that are not there do not count

    accepted = z3.And(n >= 2, segs[1] != ex.lit(''), good.all_to(ex, m))
    k, v = u.attempt(lambda: u.call(M + 'parse_link', opt))
    if k == 'raise':
        u.prove('every error is a fatal client error', u.is_exc(v, 'ClientFatalError'))
        u.prove('refused only if an option is not right', z3.Not(accepted))
        u.cover('refused')
    else:
        u.prove('accepted only with relation, target and right terms', accepted)
        d1, v1 = dict_state(ex, v)
        x = z3.Const('x', ex.SS)
        dn, vn = dom.at(ex, m), vals.at(ex, m)
        u.prove('exactly the attributes stated', z3.ForAll([x], z3.Select(d1, x) == z3.Select(dn, x)))
        u.prove('with the last value stated', z3.ForAll([x], z3.Implies(z3.Select(dn, x), z3.Select(v1, x) == z3.Select(vn, x))))
        u.cover('accepted', m > 1)


def capabilities(u):
    ex = u.ex
    opt = u.sym('str', 'option')
    s = Seq(split(ex, opt.t, ','), 'str')
    n = z3.Length(s.t)
    D, V = maps(ex)
    dom, vals, good = terms(u, s, z3.K(ex.SS, z3.BoolVal(False)), z3.Const('any_val', V), pair)
    k, v = u.attempt(lambda: u.call(M + 'parse_capabilities', opt))
    if k == 'raise':
        u.prove('every error is a fatal client error', u.is_exc(v, 'ClientFatalError'))
        u.prove('refused only if a term is not name=uri', z3.Not(good.all_to(ex, n)))
        u.cover('refused')
    else:
        u.prove('accepted only with terms name=uri', good.all_to(ex, n))
        d1, v1 = dict_state(ex, v)
        x = z3.Const('x', ex.SS)
        dn, vn = dom.at(ex, n), vals.at(ex, n)
        u.prove('exactly the names stated', z3.ForAll([x], z3.Select(d1, x) == z3.Select(dn, x)))
        u.prove('with the URIs stated', z3.ForAll([x], z3.Implies(z3.Select(dn, x), z3.Select(v1, x) == z3.Select(vn, x))))
        u.cover('accepted', n > 1)


# ---- several options
def parsed(ex, a):
    s = a['link_str']
    bad = ex.bi.uf('bad_link', [s], 'bool').t
    if ex.branch(bad):
        raise PyRaise(Exc(ex.project.cls('client_utils.ClientFatalError'), ('bad',)))
    return Ref(ex.bi.uf('link_of', [s], 'int').t, 'dict')


def links(u):
    ex = u.ex
    opts = u.seq('str', 'options')
    n = z3.Length(opts.t)
    good = u.fold(Pred('is right', opts, lambda ex, e, i: z3.Not(ex.bi.uf('bad_link', [e], 'bool').t)))
    lst = u.fold(Fold('links', opts, ('seq', ('ref', 'dict')), empty(ex, ('ref', 'dict')),
                      lambda ex, a, e, i: z3.Concat(a, z3.Unit(ex.bi.uf('link_of', [e], 'int').t))))
    k, v = u.attempt(lambda: u.call(M + 'parse_links', ex.alloc(ListCell(None, opts))))
    if k == 'raise':
        u.prove('every error is a fatal client error', u.is_exc(v, 'ClientFatalError'))
        u.prove('refused only if an option is refused', z3.Not(good.all_to(ex, n)))
        u.cover('refused')
    else:
        u.prove('every option is accepted', good.all_to(ex, n))
        u.prove('one link for each option, in order', seq_term(ex, v, ('ref', 'dict')) == lst.total(ex))
        u.cover('accepted', n > 1)


def no_links(u):
    v = u.call(M + 'parse_links', None)
    c = u.ex.cell(u.ex.split(v))
    u.prove('no links without options', c.items == [])


def uris(u):
    ex = u.ex
    opt = u.sym('str', 'option')
    v = u.call(M + 'parse_capability_lists', opt)
    u.prove('the URIs separated by commas', seq_term(ex, v, 'str') == split(ex, opt.t, ','))


UNITS = [
    Unit('parse_link', link, M + 'parse_link', merge=False, covers=['accepted', 'refused']),
    Unit('parse_links', links, M + 'parse_links', reftypes={'dict': {}}, models={M + 'parse_link': parsed}, merge=False,
         covers=['accepted', 'refused']),
    Unit('parse_links without options', no_links, M + 'parse_links'),
    Unit('parse_capabilities', capabilities, M + 'parse_capabilities', merge=False, covers=['accepted', 'refused']),
    Unit('parse_capability_lists', uris, M + 'parse_capability_lists'),
]
CONF = dict(assumptions=['str.split gives the pieces between separators'])
