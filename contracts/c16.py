"""C16: digests of whole files, and hash strings."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

P = 'hashes.Hashes.'
PROP = 'resource.Resource.hash'
TYPES = (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256'))
BYTES = z3.SeqSort(z3.IntSort())
DIGEST = z3.Function('hexdigest', z3.IntSort(), BYTES, z3.RealSort())


def tv(ex, v):
    w = val(v)
    return w if is_z3(w) else ex.term(w, 'str')


class File:
    """Trusted contracts of open/read on a regular file and of hashlib: ghost content, position, and what was hashed."""

    def __init__(self, u, path):
        ex = u.ex
        self.u, self.path = u, path
        self.parts = {}
        self.content = z3.Const('content', BYTES)
        ex.ext.update({'open': self.open, 'attr:file': self.attr, 'attr:hasher': self.hattr, 'hashlib.new': self.new,
                       'iter:file': self.iter})
        for n, (t, alg) in enumerate(TYPES):
            ex.st.ghost['fed:%d' % n] = Seq(z3.Empty(BYTES), 'int')
            ex.st.ghost['made:%d' % n] = T('int', z3.IntVal(0))
            ex.ext['hashlib.' + alg] = (lambda n: lambda ex, a, k: self.hasher(ex, n, a))(n)

    def open(self, ex, a, k):
        mode = ex.split(a[1] if len(a) > 1 else k.get('mode', 'r'))
        self.u.prove('the file itself is read, as bytes', z3.And(ex.eq(a[0], self.path), z3.BoolVal(mode in ('rb', 'br'))))
        n = ex.fresh_name('file')
        ex.st.ghost['pos:' + n] = T('int', z3.IntVal(0))
        return Opaque('file', n)

    def iter(self, ex, v):
        raise Unsupported('lines of a binary file')

    def attr(self, ex, v, name):
        if name in ('close', 'fileno'):
            return Builtin(name, lambda ex, a, k: None)
        if name != 'read':
            raise Unsupported('file.%s' % name)

        def read(ex, a, k):
            g = 'pos:' + v.data
            p = ex.term(ex.st.ghost[g], 'int')
            rest = z3.Length(self.content) - p
            size = ex.split(a[0]) if a else None
            m = rest
            if size is not None:
                # some of what is left, up to all of it: nothing only if nothing is left or asked for
                s = ex.term(size, 'int')
                m = z3.Int(ex.fresh_name('got'))
                ex.assume(z3.And(0 <= m, m <= rest, z3.Implies(s < 0, m == rest), z3.Implies(z3.And(s > 0, rest > 0), m > 0)))
            ex.st.ghost[g] = T('int', p + m)
            data = Seq(z3.Const(ex.fresh_name('data'), BYTES), 'int')
            self.parts[data.t.get_id()] = data.t
            ex.assume(z3.And(data.t == z3.Extract(self.content, p, m), z3.Length(data.t) == m))
            # the part read so far, extended by this part
            ex.assume(z3.Concat(z3.Extract(self.content, z3.IntVal(0), p), data.t) == z3.Extract(self.content, z3.IntVal(0), p + m))
            return data
        return Builtin('read', read)

    def hasher(self, ex, n, a):
        made = ex.st.ghost['made:%d' % n]
        if not ex.branch(ex.term(made, 'int') == 0):
            raise Unsupported('several hash objects of one type')
        ex.st.ghost['made:%d' % n] = T('int', z3.IntVal(1))
        ex.st.ghost['fed:%d' % n] = Seq(z3.Empty(BYTES), 'int')
        o = Opaque('hasher', (str(n), n))
        if a:
            self.update(ex, o, a)
        return o

    def new(self, ex, a, k):
        x = ex.split(a[0])
        names = [t for t, _ in TYPES]
        alt = [t for _, t in TYPES]
        if x not in names + alt:
            raise Unsupported('hashlib.new(%r)' % (x,))
        return self.hasher(ex, names.index(x) if x in names else alt.index(x), a[1:])

    def update(self, ex, v, a):
        d = ex.split(a[0])
        if not isinstance(d, Seq):
            raise Unsupported('update')
        g = 'fed:' + v.data[0]
        ex.st.ghost[g] = Seq(z3.Concat(ex.st.ghost[g].t, d.t), 'int')

    def hattr(self, ex, v, name):
        if name == 'update':
            return Builtin(name, lambda ex, a, k: self.update(ex, v, a))
        if name == 'hexdigest':
            return Builtin(name, lambda ex, a, k: T('str', DIGEST(z3.IntVal(v.data[1]), ex.st.ghost['fed:' + v.data[0]].t)))
        raise Unsupported('hash.%s' % name)

    def cands(self, ex, loop):
        out = []
        poss = [k for k in loop.mod if k[0] == 'ghost' and str(k[1]).startswith('pos:')]
        if len(poss) == 1:
            pos = lambda v: v.ex.term(v.loop.get(v.ex.st, poss[0]), 'int')
            out.append(('position in the file', lambda v: z3.And(pos(v) >= 0, pos(v) <= z3.Length(self.content))))
            ahead = []
            for k in loop.mod:
                v0 = loop.get(loop.entry_sym, k) if k[0] == 'local' and k not in loop.poison else None
                if isinstance(v0, Seq) and v0.ek == 'int' and v0.t.get_id() in self.parts:
                    ahead.append(k)
            # how much of what was read is not hashed yet: nothing, or a part read ahead
            part = None
            if len(ahead) == 1:
                part = lambda v: v.loop.get(v.ex.st, ahead[0]).t
                out.append(('%s is the part read last' % ahead[0][2], lambda v: z3.And(
                    z3.Length(part(v)) <= pos(v), part(v) == z3.Extract(self.content, pos(v) - z3.Length(part(v)), z3.Length(part(v))),
                    z3.Implies(z3.Length(part(v)) == 0, pos(v) == z3.Length(self.content)))))
            for k in loop.mod:
                if k[0] == 'ghost' and str(k[1]).startswith('fed:'):
                    out.append(('all %s is in %s' % ('read so far' if part is None else 'before ' + ahead[0][2], k[1]), lambda v, k=k: z3.Implies(
                        v.ex.term(v.ex.st.ghost['made:' + k[1][4:]], 'int') == 1,
                        v.loop.get(v.ex.st, k).t == z3.Extract(self.content, z3.IntVal(0),
                                                               pos(v) - (z3.Length(part(v)) if part else 0)))))
        return out


def of_file(u):
    """Hashes(types, file): for the types asked for, and no other, the digest of the whole content."""
    ex = u.ex
    asked = u.seq('str', 'types')
    n = z3.Length(asked.t)
    path = u.sym('str', 'path')
    f = File(u, path)
    known = lambda e: z3.Or(*[e == ex.lit(t) for t, _ in TYPES])
    ok = u.fold(Pred('is supported', asked, lambda ex, e, i: known(ex.term(e, 'str'))))
    got = u.fold(Fold('asked', asked, ('set', 'str'), z3.K(ex.SS, z3.BoolVal(False)),
                      lambda ex, a, e, i: z3.Store(a, ex.term(e, 'str'), z3.BoolVal(True))))
    u.fold(Extra(f.cands))
    k, h = u.attempt(lambda: u.new('hashes.Hashes', ex.alloc(ListCell(None, asked)), path))
    if k == 'raise':
        u.prove('refused only if a type is not supported (%s)' % h.name, z3.Not(ok.all_to(ex, n)))
        u.cover('refused')
        return
    u.prove('every type is supported', ok.all_to(ex, n))
    for m, (t, alg) in enumerate(TYPES):
        d = u.get(h, alg)
        want = got.at(ex, n)[ex.lit(t)]
        u.prove('the digest of type %s is there exactly if asked for' % t, z3.Not(absent(d)) == want)
        if any(w is not None for _, w in alts(d)):
            u.prove('it is that of the whole file (%s)' % t, z3.Implies(z3.Not(absent(d)),
                                                                       tv(ex, d) == DIGEST(z3.IntVal(m), f.content)))
    u.cover('of some types', n == 2)
    u.cover('a large file', z3.Length(f.content) > 100000)


def no_file(u):
    """Without a file there are no digests, and the types are checked all the same."""
    ex = u.ex
    asked = u.seq('str', 'types')
    n = z3.Length(asked.t)
    ok = u.fold(Pred('is supported', asked, lambda ex, e, i: z3.Or(*[ex.term(e, 'str') == ex.lit(t) for t, _ in TYPES])))
    k, h = u.attempt(lambda: u.new('hashes.Hashes', ex.alloc(ListCell(None, asked))))
    if k == 'raise':
        u.prove('refused only if a type is not supported (%s)' % h.name, z3.Not(ok.all_to(ex, n)))
        return
    u.prove('every type is supported', ok.all_to(ex, n))
    for t, alg in TYPES:
        u.prove('no digest of type %s' % t, absent(u.get(h, alg)))


def set_(u):
    """Hashes.set(resource): the digests calculated go to the resource, others are left."""
    ex = u.ex
    path = u.sym('str', 'path')
    f = File(u, path)
    u.fold(Extra(f.cands))
    fed = f.content
    asked = {t: u.sym('bool', 'asked ' + t).t for t, _ in TYPES}
    h = u.new('hashes.Hashes', ex.alloc(ListCell([(g, t) for t, g in asked.items()])), path)
    r = u.sym(R, 'resource')
    old = {alg: ex.ref_get(r, alg) for _, alg in TYPES}
    u.call(P + 'set', h, r)
    for n, (t, alg) in enumerate(TYPES):
        new = ex.ref_get(r, alg)
        u.prove('the digest asked for is set (%s)' % t, z3.Implies(asked[t], z3.And(
            z3.Not(absent(new)), val(new) == DIGEST(z3.IntVal(n), fed))))
        u.prove('one not asked for is left (%s)' % t, z3.Implies(z3.Not(asked[t]), B(ex.eq(new, old[alg]))))
    u.cover('two types', z3.And(asked['md5'], asked['sha-256'], z3.Not(asked['sha-1'])))


# ---- hash strings
def get_string(u):
    ex = u.ex
    r = u.sym(R, 'resource')
    v = {alg: ex.ref_get(r, alg) for _, alg in TYPES}
    h = u.get(r, 'hash')
    here = {alg: z3.Not(absent(v[alg])) for _, alg in TYPES}
    none = z3.Not(z3.Or(*here.values()))
    u.prove('there is none exactly if there are no digests', absent(h) == none)
    if all(w is None for _, w in alts(h)):
        u.cover('none')
        return
    text = z3.StringVal('')
    for t, alg in TYPES:
        part = z3.Concat(ex.lit(t + ':'), val(v[alg]))
        text = z3.If(here[alg], z3.If(text == '', part, z3.Concat(text, ex.lit(' '), part)), text)
    u.prove('exactly the digests there are, in order', z3.Implies(z3.Not(none), val(h) == text))
    u.cover('all', z3.And(*here.values()))
    u.cover('some', z3.And(here['md5'], z3.Not(here['sha1']), here['sha256']))


def set_string(u):
    ex = u.ex
    r = u.new('resource.Resource', uri='u')
    for _, alg in TYPES:
        ex.cell(r).attrs[alg] = u.opt('str', alg)
    text = u.sym('str', 'text')
    s = ex.bi.uf('str.split()', [text], ('seq', 'str'))
    n = z3.Length(s.t)
    has = lambda e: ex.bi.uf('has_colon', [T('str', e)], 'bool').t
    typ = lambda e: ex.bi.uf('before_colon', [T('str', e)], 'str').t
    value = lambda e: ex.bi.uf('after_colon', [T('str', e)], 'str').t

    def split(ex, x, a):
        if a == [':', 1]:
            e = ex.term(x, 'str')
            if ex.branch(has(e)):
                return ex.new_list([T('str', typ(e)), T('str', value(e))])
            return ex.new_list([x])
        if a == [] or a == [None]:
            return ex.alloc(ListCell(None, ex.bi.uf('str.split()', [x], ('seq', 'str'))))
        raise Unsupported('split%r' % (a,))
    ex.ext['str.split'] = split
    tm = lambda e: ex.term(e, 'str')
    form = u.fold(Pred('has a colon', s, lambda ex, e, i: has(tm(e))))
    seen = u.fold(Fold('seen', s, ('set', 'str'), z3.K(ex.SS, z3.BoolVal(False)),
                       lambda ex, a, e, i: z3.Store(a, typ(tm(e)), z3.BoolVal(True))))
    vals = {}
    for t, alg in TYPES:
        vals[alg] = u.fold(Fold('first_' + alg, s, 'str', ex.lit(''), lambda ex, a, e, i, t=t: z3.If(
            z3.And(typ(tm(e)) == ex.lit(t), z3.Not(seen.at(ex, i)[ex.lit(t)])), value(tm(e)), a)))
    sup = lambda e: z3.Or(*[typ(e) == ex.lit(t) for t, _ in TYPES])
    bad = u.fold(Fold('errors', s, 'int', z3.IntVal(0), lambda ex, a, e, i: z3.If(
        z3.Or(seen.at(ex, i)[typ(tm(e))], z3.Not(sup(tm(e)))), a + 1, a)))

    def cands(ex, loop):
        if seen.index(ex, loop) is None:
            return []
        out = []
        for k in loop.mod:
            if k[0] == 'attr' and k[2] in vals:
                t = [t for t, alg in TYPES if alg == k[2]][0]

                def c(v, k=k, t=t):
                    x = v.loop.get(v.ex.st, k)
                    g = [z3.Not(absent(x)) == seen.at(ex, v.i)[ex.lit(t)]]
                    if any(w is not None for _, w in alts(x)):
                        g.append(z3.Implies(z3.Not(absent(x)), tv(v.ex, x) == vals[k[2]].at(ex, v.i)))
                    return z3.And(*g)
                out.append(('%s is the first of its type' % k[2], c))
            c0 = loop.get(loop.entry_sym, k)
            if isinstance(c0, ListCell) and c0.seq is not None:
                out.append(('as many errors as bad entries', lambda v, k=k: z3.Length(v.loop.get(v.ex.st, k).seq.t) == bad.at(ex, v.i)))
        out.append(('number of errors', lambda v: bad.at(ex, v.i) >= 0))
        return out
    u.fold(Extra(cands))

    def setit():
        ex.setattr(r, 'hash', text)
    k, e = u.attempt(setit)
    if k == 'raise':
        u.prove('errors are value errors (%s)' % e.name, u.is_exc(e, 'ValueError'))
        u.prove('only for repeated, unsupported or malformed entries', z3.Or(bad.at(ex, n) > 0, z3.Not(form.all_to(ex, n))))
        u.cover('errors')
    else:
        u.prove('repeated and unsupported types are reported', bad.at(ex, n) == 0)
        u.cover('set', n == 2)
    good = form.all_to(ex, n)
    for t, alg in TYPES:
        v = u.get(r, alg)
        u.prove('the digest is set exactly if named (%s)' % t, z3.Implies(good, z3.Not(absent(v)) == seen.at(ex, n)[ex.lit(t)]))
        if any(w is not None for _, w in alts(v)):
            u.prove('to the value first given (%s)' % t, z3.Implies(z3.And(good, z3.Not(absent(v))),
                                                                   tv(ex, v) == vals[alg].at(ex, n)))


UNITS = [
    Unit('Hashes of a file', of_file, [P + '__init__', P + 'compute_for_file', P + 'initialize_hashes', P + 'md5', P + 'sha1',
                                       P + 'sha256'], covers=['refused', 'of some types', 'a large file']),
    Unit('Hashes without file', no_file, P + '__init__'),
    Unit('Hashes.set', set_, P + 'set', merge=True, reftypes={'Resource': RESOURCE}, covers=['two types']),
    Unit('hash string of a resource', get_string, PROP, opaque=False, reftypes={'Resource': RESOURCE}, merge=False,
         covers=['none', 'all', 'some']),
    Unit('setting the hash string', set_string, PROP, reftypes={'Resource': RESOURCE}, covers=['errors', 'set']),
]
CONF = dict(assumptions=['hexdigest is a function of the algorithm and all bytes given to update(), in order',
                         'a regular file is read from start to end as it is; str.split() gives the words of a text'])
