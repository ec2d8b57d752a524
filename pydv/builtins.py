"""Semantics of the Python built-ins the verified code uses.

What is stated here is the meaning of the language and of its built-in types
(trusted, like the rest of the interpreter); models of library modules are in
externals.py and listed there as assumptions.
"""
import re
import ast
import builtins as pybuiltins
from argparse import ArgumentTypeError
import z3

from .values import *
from .project import ClassInfo

SCALAR = (bool, int, float, str, bytes, type(None))

# result kinds of string methods that are left uninterpreted in opaque mode
STR_UF = {'startswith': 'bool', 'endswith': 'bool', 'strip': 'str', 'rstrip': 'str', 'lstrip': 'str',
          'lower': 'str', 'upper': 'str', 'replace': 'str', 'isoformat': 'str', 'find': 'int',
          'rfind': 'int', 'count': 'int', 'isdigit': 'bool', 'title': 'str', 'capitalize': 'str'}


class Builtins:
    def __init__(self, ex):
        self.lens = {}      # sequences whose length was asked for, by term
        self.ex = ex
        self.ufs = {}

    def unsup(self, msg):
        raise Unsupported(msg)

    # ------------------------------------------------------------ uninterpreted functions
    def sort_of(self, kind):
        if isinstance(kind, tuple) and kind[0] == 'seq':
            return z3.SeqSort(self.ex.sort(kind[1]))
        return self.ex.sort(kind)

    def uf(self, name, args, kind):
        """Value of an uninterpreted function of scalar arguments."""
        ts = []
        sig = []
        for a in args:
            if isinstance(a, Seq):
                ts.append(a.t)
            else:
                ts.append(self.ex.term(a))
            sig.append(ts[-1].sort())
        rs = self.sort_of(kind)
        key = name + ':' + ','.join(str(s) for s in sig)
        f = self.ufs.get((key, str(rs)))
        if f is None:
            f = z3.Function(key, *(sig + [rs])) if sig else None
            self.ufs[(key, str(rs))] = f
        t = f(*ts) if sig else z3.Const(key, rs)
        if isinstance(kind, tuple) and kind[0] == 'seq':
            return Seq(t, kind[1])
        return self.ex.wrap(kind, t)

    # ------------------------------------------------------------ names
    def builtin(self, name):
        v = getattr(pybuiltins, name, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        m = getattr(self, 'f_' + name, None)
        if m is not None:
            return Builtin(name, m)
        if name == '__name__':
            return self.ex.frame.module.name
        if name == 'object':
            return Builtin('object', None)
        if v is None:
            self.ex.raise_(NameError)
        raise Unsupported('built-in %s' % name)

    def ext_exception(self, name):
        table = {'argparse.ArgumentTypeError': ArgumentTypeError, 'socket.timeout': TimeoutError, 'socket.error': OSError, 're.error': re.error,
                 'OSError': OSError, 'IOError': OSError,
                 'http.client.HTTPException': HTTPException, 'http.client.InvalidURL': HTTPException,
                 'http.client.IncompleteRead': HTTPException, 'distutils.errors.DistutilsFileError': DistutilsFileError,
                 'distutils.errors.DistutilsError': DistutilsError,
                 'urllib.error.URLError': OSError, 'urllib.error.HTTPError': OSError,
                 'configparser.NoSectionError': NoSectionError, 'configparser.NoOptionError': NoOptionError}
        return table.get(name)

    def ext_attr(self, name):
        from . import externals
        v = externals.CONSTANTS.get(name, MISSING)
        if v is not MISSING:
            return v
        return Ext(name)

    def call_ext(self, name, args, kwargs):
        from . import externals
        ex = self.ex
        m = ex.ext.get(name) or externals.MODELS.get(name)
        if m is None:
            e = self.ext_exception(name)
            if e is not None:
                return Exc(e, tuple(args))
            raise Unsupported('call of external %s' % name)
        ex.used_ext.add(name)
        return m(ex, args, kwargs)

    def call_obj(self, f, args, kwargs):
        ex = self.ex
        if isinstance(f, Oid):
            ci = ex.class_of(f)
            if isinstance(ci, ClassInfo):
                m = ci.find('__call__')
                if m and m[0] == 'method':
                    return ex.call_func(Func(m[1], cls=m[2]), [f] + args, kwargs)
        if isinstance(f, Opaque) and callable(f.data):
            return f.data(ex, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    # ------------------------------------------------------------ containers: views
    def base(self, v):
        """The cell behind a value: user subclass of dict -> its dict."""
        c = self.ex.cell(v)
        if isinstance(c, ObjCell) and c.base is not None:
            return c.base, self.ex.cell(c.base)
        return v, c

    def nonempty(self, c):
        ex = self.ex
        if isinstance(c, ListCell):
            if c.seq is not None:
                return z3.Length(c.seq.t) > 0
            return simp_or(*[g for g, _ in c.items])
        if isinstance(c, DictCell):
            if c.entries is not None:
                return simp_or(*[g for g, _ in c.entries.values()])
            return self.dict_len(c) > 0
        if isinstance(c, SetCell):
            if c.entries is not None:
                return simp_or(*c.entries.values())
            return self.set_len(c) > 0
        raise Unsupported('emptiness')

    def count_guards(self, gs):
        n = sum(1 for g in gs if g is True)
        ts = [z3.If(g, z3.IntVal(1), z3.IntVal(0)) for g in gs if g is not True and g is not False]
        if not ts:
            return n
        return T('int', z3.Sum(*([z3.IntVal(n)] + ts)))

    def card(self, arr, kk, what):
        """Cardinality of a symbolic finite set: uninterpreted, >= 0, and 0 only for the empty set."""
        ex = self.ex
        f = z3.Function('card_%s' % arr.sort(), arr.sort(), z3.IntSort())
        n = f(arr)
        ex.assume(n >= 0)
        w = z3.Const(ex.fresh_name('w'), ex.sort(kk))
        ex.assume(z3.Implies(n > 0, z3.Select(arr, w)))
        k = z3.Const(ex.fresh_name('k'), ex.sort(kk))
        ex.assume(z3.Implies(n == 0, z3.ForAll([k], z3.Not(z3.Select(arr, k)))))
        return n

    def dict_len(self, c):
        if c.order is not None:
            return z3.Length(c.order.t)
        return self.card(c.sym[0], c.sym[2], 'dict')

    def set_len(self, c):
        return self.card(c.sym[0], c.sym[1], 'set')

    def length(self, v):
        ex = self.ex
        v = ex.split(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, Seq):
            self.lens[v.t.get_id()] = v
            return T('int', z3.Length(v.t))
        if isinstance(v, T) and v.kind == 'str':
            if not ex.opaque:
                return T('int', z3.Length(v.t))
            n = self.uf('len', [v], 'int')
            ex.assume(n.t >= 0)
            ex.assume((n.t == 0) == (v.t == ex.lit('')))
            return n
        if isinstance(v, Opaque) and v.tag == 'bytes':
            return T('int', z3.Length(v.data.t))
        if isinstance(v, Oid):
            c = ex.cell(v)
            if isinstance(c, ObjCell):
                m = c.cls.find('__len__') if isinstance(c.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return ex.call_func(Func(m[1], cls=m[2]), [v], {})
                if c.base is None:
                    ex.raise_(TypeError)
                c = ex.cell(c.base)
            if isinstance(c, ListCell):
                if c.seq is not None:
                    self.lens[c.seq.t.get_id()] = c.seq
                    return T('int', z3.Length(c.seq.t))
                return self.count_guards([g for g, _ in c.items])
            if isinstance(c, DictCell):
                if c.entries is not None:
                    return self.count_guards([g for g, _ in c.entries.values()])
                return T('int', self.dict_len(c))
            if isinstance(c, SetCell):
                if c.entries is not None:
                    return self.count_guards(list(c.entries.values()))
                return T('int', self.set_len(c))
            if isinstance(c, IterCell):
                ex.raise_(TypeError)
        if isinstance(v, Ref):
            ci = ex.class_of(v)
            if ci is not None:
                m = ci.find('__len__')
                if m and m[0] == 'method':
                    return ex.call_func(Func(m[1], cls=m[2]), [v], {})
            ex.raise_(TypeError)
        if v is None or isinstance(v, (bool, int, float, T)):
            ex.raise_(TypeError)
        if isinstance(v, Opaque) and 'len:' + v.tag in ex.ext:
            return ex.ext['len:' + v.tag](ex, v)
        raise Unsupported('len of %r' % (v,))

    def ref_list(self, ref):
        return self.ex.ref_get(ref, '$items')

    def concrete_items(self, v):
        """Items of a value that is to be enumerated one by one."""
        r = self.items_of(v)
        if r[0] != 'list':
            raise Unsupported('enumeration of a symbolic collection')
        out = []
        for g, w in r[1]:
            if g is True or self.ex.branch(g):
                out.append(w)
        return out

    def items_of(self, v):
        """('list', [(guard, value)]) or ('seq', Seq): what iteration over v gives."""
        ex = self.ex
        v = ex.split(v)
        if isinstance(v, tuple):
            return ('list', [(True, x) for x in v])
        if isinstance(v, Opaque) and v.tag == 'urlparsed':
            return ('list', [(True, x) for x in v.data])
        if isinstance(v, (str, bytes)):
            return ('list', [(True, x) for x in v])
        if isinstance(v, Seq):
            return ('seq', v)
        if isinstance(v, Oid):
            c = ex.cell(v)
            if isinstance(c, ObjCell):
                m = c.cls.find('__iter__') if isinstance(c.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return self.items_of(ex.call_func(Func(m[1], cls=m[2]), [v], {}))
                m = c.cls.find('__getitem__') if isinstance(c.cls, ClassInfo) else None
                if c.base is not None:
                    return self.items_of(c.base)
                if m:
                    raise Unsupported('iteration by __getitem__')
                ex.raise_(TypeError)
            if isinstance(c, ListCell):
                return ('seq', c.seq) if c.seq is not None else ('list', list(c.items))
            if isinstance(c, DictCell):
                return self.keys_items(c)
            if isinstance(c, SetCell):
                if c.entries is not None:
                    return ('list', [(g, k) for k, g in c.entries.items()])
                return ('seq', self.enum_set(c.sym[0], c.sym[1]))
            if isinstance(c, IterCell):
                if c.src[0] == 'list':
                    pos = c.pos
                    c.pos = len(c.src[1])
                    return ('list', list(c.src[1][pos:]))
                s = c.src[1]
                pos = c.pos
                c.pos = z3.Length(s.t)
                if not is_z3(pos) and pos == 0:
                    return ('seq', s)
                p = pos if is_z3(pos) else z3.IntVal(pos)
                return ('seq', Seq(z3.Extract(s.t, p, z3.Length(s.t) - p), s.ek))
        if isinstance(v, Ref):
            if 'iter:ref:' + v.cls in ex.ext:
                return ex.ext['iter:ref:' + v.cls](ex, v)
            ci = ex.class_of(v)
            if ci is not None and ci.find('__iter__') is None:
                ex.raise_(TypeError)
        if v is None or isinstance(v, (bool, int, float)) or (isinstance(v, T) and v.kind != 'str'):
            ex.raise_(TypeError)
        if isinstance(v, Opaque):
            if v.tag == '$range':
                return self.range_items(v)
            if v.tag == '$items':
                raise Unsupported('items of a symbolic dict')
            if v.tag == '$gen':
                return self.items_of(ex.gen_list(v))
            h = ex.ext.get('iter:' + v.tag)
            if h:
                return h(ex, v)
        raise Unsupported('iteration over %r' % (v,))

    def keys_items(self, c):
        if c.entries is not None:
            return ('list', [(g, k) for k, (g, _) in c.entries.items()])
        if c.order is not None:
            return ('seq', c.order)
        return ('seq', self.enum_set(c.sym[0], c.sym[2]))

    def enum_set(self, dom, kk):
        """The elements of a symbolic finite set in some (unknown) order."""
        ex = self.ex
        s = ex.fresh_seq(kk, 'enum')
        self.assume_enum(s, dom, kk)
        return s

    def assume_enum(self, s, dom, kk):
        ex = self.ex
        i = z3.Int(ex.fresh_name('i'))
        j = z3.Int(ex.fresh_name('j'))
        k = z3.Const(ex.fresh_name('k'), ex.sort(kk))
        pos = z3.Function(ex.fresh_name('pos'), ex.sort(kk), z3.IntSort())
        n = z3.Length(s.t)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, s.t[i]), pos(s.t[i]) == i))))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(
            0 <= pos(k), pos(k) < n, s.t[pos(k)] == k)), patterns=[z3.Select(dom, k)] if dom.num_args() == 0 else []))
        ex.st.ghost.setdefault('_pos', ())
        s_pos = ex.st.ghost['_pos']
        ex.st.ghost['_pos'] = s_pos + ((s, pos),)

    def sorted_(self, src, key=None, reverse=False):
        ex = self.ex
        kind, data = src
        if reverse not in (False, None):
            raise Unsupported('sorted(reverse=...)')
        if kind == 'list':
            if key is None and data and all(isinstance(w, tuple) and w and isinstance(w[0], str) and not isinstance(w[0], T)
                                            for g, w in data) and len({w[0] for g, w in data}) == len(data):
                # the order does not depend on which of them are there
                return ex.alloc(ListCell(sorted(data, key=lambda x: x[1][0])))
            items = [w for g, w in data if g is True or ex.branch(g)]
            if key is not None:
                keys = [ex.split(ex.call(key, [x], {})) for x in items]
            else:
                keys = [ex.split(x) for x in items]
            if all(isinstance(k, (str, int, float, tuple)) and not isinstance(k, T) for k in keys):
                try:
                    order = sorted(range(len(items)), key=lambda i: keys[i])
                except TypeError:
                    if any(not isinstance(x, SCALAR) for k in keys if isinstance(k, tuple) for x in k):
                        raise Unsupported('sorted symbolic tuples')
                    ex.raise_(TypeError)
                return ex.new_list([items[i] for i in order])
            if len(items) < 2:
                return ex.new_list(items)
            if all(isinstance(k, tuple) and k and isinstance(k[0], str) for k in keys) and \
                    len({k[0] for k in keys}) == len(keys):
                order = sorted(range(len(items)), key=lambda i: keys[i][0])
                return ex.new_list([items[i] for i in order])
            if key is None and all(ex.kind(x) == ex.kind(items[0]) in ('str', 'int', 'real') for x in items):
                src = ('seq', ex.seq_of(ListCell([(True, x) for x in items])))
                kind, data = src
            else:
                raise Unsupported('sorted of symbolic items')
        if key is not None:
            raise Unsupported('sorted(key=...) of a symbolic sequence')
        s = data
        r = ex.fresh_seq(s.ek, 'sorted')
        self.assume_sorted_perm(r, s)
        return ex.alloc(ListCell(None, r))

    def assume_sorted_perm(self, r, s):
        """r is a sorted permutation of s."""
        ex = self.ex
        i, j = z3.Ints('%s %s' % (ex.fresh_name('i'), ex.fresh_name('j')))
        n = z3.Length(s.t)
        p = z3.Function(ex.fresh_name('perm'), z3.IntSort(), z3.IntSort())
        q = z3.Function(ex.fresh_name('mrep'), z3.IntSort(), z3.IntSort())
        ex.assume(z3.Length(r.t) == n)
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), r.t[i] <= r.t[j])))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= p(i), p(i) < n, q(p(i)) == i, r.t[i] == s.t[p(i)]))))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= q(i), q(i) < n, p(q(i)) == i, s.t[i] == r.t[q(i)]))))

    def make_iter(self, v):
        ex = self.ex
        if isinstance(v, Oid) and isinstance(ex.cell(v), IterCell):
            return v
        src = self.items_of(v)
        return ex.alloc(IterCell(src, 0))

    def concrete_dict(self, v):
        c = self.base(v)[1]
        if not isinstance(c, DictCell) or c.entries is None:
            raise Unsupported('** of a symbolic dict')
        out = []
        for k, (g, w) in c.entries.items():
            if g is True or self.ex.branch(g):
                out.append((k, w))
        return out

    # ------------------------------------------------------------ dicts and sets
    def hashable(self, k):
        if isinstance(k, (str, int, float, bytes, type(None), tuple)) and not isinstance(k, T):
            if isinstance(k, tuple):
                return all(self.hashable(x) for x in k)
            return True
        return False

    def ckey(self, k):
        """Concrete key of a value or MISSING."""
        if self.hashable(k):
            return k
        if isinstance(k, (ClassV, Oid)):
            return k
        return MISSING

    def to_sym_dict(self, c, kk, vk):
        ex = self.ex
        if c.sym is not None:
            return
        dom = z3.K(ex.sort(kk), z3.BoolVal(False))
        val = z3.Const(ex.fresh_name('dv'), z3.ArraySort(ex.sort(kk), ex.sort(vk)))
        for k, (g, v) in c.entries.items():
            t = ex.term(k, kk)
            dom = z3.Store(dom, t, B(g)) if g is not True else z3.Store(dom, t, z3.BoolVal(True))
            if isinstance(v, U):
                v = ex.split(v)
            val = z3.Store(val, t, ex.term(v, vk))
        c.sym = (dom, val, kk, vk)
        c.entries = None
        c.order = None

    def dict_lookup(self, c, k):
        """[(guard, value)] found and guard of absence."""
        ex = self.ex
        if isinstance(k, U):
            k = ex.split(k)
        if c.sym is not None:
            dom, val, kk, vk = c.sym
            if ex.kind(k) != kk and not (isinstance(kk, tuple) and isinstance(k, Ref)):
                return [], True
            t = ex.term(k, kk)
            present = z3.Select(dom, t)
            return [(present, ex.wrap(vk, z3.Select(val, t)))], z3.Not(present)
        ck = self.ckey(k)
        if ck is not MISSING:
            hits = []
            symkeys = [x for x in c.entries if isinstance(x, SymKey)]
            if symkeys:
                raise Unsupported('dict with symbolic keys')
            if ck in c.entries:
                g, v = c.entries[ck]
                return [(g, v)], simp_not(g)
            return [], True
        out = []
        miss = []
        for kk, (g, v) in c.entries.items():
            e = simp_and(g, ex.eq(kk, k))
            if e is not False:
                out.append((e, v))
                miss.append(simp_not(e))
        return out, simp_and(*miss)

    def has_key(self, c, k):
        return simp_or(*[g for g, _ in self.dict_lookup(c, k)[0]])

    def dict_get(self, c, k, default):
        ex = self.ex
        hits, miss = self.dict_lookup(c, k)
        gvs = [(B(g), v) for g, v in hits if g is not False]
        if miss is not False:
            if default is RAISE:
                if not gvs or not ex.branch(simp_not(miss)):
                    ex.raise_(KeyError, k)
            else:
                gvs.append((B(miss), default))
        if len(gvs) == 1:
            return gvs[0][1]
        return ex.merge_vals(gvs)

    def dict_set(self, c, k, v):
        ex = self.ex
        if isinstance(k, U):
            k = ex.split(k)
        if c.sym is None:
            ck = self.ckey(k)
            if ck is not MISSING:
                c.entries[ck] = (True, v)
                return
            if isinstance(v, U):
                v = ex.split(v)
            self.to_sym_dict(c, ex.ek_of(k), ex.ek_of(v))
        dom, val, kk, vk = c.sym
        t = ex.term(k, kk)
        if isinstance(v, U):
            v = ex.split(v)
        if isinstance(v, Oid) and isinstance(vk, tuple) and vk[0] == 'ref':
            v = ex.materialise(v, vk[1])
        if not ex.encodable(v, vk):
            raise Unsupported('storing %r in a map of %r' % (v, vk))
        if c.order is not None:
            o = c.order
            c.order = Seq(z3.If(z3.Select(dom, t), o.t, z3.Concat(o.t, z3.Unit(t))), kk)
        c.sym = (z3.Store(dom, t, z3.BoolVal(True)), z3.Store(val, t, ex.term(v, vk)), kk, vk)

    def dict_del(self, c, k, default=None):
        ex = self.ex
        if isinstance(k, U):
            k = ex.split(k)
        hits, miss = self.dict_lookup(c, k)
        if miss is not False:
            if not ex.branch(simp_not(miss)):
                if default is None:
                    ex.raise_(KeyError, k)
                return default[0]
        v = ex.merge_vals([(B(g), w) for g, w in hits])
        if c.sym is not None:
            dom, val, kk, vk = c.sym
            c.sym = (z3.Store(dom, ex.term(k, kk), z3.BoolVal(False)), val, kk, vk)
            c.order = None
        else:
            ck = self.ckey(k)
            if ck is not MISSING:
                del c.entries[ck]
            else:
                for kk in list(c.entries):
                    g, w = c.entries[kk]
                    e = ex.eq(kk, k)
                    if e is True:
                        del c.entries[kk]
                    elif e is not False:
                        c.entries[kk] = (simp_and(g, simp_not(e)), w)
        return v

    def dict_update(self, d, v):
        ex = self.ex
        c = self.base(d)[1]
        v = ex.split(v)
        src = self.base(v)[1] if isinstance(v, Oid) else None
        if isinstance(src, DictCell):
            if src.entries is None:
                if (c.entries is not None and not c.entries):
                    c.entries, c.sym, c.order = None, src.sym, src.order
                    return
                if c.sym is None:
                    self.to_sym_dict(c, src.sym[2], src.sym[3])
                if c.sym[2:] != src.sym[2:]:
                    raise Unsupported('update with a dict of another kind')
                c.sym = self.union_maps(c.sym, src.sym)
                c.order = None
                return
            for k, (g, w) in list(src.entries.items()):
                if g is True:
                    self.dict_set(c, k, w)
                elif c.entries is not None and self.ckey(k) is not MISSING:
                    self.dict_set_if(c, k, g, w)
                elif ex.branch(g):
                    self.dict_set(c, k, w)
            return
        r = self.items_of(v)
        if r[0] != 'list':
            raise Unsupported('enumeration of a symbolic collection')
        for g, it in r[1]:
            if g is not True and c.entries is not None and isinstance(it, tuple) and len(it) == 2 and \
                    not isinstance(it[0], U) and self.ckey(it[0]) is not MISSING:
                self.dict_set_if(c, self.ckey(it[0]), g, it[1])
            elif g is True or ex.branch(g):
                k, w = self.unpack(ex.split(it), 2)
                self.dict_set(c, k, w)

    def dict_set_if(self, c, k, g, w):
        if k in c.entries:
            g0, w0 = c.entries[k]
            c.entries[k] = (simp_or(g0, g), self.ex.merge_vals([(B(g), w), (B(simp_not(g)), w0)]))
        else:
            c.entries[k] = (g, w)

    def union_maps(self, a, b):
        """Map with the entries of b over those of a."""
        ex = self.ex
        ks, vs = ex.sort(a[2]), ex.sort(a[3])
        dom = z3.Const(ex.fresh_name('udom'), z3.ArraySort(ks, z3.BoolSort()))
        val = z3.Const(ex.fresh_name('uval'), z3.ArraySort(ks, vs))
        x = z3.Const(ex.fresh_name('x'), ks)
        ex.assume(z3.ForAll([x], z3.And(
            z3.Select(dom, x) == z3.Or(z3.Select(a[0], x), z3.Select(b[0], x)),
            z3.Select(val, x) == z3.If(z3.Select(b[0], x), z3.Select(b[1], x), z3.Select(a[1], x)))))
        return (dom, val) + tuple(a[2:])

    def rd_update_m(self, r, a, k):
        ex = self.ex
        for kk, v in k.items():
            if kk == '**':
                self.rd_update_m(r, [v], {})
            else:
                self.rd_set(r, kk, v)
        for v in a:
            v = ex.split(v)
            c = self.base(v)[1]
            if not isinstance(c, DictCell):
                raise Unsupported('update with %r' % (v,))
            if c.sym is None:
                for kk, w in self.concrete_dict(v):
                    self.rd_set(r, kk, w)
                continue
            dom, val = self.rd(r)
            d, w = self.union_maps((dom, val, 'str', 'str'), c.sym)[:2]
            ex.st.fields['dict.dom'] = z3.Store(ex.st.fields['dict.dom'], r.t, d)
            ex.st.fields['dict.val'] = z3.Store(ex.st.fields['dict.val'], r.t, w)

    def set_add(self, s, v):
        ex = self.ex
        c = ex.cell(s)
        if isinstance(v, U):
            v = ex.split(v)
        if c.sym is None:
            ck = self.ckey(v)
            if ck is not MISSING:
                c.entries[ck] = True
                return
            kk = ex.ek_of(v)
            c.sym, c.entries = (ex.set_array(c, kk), kk), None
        arr, kk = c.sym
        c.sym = (z3.Store(arr, ex.term(v, kk), z3.BoolVal(True)), kk)

    def set_del(self, s, v):
        ex = self.ex
        c = ex.cell(s)
        if isinstance(v, U):
            v = ex.split(v)
        if c.sym is None:
            ck = self.ckey(v)
            if ck is not MISSING:
                c.entries.pop(ck, None)
                return
            for k in list(c.entries):
                c.entries[k] = simp_and(c.entries[k], simp_not(ex.eq(k, v)))
            return
        arr, kk = c.sym
        c.sym = (z3.Store(arr, ex.term(v, kk), z3.BoolVal(False)), kk)

    def set_has(self, c, v):
        ex = self.ex
        if c.sym is not None:
            arr, kk = c.sym
            if ex.kind(v) != kk:
                return False
            return z3.Select(arr, ex.term(v, kk))
        ck = self.ckey(v)
        if ck is not MISSING:
            return c.entries.get(ck, False)
        return simp_or(*[simp_and(g, ex.eq(k, v)) for k, g in c.entries.items()])

    def is_set(self, v):
        return isinstance(v, Oid) and isinstance(self.ex.cell(v), SetCell)

    def set_compare(self, op, v, w):
        raise Unsupported('set comparison')

    def contains(self, coll, v):
        """Term for v in coll."""
        ex = self.ex
        if isinstance(v, U):
            return simp_or(*[simp_and(g, self.contains(coll, x)) for g, x in v.alts])
        if isinstance(coll, (tuple,)):
            return simp_or(*[ex.equals(x, v) for x in coll])
        if isinstance(coll, Opaque) and 'in:' + coll.tag in ex.ext:
            return ex.ext['in:' + coll.tag](ex, coll, v)
        if isinstance(coll, str) or (isinstance(coll, T) and coll.kind == 'str'):
            if ex.kind(v) != 'str':
                ex.raise_(TypeError)
            if isinstance(coll, str) and isinstance(v, str):
                return v in coll
            if ex.opaque:
                return self.uf('contains', [coll, v], 'bool').t
            return z3.Contains(ex.term(coll), ex.term(v))
        if isinstance(coll, Seq):
            return z3.Contains(coll.t, z3.Unit(ex.term(v, coll.ek)))
        if isinstance(coll, Ref) and coll.cls == 'dict':
            return z3.Select(self.rd(coll)[0], ex.term(v, 'str'))
        if isinstance(coll, RefDict):
            return self.rdict_has(coll, v)
        if isinstance(coll, Oid):
            c = ex.cell(coll)
            if isinstance(c, ObjCell):
                m = c.cls.find('__contains__') if isinstance(c.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return ex.truth(ex.call_func(Func(m[1], cls=m[2]), [coll, v], {}))
                if c.base is None:
                    return self.contains_items(self.items_of(coll), v)
                c = ex.cell(c.base)
            if isinstance(c, ListCell):
                return self.contains_items(('seq', c.seq) if c.seq is not None else ('list', c.items), v)
            if isinstance(c, SetCell):
                return self.set_has(c, v)
            if isinstance(c, DictCell):
                return simp_or(*[g for g, _ in self.dict_lookup(c, v)[0]])
            if isinstance(c, IterCell):
                return self.contains_items(self.items_of(coll), v)
        if coll is None:
            ex.raise_(TypeError)
        raise Unsupported('in %r' % (coll,))

    def contains_items(self, src, v):
        ex = self.ex
        if src[0] == 'list':
            return simp_or(*[simp_and(g, ex.equals(x, v)) for g, x in src[1]])
        s = src[1]
        if isinstance(s.ek, tuple):
            if ex.user_eq(Ref(z3.IntVal(0), s.ek[1])):
                raise Unsupported('in with user-defined equality')
            return z3.Contains(s.t, z3.Unit(ex.term(v)))
        if ex.kind(v) != s.ek:
            return False
        d = ex.splits.get(s.t.get_id())
        if d is not None and isinstance(v, str) and d[2] not in v:
            # x in str.split(sep) for an x without sep
            sep = ex.lit(d[2])
            return z3.Contains(z3.Concat(sep, d[1], sep), z3.Concat(sep, ex.lit(v), sep))
        return z3.Contains(s.t, z3.Unit(ex.term(v, s.ek)))

    def container_eq(self, v, w):
        ex = self.ex
        a, b = self.base(v)[1], self.base(w)[1]
        if isinstance(a, ListCell) and isinstance(b, ListCell):
            if a.items is not None and b.items is not None and all(
                    g is True for g, _ in a.items + b.items):
                if len(a.items) != len(b.items):
                    return False
                return simp_and(*[ex.equals(x, y) for (_, x), (_, y) in zip(a.items, b.items)])
            ek = a.seq.ek if a.seq is not None else b.seq.ek if b.seq is not None else None
            return ex.seq_of(a, ek).t == ex.seq_of(b, ek).t
        if isinstance(a, DictCell) and isinstance(b, DictCell) and a.entries is not None and b.entries is not None:
            gs = []
            for k in set(a.entries) | set(b.entries):
                ga, va = a.entries.get(k, (False, None))
                gb, vb = b.entries.get(k, (False, None))
                if ga is False or gb is False:
                    gs.append(simp_not(ga if ga is not False else gb))
                else:
                    gs.append(B(ga) == B(gb))
                    gs.append(simp_imp(ga, ex.equals(va, vb)))
            return simp_and(*gs)
        if type(a) is not type(b):
            return False
        if isinstance(a, ObjCell):
            return False
        raise Unsupported('equality of containers')

    # ------------------------------------------------------------ symbolic dict objects (links)
    def rd(self, ref):
        ex = self.ex
        dom = z3.Select(ex.farr(ref.cls, 'dom', '', z3.ArraySort(ex.SS, z3.BoolSort())), ref.t)
        val = z3.Select(ex.farr(ref.cls, 'val', '', z3.ArraySort(ex.SS, ex.SS)), ref.t)
        return dom, val

    def rd_set(self, ref, k, v):
        ex = self.ex
        dom, val = self.rd(ref)
        kt = ex.term(k, 'str')
        v = ex.split(v)
        ex.st.fields['dict.dom'] = z3.Store(ex.st.fields['dict.dom'], ref.t, z3.Store(dom, kt, z3.BoolVal(True)))
        ex.st.fields['dict.val'] = z3.Store(ex.st.fields['dict.val'], ref.t, z3.Store(val, kt, ex.term(v, 'str')))

    def rdict_ty(self, d, k):
        if not isinstance(k, str):
            raise Unsupported('symbolic key of a record')
        ty = self.ex.rtype(d.ref.cls, d.prefix + '.' + k)
        if ty is None:
            raise Unsupported('key %s of %s' % (k, d.prefix))
        return ty

    def rdict_has(self, d, k):
        ty = self.rdict_ty(d, k)
        return z3.Select(self.ex.farr(d.ref.cls, d.prefix + '.' + k, '!', z3.BoolSort()), d.ref.t)

    def rdict_get(self, d, k):
        return self.ex.ref_dec(d.ref, d.prefix + '.' + k, self.rdict_ty(d, k))

    def rdict_set(self, d, k, v):
        ex = self.ex
        ty = self.rdict_ty(d, k)
        key = '%s.%s.%s!' % (d.ref.cls, d.prefix, k)
        a = ex.farr(d.ref.cls, d.prefix + '.' + k, '!', z3.BoolSort())
        ex.st.fields[key] = z3.Store(a, d.ref.t, z3.BoolVal(True))
        ex.ref_enc(d.ref, d.prefix + '.' + k, ty, v)

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n):
        """Index term in range or IndexError. n is int or term."""
        ex = self.ex
        i = ex.split(i)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                ex.raise_(IndexError)
            return i
        t = ex.term(i, 'int')
        nt = z3.IntVal(n) if isinstance(n, int) else n
        if isinstance(i, int):
            t = z3.IntVal(i) if i >= 0 else nt + i
        elif ex.branch(t < 0):
            t = t + nt
        if not ex.branch(z3.And(0 <= t, t < nt)):
            ex.raise_(IndexError)
        return t

    def slice_bounds(self, sl, n):
        """(start, stop) terms clipped to 0..n, step must be 1."""
        ex = self.ex
        if sl.step not in (None, 1):
            raise Unsupported('slice step')

        def clip(v, dflt):
            if v is None:
                return dflt
            t = ex.term(v, 'int')
            if isinstance(v, int):
                if v >= 0:
                    return z3.If(v > n, n, z3.IntVal(v))
                return z3.If(n + v < 0, z3.IntVal(0), n + v)
            t = z3.If(t < 0, n + t, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        return clip(sl.start, z3.IntVal(0)), clip(sl.stop, n)

    def conc_slice(self, sl):
        return all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step))

    def getitem(self, obj, idx):
        ex = self.ex
        obj = ex.split(obj)
        if isinstance(obj, (str, bytes, tuple)):
            if isinstance(idx, slice):
                if self.conc_slice(idx):
                    return obj[idx]
                if isinstance(obj, str):
                    obj = T('str', ex.lit(obj))
            else:
                idx = ex.split(idx)
                if isinstance(idx, int):
                    try:
                        return obj[idx]
                    except IndexError:
                        ex.raise_(IndexError)
                if isinstance(obj, str):
                    obj = T('str', ex.lit(obj))
        if isinstance(obj, T) and obj.kind == 'str':
            if ex.opaque:
                if isinstance(idx, slice):
                    if not self.conc_slice(idx):
                        raise Unsupported('slice of opaque string')
                    return self.uf('slice[%s:%s:%s]' % (idx.start, idx.stop, idx.step), [obj], 'str')
                raise Unsupported('character of opaque string')
            n = z3.Length(obj.t)
            if isinstance(idx, slice):
                a, b = self.slice_bounds(idx, n)
                return T('str', z3.SubString(obj.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
            i = self.norm_index(idx, n)
            return T('str', z3.SubString(obj.t, i if is_z3(i) else z3.IntVal(i), z3.IntVal(1)))
        if isinstance(obj, Seq):
            n = z3.Length(obj.t)
            if isinstance(idx, slice):
                if idx.step == -1 and idx.start is None and idx.stop is None:
                    return self.reverse_seq(obj)
                a, b = self.slice_bounds(idx, n)
                return ex.alloc(ListCell(None, Seq(z3.Extract(obj.t, a, z3.If(b > a, b - a, z3.IntVal(0))), obj.ek)))
            return ex.wrap(obj.ek, obj.t[self.norm_index(idx, n)])
        if isinstance(obj, Oid):
            c = ex.cell(obj)
            if isinstance(c, ObjCell):
                m = c.cls.find('__getitem__') if isinstance(c.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return ex.call_func(Func(m[1], cls=m[2]), [obj, idx], {})
                if c.base is None:
                    ex.raise_(TypeError)
                c = ex.cell(c.base)
            if isinstance(c, ListCell):
                if c.seq is not None:
                    return self.getitem(c.seq, idx)
                items = self.fixed_items(c)
                if isinstance(idx, slice):
                    if not self.conc_slice(idx):
                        raise Unsupported('symbolic slice of a list')
                    return ex.new_list(items[idx])
                idx = ex.split(idx)
                if isinstance(idx, int):
                    try:
                        return items[idx]
                    except IndexError:
                        ex.raise_(IndexError)
                if items:
                    return self.getitem(ex.seq_of(ListCell([(True, x) for x in items])), idx)
                ex.raise_(IndexError)
            if isinstance(c, DictCell):
                return self.dict_get(c, idx, RAISE)
            if isinstance(c, (SetCell, IterCell)):
                ex.raise_(TypeError)
        if isinstance(obj, Ref) and obj.cls == 'dict':
            dom, val = self.rd(obj)
            k = ex.term(ex.split(idx), 'str')
            if not ex.branch(z3.Select(dom, k)):
                ex.raise_(KeyError)
            return T('str', z3.Select(val, k))
        if isinstance(obj, RefDict):
            if not ex.branch(self.rdict_has(obj, idx)):
                ex.raise_(KeyError)
            return self.rdict_get(obj, idx)
        if isinstance(obj, Opaque):
            h = ex.ext.get('getitem:' + obj.tag)
            if h:
                return h(ex, obj, idx)
        if obj is None or isinstance(obj, (int, float)):
            ex.raise_(TypeError)
        raise Unsupported('subscript of %r' % (obj,))

    def fixed_items(self, c):
        """Items of a list cell with every guard decided."""
        if all(g is True for g, _ in c.items):
            return [v for _, v in c.items]
        items = []
        for g, v in c.items:
            if g is True or self.ex.branch(g):
                items.append((True, v))
        c.items = items
        return [v for _, v in items]

    def setitem(self, obj, idx, v):
        ex = self.ex
        if isinstance(obj, Oid):
            c = ex.cell(obj)
            if isinstance(c, ObjCell):
                m = c.cls.find('__setitem__') if isinstance(c.cls, ClassInfo) else None
                if m and m[0] == 'method':
                    return ex.call_func(Func(m[1], cls=m[2]), [obj, idx, v], {})
                if c.base is None:
                    ex.raise_(TypeError)
                c = ex.cell(c.base)
            if isinstance(c, DictCell):
                return self.dict_set(c, idx, v)
            if isinstance(c, ListCell):
                if c.seq is None:
                    items = self.fixed_items(c)
                    idx = ex.split(idx) if not isinstance(idx, slice) else idx
                    if isinstance(idx, int):
                        if not -len(items) <= idx < len(items):
                            ex.raise_(IndexError)
                        c.items[idx] = (True, v)
                        return
                else:
                    s = c.seq
                    i = self.norm_index(idx, z3.Length(s.t))
                    i = i if is_z3(i) else z3.IntVal(i)
                    n = z3.Length(s.t)
                    c.seq = Seq(z3.Concat(z3.Extract(s.t, z3.IntVal(0), i), z3.Unit(ex.term(v, s.ek)),
                                          z3.Extract(s.t, i + 1, n - i - 1)), s.ek)
                    return
        if isinstance(obj, Ref) and obj.cls == 'dict':
            return self.rd_set(obj, ex.split(idx), v)
        if isinstance(obj, RefDict):
            return self.rdict_set(obj, ex.split(idx), v)
        if isinstance(obj, Opaque):
            h = ex.ext.get('setitem:' + obj.tag)
            if h:
                return h(ex, obj, idx, v)
        if obj is None:
            ex.raise_(TypeError)
        raise Unsupported('item assignment to %r' % (obj,))

    def delitem(self, obj, idx):
        ex = self.ex
        if isinstance(obj, Oid):
            c = self.base(obj)[1]
            if isinstance(c, DictCell):
                self.dict_del(c, idx)
                return
            if isinstance(c, ListCell) and c.seq is None and isinstance(idx, int):
                items = self.fixed_items(c)
                if not -len(items) <= idx < len(items):
                    ex.raise_(IndexError)
                del c.items[idx]
                return
        raise Unsupported('del of %r' % (obj,))

    def unpack(self, v, n):
        ex = self.ex
        src = self.items_of(v) if not isinstance(v, tuple) else ('list', [(True, x) for x in v])
        if src[0] == 'list':
            items = [w for g, w in src[1] if g is True or ex.branch(g)]
            if len(items) != n:
                ex.raise_(ValueError)
            return items
        s = src[1]
        if not ex.branch(z3.Length(s.t) == n):
            ex.raise_(ValueError)
        return [ex.wrap(s.ek, s.t[i]) for i in range(n)]

    # ------------------------------------------------------------ lists
    def list_append(self, lst, v):
        ex = self.ex
        c = ex.cell(lst)
        if c.seq is not None:
            if isinstance(v, U):
                v = ex.split(v)
            if isinstance(v, Oid) and isinstance(c.seq.ek, tuple):
                v = ex.materialise(v, c.seq.ek[1])
                c = ex.cell(lst)
            if not ex.encodable(v, c.seq.ek):
                raise Unsupported('appending %r to a list of %r' % (v, c.seq.ek))
            c.seq = Seq(z3.Concat(c.seq.t, z3.Unit(ex.term(v, c.seq.ek))), c.seq.ek)
        else:
            c.items.append((True, v))

    def list_extend(self, lst, v):
        ex = self.ex
        c = ex.cell(lst)
        src = self.items_of(v)
        if src[0] == 'list' and c.seq is None:
            c.items.extend(src[1])
        elif src[0] == 'list':
            for g, w in src[1]:
                if g is True or ex.branch(g):
                    self.list_append(lst, w)
        else:
            s = src[1]
            a = ex.seq_of(c, s.ek)
            c.seq, c.items = Seq(z3.Concat(a.t, s.t), s.ek), None

    def inplace(self, op, cur, v):
        ex = self.ex
        c = ex.cell(cur)
        if isinstance(c, ListCell) and op is ast.Add:
            self.list_extend(cur, v)
            return cur
        if isinstance(c, SetCell) and op is ast.BitOr:
            for x in self.concrete_items(v):
                self.set_add(cur, x)
            return cur
        raise Unsupported('in-place operator')

    # ------------------------------------------------------------ arithmetic, strings
    def arith(self, op, v, w):
        ex = self.ex
        num = ('bool', 'int', 'real')
        kv, kw = ex.kind(v), ex.kind(w)
        conc = (bool, int, float, str, bytes, tuple)
        if op is ast.Add and (kv == 'str' or kw == 'str'):
            if kv != 'str' or kw != 'str':
                ex.raise_(TypeError)
            return self.concat_str([v, w])
        if isinstance(v, conc) and isinstance(w, conc) and not isinstance(v, T) and not isinstance(w, T):
            f = {ast.Add: lambda: v + w, ast.Sub: lambda: v - w, ast.Mult: lambda: v * w, ast.Div: lambda: v / w,
                 ast.FloorDiv: lambda: v // w, ast.Mod: lambda: v % w, ast.Pow: lambda: v ** w,
                 ast.BitOr: lambda: v | w, ast.BitAnd: lambda: v & w, ast.LShift: lambda: v << w}.get(op)
            if f is None:
                raise Unsupported('operator')
            try:
                return f()
            except ZeroDivisionError:
                ex.raise_(ZeroDivisionError)
            except TypeError:
                ex.raise_(TypeError)
        if kv in num and kw in num:
            k = 'real' if 'real' in (kv, kw) or op is ast.Div else 'int'
            a, b = ex.term(v, k), ex.term(w, k)
            if op is ast.Add:
                return T(k, a + b)
            if op is ast.Sub:
                return T(k, a - b)
            if op is ast.Mult:
                return T(k, a * b)
            if op in (ast.Div, ast.FloorDiv, ast.Mod):
                if not ex.branch(b != 0):
                    ex.raise_(ZeroDivisionError)
                if op is ast.Div:
                    return T('real', a / b)
                if k == 'int':
                    # z3 div/mod round so that the remainder is never negative
                    if not (isinstance(w, int) and w > 0):
                        if not ex.branch(b > 0):
                            raise Unsupported('division by a negative number')
                    return T('int', a / b if op is ast.FloorDiv else a % b)
            raise Unsupported('operator on symbolic numbers')
        if isinstance(v, Oid) and isinstance(w, Oid) and op is ast.Add:
            a, b = ex.cell(v), ex.cell(w)
            if isinstance(a, ListCell) and isinstance(b, ListCell):
                r = ex.alloc(a.copy())
                self.list_extend(r, w)
                return r
        if isinstance(v, Oid) and isinstance(w, Oid) and op in (ast.BitOr, ast.Sub, ast.BitAnd):
            return self.set_op(op, v, w)
        if 'none' in (kv, kw) or (kv in num + ('str',) and kw in num + ('str',)):
            ex.raise_(TypeError)
        raise Unsupported('operator on %r and %r' % (v, w))

    def set_op(self, op, v, w):
        ex = self.ex
        a, b = ex.cell(v), ex.cell(w)
        if not (isinstance(a, SetCell) and isinstance(b, SetCell)):
            raise Unsupported('set operator')
        if a.entries is not None and b.entries is not None:
            ent = {}
            for k in list(a.entries) + [k for k in b.entries if k not in a.entries]:
                x, y = a.entries.get(k, False), b.entries.get(k, False)
                g = {ast.BitOr: lambda: simp_or(x, y), ast.BitAnd: lambda: simp_and(x, y),
                     ast.Sub: lambda: simp_and(x, simp_not(y))}[op]()
                if g is not False:
                    ent[k] = g
            return ex.alloc(SetCell(ent))
        kk = a.sym[1] if a.sym else b.sym[1]
        x, y = ex.set_array(a, kk), ex.set_array(b, kk)
        if op is ast.BitOr:
            r = z3.SetUnion(x, y)
        elif op is ast.BitAnd:
            r = z3.SetIntersect(x, y)
        else:
            r = z3.SetDifference(x, y)
        return ex.alloc(SetCell(None, (r, kk)))

    def literal_choice(self, v):
        """(condition, a, b) if v is one of some string literals, depending on conditions."""
        ex = self.ex
        if not (isinstance(v, T) and v.kind == 'str' and z3.is_app_of(v.t, z3.Z3_OP_ITE)):
            return None
        back = {t.get_id(): s for s, t in ex.lits.items()}

        def one(t):
            if t.get_id() in back:
                return back[t.get_id()]
            return T('str', t) if z3.is_app_of(t, z3.Z3_OP_ITE) and self.literal_choice(T('str', t)) else None
        c, x, y = v.t.arg(0), one(v.t.arg(1)), one(v.t.arg(2))
        return None if x is None or y is None else (c, x, y)

    def concat_str(self, parts):
        ex = self.ex
        flat = []
        for p in parts:
            p = ex.split(p)
            if isinstance(p, str) and flat and isinstance(flat[-1], str):
                flat[-1] += p
            elif p != '' or not isinstance(p, str):
                flat.append(p)
        if not flat:
            return ''
        if len(flat) == 1:
            return flat[0]
        if ex.opaque:
            for i, p in enumerate(flat):
                alt = self.literal_choice(p)
                if alt is not None and all(isinstance(q, str) or self.literal_choice(q) is not None for q in flat):
                    # literals on either side of a condition: so is the concatenation
                    c, x, y = alt
                    x, y = (self.concat_str(flat[:i] + [w] + flat[i + 1:]) for w in (x, y))
                    return T('str', z3.If(c, ex.term(x, 'str'), ex.term(y, 'str')))
            # associative: flatten nested concatenations
            ps = []
            for p in flat:
                m = p.meta if isinstance(p, T) else None
                for q in (m[1] if m and m[0] == 'cat' else [p]):
                    if isinstance(q, str) and ps and isinstance(ps[-1], str):
                        ps[-1] += q
                    else:
                        ps.append(q)
            r = self.uf('cat', ps, 'str')
            if any(isinstance(q, str) and q for q in ps):
                ex.assume(r.t != ex.lit(''))
            return T('str', r.t, ('cat', ps))
        ps = []
        for p in flat:
            m = p.meta if isinstance(p, T) else None
            ps += m[1] if m and m[0] == 'cat' else [p]
        return T('str', z3.Concat(*[ex.term(p, 'str') for p in flat]), ('cat', ps))

    def to_str(self, v):
        """str(v)"""
        ex = self.ex
        if isinstance(v, U):
            v = ex.split(v)
        if isinstance(v, str) or (isinstance(v, T) and v.kind == 'str'):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, T):
            if v.kind == 'bool':
                return ex.unit(lambda: 'True' if ex.branch(v.t) else 'False')
            if v.kind == 'int' and not ex.opaque:
                return T('str', z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))))
            if v.kind == 'int':
                # decimal text: injective (int() reads it back), never empty
                r = self.uf('int_to_str', [v], 'str')
                self.ex.assume(self.uf('str_to_int', [r], 'int').t == v.t)
                self.ex.assume(self.uf('str_is_int', [r], 'bool').t)
                self.ex.assume(r.t != ex.lit(''))
                return T('str', r.t)
            r = self.uf('float_to_str', [v], 'str')
            ex.assume(self.uf('str_to_float', [r], 'real').t == v.t)
            ex.assume(self.uf('str_is_float', [r], 'bool').t)
            ex.assume(r.t != ex.lit(''))
            return r
        if isinstance(v, Exc):
            if v.oid is None and v.args is not None and len(v.args) == 1 and isinstance(v.args[0], (str, T)):
                return self.to_str(v.args[0])
            return ex.fresh('str', 'msg')
        if isinstance(v, (Oid, Ref)):
            # text for people: the value is left open, and so is what a __str__ method does
            return ex.fresh('str', 'text')
        return ex.fresh('str', 'text')

    def fmt_one(self, v, spec, conv):
        ex = self.ex
        if conv not in (-1, 115):
            return ex.fresh('str', 'repr')
        if spec in (None, '', 's'):
            return self.to_str(v)
        return self.fmt_spec('%' + spec, v)

    def fmt_spec(self, spec, v):
        ex = self.ex
        v = ex.split(v)
        conv = spec[-1]
        if conv in 's':
            if spec == '%s':
                return self.to_str(v)
            s = self.to_str(v)
            if isinstance(s, str):
                return spec % s
            return self.uf('fmt' + spec, [s], 'str')
        if conv in 'diuoxXeEfFgG':
            k = ex.kind(v)
            if k not in ('bool', 'int', 'real'):
                ex.raise_(TypeError)
            if not isinstance(v, T):
                return spec % v
            if spec == '%d' and k == 'int':
                return self.to_str(v)
            r = self.uf('fmt' + spec, [v], 'str')
            if not ex.opaque:
                ex.assume(z3.Length(r.t) > 0)
            return r
        if conv == 'r':
            return ex.fresh('str', 'repr')
        raise Unsupported('format %s' % spec)

    def percent(self, fmt, args):
        ex = self.ex
        if not isinstance(fmt, str):
            fmt = ex.split(fmt)
            if not isinstance(fmt, str):
                raise Unsupported('symbolic format')
        args = ex.split(args)
        vals = list(args) if isinstance(args, tuple) else [args]
        parts, i, n = [], 0, 0
        while i < len(fmt):
            j = fmt.find('%', i)
            if j < 0:
                parts.append(fmt[i:])
                break
            parts.append(fmt[i:j])
            if fmt[j + 1:j + 2] == '%':
                parts.append('%')
                i = j + 2
                continue
            k = j + 1
            while k < len(fmt) and fmt[k] in '0123456789.-+ #':
                k += 1
            if k >= len(fmt):
                ex.raise_(ValueError)
            if fmt[k] == '(':
                raise Unsupported('named format')
            if n >= len(vals):
                ex.raise_(TypeError)
            parts.append(self.fmt_spec(fmt[j:k + 1], vals[n]))
            n += 1
            i = k + 1
        if n < len(vals) and not (len(vals) == 1 and isinstance(vals[0], Oid) and isinstance(
                self.base(vals[0])[1], DictCell)):
            ex.raise_(TypeError)
        return self.concat_str(parts)

    # ------------------------------------------------------------ context managers, opaque
    def enter(self, m):
        ex = self.ex
        if isinstance(m, Opaque):
            h = ex.ext.get('enter:' + m.tag)
            return h(ex, m) if h else m
        if isinstance(m, Oid) and isinstance(ex.cell(m), ObjCell):
            ci = ex.class_of(m)
            if isinstance(ci, ClassInfo):
                f = ci.find('__enter__')
                if f and f[0] == 'method':
                    return ex.call_func(Func(f[1], cls=f[2]), [m], {})
        raise Unsupported('with %r' % (m,))

    def exit(self, m):
        ex = self.ex
        if isinstance(m, Opaque):
            h = ex.ext.get('exit:' + m.tag)
            if h:
                h(ex, m)
            return
        raise Unsupported('leaving with %r' % (m,))

    def set_opaque_attr(self, v, name, val):
        h = self.ex.ext.get('setattr:' + v.tag)
        if h:
            return h(self.ex, v, name, val)
        raise Unsupported('setting %s of %r' % (name, v))

    # ------------------------------------------------------------ methods of built-in types
    def bm(self, v, name, fn):
        return Bound(v, Builtin('method ' + name, lambda ex, a, k: fn(a[0], a[1:], k)))

    def method(self, v, name):
        ex = self.ex
        if isinstance(v, Oid):
            c = ex.cell(v)
            t = {ListCell: 'l_', DictCell: 'd_', SetCell: 's_', IterCell: 'i_'}.get(type(c))
            if t is not None:
                m = getattr(self, t + name, None)
                if m is None:
                    if not hasattr({'l_': list, 'd_': dict, 's_': set, 'i_': iter([]).__class__}[t], name):
                        ex.raise_(AttributeError)
                    raise Unsupported('method %s of %s' % (name, type(c).__name__))
                return self.bm(v, name, m)
            raise Unsupported('attribute %s of %r' % (name, v))
        if isinstance(v, (str, T)) and ex.kind(v) == 'str':
            m = getattr(self, 'str_' + name, None)
            if m is not None:
                return self.bm(v, name, m)
            if not hasattr(str, name):
                ex.raise_(AttributeError)
            return self.bm(v, name, lambda s, a, k: self.str_generic(name, s, a, k))
        if isinstance(v, Opaque):
            if v.tag == 'logger':
                return Builtin('logger.' + name, lambda ex, a, k: None)
            h = ex.ext.get('attr:' + v.tag)
            if h is None:
                from . import externals
                h = externals.MODELS.get('attr:' + v.tag)
            if h is not None:
                return h(ex, v, name)
            raise Unsupported('attribute %s of %r' % (name, v))
        if isinstance(v, Ref) and 'attr:ref:' + v.cls in ex.ext:
            return ex.ext['attr:ref:' + v.cls](ex, v, name)
        if isinstance(v, Ref) and v.cls == 'dict':
            m = getattr(self, 'rd_' + name + '_m', None)
            if m:
                return self.bm(v, name, m)
        if isinstance(v, RefDict):
            if name == 'get':
                return self.bm(v, name, self.rdict_getm)
        if isinstance(v, Seq):
            raise Unsupported('method %s of sequence' % name)
        if isinstance(v, (bool, int, float, tuple)) or isinstance(v, T):
            py = {'int': int, 'bool': bool, 'real': float}.get(ex.kind(v), tuple)
            if not hasattr(py, name):
                ex.raise_(AttributeError)
        raise Unsupported('attribute %s of %r' % (name, v))

    def rdict_getm(self, d, a, k):
        ex = self.ex
        has = self.rdict_has(d, a[0])
        dflt = a[1] if len(a) > 1 else None
        return ex.merge_vals([(has, self.rdict_get(d, a[0])), (z3.Not(has), dflt)])

    def rd_get_m(self, r, a, k):
        dom, val = self.rd(r)
        t = self.ex.term(self.ex.split(a[0]), 'str')
        dflt = a[1] if len(a) > 1 else None
        return self.ex.merge_vals([(z3.Select(dom, t), T('str', z3.Select(val, t))),
                                   (z3.Not(z3.Select(dom, t)), dflt)])

    # lists
    def l_append(self, v, a, k):
        self.list_append(v, a[0])

    def l_extend(self, v, a, k):
        self.list_extend(v, a[0])

    def l_pop(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        i = ex.split(a[0]) if a else -1
        if c.seq is not None:
            s = c.seq
            n = z3.Length(s.t)
            if not ex.branch(n > 0):
                ex.raise_(IndexError)
            if i == 0:
                r = ex.wrap(s.ek, s.t[0])
                c.seq = Seq(z3.Extract(s.t, z3.IntVal(1), n - 1), s.ek)
                return r
            if i == -1:
                r = ex.wrap(s.ek, s.t[n - 1])
                c.seq = Seq(z3.Extract(s.t, z3.IntVal(0), n - 1), s.ek)
                return r
            raise Unsupported('pop(i)')
        items = self.fixed_items(c)
        if not isinstance(i, int):
            raise Unsupported('pop(i)')
        if not -len(items) <= i < len(items):
            ex.raise_(IndexError)
        return c.items.pop(i)[1]

    def l_insert(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        i = ex.split(a[0])
        if c.seq is not None and i == 0:
            c.seq = Seq(z3.Concat(z3.Unit(ex.term(ex.split(a[1]), c.seq.ek)), c.seq.t), c.seq.ek)
            return
        if c.seq is None and isinstance(i, int):
            self.fixed_items(c)
            c.items.insert(i, (True, a[1]))
            return
        raise Unsupported('insert')

    def l_remove(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        if c.seq is not None:
            raise Unsupported('remove from a symbolic list')
        items = self.fixed_items(c)
        for i, x in enumerate(items):
            if ex.branch(ex.equals(x, a[0])):
                del c.items[i]
                return
        ex.raise_(ValueError)

    def l_reverse(self, v, a, k):
        c = self.ex.cell(v)
        if c.seq is not None:
            c.seq = self.reverse_seq(c.seq)
        else:
            c.items.reverse()

    def l_sort(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        r = self.f_sorted(ex, [v], k)
        rc = ex.cell(r)
        c.items, c.seq = rc.items, rc.seq

    def l_copy(self, v, a, k):
        return self.ex.alloc(self.ex.cell(v).copy())

    def l_clear(self, v, a, k):
        c = self.ex.cell(v)
        c.items, c.seq = [], None

    def l___iter__(self, v, a, k):
        return self.make_iter(v)

    def rev(self, ek):
        so = z3.SeqSort(self.ex.sort(ek))
        return z3.Function('rev_%s' % self.ex.sort(ek), so, so)

    def reverse_seq(self, s):
        ex = self.ex
        r = Seq(self.rev(s.ek)(s.t), s.ek)
        n = z3.Length(s.t)
        i = z3.Int(ex.fresh_name('i'))
        ex.assume(z3.Length(r.t) == n)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), r.t[i] == s.t[n - 1 - i])))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), s.t[i] == r.t[n - 1 - i])))
        revs = ex.st.ghost.get('_rev', ())
        ex.st.ghost['_rev'] = revs + ((r, s),)
        return r

    # dicts
    def d_get(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        dflt = a[1] if len(a) > 1 else k.get('default')
        return self.dict_get(c, a[0], dflt)

    def d_keys(self, v, a, k):
        ex = self.ex
        return ex.alloc(DictViewCell(v.id)) if False else self.view(v, 'keys')

    def view(self, v, what):
        """Keys as a list with a set-like 'in': the dict itself serves for that."""
        ex = self.ex
        c = ex.cell(v)
        if what == 'keys':
            if c.entries is not None:
                return ex.alloc(ListCell([(g, k) for k, (g, _) in c.entries.items()]))
            return v    # iteration over, 'in' and len of a symbolic dict are those of its keys
        if c.entries is not None:
            if what == 'values':
                return ex.alloc(ListCell([(g, w) for _, (g, w) in c.entries.items()]))
            return ex.alloc(ListCell([(g, (k, w)) for k, (g, w) in c.entries.items()]))
        dom, val, kk, vk = c.sym
        keys = self.keys_items(c)[1]
        if what == 'values':
            r = ex.fresh_seq(vk, 'values')
            i = z3.Int(ex.fresh_name('i'))
            n = z3.Length(keys.t)
            ex.assume(z3.Length(r.t) == n)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), r.t[i] == z3.Select(val, keys.t[i]))))
            return ex.alloc(ListCell(None, r))
        return Opaque('$items', (keys, v))

    def d_values(self, v, a, k):
        return self.view(v, 'values')

    def d_items(self, v, a, k):
        return self.view(v, 'items')

    def d_copy(self, v, a, k):
        return self.ex.alloc(self.ex.cell(v).copy())

    def d_clear(self, v, a, k):
        c = self.ex.cell(v)
        c.entries, c.sym, c.order = {}, None, None

    def d_update(self, v, a, k):
        if a:
            self.dict_update(v, a[0])
        for kk, w in k.items():
            self.dict_set(self.ex.cell(v), kk, w)

    def d_pop(self, v, a, k):
        return self.dict_del(self.ex.cell(v), a[0], (a[1],) if len(a) > 1 else None)

    def d_setdefault(self, v, a, k):
        ex = self.ex
        c = ex.cell(v)
        dflt = a[1] if len(a) > 1 else None
        hits, miss = self.dict_lookup(c, a[0])
        if miss is False or ex.branch(simp_not(miss)):
            return self.dict_get(c, a[0], None)
        self.dict_set(c, a[0], dflt)
        return dflt

    def d___contains__(self, v, a, k):
        return self.ex.boolv(self.contains(v, a[0]))

    def d___getitem__(self, v, a, k):
        return self.dict_get(self.ex.cell(v), a[0], RAISE)

    def d___setitem__(self, v, a, k):
        self.dict_set(self.ex.cell(v), a[0], a[1])

    def d___iter__(self, v, a, k):
        return self.make_iter(v)

    def d___len__(self, v, a, k):
        return self.length(v)

    # sets
    def s_add(self, v, a, k):
        self.set_add(v, a[0])

    def s_discard(self, v, a, k):
        self.set_del(v, a[0])

    def s_remove(self, v, a, k):
        ex = self.ex
        x = ex.split(a[0])
        if not ex.branch(self.set_has(ex.cell(v), x)):
            ex.raise_(KeyError)
        self.set_del(v, x)

    def s_update(self, v, a, k):
        for y in a:
            for x in self.concrete_items(y):
                self.set_add(v, x)

    def s_copy(self, v, a, k):
        return self.ex.alloc(self.ex.cell(v).copy())

    def s_clear(self, v, a, k):
        c = self.ex.cell(v)
        c.entries, c.sym = {}, None

    def s_union(self, v, a, k):
        r = self.s_copy(v, [], {})
        self.s_update(r, a, k)
        return r

    # strings
    def conc_all(self, s, a):
        return isinstance(s, str) and all(isinstance(x, (str, int, tuple, type(None))) and (
            not isinstance(x, tuple) or all(isinstance(y, str) for y in x)) for x in a)

    def str_generic(self, name, s, a, k):
        ex = self.ex
        a = [ex.split(x) for x in a]
        if self.conc_all(s, a) and not k:
            try:
                r = getattr(s, name)(*a)
            except (ValueError, TypeError, IndexError) as e:
                ex.raise_(type(e))
            if isinstance(r, list):
                return ex.new_list(r)
            return r
        if name in STR_UF and not k:
            m = getattr(self, 'z3_' + name, None)
            if m is not None and not ex.opaque:
                r = m(s, a)
                if r is not None:
                    return r
            sig = name + '(' + ','.join(repr(x) if not isinstance(x, T) else '_' for x in a) + ')'
            return self.uf('str.' + sig, [s] + [x for x in a if isinstance(x, T)], STR_UF[name])
        raise Unsupported('str.%s' % name)

    def z3_startswith(self, s, a):
        if len(a) == 1 and self.ex.kind(a[0]) == 'str':
            return T('bool', z3.PrefixOf(self.ex.term(a[0]), self.ex.term(s)))

    def z3_endswith(self, s, a):
        if len(a) == 1 and self.ex.kind(a[0]) == 'str':
            return T('bool', z3.SuffixOf(self.ex.term(a[0]), self.ex.term(s)))

    def z3_rstrip(self, s, a):
        ex = self.ex
        if len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
            # s = r + tail, tail all that character, r does not end with it
            st = ex.term(s)
            f = z3.Function('rstrip_' + a[0], z3.StringSort(), z3.StringSort())
            g = z3.Function('rstriptail_' + a[0], z3.StringSort(), z3.StringSort())
            r, tail = f(st), g(st)
            ch = ex.lit(a[0])
            ex.assume(st == z3.Concat(r, tail))
            ex.assume(z3.InRe(tail, z3.Star(z3.Re(ch))))
            ex.assume(z3.Not(z3.SuffixOf(ch, r)))
            return T('str', r)

    def z3_lstrip(self, s, a):
        ex = self.ex
        if len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
            # s = head + r, head all that character, r does not start with it
            st = ex.term(s)
            f = z3.Function('lstrip_' + a[0], z3.StringSort(), z3.StringSort())
            g = z3.Function('lstriphead_' + a[0], z3.StringSort(), z3.StringSort())
            r, head = f(st), g(st)
            ch = ex.lit(a[0])
            ex.assume(st == z3.Concat(head, r))
            ex.assume(z3.InRe(head, z3.Star(z3.Re(ch))))
            ex.assume(z3.Not(z3.PrefixOf(ch, r)))
            ex.assume(z3.Implies(z3.Not(z3.PrefixOf(ch, st)), r == st))
            return T('str', r)

    def str_join(self, s, a, k):
        ex = self.ex
        src = self.items_of(a[0])
        if src[0] == 'list':
            items = [ex.split(w) for g, w in src[1] if g is True or ex.branch(g)]
            if any(ex.kind(x) != 'str' for x in items):
                ex.raise_(TypeError)
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(s)
                parts.append(x)
            return self.concat_str(parts)
        return self.uf('join', [s, src[1]], 'str')

    def str_split(self, s, a, k):
        ex = self.ex
        a = [ex.split(x) for x in a]
        if self.conc_all(s, a) and not k:
            return ex.new_list(s.split(*a))
        h = ex.ext.get('str.split')
        if h:
            return h(ex, s, a)
        if len(a) == 2 and a[1] == 1 and isinstance(a[0], str) and not ex.opaque:
            # at most one cut, at the first occurrence
            st, sep = ex.term(s), ex.term(a[0])

            def run():
                if ex.branch(z3.Contains(st, sep)):
                    i = z3.IndexOf(st, sep, z3.IntVal(0))
                    return ex.new_list([T('str', z3.SubString(st, z3.IntVal(0), i)),
                                        T('str', z3.SubString(st, i + z3.Length(sep), z3.Length(st) - i - z3.Length(sep)))])
                return ex.new_list([s])
            return run()
        sig = 'split(' + ','.join(repr(x) if not isinstance(x, T) else '_' for x in a) + ')'
        r = self.uf('str.' + sig, [s] + [x for x in a if isinstance(x, T)], ('seq', 'str'))
        if len(a) == 1 and isinstance(a[0], str) and a[0] and not ex.opaque:
            ex.splits[r.t.get_id()] = (r.t, ex.term(s), a[0])
        if a and a[0] is not None:
            ex.assume(z3.Length(r.t) >= 1)
            if len(a) > 1 and isinstance(a[1], int):
                ex.assume(z3.Length(r.t) <= a[1] + 1)
        return ex.alloc(ListCell(None, r))

    def str_encode(self, s, a, k):
        if isinstance(s, str):
            return s.encode(*[x for x in a if isinstance(x, str)])
        return Opaque('encoded', (s,))

    def str_format(self, s, a, k):
        ex = self.ex
        if not isinstance(s, str):
            raise Unsupported('symbolic format string')
        import string
        parts, n = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                v = a[n]
                n += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported('format field %s' % field)
            parts.append(self.fmt_one(v, spec or None, -1 if not conv else ord(conv)))
        return self.concat_str(parts)

    # ------------------------------------------------------------ functions
    def f_len(self, ex, a, k):
        return self.length(a[0])

    def f_isinstance(self, ex, a, k):
        v = ex.split(a[0])
        cls = a[1]
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(self.isinst(v, c) for c in cs)

    def isinst(self, v, c):
        ex = self.ex
        if isinstance(c, Builtin):
            n = c.name
            kind = ex.kind(v)
            if n == 'str':
                return kind == 'str'
            if n == 'int':
                return kind in ('int', 'bool')
            if n == 'bool':
                return kind == 'bool'
            if n == 'float':
                return kind == 'real'
            if n in ('list', 'dict', 'set', 'tuple'):
                if isinstance(v, tuple):
                    return n == 'tuple'
                if isinstance(v, Oid):
                    cc = self.base(v)[1]
                    return isinstance(cc, {'list': ListCell, 'dict': DictCell, 'set': SetCell}.get(n, ()))
                if isinstance(v, (RefDict,)) or (isinstance(v, Ref) and v.cls == 'dict'):
                    return n == 'dict'
                return False
        if isinstance(c, Ext) and c.name.endswith('.Iterable'):
            if isinstance(v, (str, tuple, Seq)) or ex.kind(v) == 'str':
                return True
            if isinstance(v, Oid):
                cc = ex.cell(v)
                if isinstance(cc, ObjCell) and cc.base is None:
                    return isinstance(cc.cls, ClassInfo) and cc.cls.find('__iter__') is not None
                return True
            if isinstance(v, Ref):
                ci = ex.class_of(v)
                return v.cls == 'dict' or (ci is not None and ci.find('__iter__') is not None)
            return isinstance(v, Opaque) and v.tag in ('$gen', '$range', '$enumerate', '$zip', '$items')
        if isinstance(c, ClassV):
            if isinstance(v, Exc):
                return ex.exc_match(v, c)
            ci = ex.class_of(v)
            return isinstance(ci, ClassInfo) and ci.subclass_of(c.ci)
        if isinstance(c, type) and issubclass(c, BaseException):
            return isinstance(v, Exc) and ex.exc_match(v, c)
        raise Unsupported('isinstance with %r' % (c,))

    def f_hasattr(self, ex, a, k):
        n = ex.split(a[1])
        if not isinstance(n, str):
            raise Unsupported('symbolic attribute name')
        return ex.hasattr(ex.split(a[0]), n)

    def f_getattr(self, ex, a, k):
        n = ex.split(a[1])
        if not isinstance(n, str):
            raise Unsupported('symbolic attribute name')
        if len(a) < 3:
            return ex.getattr(ex.split(a[0]), n)
        try:
            return ex.getattr(ex.split(a[0]), n)
        except PyRaise as e:
            if ex.exc_match(e.exc, AttributeError):
                return a[2]
            raise

    def f_setattr(self, ex, a, k):
        n = ex.split(a[1])
        if not isinstance(n, str):
            raise Unsupported('symbolic attribute name')
        ex.setattr(ex.split(a[0]), n, a[2])

    def f_str(self, ex, a, k):
        return self.to_str(a[0]) if a else ''

    def f_repr(self, ex, a, k):
        return ex.fresh('str', 'repr')

    def f_bool(self, ex, a, k):
        return ex.boolv(ex.truth(a[0])) if a else False

    def f_int(self, ex, a, k):
        if not a:
            return 0
        v = ex.split(a[0])
        if len(a) > 1:
            raise Unsupported('int with base')
        if isinstance(v, (bool, int, float)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                ex.raise_(ValueError)
        if isinstance(v, T):
            if v.kind == 'int':
                return v
            if v.kind == 'bool':
                return T('int', ex.term(v, 'int'))
            if v.kind == 'real':
                # towards zero
                return T('int', z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            # text: an integer or ValueError
            ok = self.uf('str_is_int', [v], 'bool').t
            if not ex.opaque:
                self.digits_ok(v.t, z3.Plus(z3.Range('0', '9')), ok)
            if not ex.branch(ok):
                ex.raise_(ValueError)
            return self.uf('str_to_int', [v], 'int')
        if isinstance(v, Opaque):
            h = ex.ext.get('int:' + v.tag)
            if h:
                return h(ex, v)
        ex.raise_(TypeError)

    def digits_ok(self, t, r, ok):
        from .externals import decide, atoms
        d = decide(self.ex, atoms(t), r)
        if d is not False:
            self.ex.assume(ok if d else z3.Implies(z3.InRe(t, r), ok))

    def f_float(self, ex, a, k):
        v = ex.split(a[0]) if a else 0.0
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                ex.raise_(ValueError)
        if isinstance(v, T):
            if v.kind in ('int', 'bool', 'real'):
                return T('real', ex.term(v, 'real'))
            ok = self.uf('str_is_float', [v], 'bool').t
            if not ex.opaque:
                dig = z3.Range('0', '9')
                self.digits_ok(v.t, z3.Union(z3.Concat(z3.Plus(dig), z3.Option(z3.Concat(z3.Re('.'), z3.Star(dig)))),
                                             z3.Concat(z3.Re('.'), z3.Plus(dig))), ok)
            if not ex.branch(ok):
                ex.raise_(ValueError)
            return self.uf('str_to_float', [v], 'real')
        ex.raise_(TypeError)

    def f_abs(self, ex, a, k):
        v = ex.split(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, T) and v.kind in ('int', 'real'):
            return T(v.kind, z3.If(v.t >= 0, v.t, -v.t))
        ex.raise_(TypeError)

    def minmax(self, ex, a, k, op):
        items = self.concrete_items(a[0]) if len(a) == 1 else a
        if 'key' in k:
            raise Unsupported('min/max with key')
        if not items:
            if 'default' in k:
                return k['default']
            ex.raise_(ValueError)
        r = ex.split(items[0])
        for x in items[1:]:
            x = ex.split(x)
            g = ex.less(op, x, r)
            if g is True:
                r = x
            elif g is not False:
                r = ex.merge_vals([(B(g), x), (B(simp_not(g)), r)])
                if isinstance(r, U):
                    r = ex.split(r)
        return r

    def f_min(self, ex, a, k):
        return self.minmax(ex, a, k, '<')

    def f_max(self, ex, a, k):
        return self.minmax(ex, a, k, '>')

    def f_sum(self, ex, a, k):
        r = 0
        for x in self.concrete_items(a[0]):
            r = self.arith(ast.Add, r, ex.split(x))
        return r

    def f_sorted(self, ex, a, k):
        return self.sorted_(self.items_of(a[0]), k.get('key'), k.get('reverse', False))

    def f_reversed(self, ex, a, k):
        v = ex.split(a[0])
        if isinstance(v, Oid) and isinstance(ex.cell(v), ObjCell) and self.base(v)[0] is v:
            raise Unsupported('reversed of an object')
        src = self.items_of(v)
        if src[0] == 'list':
            return ex.alloc(IterCell(('list', list(reversed(src[1]))), 0))
        return ex.alloc(IterCell(('seq', self.reverse_seq(src[1])), 0))

    def f_iter(self, ex, a, k):
        if len(a) > 1:
            raise Unsupported('iter with sentinel')
        return self.make_iter(ex.split(a[0]))

    def f_next(self, ex, a, k):
        it = ex.split(a[0])
        if not isinstance(it, Oid) or not isinstance(ex.cell(it), IterCell):
            raise Unsupported('next of %r' % (it,))
        c = ex.cell(it)
        if c.src[0] == 'list':
            while c.pos < len(c.src[1]):
                g, v = c.src[1][c.pos]
                c.pos += 1
                if g is True or ex.branch(g):
                    return v
        else:
            s = c.src[1]
            p = c.pos if is_z3(c.pos) else z3.IntVal(c.pos)
            if len(a) > 1:
                # merged: value or default
                g = p < z3.Length(s.t)
                c.pos = z3.If(g, p + 1, p)
                return ex.merge_vals([(g, ex.wrap(s.ek, s.t[p])), (z3.Not(g), a[1])])
            if ex.branch(p < z3.Length(s.t)):
                c.pos = p + 1
                return ex.wrap(s.ek, s.t[p])
        if len(a) > 1:
            return a[1]
        ex.raise_(StopIteration)

    def f_list(self, ex, a, k):
        if not a:
            return ex.new_list()
        v = ex.split(a[0])
        src = self.items_of(v)
        if src[0] == 'list':
            return ex.alloc(ListCell(list(src[1])))
        return ex.alloc(ListCell(None, src[1]))

    def f_tuple(self, ex, a, k):
        return tuple(self.concrete_items(a[0])) if a else ()

    def f_dict(self, ex, a, k):
        d = ex.new_dict()
        if a:
            self.dict_update(d, a[0])
        for kk, v in k.items():
            if kk == '**':
                src = self.base(ex.split(v))[1]
                for n in k:
                    if n != '**' and ex.branch(B(self.has_key(src, n))):
                        ex.raise_(TypeError)
                self.dict_update(d, v)
            else:
                self.dict_set(ex.cell(d), kk, v)
        return d

    def f_set(self, ex, a, k):
        s = ex.new_set()
        if a:
            src = self.items_of(a[0])
            if src[0] == 'list':
                for g, x in src[1]:
                    if g is True or ex.branch(g):
                        self.set_add(s, x)
            else:
                q = src[1]
                arr = z3.Const(ex.fresh_name('setof'), z3.ArraySort(ex.sort(q.ek), z3.BoolSort()))
                x = z3.Const(ex.fresh_name('x'), ex.sort(q.ek))
                i = z3.Int(ex.fresh_name('i'))
                ex.assume(z3.ForAll([x], z3.Select(arr, x) == z3.Contains(q.t, z3.Unit(x))))
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z3.Length(q.t)), z3.Select(arr, q.t[i]))))
                ex.cell(s).sym, ex.cell(s).entries = (arr, q.ek), None
        return s

    f_frozenset = f_set

    def f_range(self, ex, a, k):
        a = [ex.split(x) for x in a]
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) > 2000:
                raise Unsupported('long range')
            return ex.new_list(list(r))
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2 and a[2] == -1:
            l, h = ex.term(lo, 'int'), ex.term(hi, 'int')
            n = z3.simplify(l - h)
            if not (z3.is_app(n) and n.decl().name() == 'seq.len'):
                n = z3.If(l > h, l - h, z3.IntVal(0))
            return Opaque('$range', (l, n, ex.fresh_seq('int', 'range'), -1))
        if len(a) > 2 and a[2] != 1:
            raise Unsupported('range with step')
        l, h = ex.term(lo, 'int'), ex.term(hi, 'int')
        n = h if lo == 0 else z3.simplify(h - l)
        if not (z3.is_app(n) and n.decl().name() == 'seq.len'):
            n = z3.If(h > l, h - l, z3.IntVal(0))
        return Opaque('$range', (z3.simplify(l), n, ex.fresh_seq('int', 'range')))

    def range_items(self, r):
        l, n, s = r.data[:3]
        d = -1 if len(r.data) > 3 else 1
        i = z3.Int(self.ex.fresh_name('i'))
        self.ex.assume(z3.Length(s.t) == n)
        self.ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), s.t[i] == l + d * i)))
        return ('seq', s)

    def int_value(self, a, i):
        return T('int', z3.simplify(self.ex.term(a, 'int') + i))

    def f_enumerate(self, ex, a, k):
        start = ex.split(a[1] if len(a) > 1 else k.get('start', 0))
        v = ex.split(a[0])
        if not (isinstance(start, int) or isinstance(start, T) and start.kind == 'int'):
            raise Unsupported('enumerate from %r' % (start,))
        if isinstance(v, Oid) and isinstance(ex.cell(v), IterCell) and ex.cell(v).src[0] == 'seq':
            raise Unsupported('enumerate of an iterator')
        if isinstance(v, Opaque) and v.tag != '$range':
            return Opaque('$enumerate', (v, start))
        src = self.items_of(v)
        if src[0] != 'list':
            return Opaque('$enumerate', (src[1], start))
        if not isinstance(start, int):
            raise Unsupported('enumerate from %r' % (start,))
        items = [w for g, w in src[1] if g is True or ex.branch(g)]
        return ex.new_list([(start + i, w) for i, w in enumerate(items)])

    def f_zip(self, ex, a, k):
        srcs = [self.items_of(x) for x in a]
        if srcs and all(q[0] == 'seq' for q in srcs):
            return Opaque('$zip', [q[1] for q in srcs])
        if any(q[0] == 'seq' for q in srcs):
            raise Unsupported('zip of symbolic and other sequences')
        cols = [[w for g, w in q[1] if g is True or ex.branch(g)] for q in srcs]
        return ex.new_list([tuple(t) for t in zip(*cols)])

    def f_any(self, ex, a, k):
        src = self.items_of(a[0])
        if src[0] != 'list':
            raise Unsupported('any of a symbolic sequence')
        return ex.boolv(simp_or(*[simp_and(g, ex.truth(v)) for g, v in src[1]]))

    def f_all(self, ex, a, k):
        src = self.items_of(a[0])
        if src[0] != 'list':
            raise Unsupported('all of a symbolic sequence')
        return ex.boolv(simp_and(*[simp_imp(g, ex.truth(v)) for g, v in src[1]]))

    def f_print(self, ex, a, k):
        return None

    def f_type(self, ex, a, k):
        v = ex.split(a[0])
        ci = ex.class_of(v)
        if isinstance(ci, ClassInfo):
            return ClassV(ci)
        raise Unsupported('type()')

    def f_open(self, ex, a, k):
        return self.call_ext('open', a, k)

    def f_id(self, ex, a, k):
        raise Unsupported('id')

    def f_callable(self, ex, a, k):
        return isinstance(ex.split(a[0]), (Func, Bound, Builtin, ClassV, Ext))

    def f_map(self, ex, a, k):
        return ex.new_list([ex.call(a[0], [x], {}) for x in self.concrete_items(a[1])])

    def f_filter(self, ex, a, k):
        out = []
        for x in self.concrete_items(a[1]):
            r = ex.call(a[0], [x], {}) if a[0] is not None else x
            if ex.branch(ex.truth(r)):
                out.append(x)
        return ex.new_list(out)


class RAISE_:
    pass


RAISE = RAISE_()


class SymKey:
    pass


class NoSectionError(Exception):
    pass


class HTTPException(Exception):
    pass


class DistutilsError(Exception):
    pass


class DistutilsFileError(DistutilsError):
    pass


class NoOptionError(Exception):
    pass


class DictViewCell(Cell):
    pass
