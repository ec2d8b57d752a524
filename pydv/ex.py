"""Symbolic interpreter: forward execution of the real AST, with merging.

Paths are enumerated by re-execution inside small units (an if statement, a
call, a try, one loop body), whose outcomes are merged again where possible.
"""
import ast
import fractions
import time
import z3

from . import solver
from .values import *
from .project import FuncInfo, ClassInfo

CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


class Frame:
    def __init__(self, fi, module, locals=None, closure=None, cls=None):
        self.fi, self.module, self.locals, self.closure, self.cls = fi, module, locals or {}, closure, cls

    def copy(self):
        return Frame(self.fi, self.module, dict(self.locals), self.closure, self.cls)


class State:
    def __init__(self):
        self.heap, self.frames, self.pc, self.n = {}, [], [], 0
        self.ghost, self.fields, self.globals = {}, {}, {}

    def copy(self):
        s = State()
        s.heap = {k: c.copy() for k, c in self.heap.items()}
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.n = self.n
        s.ghost, s.fields, s.globals = dict(self.ghost), dict(self.fields), dict(self.globals)
        return s


class Path:
    def __init__(self, prefix):
        self.prefix, self.pos, self.alts, self.unit_no = list(prefix), 0, [], 0
        self.cache = None


class MergeFail(Exception):
    pass


def qf_only(t, _memo={}):
    """True if t has no quantifier (used to keep feasibility queries cheap)."""
    k = t.get_id()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        stack.extend(x.children())
    return True


class Obl:
    """A proof obligation: assumptions |- goal."""

    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where
        self.status = self.backend = self.reason = None
        self.time = 0.0
        self.model = None


def same(v, w):
    if v is w:
        return True
    if isinstance(v, T) and isinstance(w, T):
        return v.kind == w.kind and v.t.eq(w.t)
    if isinstance(v, Oid) and isinstance(w, Oid):
        return v.id == w.id
    if isinstance(v, Ref) and isinstance(w, Ref):
        return v.t.eq(w.t)
    if isinstance(v, RefDict) and isinstance(w, RefDict):
        return v.prefix == w.prefix and same(v.ref, w.ref)
    if isinstance(v, Seq) and isinstance(w, Seq):
        return v.ek == w.ek and v.t.eq(w.t)
    if isinstance(v, tuple) and isinstance(w, tuple):
        return len(v) == len(w) and all(same(a, b) for a, b in zip(v, w))
    if isinstance(v, U) and isinstance(w, U):
        return len(v.alts) == len(w.alts) and all(
            same_g(a[0], b[0]) and same(a[1], b[1]) for a, b in zip(v.alts, w.alts))
    if isinstance(v, Func) and isinstance(w, Func):
        return v.fi is w.fi and v.closure == w.closure
    if isinstance(v, Bound) and isinstance(w, Bound):
        return same(v.self, w.self) and same(v.func, w.func)
    if isinstance(v, ClassV) and isinstance(w, ClassV):
        return v.ci is w.ci
    if isinstance(v, (Ext, Mod)) and type(v) is type(w):
        return v.name == w.name
    if isinstance(v, Builtin) and isinstance(w, Builtin):
        return v.name == w.name and v.fn is w.fn
    if isinstance(v, Opaque) and isinstance(w, Opaque):
        return v.tag == w.tag and (v.data is w.data or (
            type(v.data) is type(w.data) and isinstance(v.data, tuple) and same(v.data, w.data)))
    if isinstance(v, Exc) and isinstance(w, Exc):
        return v.cls is w.cls
    if z3.is_expr(v) if is_z3(v) else False:
        return is_z3(w) and v.eq(w)
    if type(v) is type(w) and isinstance(v, (int, str, bool, float, bytes, type(None), frozenset)):
        return v == w
    return False


def same_g(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return a is True and b is True


def consumes(f):
    """Whether a call of f goes through all of an argument at once (so that a generator can be evaluated before)."""
    if isinstance(f, Bound):
        f = f.func
    return isinstance(f, Builtin) and f.name.split()[-1] in ('join', 'list', 'tuple', 'set', 'frozenset', 'dict', 'sum', 'sorted', 'min',
                                                 'max', 'extend', 'update')


class Ex:
    def __init__(self, project, opaque=True, reftypes=None, models=None, ext=None,
                 feas_ms=300, deadline=None):
        self.project = project
        self.opaque = opaque
        self.reftypes = reftypes or {}
        self.top0 = z3.Int('top0')
        self.models = models or {}      # contracts used at call sites, by function key
        self.ext = ext or {}            # trusted models of external functions
        self.SS = z3.RealSort() if opaque else z3.StringSort()
        self.st = State()
        if self.reftypes:
            self.st.ghost['_top'] = T('int', self.top0)
        self.cur = None
        self.obls = []
        self.recording = True
        self.feas_ms = feas_ms
        self.lits = {}
        self.used = set()               # functions whose real body was interpreted
        self.used_models = set()
        self.used_ext = set()
        self.loop_specs = []
        self.stats = {'paths': 0, 'feas': 0}
        self.deadline = deadline
        self.time_budget = deadline - time.time() if deadline else 0
        self.inv_portfolio = True
        self.loop_cache = {}
        self.consumed = set()
        self.desugared = {}
        self.line = None
        self.depth = 0
        self.axioms = []                # globally valid facts (spec function definitions)
        self.feas_cache = {}
        self.loop_notes = []
        self.iterating = []
        self.in_for = False
        self.splits = {}
        self.classes = {}               # string constants of which a regular expression is known
        self.lazy_memo = {}
        self.lazy = {}                  # facts about them, used where they meet operations on strings
        self.prune = True
        self.merging = True
        self.inline_limit = 60
        from . import builtins as bi
        self.bi = bi.Builtins(self)

    # ------------------------------------------------------------ basics
    def fresh_name(self, base):
        self.st.n += 1
        return '%s!%d' % (base, self.st.n)

    def sort(self, kind):
        if kind == 'str':
            return self.SS
        if kind == 'int' or isinstance(kind, tuple) or kind == 'ref':
            return z3.IntSort()
        if kind == 'real':
            return z3.RealSort()
        if kind == 'bool':
            return z3.BoolSort()
        raise Unsupported('sort %r' % (kind,))

    def wrap(self, kind, t):
        """z3 term of an element kind -> value."""
        if isinstance(kind, tuple):
            return Ref(t, kind[1])
        return T(kind, t)

    def fresh(self, kind, base='v'):
        return self.wrap(kind, z3.Const(self.fresh_name(base), self.sort(kind)))

    def fresh_seq(self, ek, base='s'):
        return Seq(z3.Const(self.fresh_name(base), z3.SeqSort(self.sort(ek))), ek)

    def fresh_opt(self, kind, base='o'):
        b = z3.Const(self.fresh_name(base + '_none'), z3.BoolSort())
        return U([(b, None), (z3.Not(b), self.fresh(kind, base))])

    def alloc(self, cell):
        self.st.n += 1
        oid = Oid(self.st.n)
        self.st.heap[oid.id] = cell
        return oid

    def cell(self, oid):
        return self.st.heap[oid.id]

    def new_list(self, items=()):
        return self.alloc(ListCell([(True, v) for v in items]))

    def new_dict(self, pairs=()):
        return self.alloc(DictCell({k: (True, v) for k, v in pairs}))

    def new_set(self, items=()):
        return self.alloc(SetCell({k: True for k in items}))

    def lit(self, s):
        if not self.opaque:
            return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))
        if s not in self.lits:
            self.lits[s] = z3.Real('lit:%r' % s)
        return self.lits[s]

    def lit_axioms(self):
        ks = sorted(self.lits)
        return [self.lits[a] < self.lits[b] for a, b in zip(ks, ks[1:])]

    def kind(self, v):
        if isinstance(v, T):
            return v.kind
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'real'
        if isinstance(v, str):
            return 'str'
        if v is None:
            return 'none'
        if isinstance(v, Ref):
            return 'ref'
        return type(v).__name__

    def term(self, v, kind=None):
        """z3 term of a scalar value (of the given kind, with numeric widening)."""
        k = self.kind(v)
        if isinstance(v, T):
            t = v.t
        elif isinstance(v, bool):
            t = z3.BoolVal(v)
        elif isinstance(v, int):
            t = z3.IntVal(v)
        elif isinstance(v, float):
            if v in (float('inf'), float('-inf')) or v != v:
                raise Unsupported('non-finite float')
            f = fractions.Fraction(v)
            t = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        elif isinstance(v, str):
            t = self.lit(v)
        elif isinstance(v, Ref):
            t = v.t
            if kind is None or isinstance(kind, tuple) or kind == 'ref':
                return t
        else:
            raise Unsupported('no term for %r' % (v,))
        if kind is None or kind == k:
            return t
        if k == 'bool' and kind in ('int', 'real'):
            t, k = z3.If(t, z3.IntVal(1), z3.IntVal(0)), 'int'
            if kind == 'int':
                return t
        if k == 'int' and kind == 'real':
            return z3.ToReal(t)
        raise Unsupported('kind %s used as %s' % (k, kind))

    # ------------------------------------------------------------ paths
    def hyps(self):
        return [t for _, t in self.st.pc]

    def lazy_facts(self, terms):
        """Facts of the string constants that occur in these terms below an operation on strings."""
        if not self.lazy:
            return []
        found = {}
        for t in terms:
            c = self.lazy_memo.get(t.get_id())
            if c is None:
                out, seen, stack = set(), set(), [(t, False)]
                while stack:
                    x, inside = stack.pop()
                    k = (x.get_id(), inside)
                    if k in seen:
                        continue
                    seen.add(k)
                    if z3.is_quantifier(x):
                        stack.append((x.body(), inside))
                        continue
                    if not z3.is_app(x):
                        continue
                    if inside and x.get_id() in self.lazy:
                        out.add(x.get_id())
                    op = x.decl().kind() != z3.Z3_OP_UNINTERPRETED and any(z3.is_string(y) for y in x.children())
                    for y in x.children():
                        stack.append((y, z3.is_string(y) and (op or inside and x.decl().kind() != z3.Z3_OP_UNINTERPRETED)))
                c = self.lazy_memo[t.get_id()] = (out, t)
            for k in c[0]:
                found[k] = self.lazy[k][1]
        return [f for fs in found.values() for f in fs]

    def assume(self, g, dec=False):
        if g is True or (is_z3(g) and z3.is_true(g)):
            return
        if g is False or (is_z3(g) and z3.is_false(g)):
            raise Infeasible()
        self.st.pc.append(('d' if dec else 'a', g))

    def feasible(self, g=True):
        if g is False or (is_z3(g) and z3.is_false(g)):
            return False
        if not self.prune:
            return True
        if self.deadline and time.time() > self.deadline + (min(solver.stretch(), 1.5) - 1) * self.time_budget:
            raise Unsupported('time budget exhausted')
        terms = [t for _, t in self.st.pc] + ([g] if g is not True else [])
        key = frozenset(t.get_id() for t in terms)
        r = self.feas_cache.get(key)
        if r is not None:
            return r[0]
        self.stats['feas'] += 1
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        for t in self.lit_axioms():
            s.add(t)
        for t in terms:
            if qf_only(t):
                s.add(t)
        for t in self.lazy_facts(terms):
            s.add(t)
        res = solver.guarded(s, self.feas_ms) != z3.unsat
        self.feas_cache[key] = (res, terms)   # keeps terms alive so that ids stay unique
        return res

    def branch(self, g):
        """Decide a condition on this path."""
        if g is True or g is False:
            return g
        g = z3.simplify(g) if is_z3(g) else g
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return self.choose([g, z3.Not(g)]) == 0

    def choose(self, guards):
        p = self.cur
        if p is None:
            raise RuntimeError('branch outside exploration')
        if p.pos < len(p.prefix):
            c = p.prefix[p.pos]
            p.pos += 1
            self.assume(guards[c], dec=True)
            return c
        ok = [i for i, g in enumerate(guards) if self.feasible(g)]
        if not ok:
            raise Infeasible()
        for i in reversed(ok[1:]):
            p.alts.append(p.prefix[:p.pos] + [i])
        c = ok[0]
        p.prefix.append(c)
        p.pos += 1
        self.assume(guards[c], dec=True)
        return c

    def choose2(self, name, n):
        """A nondeterministic choice of 0..n-1."""
        sel = z3.Int(self.fresh_name(name))
        return self.choose([sel == j for j in range(n)])

    def split(self, v):
        """Pick an alternative of a union on this path."""
        while isinstance(v, U):
            alts = [(g, w) for g, w in v.alts if g is not False]
            if len(alts) == 1:
                v = alts[0][1]
                continue
            v = alts[self.choose([B(g) for g, _ in alts])][1]
        if v is MISSING:
            self.raise_(UnboundLocalError)
        return v

    def explore(self, thunk):
        base = self.st.copy()
        results, work, cache = [], [[]], {}
        saved = self.cur
        while work:
            prefix = work.pop()
            self.st = base.copy()
            self.cur = Path(prefix)
            self.cur.cache = cache
            self.stats['paths'] += 1
            if self.stats['paths'] > 60000:
                raise Unsupported('too many paths')
            try:
                try:
                    out = ('ok', thunk())
                except PyRaise as e:
                    out = ('raise', e.exc)
                except Ret as e:
                    out = ('return', e.val)
                except Brk:
                    out = ('break', None)
                except Cnt:
                    out = ('continue', None)
                except Infeasible:
                    out = None
            finally:
                path, self.cur = self.cur, saved
            work.extend(path.alts)
            if out is not None:
                results.append((self.st, out))
        self.st = base
        return results

    def unit(self, thunk):
        """Explore thunk, merge outcomes, continue with one of them."""
        p = self.cur
        p.unit_no += 1
        key = (tuple(p.prefix[:p.pos]), p.unit_no)
        if key in p.cache:
            merged = p.cache[key]
        else:
            base = self.st.copy()
            merged = self.merge(base, self.explore(thunk))
            if p.pos >= len(p.prefix):
                p.cache[key] = merged
            else:
                p.cache[key] = merged
        if not merged:
            raise Infeasible()
        if len(merged) == 1:
            i = 0
        else:
            i = self.choose([m[0] for m in merged])
            self.st.pc.pop()  # the guard is part of the outcome's own path condition
        st = merged[i][1].copy()
        self.st = st
        kind, val = merged[i][2]
        if kind == 'ok':
            return val
        if kind == 'raise':
            raise PyRaise(val)
        if kind == 'return':
            raise Ret(val)
        if kind == 'break':
            raise Brk()
        raise Cnt()

    # ------------------------------------------------------------ merging
    def merge(self, base, results):
        """[(guard, state, outcome)] after merging what can be merged."""
        nb = len(base.pc)
        items = []
        for st, out in results:
            extra = st.pc[nb:]
            g = simp_and(*[t for k, t in extra if k == 'd'])
            items.append((B(g), st, out))
        if len(items) <= 1 or not self.merging:
            return items
        groups, order = {}, []
        for it in items:
            kind, val = it[2]
            k = (kind, val.name if kind == 'raise' else None)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(it)
        out = []
        for k in order:
            grp = groups[k]
            if len(grp) == 1:
                out.append(grp[0])
                continue
            try:
                out.append(self.merge_group(base, grp, len(groups) == 1))
            except MergeFail:
                # merge what can be merged pairwise
                done = []
                for it in grp:
                    for i, d in enumerate(done):
                        try:
                            done[i] = self.merge_group(base, [d, it], False)
                            break
                        except MergeFail:
                            pass
                    else:
                        done.append(it)
                out.extend(done)
        return out

    def merge_group(self, base, grp, complete):
        nb = len(base.pc)
        gs = [g for g, _, _ in grp]
        sts = [s for _, s, _ in grp]
        kind = grp[0][2][0]
        new = base.copy()
        new.n = max(s.n for s in sts)
        heap = {}
        for s in sts:
            for oid in s.heap:
                heap.setdefault(oid, []).append(s)
        new.heap = {}
        for oid, having in heap.items():
            if len(having) == 1:
                new.heap[oid] = having[0].heap[oid].copy()
            else:
                # an object of the same number made in two branches is one object only
                # if it is of the same shape; otherwise give up
                hs = [(g, s.heap[oid]) for g, s in zip(gs, sts) if oid in s.heap]
                new.heap[oid] = self.merge_cells(hs)
        for d, f in enumerate(new.frames):
            names = []
            for s in sts:
                for nm in s.frames[d].locals:
                    if nm not in names:
                        names.append(nm)
            f.locals = {nm: self.merge_vals([(g, s.frames[d].locals.get(nm, MISSING)) for g, s in zip(gs, sts)])
                        for nm in names}
        for attr in {a for s in sts for a in s.fields}:
            vs = [(g, s.fields[attr]) for g, s in zip(gs, sts) if attr in s.fields]
            new.fields[attr] = self.ite_terms(vs)
        for nm in {a for s in sts for a in s.ghost}:
            new.ghost[nm] = self.merge_vals([(g, s.ghost.get(nm, MISSING)) for g, s in zip(gs, sts)])
        for nm in {a for s in sts for a in s.globals}:
            new.globals[nm] = self.merge_vals([(g, s.globals[nm]) for g, s in zip(gs, sts) if nm in s.globals])
        if kind in ('ok', 'return'):
            val = self.merge_vals([(g, o[1]) for g, _, o in grp])
        elif kind == 'raise':
            val = grp[0][2][1]
            if not all(same_args(val, o[1]) for _, _, o in grp):
                val = Exc(val.cls, None)
        else:
            val = None
        # facts
        common = 0
        for g, s in zip(gs, sts):
            for k, t in s.pc[nb:]:
                if k == 'a':
                    new.pc.append(('a', z3.Implies(g, t)))
        gor = B(simp_or(*gs))
        gor = z3.simplify(gor) if not complete else gor
        if not complete:
            if not z3.is_true(gor):
                new.pc.append(('d', gor))
        else:
            if any(k == 'd' and is_exit(t) for st in sts for k, t in st.pc[nb:]):
                # the ways out of a loop are not exhaustive conditions of earlier values: one of them was taken
                new.pc.append(('a', gor))
            gor = z3.BoolVal(True)
        return (gor, new, (kind, val))

    def ite_terms(self, vs):
        r = vs[-1][1]
        for g, t in reversed(vs[:-1]):
            if not t.eq(r):
                r = z3.If(g, t, r)
        return r

    def merge_vals(self, gvs):
        first = gvs[0][1]
        if all(same(first, v) for _, v in gvs[1:]):
            return first
        flat = []
        for g, v in gvs:
            if isinstance(v, U):
                flat += [(simp_and(g, h), w) for h, w in v.alts]
            else:
                flat.append((g, v))
        classes = []   # [key, [(g, v)]]
        for g, v in flat:
            for c in classes:
                if self.mergeable(c[1][0][1], v):
                    c[1].append((g, v))
                    break
            else:
                classes.append([None, [(g, v)]])
        alts = []
        for _, items in classes:
            g = simp_or(*[x for x, _ in items])
            alts.append((g, self.merge_class(items)))
        if len(alts) == 1:
            return alts[0][1]
        return U(alts)

    def mergeable(self, v, w):
        if same(v, w):
            return True
        sc = ('bool', 'int', 'real', 'str')
        kv, kw = self.kind(v), self.kind(w)
        if kv in sc and kv == kw:
            return True
        if isinstance(v, Ref) and isinstance(w, Ref):
            return v.cls == w.cls
        if isinstance(v, Seq) and isinstance(w, Seq):
            return v.ek == w.ek
        if isinstance(v, tuple) and isinstance(w, tuple):
            return len(v) == len(w)
        if is_z3(v) and is_z3(w):
            return v.sort().eq(w.sort())
        return False

    def merge_class(self, items):
        v = items[0][1]
        if all(same(v, w) for _, w in items[1:]):
            return v
        if isinstance(v, tuple):
            return tuple(self.merge_vals([(g, w[i]) for g, w in items]) for i in range(len(v)))
        if isinstance(v, Ref):
            return Ref(self.ite_terms([(g, w.t) for g, w in items]), v.cls)
        if isinstance(v, Seq):
            return Seq(self.ite_terms([(g, w.t) for g, w in items]), v.ek)
        if is_z3(v):
            return self.ite_terms(items)
        k = self.kind(v)
        return T(k, self.ite_terms([(g, self.term(w)) for g, w in items]))

    def merge_cells(self, hs):
        c0 = hs[0][1]
        if any(type(c) is not type(c0) for _, c in hs):
            raise MergeFail()
        if isinstance(c0, ObjCell):
            if any(c.cls is not c0.cls or not same(c.base, c0.base) for _, c in hs):
                raise MergeFail()
            names = []
            for _, c in hs:
                for nm in c.attrs:
                    if nm not in names:
                        names.append(nm)
            return ObjCell(c0.cls, {nm: self.merge_vals([(g, c.attrs.get(nm, MISSING)) for g, c in hs])
                                    for nm in names}, c0.base)
        if isinstance(c0, ListCell):
            if all(c.items is not None for _, c in hs):
                n = 0
                while all(len(c.items) > n for _, c in hs) and all(
                        same_g(c.items[n][0], c0.items[n][0]) and same(c.items[n][1], c0.items[n][1]) for _, c in hs):
                    n += 1
                items = list(c0.items[:n])
                # same length: merge position by position
                if all(len(c.items) == len(c0.items) and all(x[0] is True for x in c.items[n:]) for _, c in hs):
                    for i in range(n, len(c0.items)):
                        items.append((True, self.merge_vals([(g, c.items[i][1]) for g, c in hs])))
                    return ListCell(items)
                for g, c in hs:
                    for h, v in c.items[n:]:
                        items.append((simp_and(g, h), v))
                return ListCell(items)
            if all(c.seq is not None for _, c in hs) and all(c.seq.ek == c0.seq.ek for _, c in hs):
                return ListCell(None, Seq(self.ite_terms([(g, c.seq.t) for g, c in hs]), c0.seq.ek))
            eks = {c.seq.ek for _, c in hs if c.seq is not None}
            if len(eks) == 1:
                ek = eks.pop()
                if all(c.seq is not None or all(x[0] is True and self.encodable(x[1], ek) for x in c.items)
                       for _, c in hs):
                    return ListCell(None, Seq(self.ite_terms([(g, self.seq_of(c, ek).t) for g, c in hs]), ek))
            raise MergeFail()
        if isinstance(c0, DictCell):
            if all(c.entries is not None for _, c in hs):
                keys = []
                for _, c in hs:
                    pos = 0
                    for k in c.entries:
                        if k in keys:
                            i = keys.index(k)
                            if i < pos:
                                raise MergeFail()
                            pos = i + 1
                        else:
                            keys.insert(pos, k)
                            pos += 1
                ent = {}
                for k in keys:
                    have = [(g, c.entries[k]) for g, c in hs if k in c.entries]
                    if len(have) == len(hs) and all(same_g(e[0], have[0][1][0]) for _, e in have):
                        grd = have[0][1][0]
                        if all(same(e[1], have[0][1][1]) for _, e in have):
                            ent[k] = have[0][1]
                            continue
                    else:
                        grd = simp_or(*[simp_and(g, e[0]) for g, e in have])
                    ent[k] = (grd, self.merge_vals([(simp_and(g, e[0]), e[1]) for g, e in have]))
                return DictCell(ent)
            if all(c.sym is not None and c.sym[2:] == c0.sym[2:] for _, c in hs):
                dom = self.ite_terms([(g, c.sym[0]) for g, c in hs])
                val = self.ite_terms([(g, c.sym[1]) for g, c in hs])
                order = None
                if all(c.order is not None for _, c in hs):
                    order = Seq(self.ite_terms([(g, c.order.t) for g, c in hs]), c0.order.ek)
                return DictCell(None, (dom, val) + tuple(c0.sym[2:]), order)
            raise MergeFail()
        if isinstance(c0, SetCell):
            if all(c.entries is not None for _, c in hs):
                keys = []
                for _, c in hs:
                    keys += [k for k in c.entries if k not in keys]
                ent = {}
                for k in keys:
                    if all(k in c.entries and same_g(c.entries[k], c0.entries.get(k)) for _, c in hs):
                        ent[k] = c0.entries[k]
                    else:
                        ent[k] = simp_or(*[simp_and(g, c.entries[k]) for g, c in hs if k in c.entries])
                return SetCell(ent)
            kks = {c.sym[1] for _, c in hs if c.sym is not None}
            if len(kks) == 1:
                kk = kks.pop()
                return SetCell(None, (self.ite_terms([(g, self.set_array(c, kk)) for g, c in hs]), kk))
            raise MergeFail()
        if isinstance(c0, IterCell):
            if all(c.src is c0.src or (c.src[0] == c0.src[0] == 'seq' and same(c.src[1], c0.src[1])) for _, c in hs):
                if all(c.pos is c0.pos or (not is_z3(c.pos) and c.pos == c0.pos) for _, c in hs):
                    return c0.copy()
                if c0.src[0] == 'seq':
                    return IterCell(c0.src, self.ite_terms(
                        [(g, c.pos if is_z3(c.pos) else z3.IntVal(c.pos)) for g, c in hs]))
            raise MergeFail()
        raise MergeFail()

    # ------------------------------------------------------------ sequences and sets as terms
    def encodable(self, v, ek):
        if isinstance(ek, tuple):
            return isinstance(v, Ref) and v.cls == ek[1]
        return self.kind(v) == ek

    def ek_of(self, v):
        if isinstance(v, Ref):
            return ('ref', v.cls)
        k = self.kind(v)
        if k in ('int', 'real', 'bool', 'str'):
            return k
        if isinstance(v, Oid):
            c = self.cell(v)
            if isinstance(c, ObjCell) and isinstance(c.cls, ClassInfo) and c.cls.name in self.reftypes:
                return ('ref', c.cls.name)
            if isinstance(c, DictCell) and 'dict' in self.reftypes:
                return ('ref', 'dict')
        raise Unsupported('no element kind for %r' % (v,))

    def seq_of(self, c, ek=None):
        if isinstance(c, Seq):
            return c
        if c.seq is not None:
            return c.seq
        if ek is None:
            if not c.items:
                raise Unsupported('element kind of empty list unknown')
            ek = self.ek_of(c.items[0][1])
        s = z3.SeqSort(self.sort(ek))
        parts = []
        for n in range(len(c.items)):
            g, v = c.items[n]
            if isinstance(v, Oid) and isinstance(ek, tuple):
                v = self.materialise(v, ek[1])
            u = z3.Unit(self.term(v, ek))
            parts.append(u if g is True else z3.If(g, u, z3.Empty(s)))
        if not parts:
            return Seq(z3.Empty(s), ek)
        return Seq(z3.Concat(*parts) if len(parts) > 1 else parts[0], ek)

    def top(self):
        """Next unused number of an object; every object there is has a smaller one."""
        if '_top' not in self.st.ghost:
            self.st.ghost['_top'] = T('int', z3.Int('top0'))
        return self.st.ghost['_top']

    def materialise(self, oid, cls):
        """Turn a new object of the heap into an element of a symbolic collection (a Ref); all mentions follow."""
        c = self.cell(oid)
        if isinstance(c, DictCell) and cls == 'dict':
            d = c.copy()
            self.bi.to_sym_dict(d, 'str', 'str')
            if d.sym[2:] != ('str', 'str'):
                raise Unsupported('dict of other kinds put in a symbolic collection')
            t = self.top()
            ref = Ref(t.t, cls)
            self.st.ghost['_top'] = T('int', t.t + 1)
            SS = self.SS
            self.st.fields['dict.dom'] = z3.Store(self.farr('dict', 'dom', '', z3.ArraySort(SS, z3.BoolSort())), t.t, d.sym[0])
            self.st.fields['dict.val'] = z3.Store(self.farr('dict', 'val', '', z3.ArraySort(SS, SS)), t.t, d.sym[1])
            self.substitute(oid, ref)
            return ref
        if not (isinstance(c, ObjCell) and isinstance(c.cls, ClassInfo) and c.cls.name == cls):
            raise Unsupported('%r as an element of %s' % (c, cls))
        types = self.reftypes[cls]
        for a in c.attrs:
            if a not in types:
                raise Unsupported('attribute %s of a %s put in a symbolic collection' % (a, cls))
        t = self.top()
        ref = Ref(t.t, cls)
        self.st.ghost['_top'] = T('int', t.t + 1)
        extra = {}
        for a, ty in types.items():
            if '.' in a or a.startswith('$'):
                continue
            if a not in c.attrs:
                f = c.cls.find(a)
                if f and f[0] == 'prop':
                    raise Unsupported('property %s as field' % a)
                v = None if f is None else self.obj_attr(oid, c, a)
                if f is None:
                    raise Unsupported('%s of a %s is not set' % (a, cls))
            else:
                v = c.attrs[a]
            if ty == 'extra':
                v = self.split(v)
                self.st.fields['%s.%s?' % (cls, a)] = z3.Store(self.farr(cls, a, '?', z3.BoolSort()), ref.t,
                                                              z3.BoolVal(v is None))
                if v is not None:
                    d = self.cell(v)
                    if not isinstance(d, DictCell) or d.entries is None:
                        raise Unsupported('dict of a symbolic object')
                    ents = d.entries
                else:
                    ents = {}
                for k in types:
                    if k.startswith(a + '.'):
                        g, w = ents.get(k[len(a) + 1:], (False, None))
                        key = '%s.%s!' % (cls, k)
                        self.st.fields[key] = z3.Store(self.farr(cls, k, '!', z3.BoolSort()), ref.t, B(g))
                        if w is not None or g is not False:
                            self.ref_enc(ref, k, types[k], w)
                for k in ents:
                    if '%s.%s' % (a, k) not in types:
                        raise Unsupported('key %s of a symbolic object' % (k,))
            else:
                self.ref_enc(ref, a, ty, v)
        self.substitute(oid, ref)
        return ref

    def substitute(self, oid, ref):
        def sub(v):
            if isinstance(v, Oid):
                return ref if v == oid else v
            if isinstance(v, tuple):
                return tuple(sub(x) for x in v)
            if isinstance(v, U):
                return U([(g, sub(w)) for g, w in v.alts])
            if isinstance(v, Bound):
                return Bound(sub(v.self), v.func)
            return v
        st = self.st
        for f in st.frames:
            for k, v in f.locals.items():
                f.locals[k] = sub(v)
        del st.heap[oid.id]
        for c in st.heap.values():
            if isinstance(c, ObjCell):
                for k, v in c.attrs.items():
                    c.attrs[k] = sub(v)
            elif isinstance(c, ListCell) and c.items is not None:
                c.items = [(g, sub(v)) for g, v in c.items]
            elif isinstance(c, DictCell) and c.entries is not None:
                c.entries = {k: (g, sub(v)) for k, (g, v) in c.entries.items()}
        for k, v in st.ghost.items():
            if not k.startswith('_'):
                st.ghost[k] = sub(v)

    def set_array(self, c, kk):
        if c.sym is not None:
            return c.sym[0]
        a = z3.K(self.sort(kk), z3.BoolVal(False))
        for k, g in c.entries.items():
            a = z3.Store(a, self.term(k, kk), B(g))
        return a

    # ------------------------------------------------------------ Refs
    def rtype(self, cls, attr):
        t = self.reftypes.get(cls, {})
        if attr not in t:
            return None
        return t[attr]

    def farr(self, cls, attr, part, sort):
        key = '%s.%s%s' % (cls, attr, part)
        if key not in self.st.fields:
            self.st.fields[key] = z3.Array('fld0:' + key, z3.IntSort(), sort)
        return self.st.fields[key]

    def ref_get(self, ref, attr):
        ty = self.rtype(ref.cls, attr)
        if ty is None:
            raise Unsupported('field %s of symbolic %s' % (attr, ref.cls))
        return self.ref_dec(ref, attr, ty)

    def ref_dec(self, ref, attr, ty):
        if isinstance(ty, tuple) and ty[0] == 'opt':
            none = z3.Select(self.farr(ref.cls, attr, '?', z3.BoolSort()), ref.t)
            v = self.ref_dec(ref, attr, ty[1])
            return U([(none, None), (z3.Not(none), v)])
        if ty == 'extra':
            none = z3.Select(self.farr(ref.cls, attr, '?', z3.BoolSort()), ref.t)
            return U([(none, None), (z3.Not(none), RefDict(ref, attr))])
        if isinstance(ty, tuple) and ty[0] == 'ref':
            return Ref(z3.Select(self.farr(ref.cls, attr, '', z3.IntSort()), ref.t), ty[1])
        if isinstance(ty, tuple) and ty[0] == 'seq':
            return Seq(z3.Select(self.farr(ref.cls, attr, '', z3.SeqSort(self.sort(ty[1]))), ref.t), ty[1])
        return T(ty, z3.Select(self.farr(ref.cls, attr, '', self.sort(ty)), ref.t))

    def ref_set(self, ref, attr, v):
        ty = self.rtype(ref.cls, attr)
        if ty is None:
            raise Unsupported('field %s of symbolic %s' % (attr, ref.cls))
        self.ref_enc(ref, attr, ty, v)

    def ref_enc(self, ref, attr, ty, v):
        key = '%s.%s' % (ref.cls, attr)

        def store(part, sort, t):
            a = self.farr(ref.cls, attr, part, sort)
            self.st.fields[key + part] = z3.Store(a, ref.t, t)
        if isinstance(ty, tuple) and ty[0] == 'opt':
            store('?', z3.BoolSort(), B(self.is_none(v)))
            vs = [(g, w) for g, w in (v.alts if isinstance(v, U) else [(True, v)]) if w is not None]
            if vs:
                inner = self.merge_vals([(B(g), w) for g, w in vs])
                self.ref_enc(ref, attr, ty[1], inner)
            return
        if isinstance(v, U):
            v = self.split(v)
        if isinstance(ty, tuple) and ty[0] == 'ref':
            if not isinstance(v, Ref):
                raise Unsupported('storing %r in a field of references' % (v,))
            return store('', z3.IntSort(), v.t)
        if isinstance(ty, str) and ty != 'extra':
            return store('', self.sort(ty), self.term(v, ty))
        raise Unsupported('storing %s.%s' % (ref.cls, attr))

    # ------------------------------------------------------------ exceptions
    def raise_(self, cls, *args):
        raise PyRaise(Exc(cls, tuple(args)))

    def where(self):
        f = self.st.frames[-1] if self.st.frames else None
        return '%s:%s' % (f.fi.key if f and f.fi else '?', self.line)

    def oblige(self, name, goal, where=None):
        """Record that goal has to be proved here; it is assumed afterwards."""
        goal = B(goal)
        if self.recording:
            self.obls.append(Obl(name, self.hyps() + list(self.axioms), goal, where or self.where()))
        self.assume(goal)

    # ------------------------------------------------------------ truth, equality, order
    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, U):
            return simp_or(*[simp_and(g, self.is_none(w)) for g, w in v.alts])
        return False

    def truth(self, v):
        """Term (or bool) for bool(v); may call __len__/__bool__."""
        if isinstance(v, U):
            if all(not isinstance(w, (Oid, Ref)) or not self.has_user_len(w) for _, w in v.alts):
                return simp_or(*[simp_and(g, self.truth(w)) for g, w in v.alts if w is not MISSING])
            return self.truth(self.split(v))
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, T):
            if v.kind == 'bool':
                return v.t
            if v.kind == 'str':
                return v.t != self.lit('')
            return v.t != 0
        if isinstance(v, Seq):
            return z3.Length(v.t) > 0
        if isinstance(v, Oid):
            c = self.cell(v)
            if isinstance(c, (ListCell, SetCell, DictCell)):
                return self.bi.nonempty(c)
            if isinstance(c, ObjCell):
                for nm in ('__bool__', '__len__'):
                    m = c.cls.find(nm) if isinstance(c.cls, ClassInfo) else None
                    if m and m[0] == 'method':
                        return self.truth(self.call(Bound(v, Func(m[1], cls=m[2])), [], {}))
                if c.base is not None:
                    return self.truth(c.base)
            return True
        if isinstance(v, Opaque) and v.tag == 'bytes':
            return z3.Length(v.data.t) > 0
        if isinstance(v, Ref) and v.cls in ('list', 'dict'):
            return self.truth(self.bi.ref_list(v)) if v.cls == 'list' else self.bi.unsup('truth of symbolic dict')
        return True

    def has_user_len(self, v):
        if isinstance(v, Oid):
            c = self.cell(v)
            if isinstance(c, ObjCell) and isinstance(c.cls, ClassInfo):
                m = c.cls.find('__len__') or c.cls.find('__bool__')
                return bool(m and m[0] == 'method')
        return False

    def eq(self, v, w):
        """Term or bool for v == w of builtin kinds (unions included)."""
        if isinstance(v, U):
            return simp_or(*[simp_and(g, self.eq(x, w)) for g, x in v.alts if x is not MISSING])
        if isinstance(w, U):
            return simp_or(*[simp_and(g, self.eq(v, x)) for g, x in w.alts if x is not MISSING])
        if v is None or w is None:
            return v is w
        num = ('bool', 'int', 'real')
        kv, kw = self.kind(v), self.kind(w)
        conc = (bool, int, float, str, bytes)
        if isinstance(v, conc) and isinstance(w, conc):
            return v == w
        if kv in num and kw in num:
            if kv == kw:
                return self.term(v) == self.term(w)
            k = 'real' if 'real' in (kv, kw) else 'int'
            return self.term(v, k) == self.term(w, k)
        if kv == 'str' and kw == 'str':
            v, w = self.term(v), self.term(w)
            if self.classes and (z3.is_string_value(v) or z3.is_string_value(w)):
                from .externals import atoms, decide
                v, w = (w, v) if z3.is_string_value(v) else (v, w)
                if decide(self, atoms(v), z3.Re(w)) is False:
                    return False
            return v == w
        if kv in num + ('str',) and kw in num + ('str',):
            return False
        if isinstance(v, tuple) and isinstance(w, tuple):
            if len(v) != len(w):
                return False
            return simp_and(*[self.eq(a, b) for a, b in zip(v, w)])
        if isinstance(v, Ref) and isinstance(w, Ref) and v.cls == w.cls:
            return v.t == w.t
        if isinstance(v, Oid) and isinstance(w, Oid):
            if v.id == w.id:
                return True
            return self.bi.container_eq(v, w)
        if isinstance(v, Opaque) and isinstance(w, Opaque):
            if v.tag == w.tag and isinstance(v.data, tuple) and isinstance(w.data, tuple) and len(v.data) == len(w.data):
                return simp_and(*[self.eq(a, b) for a, b in zip(v.data, w.data)])
        if isinstance(v, Opaque) or isinstance(w, Opaque):
            if same(v, w):
                return True
            raise Unsupported('equality of %r and %r' % (v, w))
        if same(v, w):
            return True
        scal = num + ('str',)
        if (kv in scal) != (kw in scal):
            return False
        if isinstance(v, (Oid, Ref, tuple)) and isinstance(w, (Oid, Ref, tuple)):
            return False
        if isinstance(v, (ClassV, Func, Ext)) or isinstance(w, (ClassV, Func, Ext)):
            return False
        raise Unsupported('equality of %r and %r' % (v, w))

    def equals(self, v, w):
        """v == w with user-defined __eq__."""
        if self.user_eq(v) or self.user_eq(w):
            v = self.split(v)
            w = self.split(w) if not self.user_eq(v) else w
            ci = self.class_of(v)
            m = ci.find('__eq__') if isinstance(ci, ClassInfo) else None
            if m and m[0] == 'method':
                return self.truth(self.call(Bound(v, Func(m[1], cls=m[2])), [w], {}))
            ci = self.class_of(w)
            m = ci.find('__eq__') if isinstance(ci, ClassInfo) else None
            if m and m[0] == 'method':
                return self.truth(self.call(Bound(w, Func(m[1], cls=m[2])), [v], {}))
        return self.eq(v, w)

    def user_eq(self, v):
        if isinstance(v, U):
            return any(self.user_eq(w) for _, w in v.alts)
        ci = self.class_of(v)
        m = ci.find('__eq__') if isinstance(ci, ClassInfo) else None
        return bool(m and m[0] == 'method')

    def class_of(self, v):
        if isinstance(v, Oid):
            c = self.cell(v)
            return c.cls if isinstance(c, ObjCell) else None
        if isinstance(v, Ref):
            return self.refclass(v.cls)
        return None

    def refclass(self, name):
        for m in self.project.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def less(self, op, v, w):
        v, w = self.split(v), self.split(w)
        kv, kw = self.kind(v), self.kind(w)
        num = ('bool', 'int', 'real')
        if isinstance(v, (bool, int, float, str)) and isinstance(w, (bool, int, float, str)):
            try:
                return {'<': v < w, '<=': v <= w, '>': v > w, '>=': v >= w}[op]
            except TypeError:
                self.raise_(TypeError)
        if kv in num and kw in num:
            k = 'real' if 'real' in (kv, kw) else 'int'
            a, b = self.term(v, k), self.term(w, k)
        elif kv == kw == 'str':
            a, b = self.term(v), self.term(w)
        elif 'none' in (kv, kw) or (kv in num + ('str',) and kw in num + ('str',)):
            self.raise_(TypeError)
        else:
            raise Unsupported('order of %r and %r' % (v, w))
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: b < a, '>=': lambda: b <= a}[op]()

    def boolv(self, g):
        if g is True or g is False:
            return g
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return T('bool', g)

    # ------------------------------------------------------------ statements
    @property
    def frame(self):
        return self.st.frames[-1]

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, self.line))
        m(s)

    def s_Pass(self, s):
        pass

    s_Global = s_Import = s_ImportFrom = s_Pass

    def s_Import(self, s):
        for a in s.names:
            self.frame.locals[(a.asname or a.name.split('.')[0])] = Ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            i = self.project.imp(s, a.name)
            if i[0] == 'ext':
                self.frame.locals[a.asname or a.name] = Ext(i[1])
            else:
                self.frame.locals[a.asname or a.name] = self.imported(i)

    def s_FunctionDef(self, s):
        fi = FuncInfo(s.name, s, self.frame.module)
        self.frame.locals[s.name] = Func(fi, closure=len(self.st.frames) - 1)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cnt()

    def s_Assert(self, s):
        if not self.branch(self.truth(self.ev(s.test))):
            self.raise_(AssertionError)

    def s_Raise(self, s):
        if s.exc is None:
            e = self.st.ghost.get('_handled')
            if e is None:
                self.raise_(RuntimeError)
            raise PyRaise(e)
        v = self.split(self.ev(s.exc))
        if s.cause is not None:
            self.ev(s.cause)
        if isinstance(v, (ClassV, Ext, Builtin)) or isinstance(v, type):
            v = self.call(v, [], {})
        if not isinstance(v, Exc):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id)
        elif isinstance(t, ast.Attribute):
            obj = self.split(self.ev(t.value))
            cur = self.getattr(obj, t.attr)
        elif isinstance(t, ast.Subscript):
            obj = self.split(self.ev(t.value))
            idx = self.ev_index(t.slice)
            cur = self.bi.getitem(obj, idx)
        else:
            raise Unsupported('augmented assignment')
        v = self.ev(s.value)
        cur1 = cur
        if isinstance(cur, Oid) and isinstance(self.cell(cur), (ListCell, SetCell, DictCell)):
            new = self.bi.inplace(type(s.op), cur, v)
        else:
            new = self.binop(type(s.op), cur, v)
        if isinstance(t, ast.Name):
            self.assign(t, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new)
        else:
            self.bi.setitem(obj, idx, new)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.bi.delitem(self.split(self.ev(t.value)), self.ev_index(t.slice))
            else:
                raise Unsupported('del')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fi = self.frame.fi
            if fi is not None and t.id in fi.globals:
                self.st.globals[(self.frame.module.name, t.id)] = v
            else:
                self.frame.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.split(v)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            items = self.bi.unpack(v, len(t.elts))
            for e, w in zip(t.elts, items):
                self.assign(e, w)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.split(self.ev(t.value)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.bi.setitem(self.split(self.ev(t.value)), self.ev_index(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def s_If(self, s):
        c = self.cond(s.test)
        if c is True:
            return self.block(s.body)
        if c is False:
            return self.block(s.orelse)

        def run():
            if self.branch(c):
                self.block(s.body)
            else:
                self.block(s.orelse)
        self.unit(run)

    def cond(self, e):
        g = self.truth(self.ev(e))
        if is_z3(g):
            g = z3.simplify(g)
            if z3.is_true(g):
                return True
            if z3.is_false(g):
                return False
        return g

    def s_Try(self, s):
        def body():
            try:
                self.unit(lambda: self.block(s.body))
                ok = True
            except PyRaise as e:
                ok = False
                exc = e.exc
                h = self.handler(s.handlers, exc)
                if h is None:
                    raise
                if h.name:
                    self.frame.locals[h.name] = exc
                old = self.st.ghost.get('_handled')
                self.st.ghost['_handled'] = exc
                self.block(h.body)
                self.st.ghost['_handled'] = old
            if ok:
                self.block(s.orelse)
        if not s.finalbody:
            return self.unit(body)

        def with_finally():
            try:
                self.unit(body)
            except (PyRaise, Ret, Brk, Cnt):
                self.block(s.finalbody)
                raise
            self.block(s.finalbody)
        self.unit(with_finally)

    def handler(self, handlers, exc):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                if self.exc_match(exc, self.ev(t)):
                    return h
        return None

    def exc_class(self, v):
        if isinstance(v, ClassV):
            return v.ci
        if isinstance(v, type):
            return v
        if isinstance(v, Ext):
            c = self.bi.ext_exception(v.name)
            if c is not None:
                return c
        if isinstance(v, Builtin):
            c = self.bi.ext_exception(v.name)
            if c is not None:
                return c
        raise Unsupported('exception class %r' % (v,))

    def exc_match(self, exc, v):
        want = self.exc_class(v)
        have = exc.cls
        if isinstance(have, ClassInfo):
            return have.subclass_of(want)
        return isinstance(want, type) and issubclass(have, want)

    def s_With(self, s):
        def run():
            mgrs = []
            for it in s.items:
                m = self.split(self.ev(it.context_expr))
                v = self.bi.enter(m)
                mgrs.append(m)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
            try:
                self.unit(lambda: self.block(s.body))
            except (PyRaise, Ret, Brk, Cnt):
                for m in reversed(mgrs):
                    self.bi.exit(m)
                raise
            for m in reversed(mgrs):
                self.bi.exit(m)
        self.unit(run)

    def s_While(self, s):
        from . import loops
        loops.while_loop(self, s)

    def s_For(self, s):
        from . import loops
        loops.for_loop(self, s)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, self.line))
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.name(e.id)

    def name(self, n):
        f = self.frame
        if n in f.locals and not (f.fi is not None and n in f.fi.globals):
            v = f.locals[n]
            if isinstance(v, U) and any(w is MISSING for _, w in v.alts):
                v = self.split(v)
            if v is MISSING:
                self.raise_(UnboundLocalError)
            return v
        c = f.closure
        while c is not None:
            g = self.st.frames[c]
            if n in g.locals:
                return g.locals[n]
            c = g.closure
        return self.global_name(f.module, n)

    def global_name(self, m, n):
        k = (m.name, n)
        if k in self.st.globals:
            return self.st.globals[k]
        if n in m.funcs:
            return Func(m.funcs[n])
        if n in m.classes:
            return ClassV(m.classes[n])
        if n in m.assigns:
            v = self.eval_in(m, m.assigns[n])
            self.st.globals[k] = v
            return v
        if n in m.imports:
            i = m.imports[n]
            if i[0] == 'ext':
                return Ext(i[1])
            return self.imported(i)
        return self.bi.builtin(n)

    def imported(self, i):
        if i[0] == 'repomod':
            return Mod(i[1])
        mod = self.project.modules.get(i[1])
        if mod is None:
            raise Unsupported('import of %s' % i[1])
        return self.global_name(mod, i[2])

    def eval_in(self, module, node):
        self.st.frames.append(Frame(None, module))
        try:
            return self.ev(node)
        finally:
            self.st.frames.pop()

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.bi.concrete_items(self.split(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        s = self.new_set()
        for v in self.elts(e.elts):
            self.bi.set_add(s, v)
        return s

    def e_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.bi.dict_update(d, self.split(self.ev(v)))
            else:
                kk = self.ev(k)
                self.bi.setitem(d, kk, self.ev(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                spec = None
                if p.format_spec is not None:
                    if len(p.format_spec.values) == 1 and isinstance(p.format_spec.values[0], ast.Constant):
                        spec = p.format_spec.values[0].value
                    else:
                        raise Unsupported('format spec')
                v = self.ev(p.value)
                parts.append(self.bi.fmt_one(v, spec, p.conversion))
        return self.bi.concat_str(parts)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = e.values

        def rest(i):
            v = self.ev(vals[i])
            if i == len(vals) - 1:
                return v
            t = self.truth(v)
            if is_z3(t):
                t = z3.simplify(t)
                t = True if z3.is_true(t) else False if z3.is_false(t) else t
            if t is True:
                return rest(i + 1) if isand else v
            if t is False:
                return v if isand else rest(i + 1)
            if isinstance(v, T) and v.kind == 'bool':
                v = None  # value known once decided
                short = (not isand)
            else:
                short = MISSING

            def run():
                b = self.branch(t)
                if b == isand:
                    return rest(i + 1)
                return short if short is not MISSING else v
            return self.unit(run)
        return rest(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.boolv(simp_not(self.truth(v)))
        v = self.split(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, T) and v.kind in ('int', 'real'):
                return T(v.kind, -v.t)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator on %r' % (v,))

    def e_BinOp(self, e):
        return self.binop(type(e.op), self.ev(e.left), self.ev(e.right))

    def binop(self, op, v, w):
        if op is ast.Mod and (isinstance(v, str) or (isinstance(v, T) and v.kind == 'str')):
            return self.bi.percent(v, w)
        v, w = self.split(v), self.split(w)
        return self.bi.arith(op, v, w)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is True:
            return self.ev(e.body)
        if c is False:
            return self.ev(e.orelse)
        return self.unit(lambda: self.ev(e.body) if self.branch(c) else self.ev(e.orelse))

    def e_Compare(self, e):
        left = self.ev(e.left)

        def chain(left, i):
            right = self.ev(e.comparators[i])
            g = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return self.boolv(g)
            if g is False:
                return False
            if g is True:
                return chain(right, i + 1)

            def run():
                if self.branch(g):
                    return chain(right, i + 1)
                return False
            return self.unit(run)
        return chain(left, 0)

    def compare(self, op, v, w):
        if isinstance(op, ast.Is):
            return self.is_(v, w)
        if isinstance(op, ast.IsNot):
            return simp_not(self.is_(v, w))
        if isinstance(op, ast.Eq):
            return self.equals(v, w)
        if isinstance(op, ast.NotEq):
            return simp_not(self.equals(v, w))
        if isinstance(op, ast.In):
            return self.bi.contains(self.split(w), v)
        if isinstance(op, ast.NotIn):
            return simp_not(self.bi.contains(self.split(w), v))
        o = CMPOPS[type(op)]
        if isinstance(v, U) or isinstance(w, U):
            return self.truth(self.unit(lambda: self.boolv(self.less(o, v, w))))
        if self.bi.is_set(v):
            return self.bi.set_compare(o, v, w)
        return self.less(o, v, w)

    def is_(self, v, w):
        if isinstance(v, U):
            return simp_or(*[simp_and(g, self.is_(x, w)) for g, x in v.alts])
        if isinstance(w, U):
            return simp_or(*[simp_and(g, self.is_(v, x)) for g, x in w.alts])
        if v is None or w is None:
            return v is w
        if isinstance(v, Ref) and isinstance(w, Ref) and v.cls == w.cls:
            return v.t == w.t
        if isinstance(v, bool) or isinstance(w, bool):
            if isinstance(v, bool) and isinstance(w, bool):
                return v is w
            x, b = (w, v) if isinstance(v, bool) else (v, w)
            if isinstance(x, T) and x.kind == 'bool':
                return x.t if b else z3.Not(x.t)
            return False
        if isinstance(v, Oid) or isinstance(w, Oid):
            return isinstance(v, Oid) and isinstance(w, Oid) and v.id == w.id
        if same(v, w):
            return True
        if isinstance(v, T) and isinstance(w, T) and v.kind == w.kind == 'bool':
            return v.t == w.t
        raise Unsupported('identity of %r and %r' % (v, w))

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        obj = self.split(self.ev(e.value))
        return self.bi.getitem(obj, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[self.split(self.ev(x)) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s)

    def e_Lambda(self, e):
        fi = FuncInfo('<lambda>', e, self.frame.module)
        return Func(fi, closure=len(self.st.frames) - 1)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        self.bi.list_append(self.frame.locals['$yield'], v)
        return None

    def comp(self, e, elt, gen=None):
        """Desugar a comprehension to loops in a frame of its own."""
        from . import loops
        if gen is not None:
            f, first = self.gen_frame(gen), gen.data[1]
        else:
            f = Frame(self.frame.fi, self.frame.module, {}, closure=len(self.st.frames) - 1, cls=self.frame.cls)
            # the first iterable is evaluated in the enclosing scope
            first = self.ev(e.generators[0].iter)
        self.st.frames.append(f)
        acc = self.alloc(elt[0]())
        f.locals['$acc'] = acc
        f.locals['$it0'] = first

        def build(i):
            if i == len(e.generators):
                return [elt[1]]
            g = e.generators[i]
            body = build(i + 1)
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), c)]
            it = ast.Name(id='$it0', ctx=ast.Load()) if i == 0 else g.iter
            it.temporary = isinstance(g.iter, ast.Call)
            return [ast.copy_location(ast.For(target=g.target, iter=ast.copy_location(it, e), body=body, orelse=[]), e)]
        try:
            self.block(self.once(('comp', id(e)), lambda: build(0)))
            return acc
        finally:
            self.st.frames.pop()

    def once(self, key, make):
        """Desugared code is made once per expression, so that a loop in it is the same loop every time."""
        if key not in self.desugared:
            self.desugared[key] = make()
        return self.desugared[key]

    def mk(self, node, src):
        ast.copy_location(node, src)
        ast.fix_missing_locations(node)
        return node

    def e_ListComp(self, e):
        st = self.mk(ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), 'append', ast.Load()), [e.elt], [])), e)
        return self.comp(e, (ListCell, st))

    def e_SetComp(self, e):
        st = self.mk(ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), 'add', ast.Load()), [e.elt], [])), e)
        return self.comp(e, (SetCell, st))

    def e_DictComp(self, e):
        st = self.mk(ast.Assign([ast.Subscript(ast.Name('$acc', ast.Load()), e.key, ast.Store())], e.value), e)
        return self.comp(e, (DictCell, st))

    def e_GeneratorExp(self, e):
        # as the argument of something that goes through all of it at once: evaluated to a list
        if id(e) in self.consumed:
            return self.e_ListComp(e)
        if len(e.generators) != 1:
            raise Unsupported('generator kept for later')
        return Opaque('$gen', (e, self.ev(e.generators[0].iter), len(self.st.frames) - 1, self.fresh_name('gen')))

    def gen_use(self, o):
        """A generator expression is gone through: from now on it has no more elements."""
        e, first, depth, name = o.data[:4]
        if depth >= len(self.st.frames) or self.st.ghost.get(name):
            raise Unsupported('generator kept for later')
        self.st.ghost[name] = True

    def gen_frame(self, o):
        g = self.st.frames[o.data[2]]
        return Frame(g.fi, g.module, dict(*o.data[4:]), closure=o.data[2], cls=g.cls)

    def gen_list(self, o):
        """All elements of a generator expression."""
        e, first = o.data[:2]
        self.gen_use(o)
        st = self.once(('genlist', id(e)), lambda: self.mk(ast.Expr(ast.Call(ast.Attribute(
            ast.Name('$acc', ast.Load()), 'append', ast.Load()), [e.elt], [])), e))
        return self.comp(e, (ListCell, st), o)

    def s_GenStep(self, s):
        o, x = self.frame.locals[s.gen], self.frame.locals[s.gen + 'x']
        e = o.data[0]
        g = e.generators[0]
        self.st.frames.append(self.gen_frame(o))
        try:
            self.assign(g.target, x)
            for c in g.ifs:
                if not self.branch(B(self.cond(c))):
                    raise Cnt()
            v = self.ev(e.elt)
        finally:
            self.st.frames.pop()
        self.assign(s.target, v)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in self.frame.locals:
            return self.super_(e)
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and \
                (isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) or self.lazy_call(e.args[0])):
            r = self.any_all(e, e.func.id)
            if r is not MISSING:
                return r
        if isinstance(e.func, ast.Name) and e.func.id == 'sum' and len(e.args) == 1 and not e.keywords and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and 'sum' not in self.frame.locals:
            return self.sum_of(e)
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and e.args and not e.keywords and \
                (isinstance(e.args[0], ast.GeneratorExp) or self.lazy_call(e.args[0])) and 'next' not in self.frame.locals:
            return self.first_of(e)
        f = self.ev(e.func)
        if isinstance(f, Builtin) and f.name in ('map', 'filter') and len(e.args) == 2 and not e.keywords and \
                not any(isinstance(a, ast.Starred) for a in e.args):
            return self.map_filter(e, f.name)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.GeneratorExp) and consumes(f):
                self.consumed.add(id(a))
            if isinstance(a, ast.Starred):
                args += self.bi.concrete_items(self.split(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.split(self.ev(k.value))
                c = self.bi.base(d)[1]
                if isinstance(c, DictCell) and c.sym is not None:
                    kwargs['**'] = d
                    continue
                for kk, vv in self.bi.concrete_dict(d):
                    if kk in kwargs:
                        self.raise_(TypeError)
                    kwargs[kk] = vv
            elif k.arg in kwargs:
                self.raise_(TypeError)
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.line = e.lineno
        return self.call(f, args, kwargs)

    def map_filter(self, e, which):
        """map(f, xs) and filter(f, xs) as generator expressions."""
        fn, src = self.ev(e.args[0]), self.ev(e.args[1])

        def make():
            x = ast.Name('$x', ast.Load())
            val = ast.Call(ast.Name('$f', ast.Load()), [x], []) if fn is not None else x
            gen = ast.comprehension(ast.Name('$x', ast.Store()), e.args[1], [] if which == 'map' else [val], 0)
            return self.mk(ast.GeneratorExp(val if which == 'map' else x, [gen]), e)
        g = self.once((which, id(e), fn is None), make)
        return Opaque('$gen', (g, src, len(self.st.frames) - 1, self.fresh_name('gen'), {'$f': fn}))

    def lazy_call(self, a):
        """Whether an argument is a call of map or filter that is not redefined."""
        return isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('map', 'filter') and \
            len(a.args) == 2 and not a.keywords and not any(isinstance(x, ast.Starred) for x in a.args) and \
            isinstance(self.ev(a.func), Builtin)

    def gen_parts(self, a):
        """(generator expression, what it goes along, frame to evaluate it in) of an argument."""
        if isinstance(a, ast.Call):
            o = self.ev(a)
            return o.data[0], o.data[1], self.gen_frame(o)
        f = Frame(self.frame.fi, self.frame.module, {}, closure=len(self.st.frames) - 1, cls=self.frame.cls)
        if isinstance(a, ast.ListComp):
            # all of it is evaluated before
            v = self.ev(a)

            def make():
                gen = ast.comprehension(ast.Name('$x', ast.Store()), a, [], 0)
                return self.mk(ast.GeneratorExp(ast.Name('$x', ast.Load()), [gen]), a)
            return self.once(('listcomp', id(a)), make), v, f
        return a, self.ev(a.generators[0].iter), f

    def any_all(self, e, which):
        """any(P for x in xs) as a loop with early exit."""
        if isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) != 1:
            return MISSING
        g, first, f = self.gen_parts(e.args[0])
        isany = which == 'any'
        from . import loops
        gen = g.generators[0]

        def make():
            test = g.elt if isany else self.mk(ast.UnaryOp(ast.Not(), g.elt), g)
            setr = self.mk(ast.Return(ast.Constant(isany)), g)
            body = [self.mk(ast.If(test=test, body=[setr], orelse=[]), g)]
            for c in reversed(gen.ifs):
                body = [self.mk(ast.If(test=c, body=body, orelse=[]), g)]
            return self.mk(ast.For(target=gen.target, iter=ast.Name('$it0', ast.Load()), body=body, orelse=[]), g)
        loop = self.once((which, id(e)), make)
        f.locals['$it0'] = first
        self.st.frames.append(f)

        def run():
            try:
                self.stmt(loop)
            except Ret as r:
                return r.val
            return not isany
        try:
            return self.unit(run)
        finally:
            self.st.frames.pop()

    def first_of(self, e):
        """next((x for ..), default) as a loop that stops at the first element."""
        g, first, f = self.gen_parts(e.args[0])
        default = self.ev(e.args[1]) if len(e.args) > 1 else MISSING

        def make():
            body = [self.mk(ast.Return(g.elt), g)]
            for n, gen in reversed(list(enumerate(g.generators))):
                for c in reversed(gen.ifs):
                    body = [self.mk(ast.If(test=c, body=body, orelse=[]), g)]
                body = [self.mk(ast.For(target=gen.target, iter=ast.Name('$it0', ast.Load()) if n == 0 else gen.iter,
                                        body=body, orelse=[]), g)]
            return body[0]
        loop = self.once(('next', id(e)), make)
        f.locals['$it0'] = first
        self.st.frames.append(f)

        def run():
            try:
                self.stmt(loop)
            except Ret as r:
                return r.val
            if default is MISSING:
                self.raise_(StopIteration)
            return default
        try:
            return self.unit(run)
        finally:
            self.st.frames.pop()

    def sum_of(self, e):
        """sum(x for ...) as a loop that adds up."""
        g = e.args[0]
        first = self.ev(g.generators[0].iter)

        def make():
            body = [self.mk(ast.AugAssign(ast.Name('$sum', ast.Store()), ast.Add(), g.elt), g)]
            for i in range(len(g.generators) - 1, -1, -1):
                gen = g.generators[i]
                for c in reversed(gen.ifs):
                    body = [self.mk(ast.If(test=c, body=body, orelse=[]), g)]
                it = ast.Name('$it0', ast.Load()) if i == 0 else gen.iter
                body = [self.mk(ast.For(target=gen.target, iter=it, body=body, orelse=[]), g)]
            return body
        loop = self.once(('sum', id(e)), make)
        f = Frame(self.frame.fi, self.frame.module, {'$it0': first, '$sum': 0}, closure=len(self.st.frames) - 1,
                  cls=self.frame.cls)
        self.st.frames.append(f)
        try:
            self.block(loop)
            return self.frame.locals['$sum']
        finally:
            self.st.frames.pop()

    def super_(self, e):
        f = self.frame
        args = [self.ev(a) for a in e.args]
        if args:
            return Super(args[1], args[0].ci)
        first = f.fi.node.args.args[0].arg
        return Super(f.locals[first], f.cls)

    def call(self, f, args, kwargs):
        f = self.split(f)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self] + args, kwargs)
            return f.func.fn(self, [f.self] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f.ci, args, kwargs)
        if isinstance(f, Ext):
            return self.bi.call_ext(f.name, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return Exc(f, tuple(args))
        if f is None:
            self.raise_(TypeError)
        if isinstance(f, (Oid, Opaque)):
            return self.bi.call_obj(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def bind(self, fi, args, kwargs, defaults_module=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError)
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        kwargs = dict(kwargs)
        symbolic = kwargs.pop('**', None)
        if symbolic is not None:
            if a.kwarg is None:
                raise Unsupported('** of a symbolic dict')
            c = self.cell(symbolic)
            for n in names + konly + list(kwargs):
                if self.branch(z3.Select(c.sym[0], self.term(n, 'str'))):
                    if n in loc or n in kwargs:
                        self.raise_(TypeError)
                    raise Unsupported('parameter %s from a symbolic dict' % n)
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in loc:
                    self.raise_(TypeError)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(TypeError)
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + list(zip(konly, a.kw_defaults)):
            if n not in loc and d is not None:
                loc[n] = self.default(fi, n, d)
        for n in names + konly:
            if n not in loc:
                self.raise_(TypeError)
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new_dict(extra.items())
            if symbolic is not None:
                loc[a.kwarg.arg] = self.alloc(self.cell(symbolic).copy())
                for k, v in extra.items():
                    self.bi.dict_set(self.cell(loc[a.kwarg.arg]), k, v)
        return loc

    def default(self, fi, n, d):
        """Default values are evaluated once, at definition: share mutable ones."""
        k = ('$default', fi.key if fi.cls or fi.module else id(fi.node), n)
        if isinstance(d, ast.Constant):
            return d.value
        if k in self.st.globals:
            return self.st.globals[k]
        v = self.eval_in(fi.module, d)
        self.st.globals[k] = v
        return v

    def call_func(self, f, args, kwargs):
        fi = f.fi
        if self.depth > self.inline_limit:
            raise Unsupported('call depth (recursion) at %s' % fi.key)
        if fi.name != '<lambda>':
            model = self.models.get(fi.key)
            if model is not None:
                self.used_models.add(fi.key)
                loc = self.bind(fi, args, kwargs)
                return self.unit(lambda: model(self, loc))
        loc = self.bind(fi, args, kwargs)
        return self.inline(f, loc)

    def inline(self, f, loc):
        fi = f.fi
        if fi.cls is not None or fi.name != '<lambda>':
            self.used.add(fi.key)
        line = self.line
        self.depth += 1
        self.st.frames.append(Frame(fi, fi.module, loc, f.closure, f.cls or fi.cls))
        depth = len(self.st.frames)

        def run():
            try:
                if isinstance(fi.node, ast.Lambda):
                    return self.ev(fi.node.body)
                if fi.is_gen:
                    self.frame.locals['$yield'] = self.new_list()
                try:
                    self.block(fi.node.body)
                except Ret as r:
                    if not fi.is_gen:
                        if isinstance(r.val, Opaque) and r.val.tag == '$gen' and r.val.data[2] == depth - 1:
                            # what it needs is gone when the function has returned
                            return self.bi.make_iter(self.gen_list(r.val))
                        return r.val
                if fi.is_gen:
                    return self.bi.make_iter(self.frame.locals['$yield'])
                return None
            finally:
                self.st.frames[depth - 1:] = [self.st.frames[depth - 1]] if len(self.st.frames) >= depth else []
                if len(self.st.frames) == depth:
                    # locals are dead after the call
                    self.st.frames[-1].locals = {}
        try:
            return self.unit(run)
        finally:
            self.depth -= 1
            del self.st.frames[depth - 1:]
            self.line = line

    def instantiate(self, ci, args, kwargs):
        if ci.is_exc():
            init = ci.find('__init__')
            if init and init[0] == 'method':
                oid = self.alloc(ObjCell(ci))
                self.call_func(Func(init[1], cls=init[2]), [oid] + args, kwargs)
                return Exc(ci, tuple(args), oid)
            return Exc(ci, tuple(args))
        if getattr(ci, 'unknown_base', None):
            raise Unsupported('class %s has base %s' % (ci.name, ci.unknown_base))
        key = '%s.%s' % (ci.module.name, ci.name)
        if key in self.models:
            self.used_models.add(key)
            return self.unit(lambda: self.models[key](self, dict(args=args, kwargs=kwargs)))
        base = ci.builtin_base()
        bo = None
        if base is dict:
            bo = self.alloc(DictCell())
        elif base is not None:
            raise Unsupported('class with base %r' % base)
        oid = self.alloc(ObjCell(ci, {}, bo))
        init = ci.find('__init__')
        if init and init[0] == 'method':
            self.call_func(Func(init[1], cls=init[2]), [oid] + args, kwargs)
        elif args or kwargs:
            if bo is not None and not kwargs and len(args) == 1:
                self.bi.dict_update(bo, self.split(args[0]))
            else:
                raise Unsupported('arguments to %s()' % ci.name)
        return oid

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, U):
            if all(isinstance(w, Oid) and isinstance(self.cell(w), ObjCell) or isinstance(w, Ref) for _, w in v.alts):
                return self.unit(lambda: self.getattr(self.split(v), name))
            return self.getattr(self.split(v), name)
        if v is MISSING:
            self.raise_(UnboundLocalError)
        if v is None:
            if name == '__class__':
                raise Unsupported('__class__')
            self.raise_(AttributeError)
        if isinstance(v, Super):
            return self.super_attr(v, name)
        if isinstance(v, Oid):
            c = self.cell(v)
            if isinstance(c, ObjCell):
                return self.obj_attr(v, c, name)
            return self.bi.method(v, name)
        if isinstance(v, Ref):
            return self.ref_attr(v, name)
        if isinstance(v, Ext):
            return self.bi.ext_attr(v.name + '.' + name)
        if isinstance(v, Mod):
            return self.global_name(self.project.modules[v.name], name)
        if isinstance(v, ClassV):
            if name == '__name__':
                return v.ci.name
            f = v.ci.find(name)
            if f is None:
                self.raise_(AttributeError)
            return self.class_member(v.ci, f, None, name)
        if isinstance(v, Exc):
            if v.oid is not None:
                return self.obj_attr(v.oid, self.cell(v.oid), name)
            if name in ('args',):
                return v.args
            if name in ('errno', 'code', 'reason', 'msg', 'message', 'strerror', 'filename'):
                return self.fresh('str', 'exc_' + name)
            raise Unsupported('attribute %s of exception' % name)
        if isinstance(v, Builtin):
            if v.name == 'object' and name == '__setattr__':
                return Builtin('object.__setattr__', lambda ex, a, k: ex.raw_setattr(ex.split(a[0]), a[1], a[2]))
            if v.name == 'object' and name == '__init__':
                return Builtin('object.__init__', lambda ex, a, k: None)
            return self.bi.ext_attr(v.name + '.' + name)
        return self.bi.method(v, name)

    def super_attr(self, s, name):
        ci = self.class_of(s.self)
        f = ci.find(name, after=s.cls)
        if f is None:
            if name == '__init__':
                return Builtin('object.__init__', lambda ex, a, k: None)
            if name == '__setattr__':
                return Bound(s.self, Builtin('object.__setattr__', lambda ex, a, k: ex.raw_setattr(a[0], a[1], a[2])))
            self.raise_(AttributeError)
        if f[0] == 'builtin':
            c = self.cell(s.self)
            if name == '__init__':
                def binit(ex, a, k):
                    if a:
                        ex.bi.dict_update(c.base, ex.split(a[0]))
                return Builtin('dict.__init__', binit)
            return self.bi.method(c.base, name)
        return self.class_member(ci, f, s.self, name)

    def class_member(self, ci, f, obj, name):
        if f[0] == 'method':
            fi = f[1]
            if fi.kind == 'static':
                return Func(fi, cls=f[2])
            if fi.kind == 'class':
                return Bound(ClassV(ci), Func(fi, cls=f[2]))
            return Func(fi, cls=f[2]) if obj is None else Bound(obj, Func(fi, cls=f[2]))
        if f[0] == 'prop':
            if obj is None:
                raise Unsupported('property object')
            return self.call_func(Func(f[1][0], cls=f[2]), [obj], {})
        if f[0] == 'attr':
            k = (f[2].module.name, f[2].name + '.' + name)
            if k not in self.st.globals:
                self.st.globals[k] = self.eval_in(f[2].module, f[1])
            return self.st.globals[k]
        raise Unsupported('class member %s' % name)

    def obj_attr(self, oid, c, name):
        if not isinstance(c.cls, ClassInfo):
            if name in c.attrs:
                return c.attrs[name]
            return self.bi.method(oid, name)
        f = c.cls.find(name)
        if f and f[0] == 'prop':
            return self.class_member(c.cls, f, oid, name)
        if name in c.attrs:
            v = c.attrs[name]
            if isinstance(v, U) and any(w is MISSING for _, w in v.alts):
                v = self.split(v)   # raises UnboundLocalError for AttributeError: never mapped
            if v is MISSING:
                self.raise_(AttributeError)
            return v
        if f and f[0] == 'builtin':
            return self.bi.method(c.base, name)
        if f:
            return self.class_member(c.cls, f, oid, name)
        if name == '__class__':
            return ClassV(c.cls)
        if name == '__dict__':
            raise Unsupported('__dict__')
        self.raise_(AttributeError)

    def ref_attr(self, r, name):
        ci = self.refclass(r.cls)
        if ci is None:
            return self.bi.method(r, name)
        f = ci.find(name)
        if f and f[0] in ('prop', 'method', 'attr') and name not in self.reftypes.get(r.cls, {}):
            return self.class_member(ci, f, r, name)
        if self.rtype(r.cls, name) is not None:
            return self.ref_get(r, name)
        if ci.slots() is not None or (f is None and '$closed' in self.reftypes.get(r.cls, {})):
            self.raise_(AttributeError)
        raise Unsupported('attribute %s of symbolic %s' % (name, r.cls))

    def hasattr(self, v, name):
        try:
            self.getattr(v, name)
            return True
        except PyRaise as e:
            if self.exc_match(e.exc, AttributeError):
                return False
            raise

    def setattr(self, v, name, val):
        v = self.split(v)
        if v is None:
            self.raise_(AttributeError)
        ci = self.class_of(v)
        if isinstance(ci, ClassInfo):
            m = ci.find('__setattr__')
            if m and m[0] == 'method':
                self.call_func(Func(m[1], cls=m[2]), [v, name, val], {})
                return
            return self.raw_setattr(v, name, val)
        if isinstance(v, Exc) and v.oid is not None:
            return self.raw_setattr(v.oid, name, val)
        if isinstance(v, Oid) and isinstance(self.cell(v), ObjCell):
            self.cell(v).attrs[name] = val
            return
        if isinstance(v, Opaque):
            return self.bi.set_opaque_attr(v, name, val)
        raise Unsupported('setting attribute %s of %r' % (name, v))

    def raw_setattr(self, v, name, val):
        ci = self.class_of(v)
        if isinstance(name, T):
            raise Unsupported('symbolic attribute name')
        f = ci.find(name)
        if f and f[0] == 'prop':
            if f[1][1] is None:
                self.raise_(AttributeError)
            self.call_func(Func(f[1][1], cls=f[2]), [v, val], {})
            return
        slots = ci.slots()
        if slots is not None and name not in slots:
            self.raise_(AttributeError)
        if isinstance(v, Ref):
            self.ref_set(v, name, val)
        else:
            self.cell(v).attrs[name] = val


def is_exit(t):
    return z3.is_eq(t) and z3.is_const(t.arg(0)) and t.arg(0).decl().name().startswith('exit!')


def same_args(a, b):
    if a.args is None or b.args is None:
        return a.args is b.args
    return a.oid == b.oid and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
