"""Loops: unrolled over concrete collections, else cut at an inductive invariant.

The invariant is the conjunction of all candidates that hold on entry and are
preserved by the body (Houdini).  Candidates come from the unit (folds over the
sequence, predicates on its elements, anything else as a function of the state)
and from a few generic templates.  A candidate that is not inductive is dropped;
what then cannot be proved fails at the obligation that needs it.
"""
import ast
import os
import time
import z3

from .values import *
from . import solver


class Poison:
    """Value of a variable after a loop that the invariant says nothing about."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<value of %s after the loop not tracked>' % (self.what,)


def for_loop(ex, s):
    it = ex.split(ex.ev(s.iter))
    if isinstance(it, Oid) and isinstance(ex.cell(it), IterCell) and not isinstance(s.iter, ast.Call) \
            and not getattr(s.iter, 'temporary', False):
        # an iterator that is known elsewhere: it is advanced as the loop goes on
        c = ex.cell(it)
        if c.src[0] == 'seq':
            loop = Loop(ex, s)
            loop.it = it
            return run_loop(ex, loop, s)
        return unroll(ex, s, list(c.src[1][c.pos:]), it, c.pos)
    # a list that is iterated over while its items change is outside the subset: items are taken at entry
    bind = None
    ex.in_for = True                # the items are taken one by one, as the loop goes on
    try:
        if isinstance(it, Opaque) and it.tag == '$gen':
            return gen_loop(ex, s, it)
        if isinstance(it, Opaque) and it.tag in ('$range', '$enumerate', '$zip', '$items'):
            src, bind, it = indexed(ex, it)
        else:
            src = ex.bi.items_of(it)
    finally:
        ex.in_for = False
    if bind is not None:
        seq, n, val = src
        k = z3.simplify(n)
        if z3.is_int_value(k):
            return unroll(ex, s, [(True, bind(z3.IntVal(j))) for j in range(k.as_long())])
        loop = Loop(ex, s)
        loop.seq, loop.n, loop.bind = seq, n, bind
        loop.along = seq
        return run_loop(ex, loop, s)
    if isinstance(it, Opaque):
        ex.iterating.append(it)     # what its methods may ask
        try:
            return over(ex, s, src)
        finally:
            ex.iterating.pop()
    return over(ex, s, src)


class GenStep(ast.stmt):
    """Take the next element of a generator expression, of which the source element is in a local variable."""
    _fields = ()


def gen_loop(ex, s, o):
    """A loop over a generator expression goes along what the generator goes along, an element at a time."""
    e, first = o.data[:2]
    ex.gen_use(o)
    g = e.generators[0]
    name = '$gen%d' % getattr(s, 'lineno', 0)

    def make():
        step = GenStep()
        step.gen, step.target = name, s.target
        ast.copy_location(step, s)
        it = ast.Name(name + 'src', ast.Load())
        it.temporary = isinstance(g.iter, ast.Call)
        return ex.mk(ast.For(target=ast.Name(name + 'x', ast.Store()), iter=it, body=[step] + s.body, orelse=s.orelse), s)
    loop = ex.once(('gen', id(s), id(e)), make)
    ex.frame.locals.update({name: o, name + 'src': first})
    ex.stmt(loop)


def indexed(ex, o):
    """What a loop over range(..), enumerate(..) or zip(..) goes along: ((Seq, length, None), value at an index, source)."""
    if o.tag == '$range':
        lo, n, fresh = o.data[:3]
        if len(o.data) > 3:
            # range(len(s) - 1, -1, -1) goes along s reversed
            a = n.arg(0) if z3.is_app(n) and n.decl().name() == 'seq.len' else None
            seq = fresh
            if a is not None and a.get_id() in ex.bi.lens and z3.simplify(lo + 1 - n).eq(z3.IntVal(0)):
                seq = ex.bi.reverse_seq(ex.bi.lens[a.get_id()])
            return (seq, n, None), (lambda i: T('int', z3.simplify(lo - i))), None
        # range(len(s)) goes along s
        a = n.arg(0) if z3.is_app(n) and n.decl().name() == 'seq.len' else None
        seq = ex.bi.lens.get(a.get_id(), fresh) if a is not None and z3.is_int_value(lo) and lo.as_long() == 0 else fresh
        return (seq, n, None), (lambda i: T('int', z3.simplify(lo + i))), None
    if o.tag == '$enumerate':
        v, start = o.data
        q = seq_of(ex, v)
        return (q, z3.Length(q.t), None), (lambda i: (ex.bi.int_value(start, i), ex.wrap(q.ek, q.t[i]))), v
    if o.tag == '$items':
        q, d = o.data
        # the value is that of the dict as it is when the item is taken
        return (q, z3.Length(q.t), None), (lambda i: (lambda k: (k, ex.bi.getitem(d, k)))(ex.wrap(q.ek, q.t[i]))), None
    qs = [seq_of(ex, v) for v in o.data]
    n = z3.Length(qs[0].t)
    for q in qs[1:]:
        m = z3.Length(q.t)
        if not m.eq(n):
            n = z3.If(m < n, m, n)
    return (qs[0], n, None), (lambda i: tuple(ex.wrap(q.ek, q.t[i]) for q in qs)), None


def seq_of(ex, v):
    src = ex.bi.items_of(v)
    if src[0] != 'seq':
        raise Unsupported('a loop over some values that may be there or not')
    return src[1]


def over(ex, s, src):
    if src[0] == 'list':
        return unroll(ex, s, src[1])
    n = z3.simplify(z3.Length(src[1].t))
    if z3.is_int_value(n):
        k = n.as_long()
        return unroll(ex, s, [(True, ex.wrap(src[1].ek, src[1].t[i])) for i in range(k)])
    return seq_loop(ex, s, src[1])


def unroll(ex, s, items, it=None, pos=0):
    for k, (g, v) in enumerate(items):
        def once(g=g, v=v, k=k):
            if it is not None:
                ex.cell(it).pos = pos + k + 1
            if g is not True and not ex.branch(g):
                return
            ex.assign(s.target, v)
            try:
                ex.block(s.body)
            except Cnt:
                pass
        try:
            if it is not None:
                if ex.cell(it).pos != pos + k:
                    raise Unsupported('an iterator that is advanced within a loop over it')
            if len(s.body) == 1 and isinstance(s.body[0], (ast.Expr, ast.Assign)) and g is True:
                once()
            else:
                ex.unit(once)
        except Brk:
            return
    ex.block(s.orelse)


def while_loop(ex, s):
    # try to unroll while the condition is decided by concrete values
    limit = 200
    for k in range(limit):
        state = ex.st.copy()
        c = ex.cond(s.test)
        if c is False:
            ex.block(s.orelse)
            return
        if c is not True:
            ex.st = state
            return sym_while(ex, s)
        if k > 3 and not any_progress(ex, s):
            break

        def once():
            try:
                ex.block(s.body)
            except Cnt:
                pass
        forks = False
        if isinstance(s.test, ast.Constant):
            ex.st = state
            return sym_while(ex, s)
        try:
            ex.unit(once)
        except Brk:
            return
    raise Unsupported('while loop does not end')


def any_progress(ex, s):
    return True


# ---------------------------------------------------------------- locations
def snapshot(st):
    """Every mutable location of a state and its value."""
    locs = {}
    for d, f in enumerate(st.frames):
        for nm, v in f.locals.items():
            locs[('local', d, nm)] = v
    for oid, c in st.heap.items():
        if isinstance(c, ObjCell):
            for nm, v in c.attrs.items():
                locs[('attr', oid, nm)] = v
        else:
            locs[('cell', oid)] = c
    for k, v in st.fields.items():
        locs[('field', k)] = v
    for k, v in st.ghost.items():
        if k not in ('_pos', '_rev', '_handled'):
            locs[('ghost', k)] = v
    for k, v in st.globals.items():
        locs[('global', k)] = v
    return locs


def cell_same(a, b):
    from .ex import same, same_g
    if type(a) is not type(b):
        return False
    if isinstance(a, ListCell):
        if (a.seq is None) != (b.seq is None):
            return False
        if a.seq is not None:
            return same(a.seq, b.seq)
        return len(a.items) == len(b.items) and all(
            same_g(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.items, b.items))
    if isinstance(a, DictCell):
        if (a.sym is None) != (b.sym is None):
            return False
        if a.sym is not None:
            return a.sym[0].eq(b.sym[0]) and a.sym[1].eq(b.sym[1])
        return list(a.entries) == list(b.entries) and all(
            same_g(a.entries[k][0], b.entries[k][0]) and same(a.entries[k][1], b.entries[k][1]) for k in a.entries)
    if isinstance(a, SetCell):
        if (a.sym is None) != (b.sym is None):
            return False
        if a.sym is not None:
            return a.sym[0].eq(b.sym[0])
        return set(a.entries) == set(b.entries) and all(same_g(a.entries[k], b.entries[k]) for k in a.entries)
    if isinstance(a, IterCell):
        if is_z3(a.pos) or is_z3(b.pos):
            return is_z3(a.pos) and is_z3(b.pos) and z3.simplify(a.pos).eq(z3.simplify(b.pos))
        return a.pos == b.pos
    return False


def loc_same(k, a, b):
    from .ex import same
    if a is b:
        return True
    if isinstance(a, Cell) or isinstance(b, Cell):
        return isinstance(a, Cell) and isinstance(b, Cell) and cell_same(a, b)
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return same(a, b)


def changed(base, after):
    """Locations of base that differ in after (new objects are not locations)."""
    a, b = snapshot(base), snapshot(after)
    out = []
    for k in b:
        if k[0] in ('attr', 'cell') and k[1] not in base.heap:
            continue
        if k not in a:
            if k[0] == 'field' and z3.is_const(b[k]) and str(b[k]) == 'fld0:' + k[1]:
                continue        # only read
            out.append(k)
        elif not loc_same(k, a[k], b[k]):
            out.append(k)
    return out


# ---------------------------------------------------------------- havoc
class Shape:
    """What values a location may hold: set of scalar kinds, None, or a container kind."""

    def __init__(self):
        self.kinds = []     # scalar kinds, 'none', 'missing', ('ref', cls), ('seq', ek)
        self.bad = None
        self.cell = None    # container kind

    def add(self, ex, v):
        if isinstance(v, U):
            for _, w in v.alts:
                self.add(ex, w)
            return
        k = None
        if v is None:
            k = 'none'
        elif v is MISSING:
            k = 'missing'
        elif isinstance(v, Ref):
            k = ('ref', v.cls)
        elif isinstance(v, Seq):
            k = ('seq', v.ek)
        elif is_z3(v):
            k = ('z3', v.sort())
        else:
            k = ex.kind(v)
            if k not in ('bool', 'int', 'real', 'str', 'event'):
                self.bad = v
                return
        if k == 'real' and 'int' in self.kinds:
            self.kinds.remove('int')
        if k == 'int' and 'real' in self.kinds:
            return
        if k not in self.kinds:
            self.kinds.append(k)


def havoc_value(ex, shape, name):
    alts = []
    vals = []
    for k in shape.kinds:
        if k == 'none':
            vals.append(None)
        elif k == 'missing':
            vals.append(MISSING)
        elif isinstance(k, tuple) and k[0] == 'seq':
            vals.append(ex.fresh_seq(k[1], name))
        elif isinstance(k, tuple) and k[0] == 'z3':
            vals.append(z3.Const(ex.fresh_name(name), k[1]))
        else:
            vals.append(ex.fresh(k, name))
    if len(vals) == 1:
        return vals[0]
    rest = z3.BoolVal(True)
    for i, v in enumerate(vals):
        if i == len(vals) - 1:
            alts.append((rest, v))
        else:
            b = z3.Bool(ex.fresh_name(name + '_is%d' % i))
            alts.append((z3.And(rest, b), v))
            rest = z3.And(rest, z3.Not(b))
    return U(alts)


def cell_kind(ex, c):
    """('list', ek) / ('dict', kk, vk) / ('set', kk) / ('iter',) or None when undetermined (empty)."""
    if isinstance(c, ListCell):
        if c.seq is not None:
            return ('list', c.seq.ek)
        eks = set()
        for _, v in c.items:
            if isinstance(v, U):
                raise Unsupported('list of mixed values built in a loop')
            eks.add(ex.ek_of(v))
        if len(eks) > 1:
            raise Unsupported('list of mixed kinds built in a loop')
        return ('list', eks.pop()) if eks else None
    if isinstance(c, DictCell):
        if c.sym is not None:
            return ('dict', c.sym[2], c.sym[3])
        ks = {(ex.ek_of(k), ex.ek_of(v)) for k, (_, v) in c.entries.items()}
        if len(ks) > 1:
            raise Unsupported('dict of mixed kinds changed in a loop')
        return ('dict',) + ks.pop() if ks else None
    if isinstance(c, SetCell):
        if c.sym is not None:
            return ('set', c.sym[1])
        ks = {ex.ek_of(k) for k in c.entries}
        return ('set', ks.pop()) if len(ks) == 1 else None
    if isinstance(c, IterCell):
        return ('iter',)
    raise Unsupported('cell changed in a loop')


def havoc_cell(ex, kind, c, name):
    if kind[0] == 'list':
        return ListCell(None, ex.fresh_seq(kind[1], name))
    if kind[0] == 'dict':
        return DictCell(None, (z3.Const(ex.fresh_name(name + '_dom'), z3.ArraySort(ex.sort(kind[1]), z3.BoolSort())),
                               z3.Const(ex.fresh_name(name + '_val'), z3.ArraySort(ex.sort(kind[1]), ex.sort(kind[2]))),
                               kind[1], kind[2]),
                        ex.fresh_seq(kind[1], name + '_order') if c is not None and (
                            c.order is not None or (c.entries is not None)) else None)
    if kind[0] == 'set':
        return SetCell(None, (z3.Const(ex.fresh_name(name), z3.ArraySort(ex.sort(kind[1]), z3.BoolSort())), kind[1]))
    if kind[0] == 'iter':
        if c.src[0] != 'seq':
            raise Unsupported('iterator over a list advanced in a loop')
        p = z3.Int(ex.fresh_name(name + '_pos'))
        ex.assume(z3.And(p >= 0, p <= z3.Length(c.src[1].t)))
        return IterCell(c.src, p)
    raise Unsupported('havoc')


def to_kind(ex, c, kind):
    """The same content as a cell of the symbolic kind (a fresh object)."""
    if kind[0] == 'list':
        return ListCell(None, ex.seq_of(c, kind[1]))
    if kind[0] == 'dict':
        d = c.copy()
        if d.sym is None:
            keys = [k for k in d.entries]
            gs = [g for g, _ in d.entries.values()]
            order = None
            if all(g is True for g in gs):
                order = ex.seq_of(ListCell([(True, k) for k in keys]), kind[1])
            ex.bi.to_sym_dict(d, kind[1], kind[2])
            d.order = order
        return d
    if kind[0] == 'set':
        return SetCell(None, (ex.set_array(c, kind[1]), kind[1]))
    return c.copy()


class View:
    """What a candidate may talk about: the state at the head of the loop after i iterations."""

    def __init__(self, ex, loop, i):
        self.ex, self.loop, self.i = ex, loop, i

    def cell(self, oid):
        return self.ex.st.heap[oid]


class Loop:
    def __init__(self, ex, node):
        self.ex, self.node = ex, node
        self.seq = None
        self.along = None    # the sequence the loop goes along, if any: what candidates are about
        self.used_up = None  # the sequence at the start of which the loop takes items away
        self.bind = None     # value of the loop variable at an index, if it is not the element
        self.it = None
        self.n = None
        self.kinds = {}      # cell location -> kind
        self.shapes = {}     # value location -> Shape
        self.mod = []
        self.entry = None
        self.poison = set()
        self.name = 'loop@%s:%s' % (ex.frame.fi.key if ex.frame.fi else '?', node.lineno)

    def get(self, st, k):
        if k[0] == 'local':
            return st.frames[k[1]].locals.get(k[2], MISSING)
        if k[0] == 'attr':
            return st.heap[k[1]].attrs.get(k[2], MISSING)
        if k[0] == 'cell':
            return st.heap[k[1]]
        if k[0] == 'field':
            return st.fields[k[1]]
        if k[0] == 'ghost':
            return st.ghost.get(k[1], MISSING)
        return st.globals.get(k[1], MISSING)

    def put(self, st, k, v):
        if k[0] == 'local':
            st.frames[k[1]].locals[k[2]] = v
        elif k[0] == 'attr':
            st.heap[k[1]].attrs[k[2]] = v
        elif k[0] == 'cell':
            st.heap[k[1]] = v
        elif k[0] == 'field':
            st.fields[k[1]] = v
        elif k[0] == 'ghost':
            st.ghost[k[1]] = v
        else:
            st.globals[k[1]] = v

    def havoc(self, tag):
        """Replace every modified location of the current state by an unknown of its shape."""
        ex = self.ex
        for k in self.mod:
            nm = '%s.%s' % (tag, '_'.join(str(x) for x in k[1:]))
            if k in self.poison:
                self.put(ex.st, k, Poison(k[-1]))
            elif k in self.kinds:
                self.put(ex.st, k, havoc_cell(ex, self.kinds[k], ex.st.heap[k[1]], nm))
            elif k in self.shapes:
                self.put(ex.st, k, havoc_value(ex, self.shapes[k], nm))
            # else: only ever set to the same undetermined (empty) container


def body_step(ex, loop, node, i):
    """One iteration from the current state. For a sequence loop element i is taken."""
    def run():
        e = None
        if loop.seq is not None:
            e = loop.bind(i) if loop.bind else ex.wrap(loop.seq.ek, loop.seq.t[i])
            ex.assign(node.target, e)
        elif loop.it is not None:
            c = ex.cell(loop.it)
            s = c.src[1]
            p = c.pos if is_z3(c.pos) else z3.IntVal(c.pos)
            if not ex.branch(p < z3.Length(s.t)):
                return 'exit'
            c.pos = p + 1
            ex.assign(node.target, ex.wrap(s.ek, s.t[p]))
        else:
            c = ex.cond(node.test)
            if is_z3(c) and loop.along is None:
                loop.along = goes_along(ex, c)
            if c is False or (c is not True and not ex.branch(c)):
                return 'exit'
        try:
            ex.block(node.body)
        except Cnt:
            pass
        if isinstance(e, Ref) and 'next:ref:' + e.cls in ex.ext:
            ex.ext['next:ref:' + e.cls](ex, e)      # what gives the items is asked for the next one
        return 'next'
    return ex.explore(lambda: run())


def goes_along(ex, c):
    """The sequence whose length a while loop's condition is about, if the loop does not change it."""
    todo, seen = [c], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() == 'seq.len' and t.arg(0).get_id() in ex.bi.lens and not tainted(t.arg(0)):
            return ex.bi.lens[t.arg(0).get_id()]
        todo += t.children()
    return None


def tainted(t):
    """Whether a term depends on a location the loop modifies."""
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().name().startswith(('h.', 'inv.')):
            return True
        todo += t.children()
    return False


def seq_loop(ex, node, seq):
    loop = Loop(ex, node)
    loop.seq = loop.along = seq
    loop.n = z3.Length(seq.t)
    run_loop(ex, loop, node)


def sym_while(ex, node):
    loop = Loop(ex, node)
    run_loop(ex, loop, node)


def run_loop(ex, loop, node):
    # unions in locals that only stem from earlier merges are kept; the loop sees them as they are
    base = ex.st.copy()
    loop.entry = base
    was = ex.recording
    # the state is a function of the decisions made and assumed so far: a replay meets the same loop again
    key = (id(node), tuple(t.get_id() for _, t in base.pc), base.n, len(base.frames), len(base.heap), was)
    memo = ex.loop_cache.get(key)
    if memo is not None and memo[3] is node:
        _, entry, exits, _ = memo
        return leave(ex, node, entry, [(st.copy(), out) for st, out in exits])
    ex.recording = False
    i = z3.Int(ex.fresh_name('i'))
    obls_at = len(ex.obls)
    loop.i = i
    # 1. which locations change, and what shapes they take
    for rnd in range(12):
        ex.st = base.copy()
        if loop.seq is None:
            loop.along = None
        loop.havoc('h')
        st0 = ex.st.copy()
        ex.assume(i >= 0)
        if loop.seq is not None:
            ex.assume(i < loop.n)
        results = guarded_explore(ex, loop, node, i)
        new = False
        for st, out in results:
            if out[0] != 'ok' or out[1] != 'next':
                continue
            for k in changed(st0, st):
                if k[0] == 'global' and k[1] not in st0.globals and (
                        k[1] in base.globals or first_read(ex, base, k[1])):
                    new = True      # the loop reads a module or class constant first: it is there before the loop
                    continue
                if k not in loop.mod:
                    loop.mod.append(k)
                    new = True
                tidy(ex, loop, k, st)
                new |= learn(ex, loop, k, base, st)
        if not new:
            break
    else:
        raise Unsupported('shapes of loop variables do not stabilise (%s)' % loop.name)
    pointwise(ex, loop, base, st0, results, i)
    # 2. candidates
    ex.st = base.copy()
    n0 = ex.st.n
    # entry state in symbolic shape
    for k in loop.mod:
        if k in loop.kinds:
            loop.put(ex.st, k, to_kind(ex, loop.get(base, k), loop.kinds[k]))
    entry = ex.st.copy()
    loop.entry_sym = entry
    cands = candidates(ex, loop)
    live = []
    # holds on entry?
    for c in cands:
        ex.st = entry.copy()
        ok = holds(ex, loop, c, z3.IntVal(0), 2000)
        if ok:
            live.append(c)
    # 3. preserved?
    while True:
        ex.st = entry.copy()
        loop.havoc('inv')
        head = ex.st.copy()
        ex.assume(i >= 0)
        if loop.seq is not None:
            ex.assume(i < loop.n)
        facts(ex, loop, i)
        for c in live:
            ex.assume(eval_cand(ex, loop, c, i))
        try:
            results = guarded_explore(ex, loop, node, i)
        except Unsupported:
            raise
        bad = set()
        for st, out in results:
            if out[0] != 'ok' or out[1] != 'next':
                continue
            for c in live:
                if c in bad:
                    continue
                ex.st = st.copy()
                norm(ex, loop)
                if not holds(ex, loop, c, i + 1, 3000):
                    bad.add(c)
        if not bad:
            break
        live = [c for c in live if c not in bad]
    ex.loop_notes.append((loop.name, [c.name for c in live], [c.name for c in cands if c not in live]))
    # 4. outcomes
    ex.recording = was
    outcomes = []
    # (a) leaving by break / return / raise, or by a false condition, in iteration i
    ex.st = entry.copy()
    loop.havoc('inv')
    ex.assume(i >= 0)
    if loop.seq is not None:
        ex.assume(i < loop.n)
    facts(ex, loop, i)
    for c in live:
        ex.assume(eval_cand(ex, loop, c, i))
    results = guarded_explore(ex, loop, node, i)
    if was:
        from .ex import Obl
        for c in live:
            ob = Obl('%s: invariant %s' % (loop.name, c.name), [], z3.BoolVal(True), loop.name)
            ob.status, ob.backend, ob.time = 'proved', c.backend, c.time
            ex.obls.append(ob)
    exits = []
    for st, out in results:
        if out[0] == 'ok' and out[1] == 'next':
            continue
        exits.append((st, out))
    # (b) the sequence is exhausted
    if loop.seq is not None:
        ex.st = entry.copy()
        loop.havoc('end')
        for c in live:
            ex.assume(eval_cand(ex, loop, c, loop.n))
        facts(ex, loop, loop.n, False)
        exits.append((ex.st, ('ok', 'exit')))
    ex.loop_cache[key] = (base, entry, [(st.copy(), out) for st, out in exits], node)
    leave(ex, node, entry, exits)


def leave(ex, node, entry, st_of):
    """Continue with each of the ways out, as alternatives of a choice."""
    ex.st = entry.copy()
    k = choose_exit(ex, entry, st_of)
    st, out = st_of[k]
    ex.st = st.copy()
    if out[0] == 'raise':
        raise PyRaise(out[1])
    if out[0] == 'return':
        raise Ret(out[1])
    if out[0] == 'break':
        return
    ex.block(node.orelse)


def pointwise(ex, loop, base, st0, results, i):
    """Lists to which every iteration appends one value that depends on the index only: location -> value."""
    loop.maps = {}
    nxt = [st for st, out in results if out[0] == 'ok' and out[1] == 'next']
    # variables that count the iterations
    counts = []
    for k in loop.mod:
        a, v0 = loop.get(st0, k), loop.get(base, k) if k[0] == 'local' else None
        if k[0] == 'local' and isinstance(a, T) and a.kind == 'int' and z3.is_const(a.t) and k not in loop.poison \
                and (isinstance(v0, int) or isinstance(v0, T) and v0.kind == 'int'):
            bs = [loop.get(st, k) for st in nxt]
            if all(isinstance(b, T) and b.kind == 'int' and z3.simplify(b.t - a.t).eq(z3.IntVal(1)) for b in bs):
                counts.append((a.t, ex.term(v0, 'int') + i))
    for k in loop.mod:
        if k in loop.poison or not nxt:
            continue
        vals = []
        for st in nxt:
            a, b = loop.get(st0, k), loop.get(st, k)
            a, b = [x.seq if isinstance(x, ListCell) else x for x in (a, b)]
            if not isinstance(a, Seq) or not isinstance(b, Seq):
                break
            t = b.t
            if not (z3.is_app(t) and t.decl().name() == 'seq.++' and t.num_args() == 2 and t.arg(0).eq(a.t)
                    and z3.is_app(t.arg(1)) and t.arg(1).decl().name() == 'seq.unit'):
                break
            v = t.arg(1).arg(0)
            if counts:
                v = z3.simplify(z3.substitute(v, *counts))
            vals.append(v)
        if len(vals) == len(nxt) and all(v.eq(vals[0]) for v in vals) and before_loop(vals[0], base.n, i):
            loop.maps[k] = vals[0]


def before_loop(t, n, i):
    """Whether term t has no symbol made in the loop other than its index."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(i):
                p = x.decl().name().rsplit('!', 1)
                if len(p) == 2 and p[1].isdigit() and int(p[1]) >= n:
                    return False
            todo += x.children()
    return True


def choose_exit(ex, entry, exits):
    """A nondeterministic choice among the exits (their own path conditions say when)."""
    if len(exits) == 0:
        raise Infeasible()
    if len(exits) == 1:
        return 0
    tag = ex.fresh_name('exit')
    sel = z3.Int(tag)
    k = ex.choose([sel == j for j in range(len(exits))])
    # the selector is a decision: its fact belongs to the chosen exit's condition
    d = ex.st.pc[-1]
    exits[k][0].pc.insert(len(entry.pc), d)
    exits[k][0].n = max(exits[k][0].n, ex.st.n)
    return k


def first_read(ex, base, key):
    if len(key) != 2:
        return False
    mod, nm = key
    m = ex.project.modules.get(mod)
    if m is None:
        return False
    save = ex.st
    ex.st = base
    try:
        if '.' in nm:
            c, a = nm.rsplit('.', 1)
            ci = m.classes.get(c)
            f = ci.find(a) if ci is not None else None
            if not f or f[0] != 'attr' or f[2] is not ci:
                return False
            base.globals[key] = ex.eval_in(f[2].module, f[1])
        elif nm in m.assigns:
            base.globals[key] = ex.eval_in(m, m.assigns[nm])
        else:
            return False
        return True
    finally:
        ex.st = save


def guarded_explore(ex, loop, node, i):
    nb = len(ex.st.pc)
    base = ex.st.copy()
    results = body_step(ex, loop, node, i)
    return [(st, out) for st, out in results]


def norm(ex, loop):
    """Bring modified cells into their symbolic shape."""
    for k in loop.mod:
        tidy(ex, loop, k, ex.st)
        if k in loop.kinds:
            c = loop.get(ex.st, k)
            if isinstance(c, Cell):
                loop.put(ex.st, k, to_kind(ex, c, loop.kinds[k]))


def tidy(ex, loop, k, st):
    """Leave out alternatives of a value that cannot be on this path."""
    v = loop.get(st, k)
    if not isinstance(v, U) or len(v.alts) < 2:
        return
    if not any(w is None for _, w in v.alts):
        return
    save = ex.st
    ex.st = st
    try:
        alts = [(g, w) for g, w in v.alts if ex.feasible(B(g))]
    finally:
        ex.st = save
    if alts and len(alts) < len(v.alts):
        loop.put(st, k, alts[0][1] if len(alts) == 1 else U(alts))


def learn(ex, loop, k, base, st):
    """Update the shape of location k from its values before and after. True if it changed."""
    if k in loop.poison:
        return False
    v0, v1 = loop.get(base, k) if k[0] != 'field' or k[1] in base.fields else MISSING, loop.get(st, k)
    if isinstance(v1, Poison):
        return False
    if isinstance(v1, Cell):
        kind = None
        save = ex.st
        ex.st = st
        try:
            kinds = [x for x in (cell_kind(ex, v0), cell_kind(ex, v1)) if x is not None]
        finally:
            ex.st = save
        if not kinds:
            return False
        kind = kinds[-1]
        if any(x != kind for x in kinds):
            raise Unsupported('container of changing kind in a loop')
        if loop.kinds.get(k) != kind:
            loop.kinds[k] = kind
            return True
        return False
    if k[0] == 'field' and v0 is MISSING:
        # first read inside the loop: not a change
        if k in loop.mod:
            base.fields[k[1]] = z3.Array('fld0:' + k[1], v1.sort().domain(), v1.sort().range())
            v0 = base.fields[k[1]]
    sh = loop.shapes.get(k)
    before = None if sh is None else list(sh.kinds)
    if sh is None:
        sh = loop.shapes[k] = Shape()
        sh.add(ex, v0)
    sh.add(ex, v1)
    if sh.bad is not None:
        loop.poison.add(k)
        return True
    return before != sh.kinds


# ---------------------------------------------------------------- candidates
class Cand:
    def __init__(self, name, fn):
        self.name, self.fn, self.backend, self.time = name, fn, '', 0.0


def eval_cand(ex, loop, c, i):
    g = c.fn(View(ex, loop, i))
    return B(g)


def facts(ex, loop, i, step=True):
    """Unfold the spec functions around iteration i."""
    for f in ex.loop_specs:
        for g in f.facts(ex, loop, i):
            ex.assume(g)
    if loop.used_up is not None:
        q, n = loop.used_up.t, z3.Length(loop.used_up.t)
        ex.assume(z3.Extract(q, z3.IntVal(0), n) == q)
        ex.assume(z3.Extract(q, n, z3.IntVal(0)) == z3.Empty(q.sort()))
        for k in (i - 1, i):
            ex.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(
                z3.Length(z3.Extract(q, k, n - k)) == n - k,
                z3.Extract(q, k, n - k) == z3.Concat(z3.Unit(q[k]), z3.Extract(q, k + 1, n - k - 1)))))
    if any(is_element(loop, t) for t in loop.maps.values()):
        # the definition of a prefix, around iteration i
        q, n = loop.along.t, z3.Length(loop.along.t)
        ex.assume(z3.Extract(q, z3.IntVal(0), z3.IntVal(0)) == z3.Empty(q.sort()))
        ex.assume(z3.Extract(q, z3.IntVal(0), n) == q)
        ex.assume(z3.Implies(z3.And(0 <= i, i < n), z3.Extract(q, z3.IntVal(0), i + 1) == z3.Concat(
            z3.Extract(q, z3.IntVal(0), i), z3.Unit(q[i]))))


def is_element(loop, t):
    """Whether term t is the element the loop is at."""
    return loop.along is not None and z3.simplify(t).eq(z3.simplify(loop.along.t[loop.i]))


def holds(ex, loop, c, i, ms):
    try:
        g = eval_cand(ex, loop, c, i)
    except (Unsupported, z3.Z3Exception, KeyError, AttributeError):
        return False
    facts(ex, loop, i)
    if ex.deadline is not None and time.time() > ex.deadline + (min(solver.stretch(), 1.5) - 1) * ex.time_budget:
        raise Unsupported('time budget')
    if os.environ.get('PYDV_TRACE'):
        print('      cand %s: %s ...' % (loop.name, c.name), flush=True)
    st, be, t, m, why = solver.prove(ex.hyps() + ex.lit_axioms() + list(ex.axioms), g, ms, portfolio=ex.inv_portfolio)
    c.backend, c.time = be, c.time + t
    if os.environ.get('PYDV_TRACE'):
        print('      cand %s: %s %.1fs %s' % (loop.name, c.name, t, st), flush=True)
    return st == 'proved'


def candidates(ex, loop):
    out = []
    for k in loop.mod:
        if k in loop.poison:
            continue
        nm = '.'.join(str(x) for x in k)
        entry = loop.get(loop.entry_sym, k)
        if isinstance(entry, IterCell):
            continue
        if k in loop.maps:
            def pw(v, k=k, e=(entry.seq if isinstance(entry, ListCell) else entry).t, t=loop.maps[k]):
                a = v.loop.get(v.ex.st, k)
                a = (a.seq if isinstance(a, ListCell) else a).t
                j = z3.Int('j!map')
                m = z3.Length(e)
                at = j if Fold.same_empty(e) else m + j
                return z3.And(z3.Length(a) == m + v.i, *([] if Fold.same_empty(e) else [z3.Extract(a, z3.IntVal(0), m) == e]),
                              z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.i), a[at] == z3.substitute(t, (v.loop.i, j)))))
            out.append(Cand('%s appends one value per iteration' % nm, pw))
            if is_element(loop, loop.maps[k]):
                def taken(v, k=k, e=(entry.seq if isinstance(entry, ListCell) else entry).t):
                    a = v.loop.get(v.ex.st, k)
                    a = (a.seq if isinstance(a, ListCell) else a).t
                    return a == z3.Concat(e, z3.Extract(v.loop.along.t, z3.IntVal(0), v.i))
                out.append(Cand('%s takes over the elements' % nm, taken))
        if isinstance(entry, DictCell) and entry.sym is not None:
            out.append(Cand('keys of %s unchanged' % nm, lambda v, k=k, e=entry.sym[0]: v.loop.get(v.ex.st, k).sym[0] == e))
        if k[0] == 'field' and '_top' in loop.entry_sym.ghost:
            # objects there were before the loop keep the field
            def frame(v, k=k, e=entry, top=loop.entry_sym.ghost['_top'].t):
                a = v.loop.get(v.ex.st, k)
                r = z3.Int('r!frame')
                return z3.ForAll([r], z3.Implies(r < top, z3.Select(a, r) == z3.Select(e, r)),
                                 patterns=[z3.Select(a, r)] if z3.is_const(a) else [])
            out.append(Cand('%s of earlier objects unchanged' % nm, frame))
        # a numeric location only grows, or counts
        if isinstance(entry, (int, float)) and not isinstance(entry, bool) or (
                isinstance(entry, T) and entry.kind in ('int', 'real')):
            sh = loop.shapes.get(k)
            if sh and len(sh.kinds) == 1 and sh.kinds[0] in ('int', 'real'):
                kd = sh.kinds[0]
                e = ex.term(entry, kd)
                out.append(Cand('%s >= entry' % nm, lambda v, k=k, e=e, kd=kd: v.ex.term(v.loop.get(v.ex.st, k), kd) >= e))
                out.append(Cand('%s == entry+i' % nm, lambda v, k=k, e=e, kd=kd: v.ex.term(
                    v.loop.get(v.ex.st, k), kd) == e + (z3.ToReal(v.i) if kd == 'real' else v.i)))
        if isinstance(entry, (bool, str)) or entry is None or isinstance(entry, T):
            out.append(Cand('%s unchanged' % nm, lambda v, k=k, e=entry: v.ex.eq(v.loop.get(v.ex.st, k), e)))
    if loop.n is not None and any(isinstance(x, (ast.Return, ast.Break, ast.Raise)) for x in ast.walk(loop.node)):
        out.append(Cand('never runs out', lambda v: v.i < v.loop.n))
    if loop.seq is None and loop.along is not None:
        out.append(Cand('not past the end', lambda v: v.i <= z3.Length(v.loop.along.t)))
    if isinstance(loop.node, ast.While) and not isinstance(loop.node.test, ast.Constant):
        out += by_condition(ex, loop)
    for f in ex.loop_specs:
        out += f.candidates(ex, loop)
    return out


def plain(node):
    """Whether an expression can be asked for at any time."""
    return not any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Call) and not (
        isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(node))


def ask(ex, node, f):
    """f of the value of an expression in the present state; None if that depends on a decision."""
    st = ex.st
    rs = ex.explore(lambda: f(ex.ev(node)))
    ex.st = st
    if len(rs) != 1 or rs[0][1][0] != 'ok' or len(rs[0][0].pc) != len(st.pc):
        return None
    return rs[0][1][1]


def by_condition(ex, loop):
    """Candidates from the condition of a while loop."""
    out = []
    parts = loop.node.test.values if isinstance(loop.node.test, ast.BoolOp) and isinstance(loop.node.test.op, ast.And) else [loop.node.test]
    if plain(loop.node.test):
        def test(v):
            c = ask(v.ex, loop.node.test, v.ex.truth)
            return z3.BoolVal(True) if c is None else B(c)
        out.append(Cand('never ends by its condition', test))
    for p in parts:
        if isinstance(p, ast.Compare) and len(p.ops) == 1 and plain(p) and isinstance(p.ops[0], (ast.Lt, ast.Gt, ast.NotEq)):
            def bound(v, p=p):
                num = lambda w: v.ex.term(v.ex.split(w), 'int')
                try:
                    a, b = ask(v.ex, p.left, num), ask(v.ex, p.comparators[0], num)
                except Unsupported:
                    return z3.BoolVal(True)
                if a is None or b is None:
                    return z3.BoolVal(True)
                return a >= b if isinstance(p.ops[0], ast.Gt) else a <= b
            out.append(Cand('not past the bound of %s' % ast.unparse(p), bound))
    if loop.seq is None and loop.along is None:
        # a list that is used up from its start
        names = {x.id for x in ast.walk(loop.node.test) if isinstance(x, ast.Name)}
        for fr in loop.entry_sym.frames:
            for nm, w in fr.locals.items():
                e = loop.get(loop.entry_sym, ('cell', w.id)) if nm in names and isinstance(w, Oid) and ('cell', w.id) in loop.mod else None
                if isinstance(e, ListCell) and e.seq is not None and ('cell', w.id) not in loop.poison and loop.along is None:
                    q = e.seq
                    loop.along = loop.used_up = q

                    def left(v, w=w, q=q):
                        return z3.And(v.i <= z3.Length(q.t), v.loop.get(v.ex.st, ('cell', w.id)).seq.t == z3.Extract(q.t, v.i, z3.Length(q.t) - v.i))
                    out.append(Cand('what is left of %s' % nm, left))
    return out


# ---------------------------------------------------------------- spec functions over sequences
def same_seq(ex, loop, seq):
    """Whether the loop goes over the given sequence (provably, at the entry of the loop)."""
    a, b = loop.along.t, seq.t
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        return False
    memo = loop.__dict__.setdefault('same_seq', {})
    k = b.get_id()
    if k not in memo:
        sa, sb = z3.simplify(a), z3.simplify(b)
        ok = sa.eq(sb)
        if not ok and not (z3.is_const(sa) and z3.is_const(sb)):
            hy = [t for _, t in loop.entry.pc]
            ok = solver.prove(hy + ex.lit_axioms() + list(ex.axioms), a == b, 1000)[0] == 'proved'
        memo[k] = (ok, b)
    return memo[k][0]


class Fold:
    """F(0) = init, F(i+1) = step(F(i), s[i]) over a sequence s (kind of the value: 'int', 'real', 'bool',
    ('seq', ek), ('set', kk), or a z3 sort given through `sort`).

    backward: G(n) = init, G(i) = step(G(i+1), s[i]).
    step(ex, acc term, element value, index term) -> term; must not depend on mutable state other than
    the fields given at definition (state at definition time is captured by the caller).
    """

    def __init__(self, name, seq, kind, init, step, backward=False, sort=None, accum=True, result=None):
        self.name, self.seq, self.kind, self.init, self.step = name, seq, kind, init, step
        self.backward = backward
        self.sort = sort
        self.F = None
        self.accum = accum
        self.result = result

    def func(self, ex):
        if self.F is None:
            srt = self.sort if self.sort is not None else (
                z3.SeqSort(ex.sort(self.kind[1])) if isinstance(self.kind, tuple) and self.kind[0] == 'seq' else
                z3.ArraySort(ex.sort(self.kind[1]), z3.BoolSort()) if isinstance(self.kind, tuple) and self.kind[0] == 'set'
                else ex.sort(self.kind))
            self.F = z3.Function('F_' + self.name, z3.IntSort(), srt)
        return self.F

    def at(self, ex, i):
        return self.func(ex)(i)

    def total(self, ex):
        return self.at(ex, z3.IntVal(0) if self.backward else z3.Length(self.seq.t))

    def defn(self, ex, i):
        """Definition at index i: value before/after element i."""
        F = self.func(ex)
        e = ex.wrap(self.seq.ek, self.seq.t[i])
        n = z3.Length(self.seq.t)
        if self.backward:
            return [F(n) == self.init, z3.Implies(z3.And(0 <= i, i < n), F(i) == self.step(ex, F(i + 1), e, i))]
        return [F(0) == self.init, z3.Implies(z3.And(0 <= i, i < n), F(i + 1) == self.step(ex, F(i), e, i))]

    def index(self, ex, loop):
        """How the loop's sequence relates to ours: function from iterations done to fold index, or None."""
        if loop.along is None:
            return None
        if same_seq(ex, loop, self.seq):
            return (lambda i: i, lambda i: i)
        n = z3.Length(self.seq.t)
        for r, s in ex.st.ghost.get('_rev', ()):
            if (r.t.eq(loop.along.t) and s.t.eq(self.seq.t)):
                return (lambda i: n - i, lambda i: n - 1 - i)
            if (s.t.eq(loop.along.t) and r.t.eq(self.seq.t)):
                return (lambda i: n - i, lambda i: n - 1 - i)
        return None

    def facts(self, ex, loop, i):
        ix = self.index(ex, loop)
        if ix is None:
            return []
        out = []
        j = z3.simplify(ix[1](i))
        out += self.defn(ex, j)
        out += self.defn(ex, z3.simplify(ix[1](i - 1)))
        return out

    def candidates(self, ex, loop):
        ix = self.index(ex, loop)
        if ix is None or not self.accum:
            return []
        probe = z3.simplify(ix[0](z3.IntVal(0)))
        starts_at_init = z3.is_int_value(probe) != self.backward
        if not starts_at_init and not self.backward:
            return []
        out = []
        for k in loop.mod:
            if k in loop.poison:
                continue
            cur = loop.get(loop.entry_sym, k)
            nm = '.'.join(str(x) for x in k)
            if isinstance(self.kind, tuple) and self.kind[0] == 'seq':
                if isinstance(cur, ListCell) and cur.seq is not None and cur.seq.ek == self.kind[1]:
                    e = cur.seq.t

                    def same_(v, k=k):
                        return v.loop.get(v.ex.st, k).seq.t == self.at(ex, ix[0](v.i))

                    def app(v, k=k, e=e):
                        return v.loop.get(v.ex.st, k).seq.t == z3.Concat(e, self.at(ex, ix[0](v.i)))
                    out.append(Cand('%s == %s(i)' % (nm, self.name), same_))
                    if not self.same_empty(e):
                        out.append(Cand('%s == entry ++ %s(i)' % (nm, self.name), app))
                elif isinstance(cur, Seq) and cur.ek == self.kind[1]:
                    e = cur.t
                    out.append(Cand('%s == %s(i)' % (nm, self.name),
                                    lambda v, k=k: v.loop.get(v.ex.st, k).t == self.at(ex, ix[0](v.i))))
                    out.append(Cand('%s == entry ++ %s(i)' % (nm, self.name),
                                    lambda v, k=k, e=e: v.loop.get(v.ex.st, k).t == z3.Concat(e, self.at(ex, ix[0](v.i)))))
            elif isinstance(self.kind, tuple) and self.kind[0] == 'set':
                if isinstance(cur, SetCell) and cur.sym is not None and cur.sym[1] == self.kind[1]:
                    out.append(Cand('%s == %s(i)' % (nm, self.name),
                                    lambda v, k=k: v.loop.get(v.ex.st, k).sym[0] == self.at(ex, ix[0](v.i))))
                if isinstance(cur, DictCell) and cur.sym is not None and cur.sym[2] == self.kind[1]:
                    out.append(Cand('%s keys == %s(i)' % (nm, self.name),
                                    lambda v, k=k: v.loop.get(v.ex.st, k).sym[0] == self.at(ex, ix[0](v.i))))
            elif self.kind in ('int', 'real', 'bool'):
                kinds = loop.shapes[k].kinds if k in loop.shapes else []
                if len(kinds) == 1 and (kinds[0] == self.kind or (self.kind == 'real' and kinds[0] == 'int')
                                        or (self.kind == 'int' and kinds[0] == 'real')):
                    kd = self.kind if self.kind == 'bool' else 'real' if 'real' in (self.kind, kinds[0]) else 'int'

                    def val(v, k=k, kd=kd):
                        return v.ex.term(v.loop.get(v.ex.st, k), kd)

                    def fv(i, kd=kd):
                        f = self.at(ex, ix[0](i))
                        return z3.ToReal(f) if kd == 'real' and self.kind == 'int' else f
                    out.append(Cand('%s == %s(i)' % (nm, self.name), lambda v, val=val, fv=fv: val(v) == fv(v.i)))
                    if kd == 'bool':
                        out.append(Cand('%s == not %s(i)' % (nm, self.name), lambda v, val=val, fv=fv: val(v) != fv(v.i)))
                    else:
                        e = ex.term(cur, kd)
                        out.append(Cand('%s == entry + %s(i)' % (nm, self.name),
                                        lambda v, val=val, fv=fv, e=e: val(v) == e + fv(v.i)))
                elif isinstance(cur, DictCell) and cur.sym is not None and cur.sym[3] == self.kind:
                    # counters kept in a dict under fixed keys
                    dom = cur.sym[0]
                    while z3.is_store(dom):
                        key = dom.arg(1)
                        dom = dom.arg(0)
                        out.append(Cand('%s[%s] == %s(i)' % (nm, key, self.name), lambda v, k=k, key=key:
                                        z3.Select(v.loop.get(v.ex.st, k).sym[1], key) == self.at(ex, ix[0](v.i))))
        return out

    @staticmethod
    def same_empty(e):
        return z3.is_app(e) and e.decl().name() in ('seq.empty',)


class Pred:
    """Candidate: all elements so far satisfy P."""

    def __init__(self, name, seq, p):
        self.name, self.seq, self.p = name, seq, p

    def all_to(self, ex, i):
        j = z3.Int('j!' + self.name)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), self.p(ex, ex.wrap(self.seq.ek, self.seq.t[j]), j)))

    def first(self, ex):
        """Index of the first element that does not satisfy P, else the length."""
        return z3.Int('first not ' + self.name)

    def facts(self, ex, loop, i):
        if not getattr(loop, 'firsts', {}).get(self.name):
            return []
        w, n = self.first(ex), z3.Length(self.seq.t)
        notp = lambda k: z3.Not(self.p(ex, ex.wrap(self.seq.ek, self.seq.t[k]), k))
        return [w >= 0, w <= n, self.all_to(ex, w), z3.Implies(w < n, notp(w)),
                z3.Implies(z3.And(0 <= i, i < w), z3.Not(notp(i)))]

    def candidates(self, ex, loop):
        if loop.along is None or not same_seq(ex, loop, self.seq):
            return []
        out = [Cand('all earlier: ' + self.name, lambda v: self.all_to(v.ex, v.i))]
        for k in loop.mod:
            # a flag, a count or a list of hits that tells whether all earlier elements satisfy P
            if k in loop.poison or k[0] not in ('local', 'cell'):
                continue
            cur, nm = loop.get(loop.entry_sym, k), '.'.join(str(x) for x in k)
            kinds = loop.shapes[k].kinds if k in loop.shapes else []
            if isinstance(cur, ListCell) and cur.seq is not None:
                def hits(v, k=k, n=z3.Length(cur.seq.t)):
                    m = z3.Length(v.loop.get(v.ex.st, k).seq.t)
                    return z3.And(m >= n, (m == n) == self.all_to(v.ex, v.i))
                out.append(Cand('%s grows unless all earlier: %s' % (nm, self.name), hits))
            elif len(kinds) == 1 and kinds[0] == 'bool' and isinstance(cur, (bool, T)):
                e = ex.term(cur, 'bool')
                out.append(Cand('%s as long as all earlier: %s' % (nm, self.name), lambda v, k=k, e=e: (
                    v.ex.term(v.loop.get(v.ex.st, k), 'bool') == e) == self.all_to(v.ex, v.i)))
            elif len(kinds) == 1 and kinds[0] == 'int' and isinstance(cur, int) and not isinstance(cur, bool):
                def count(v, k=k, n=cur):
                    m = v.ex.term(v.loop.get(v.ex.st, k), 'int')
                    return z3.And(m >= n, (m == n) == self.all_to(v.ex, v.i))
                out.append(Cand('%s grows unless all earlier: %s' % (nm, self.name), count))
            elif cur is None and len(kinds) == 2 and self.seq.ek in kinds and 'none' in kinds:
                # the first hit is kept
                loop.__dict__.setdefault('firsts', {})[self.name] = True

                def kept(v, k=k):
                    w, t = self.first(v.ex), v.loop.get(v.ex.st, k)
                    ws = [(g, x) for g, x in (t.alts if isinstance(t, U) else [(True, t)])]
                    return z3.And(*[z3.Implies(B(g), v.i <= w if x is None else z3.And(w < v.i, B(v.ex.eq(x, v.ex.wrap(self.seq.ek, self.seq.t[w])))))
                                    for g, x in ws])
                out.append(Cand('%s is the first but for: %s' % (nm, self.name), kept))
        return out


class Extra:
    """Candidates and facts given by functions."""

    def __init__(self, cands, facts=None):
        self.c, self.f = cands, facts

    def facts(self, ex, loop, i):
        return self.f(ex, loop, i) if self.f else []

    def candidates(self, ex, loop):
        return [Cand(n, f) for n, f in self.c(ex, loop)]
