"""Contract units: a call of real code under a precondition, and what must hold afterwards.

A unit is a procedure run inside the symbolic interpreter once per path.  It
sets up symbolic arguments (the precondition), calls the real function, and
states named goals (the postcondition).  Each goal on each path is an
obligation; so is every loop invariant used on the way.
"""
import os
import time
import traceback
import z3

from .values import *
from .project import Project
from .ex import Ex, Obl
from . import solver

REPO = os.environ.get('VERIF_REPO', '/repo')


class Unit:
    def __init__(self, name, fn, target=(), opaque=True, reftypes=None, models=None, ext=None,
                 ms=4000, feas_ms=300, budget=110, covers=(), tier='quick', bounded=None, inline_limit=60,
                 minobl=1, merge=True, inv_portfolio=True):
        self.name, self.fn, self.opaque = name, fn, opaque
        self.target = (target,) if isinstance(target, str) else tuple(target)
        self.reftypes, self.models, self.ext = reftypes or {}, models or {}, ext or {}
        self.ms, self.feas_ms, self.budget = ms, feas_ms, budget
        self.covers = tuple(covers)     # names of u.cover() calls that must be reachable
        self.tier = tier
        self.bounded = bounded          # text of a bound when the unit is a bounded stand-in
        self.inline_limit = inline_limit
        self.minobl = minobl
        self.inv_portfolio = inv_portfolio  # False: invariant candidates are tried with z3 only, briefly
        self.merge = merge              # False: follow every path separately


class Ctx:
    """What the procedure of a unit uses."""

    def __init__(self, ex, unit):
        self.ex, self.unit = ex, unit
        self.covered = {}

    # values
    def sym(self, kind, name):
        return self.ex.fresh(kind, name)

    def opt(self, kind, name):
        return self.ex.fresh_opt(kind, name)

    def seq(self, ek, name):
        return self.ex.fresh_seq(ek, name)

    def old(self, seq):
        """Assume the elements of a symbolic sequence were there before the call."""
        j = z3.Int('j!old')
        self.ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(seq.t)),
                                                 z3.And(seq.t[j] >= 0, seq.t[j] < self.ex.top0))))
        return seq

    def cls(self, key):
        return ClassV(self.ex.project.cls(key))

    def fn(self, key):
        fi = self.ex.project.func(key)
        return Func(fi, cls=fi.cls)

    def new(self, key, *args, **kw):
        return self.ex.instantiate(self.ex.project.cls(key), list(args), kw)

    def bare(self, key, **attrs):
        """An instance with the given attributes, without running its __init__."""
        return self.ex.alloc(ObjCell(self.ex.project.cls(key), dict(attrs)))

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        return self.ex.call(f, list(args), kw)

    def method(self, obj, name, *args, **kw):
        return self.ex.call(self.ex.getattr(obj, name), list(args), kw)

    def get(self, obj, name):
        return self.ex.getattr(obj, name)

    def attempt(self, thunk):
        try:
            return 'ok', thunk()
        except PyRaise as e:
            return 'raise', e.exc

    # logic
    def assume(self, g):
        self.ex.assume(B(g))

    def when(self, g):
        return self.ex.branch(B(g) if not isinstance(g, bool) else g)

    def prove(self, name, goal):
        self.ex.oblige('%s: %s' % (self.unit.name, name), goal)

    def lemma(self, name, goal, hyps=(), only=False):
        """Prove goal from the given facts (and the path's, unless only), then assume hyps => goal."""
        ex = self.ex
        if ex.recording:
            ex.obls.append(Obl('%s: lemma %s' % (self.unit.name, name),
                               ([] if only else ex.hyps()) + list(ex.axioms) + [B(h) for h in hyps], B(goal), 'lemma'))
        ex.assume(simp_imp(simp_and(*[B(h) for h in hyps]), B(goal)))

    def induct(self, name, P, n, facts=None, down=False, at=None):
        """Prove P(0..n) by induction (from n downwards if down); assume P at the given points.

        facts(i) are definitions unfolded at i, valid for 0 <= i < n.
        """
        ex = self.ex
        i = z3.Int(ex.fresh_name('ind'))
        fs = [B(f) for f in (facts(i) if facts else [])]
        rng = [i >= 0, i < n]
        base = ex.hyps() + list(ex.axioms)
        z0 = z3.IntVal(0)
        if ex.recording:
            ex.obls.append(Obl('%s: lemma %s (base)' % (self.unit.name, name), base + fs_at(facts, n if down else z0),
                               B(P(n if down else z0)), 'lemma'))
            ex.obls.append(Obl('%s: lemma %s (step)' % (self.unit.name, name),
                               base + fs + rng + [B(P(i + 1) if down else P(i))],
                               B(P(i) if down else P(i + 1)), 'lemma'))
        for a in (at if at is not None else [z0 if down else n]):
            ex.assume(z3.Implies(z3.And(a >= 0, a <= n), B(P(a))))

    def induct_all(self, name, P, n, facts=None, down=False):
        """As induct, assumed for every index."""
        ex = self.ex
        self.induct(name, P, n, facts, down, at=[])
        j = z3.Int(ex.fresh_name('all'))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), B(P(j)))))

    def fold(self, f):
        self.ex.loop_specs.append(f)
        return f

    def cover(self, name, g=True):
        """Record that this point must be reachable with g (guards against vacuity)."""
        self.covered.setdefault(name, []).append((self.ex.hyps() + list(self.ex.axioms), B(g)))

    def is_exc(self, e, name):
        c = self.ex.bi.ext_exception(name)
        if c is None:
            for m in self.ex.project.modules.values():
                if name in m.classes:
                    c = m.classes[name]
        if c is None:
            import builtins
            c = getattr(builtins, name)
        from .project import ClassInfo
        have = e.cls
        if isinstance(have, ClassInfo):
            return have.subclass_of(c)
        return isinstance(c, type) and issubclass(have, c)


def fs_at(facts, i):
    return [B(f) for f in facts(i)] if facts else []


_PROJECT = {}


def project():
    if REPO not in _PROJECT:
        _PROJECT[REPO] = Project(REPO, 'resync')
    return _PROJECT[REPO]


def run_unit(unit, scale=1.0):
    """-> dict with status proved / failed / unsupported and details."""
    t0 = time.time()
    out = dict(unit=unit.name, target=list(unit.target), status='', obligations=0, discharged=0, failed=[],
               backends={}, solver_s=0.0, reason='', functions=[], models=[], trusted=[], covers={},
               loops=[], paths=0, bounded=unit.bounded, opaque=unit.opaque)
    try:
        ex = Ex(project(), opaque=unit.opaque, reftypes=unit.reftypes, models=dict(unit.models),
                ext=dict(unit.ext), feas_ms=unit.feas_ms, deadline=t0 + unit.budget * scale)
        ex.inline_limit = unit.inline_limit
        ex.merging = unit.merge
        ex.inv_portfolio = unit.inv_portfolio
        u = Ctx(ex, unit)
        for key in unit.target:
            ex.project.func(key)
        results = ex.explore(lambda: (ex.loop_specs.clear(), unit.fn(u))[1])
        out['paths'] = ex.stats['paths']
        for st, o in results:
            if o[0] == 'raise':
                ex.st = st
                ob = Obl('%s: no exception escapes (%s%s)' % (unit.name, o[1].name, exc_text(o[1])),
                         ex.hyps() + list(ex.axioms), z3.BoolVal(False), 'end of path')
                ex.obls.append(ob)
        out['functions'] = sorted(ex.used)
        out['models'] = sorted(ex.used_models)
        out['trusted'] = sorted(ex.used_ext)
        out['loops'] = ex.loop_notes
        seen = set()
        for ob in ex.obls:
            key = (ob.name, tuple(sorted(h.get_id() for h in ob.hyps)), ob.goal.get_id())
            if key in seen:
                continue
            seen.add(key)
            out['obligations'] += 1
            if ob.status is None:
                if time.time() > t0 + unit.budget * scale * 1.5:
                    ob.status, ob.backend, ob.reason = 'unknown', '', 'time budget'
                else:
                    ob.status, ob.backend, ob.time, ob.model, ob.reason = solver.prove(
                        ob.hyps + ex.lit_axioms() + ex.lazy_facts(ob.hyps + [ob.goal]), ob.goal, int(unit.ms * scale))
            out['solver_s'] += ob.time
            if ob.status == 'proved':
                out['discharged'] += 1
                out['backends'][ob.backend] = out['backends'].get(ob.backend, 0) + 1
            else:
                out['failed'].append(dict(name=ob.name, where=str(ob.where), status=ob.status,
                                          reason=str(ob.reason), goal=str(ob.goal)[:600],
                                          model=model_text(ob.model, ex)))
                if len(out['failed']) >= 12:
                    break
        for nm in set(unit.covers) | set(u.covered):
            r = cover_result(u.covered.get(nm, []), ex)
            out['covers'][nm] = r
            if r == 'unreachable':
                out['failed'].append(dict(name='%s: cover %s' % (unit.name, nm), where='', status='vacuous',
                                          reason='no path reaches it', goal='', model=''))
        if out['obligations'] < unit.minobl:
            out['failed'].append(dict(name='%s: generates obligations' % unit.name, where='', status='vacuous',
                                      reason='no obligation generated', goal='', model=''))
        out['status'] = 'failed' if out['failed'] else 'proved'
    except Unsupported as e:
        out['status'], out['reason'] = 'unsupported', '%s (near %s)' % (e, line_of(ex) if 'ex' in dir() else '?')
    except PyRaise as e:
        out['status'], out['reason'] = 'unsupported', 'set-up raised %s' % e.exc
    except (KeyError, LookupError) as e:
        out['status'], out['reason'] = 'unsupported', 'not found: %s\n%s' % (e, traceback.format_exc()[-600:])
    except RecursionError:
        out['status'], out['reason'] = 'unsupported', 'recursion'
    except Exception as e:
        out['status'], out['reason'] = 'unsupported', 'engine: %s\n%s' % (e, traceback.format_exc()[-1500:])
    out['wall_s'] = round(time.time() - t0, 2)
    out['solver_s'] = round(out['solver_s'], 3)
    return out


def exc_text(e):
    try:
        return ' ' + ', '.join(repr(a)[:80] for a in e.args) if e.args else ''
    except Exception:
        return ''


def line_of(ex):
    try:
        return 'line %s' % ex.line
    except Exception:
        return '?'


def cover_result(items, ex):
    best = 'unreachable'
    for hyps, g in items:
        try:
            r = solver.satisfiable(hyps + ex.lit_axioms() + ex.lazy_facts(hyps + [g]) + [g], 2000)
        except z3.Z3Exception:      # out of memory
            r = None
        if r is True:
            return 'reached'
        if r is None:
            best = 'not refuted'
    return best


def model_text(m, ex):
    if m is None:
        return ''
    out = []
    inv = {}
    try:
        for s, t in ex.lits.items():
            inv[str(m.eval(t, model_completion=True))] = s
        for d in m.decls():
            if d.arity() == 0:
                v = str(m[d])
                out.append('%s = %s' % (d.name(), v[:200]))
    except Exception as e:
        out.append('(%s)' % e)
    return '\n'.join(sorted(out)[:200])
