"""Discharging proof obligations with a portfolio of SMT solvers."""
import os
import re
import subprocess
import tempfile
import threading
import time
import z3

CVC5 = 'cvc5'
STATS = {}
LOAD = [1.0]


def stretch():
    """How much longer than its processor time a call takes (1 on an idle machine): time limits are multiplied by it."""
    return LOAD[0]


def note_load(wall, cpu):
    if wall > 0.05:
        r = min(max(wall / max(cpu, 0.001), 1.0), 6.0)
        w = min(wall, 1.0) * 0.5
        LOAD[0] = (1 - w) * LOAD[0] + w * r


def _z3(hyps, goal, ms, seed=0, opts=()):
    s = z3.Solver()
    s.set('timeout', ms)
    if seed:
        s.set('random_seed', seed)
    for k, v in opts:
        s.set(k, v)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = guarded(s, ms)
    if r == z3.unsat:
        return 'proved', None, ''
    if r == z3.sat:
        return 'refuted', s.model(), ''
    return 'unknown', None, s.reason_unknown()


def guarded(s, ms):
    """check(), interrupted if the solver does not keep to its time limit."""
    if LOAD[0] > 1.1:
        ms = int(ms * LOAD[0])
        s.set('timeout', ms)
    t = threading.Timer(ms / 1000.0 + 1.0, s.ctx.interrupt)
    t.daemon = True
    t.start()
    w0, c0 = time.monotonic(), time.process_time()
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        t.cancel()
        note_load(time.monotonic() - w0, time.process_time() - c0)


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _cli(cmd, text, ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=ms / 1000.0 + 2)
        out = p.stdout.strip().split('\n')[0].strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    if out == 'unsat':
        return 'proved'
    if out == 'sat':
        return 'refuted'
    return 'unknown'


def _cvc5(hyps, goal, ms):
    ms = int(ms * min(LOAD[0], 4))
    text = smt2(hyps, goal)
    text = '(set-logic ALL)\n' + text
    # dialect differences
    text = text.replace('(seq.nth_i ', '(seq.nth ').replace('(seq.nth_u ', '(seq.nth ')
    text = re.sub(r'\(_ seq\.map_\w+[^)]*\)', '', text)
    return _cli([CVC5, '--strings-exp', '--tlimit=%d' % ms, '--full-saturate-quant'], text, ms)


def prove(hyps, goal, ms=4000, model=False, portfolio=True):
    """-> (status, backend, seconds, model, reason)"""
    t0 = time.time()
    if z3.is_true(goal):
        return 'proved', 'trivial', 0.0, None, ''
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplify', time.time() - t0, None, ''
    if any(h.eq(goal) for h in hyps):
        return 'proved', 'hypothesis', time.time() - t0, None, ''
    if any(quantified(h) for h in hyps) or quantified(goal):
        st, m, why = _z3(hyps, goal, min(ms, 600), 0, (('smt.mbqi', False),))
        if st == 'proved':
            return st, 'z3', time.time() - t0, m, why
    st, m, why = _z3(hyps, goal, min(ms, 1500))
    if st != 'unknown':
        return st, 'z3', time.time() - t0, m, why
    if not portfolio:
        return st, 'z3', time.time() - t0, m, why
    if _cvc5(hyps, goal, min(ms, 4000)) == 'proved':
        return 'proved', 'cvc5', time.time() - t0, None, ''
    for seed, opts in ((7, ()), (3, (('smt.arith.solver', 2),)), (11, (('smt.mbqi', False),))):
        try:
            st, m, why = _z3(hyps, goal, ms, seed, opts)
        except z3.Z3Exception:
            continue
        if st != 'unknown':
            return st, 'z3', time.time() - t0, m, why
    if ms > 4000 and _cvc5(hyps, goal, ms) == 'proved':
        return 'proved', 'cvc5', time.time() - t0, None, ''
    return 'unknown', 'z3+cvc5', time.time() - t0, None, why


_Q = {}


def quantified(t):
    k = t.get_id()
    if k in _Q:
        return _Q[k][0]
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _Q[k] = (r, t)
    return r


def satisfiable(hyps, ms=3000):
    """Is the set of assumptions consistent? True / False / None (unknown)."""
    s = z3.Solver()
    s.set('timeout', ms)
    for h in hyps:
        s.add(h)
    r = guarded(s, ms)
    return True if r == z3.sat else False if r == z3.unsat else None
