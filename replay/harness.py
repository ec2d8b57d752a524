"""Runs the real code (from VERIF_REPO, default /repo) on generated inputs against an independent oracle.

    harness.py C06 --seed 1 --budget 10 [--hints FILE] [--scratch DIR]
    harness.py C06 --replay FILE

Prints one JSON object.  Each property has a module hNN.py with

    gen(rng, h)      -> a case (JSON-able)
    run(case, h)     -> None, or a message saying what is wrong
    FIXED            -> optional list of cases that are always run first

Effects stay inside the scratch directory; the harness is started as an
unprivileged user, and file removals are confined to the scratch directory.
"""
import argparse
import ast
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class Known(str):
    """A failure message that is exactly a recorded finding: Known(message) with .tag"""
    tag = None


def known(tag, msg):
    k = Known(msg)
    k.tag = tag
    return k


class H:
    """Helpers given to the property modules."""

    def __init__(self, scratch, hints):
        self.scratch = scratch
        self.hints = hints
        self.strs, self.nums = constants()
        self.n = 0
        self.web = {}
        self.requests = []
        self.web_hook = None
        self.stats = {}
        self.real = dict(unlink=os.unlink, remove=os.remove, open=open)

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def dir(self):
        """A fresh empty directory, removed after the case."""
        self.n += 1
        d = os.path.join(self.scratch, 'd%d' % self.n)
        os.mkdir(d)
        return d

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if n.startswith('d'):
                for r, ds, fs in os.walk(p):
                    try:
                        os.chmod(r, 0o700)
                    except OSError:
                        pass
                shutil.rmtree(p, ignore_errors=True)


def constants():
    """Interesting strings and numbers: the literals of the code under test."""
    strs, nums = set(), set()
    pk = os.path.join(REPO, 'resync')
    for f in sorted(os.listdir(pk)):
        if not f.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(pk, f)).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and len(n.value) <= 24 and '\n' not in n.value:
                    strs.add(n.value)
                elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    nums.add(n.value)
    return sorted(strs), sorted(nums)


class Timeout(BaseException):
    pass


def confine(scratch):
    """Make removals and overwrites outside the scratch directory impossible for this process's Python code."""
    root = os.path.realpath(scratch)

    def inside(p):
        try:
            p = os.fspath(p)
        except TypeError:
            return True
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        d = os.path.realpath(os.path.dirname(os.path.abspath(p)))
        return d == root or d.startswith(root + os.sep)

    def guard(name, nargs=1):
        real = getattr(os, name)

        def wrapped(*a, **k):
            if 'dir_fd' not in k or k['dir_fd'] is None:
                for x in a[:nargs]:
                    if not inside(x):
                        raise PermissionError(1, 'outside the scratch directory (harness)', str(x))
            return real(*a, **k)
        wrapped.__wrapped__ = real
        setattr(os, name, wrapped)
    for nm, n in (('unlink', 1), ('remove', 1), ('rmdir', 1), ('rename', 2), ('replace', 2), ('truncate', 1),
                  ('chmod', 1), ('symlink', 0), ('mkdir', 1), ('utime', 1)):
        guard(nm, n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--hints')
    ap.add_argument('--scratch')
    ap.add_argument('--replay')
    ap.add_argument('--uid', type=int)
    ap.add_argument('--skip-fixed', action='store_true')
    ap.add_argument('--known', default='')
    o = ap.parse_args()
    own = o.scratch is None
    scratch = o.scratch or tempfile.mkdtemp(prefix='verif-h-')
    hints = {}
    if o.hints:
        with open(o.hints) as f:
            hints = json.load(f)
    case0 = None
    if o.replay:
        with open(o.replay) as f:
            case0 = json.load(f)['case']
    if o.uid and os.getuid() == 0:
        os.chown(scratch, o.uid, o.uid)
        os.setgroups([])
        os.setgid(o.uid)
        os.setuid(o.uid)
    os.environ['HOME'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import fake_web                   # replaces the network
    confine(scratch)
    h = H(scratch, hints)
    fake_web.H = h
    out = {'property': o.prop, 'seed': o.seed, 'cases': 0, 'status': 'ok', 'known': {}}
    t0 = time.time()
    try:
        mod = importlib.import_module('h' + o.prop[1:])
    except Exception:
        # the code under test cannot be imported
        out.update(status='error', message=traceback.format_exc()[-2000:])
        print(json.dumps(out))
        return
    fixed = list(getattr(mod, 'FIXED', []))

    def one(case):
        random.seed(12345)
        fake_web.reset()

        def alarm(*a):
            raise Timeout()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(30)
        try:
            return mod.run(case, h)
        except Exception as e:
            tb, inside = e.__traceback__, False
            while tb is not None:
                inside |= os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep)
                tb = tb.tb_next
            if not inside:
                raise
            return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        except Timeout:
            return 'does not come to an end within 30 s'
        finally:
            signal.alarm(0)
            h.clean()
    sys.stdout.flush()
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    ctr = 0
    ktags = set(x for x in o.known.split(',') if x)
    try:
        while True:
            if case0 is not None:
                case = case0
            elif fixed and not o.skip_fixed:
                case = fixed.pop(0)
                if callable(case):
                    case = case(h)
            else:
                if time.time() - t0 > o.budget:
                    break
                rng = random.Random('%s-%d-%d' % (o.prop, o.seed, ctr))
                ctr += 1
                case = mod.gen(rng, h)
                if case is None:
                    continue
            try:
                case = json.loads(json.dumps(case))
                msg = one(case)
            except Exception:
                out.update(status='error', message=traceback.format_exc()[-3000:], case=case)
                break
            out['cases'] += 1
            if msg is not None:
                tag = getattr(msg, 'tag', None)
                if tag and tag in ktags and case0 is None:
                    out['known'][tag] = str(msg)
                    continue
                if hasattr(mod, 'shrink') and case0 is None:
                    case, msg = shrink(mod, one, case, msg, time.time() + 10)
                out.update(status='fail', case=case, message=str(msg), tag=getattr(msg, 'tag', None))
                break
            if case0 is not None:
                break
    finally:
        os.dup2(real_out, 1)
    out['wall_s'] = round(time.time() - t0, 2)
    out['stats'] = h.stats
    out['distribution'] = getattr(mod, 'WHAT', '')
    sys.stdout = os.fdopen(real_out, 'w')
    print(json.dumps(out))
    sys.stdout.flush()
    if own:
        shutil.rmtree(scratch, ignore_errors=True)


def shrink(mod, one, case, msg, until):
    progress = True
    while progress and time.time() < until:
        progress = False
        for c in mod.shrink(case):
            if time.time() > until:
                break
            try:
                m = one(json.loads(json.dumps(c)))
            except Exception:
                continue
            if m is not None and getattr(m, 'tag', None) == getattr(msg, 'tag', None):
                case, msg, progress = c, m, True
                break
    return case, msg


if __name__ == '__main__':
    main()
