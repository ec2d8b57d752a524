"""C05: applying one change touches one file and reports what happened."""
import z3
from pydv.unit import Unit
from pydv.values import *
from .lib import *
from pydv.loops import Extra
from .c07 import RTF
from .effects import Effects, tbool

M = 'client.Client.'


def client(u, hashes=False):
    ex = u.ex
    c = u.new('client.Client')
    a = ex.cell(c).attrs
    v = dict(tries=u.sym('int', 'tries'), timeout=u.opt('real', 'timeout'), ignore_failures=u.sym('bool', 'ignore_failures'),
             dryrun=u.sym('bool', 'dryrun'), last_timestamp=u.sym('real', 'last_timestamp'))
    a.update(v)
    u.assume(v['tries'].t >= 1)
    if hashes:
        a['hashes'] = ex.alloc(SetCell({x: u.sym('bool', 'asked ' + x).t for x in ('md5', 'sha-1', 'sha-256')}))
    return c, v


def last(u, c):
    return u.ex.term(u.ex.split(u.get(c, 'last_timestamp')), 'real')


def ghost(u, k):
    return u.ex.term(u.ex.st.ghost[k], u.ex.st.ghost[k].kind)


def z3_of(x):
    return x.t if isinstance(x, T) else x


def good_change(u, r):
    """Resources have no change type or a right one (C07)."""
    ch = u.ex.ref_get(r, 'change')
    u.assume(z3.Or(absent(ch), *[val(ch) == u.ex.lit(x) for x in ('created', 'updated', 'deleted')]))


def update(u):
    ex = u.ex
    c, v = client(u, hashes=True)
    r, f = u.sym(R, 'resource'), u.sym('str', 'filename')
    ts = ex.ref_get(r, 'timestamp')
    good_change(u, r)
    e = Effects(u, r, f, v['tries'], v['timeout'])
    ex.models['url_or_file_open.url_or_file_open'] = e.url_open

    def cands(ex, loop):
        g = lambda v, k: z3_of(v.loop.get(v.ex.st, ('ghost', k)))
        out = []
        if ('ghost', 'last') in loop.mod:
            out += [('every earlier attempt timed out', lambda v: z3.Or(v.i == 0, g(v, 'last') == 1)),
                    ('nothing copied', lambda v: z3.Not(g(v, 'copied')))]
        return out
    u.fold(Extra(cands))
    ch = u.opt('str', 'change')
    u.assume(z3.Or(absent(ch), *[val(ch) == ex.lit(x) for x in ('created', 'updated', 'deleted')]))
    k, res = u.attempt(lambda: u.method(c, 'update_resource', r, f, ch))
    t0, t1 = v['last_timestamp'].t, last(u, c)
    dry = v['dryrun'].t
    copied, timed = ghost(u, 'copied'), ghost(u, 'timed')
    u.prove('in a dry run nothing is fetched and the disk is not touched',
            z3.Implies(dry, z3.And(ghost(u, 'opens') == 0, z3.Not(ghost(u, 'touched')))))
    u.prove('in a dry run the latest timestamp is kept', z3.Implies(dry, t1 == t0))
    u.prove('nothing is removed', z3.Not(ghost(u, 'removed')))
    if k == 'raise':
        u.prove('a failure raises a fatal client error, not %s' % res.name if not u.is_exc(res, 'ClientFatalError') else 'a failure raises a fatal client error', u.is_exc(res, 'ClientFatalError'))
        u.prove('not if failures are to be ignored', z3.Not(v['ignore_failures'].t))
        u.prove('only if the content was not written', z3.Not(copied))
        u.prove('only after a failure or the last timeout', z3.Or(ghost(u, 'last') == 2, z3.And(
            ghost(u, 'last') == 1, ghost(u, 'opens') == v['tries'].t)))
        u.prove('no time is set', z3.Not(timed))
        u.prove('the latest timestamp is kept', t1 == t0)
        u.cover('failure')
        return
    n = ex.term(ex.split(res), 'int')
    u.prove('the number is 1 exactly if the content was written', n == z3.If(copied, 1, 0))
    u.prove('it was written unless failures are ignored or this is a dry run',
            z3.Or(copied, dry, z3.And(v['ignore_failures'].t, z3.Or(
                ghost(u, 'last') == 2, z3.And(ghost(u, 'last') == 1, ghost(u, 'opens') == v['tries'].t)))))
    has = z3.Not(absent(ts))
    u.prove('the time is set if it was written and there is a timestamp, and only then',
            timed == z3.And(copied, has))
    u.prove('the time is the whole seconds of the timestamp', z3.Implies(timed, ghost_time(u) == trunc(val(ts))))
    u.prove('the latest timestamp grows to that of the resource if it was written', z3.Implies(
        copied, t1 == z3.If(z3.And(has, val(ts) > t0), val(ts), t0)))
    u.prove('else it is kept', z3.Implies(z3.Not(copied), t1 == t0))
    u.cover('written', copied)
    u.cover('written after a timeout', z3.And(copied, ghost(u, 'opens') == 2))
    u.cover('ignored', z3.And(z3.Not(copied), z3.Not(dry)))
    u.cover('dry run', dry)


def trunc(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


def ghost_time(u):
    return u.ex.term(u.ex.st.ghost['time'], 'real')


def delete(u, default=False):
    """default: whether deletion is allowed is not said, so it is not."""
    ex = u.ex
    c, v = client(u)
    r, f = u.sym(R, 'resource'), u.sym('str', 'filename')
    ts = ex.ref_get(r, 'timestamp')
    good_change(u, r)
    Effects(u, r, f, v['tries'])
    allow = tbool(False) if default else u.sym('bool', 'allow_deletion')
    k, res = u.attempt(lambda: u.method(c, 'delete_resource', r, f, *([] if default else [allow])))
    if k == 'raise':
        u.prove('never raises (%s)' % res.name, False)
        return
    dry = v['dryrun'].t
    t0, t1 = v['last_timestamp'].t, last(u, c)
    n = ex.term(ex.split(res), 'int')
    u.prove('the disk is touched only if deletion is allowed and in no dry run',
            z3.Implies(ghost(u, 'touched'), z3.And(allow.t, z3.Not(dry))))
    u.prove('removal is tried if deletion is allowed, in no dry run',
            z3.Implies(z3.And(allow.t, z3.Not(dry)), ghost(u, 'touched')))
    u.prove('the number is 1 exactly if the file was removed', n == z3.If(ghost(u, 'removed'), 1, 0))
    u.prove('nothing is written or fetched, and no time set', z3.And(
        z3.Not(ghost(u, 'copied')), z3.Not(ghost(u, 'timed')), ghost(u, 'opens') == 0))
    has = z3.Not(absent(ts))
    u.prove('the latest timestamp only grows, to that of the resource',
            t1 == z3.If(z3.And(has, val(ts) > t0), val(ts), t0))
    if default:
        u.cover('reached')
        return
    u.cover('removed', ghost(u, 'removed'))
    u.cover('not removed', z3.And(z3.Not(ghost(u, 'removed')), ghost(u, 'touched')))


def hashes_init(ex, a):
    """Call-site contract of Hashes(types, file) (C16): reads the file, changes nothing."""
    return None


def hashes_get(name):
    """Call-site contract of Hashes.md5 etc. (C16): the digest, if it was asked for."""
    def f(ex, a):
        return ex.fresh('str', name)
    return f


MODELS = {'hashes.Hashes.__init__': hashes_init}
MODELS.update({'hashes.Hashes.' + x: hashes_get(x) for x in ('md5', 'sha1', 'sha256')})
UNITS = [
    Unit('update_resource', update, [M + 'update_resource', M + 'check_hashes'], reftypes=RTF, models=MODELS,
         covers=['failure', 'written', 'written after a timeout', 'ignored', 'dry run']),
    Unit('delete_resource', delete, M + 'delete_resource', reftypes=RTF, merge=False, covers=['removed', 'not removed']),
    Unit('delete_resource, by default', lambda u: delete(u, True), M + 'delete_resource', reftypes=RTF, covers=['reached'])]
CONF = dict(assumptions=['the time of a file just written can be set, and it can be examined',
                         'at least one attempt is configured',
                         'opening and copying fail with a timeout, an I/O error, an HTTP protocol error or a ValueError only'])
