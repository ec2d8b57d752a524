"""C22: one request per opening, with the configured headers, delay and timeout (SMT strings)."""
import re
import z3
from pydv.unit import Unit
from pydv.values import *
from .lib import *

M = 'url_or_file_open'
S = z3.StringVal


def scheme(t):
    """A scheme in the sense of the library: word characters and a colon (ASCII)."""
    w = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'))
    return z3.InRe(t, z3.Concat(z3.Plus(w), z3.Re(':'), z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))))


def event(ex, *e):
    ex.st.ghost['events'] = ex.st.ghost.get('events', ()) + (tuple(e),)


def request(ex, a, k):
    names = ['url', 'data', 'headers', 'origin_req_host', 'unverifiable', 'method']
    d = dict(zip(names, a))
    for x, v in k.items():
        if x in d or x not in names:
            ex.raise_(TypeError)
        d[x] = v
    return Opaque('request', tuple(sorted(d.items())))


def urlopen(ex, a, k):
    if len(a) > 1:
        raise Unsupported('positional arguments of urlopen')
    r = ex.split(a[0])
    if not isinstance(r, Opaque):
        r = Opaque('request', (('url', r),))
    event(ex, 'open', r, tuple(sorted(k.items())))
    if ex.branch(z3.Bool(ex.fresh_name('request_fails'))):
        ex.raise_(OSError, 'request failed')
    return Opaque('handle')


def sleep(ex, a, k):
    event(ex, 'sleep', a[0])
    return None


EXT = {'urllib.request.urlopen': urlopen, 'urllib.request.Request': request, 'time.sleep': sleep}


def config(u, token, delay, first=False):
    ex = u.ex
    m = ex.project.modules[M]
    for n in ('CONFIG', 'NUM_REQUESTS'):
        if n not in m.assigns:
            raise Unsupported('no %s in %s' % (n, M))
    cfg = ex.global_name(m, 'CONFIG')
    for k, v in (('bearer_token', token), ('delay', delay)):
        u.call(M + '.set_url_or_file_open_config', k, v)
    n = 0
    if not first:
        n = u.sym('int', 'requests_made')
        u.assume(n.t >= 1)
        ex.st.globals[(M, 'NUM_REQUESTS')] = n
    else:
        u.prove('no request has been made at first', ex.eq(ex.global_name(m, 'NUM_REQUESTS'), 0))
    return n


def opening(first):
    def unit(u):
        ex = u.ex
        uri, method = u.sym('str', 'uri'), u.opt('str', 'method')
        token, delay, timeout = u.opt('str', 'token'), u.opt('real', 'delay'), u.opt('real', 'timeout')
        n0 = config(u, token, delay, first)
        k, v = u.attempt(lambda: u.call(M + '.url_or_file_open', uri, method=method, timeout=timeout))
        ev = ex.st.ghost.get('events', ())
        opens = [e for e in ev if e[0] == 'open']
        u.prove('exactly one request is made', len(opens) == 1 and all(e[0] in ('open', 'sleep') for e in ev))
        if len(opens) != 1:
            return
        d = dict(opens[0][1].data)
        url = ex.term(ex.split(d['url']), 'str')
        has = scheme(uri.t)
        u.prove('a URI with a scheme is requested as it is', z3.Implies(has, url == uri.t))
        u.prove('anything else is the local file of that name',
                z3.Implies(z3.Not(has), url == z3.Concat(S('file:'), uri.t)))
        u.prove('with the method asked for', ex.eq(d.get('method'), method))
        u.prove('without data', 'data' not in d or ex.is_none(d['data']))
        h = ex.split(d['headers']) if 'headers' in d else ex.new_dict()
        hc = ex.cell(h)
        ok = hc.entries is not None and all(g is True for g, _ in hc.entries.values())
        if not ok:
            raise Unsupported('headers')
        hd = {x.lower(): w for x, (_, w) in hc.entries.items()}
        ua = hd.pop('user-agent', None)
        ver = re.search(r"__version__ *= *['\"]([^'\"]*)", open(ex.project.root + '/resync/__init__.py').read())
        u.prove('with the user agent of the library', ex.eq(ua, 'resync/' + ver.group(1)) if ua is not None else False)
        au = hd.pop('authorization', None)
        has_token = z3.Not(absent(token))
        if au is None:
            u.prove('without authorization only if no token is configured', z3.Not(has_token))
        else:
            u.prove('with authorization only if a token is configured', has_token)
            u.prove('with the token as bearer authorization',
                    ex.term(ex.split(au), 'str') == z3.Concat(S('Bearer '), val(token)))
        u.prove('with no other headers', not hd)
        kw = dict(opens[0][2])
        to = kw.pop('timeout', None)
        u.prove('with no other arguments', not kw)
        if to is None or to is MISSING:
            u.prove('without timeout only if none is given', absent(timeout))
        else:
            u.prove('with the timeout given', z3.And(z3.Not(absent(timeout)), ex.term(ex.split(to), 'real') == val(timeout)))
        sl = [e for e in ev if e[0] == 'sleep']
        web = z3.And(has, z3.Not(z3.PrefixOf(S('file:'), uri.t)))
        want = z3.And(web, z3.Not(absent(delay))) if not first else z3.BoolVal(False)
        u.prove('waits at most once, and before the request', len(sl) <= 1 and (not sl or ev[0] is sl[0]))
        if sl:
            u.prove('waits only before a web request other than the first, if a delay is configured', want)
            u.prove('waits for the delay configured', ex.term(ex.split(sl[0][1]), 'real') == val(delay))
        else:
            u.prove('does not wait only for the first request, local files or without a delay', z3.Not(want))
        n1 = ex.global_name(ex.project.modules[M], 'NUM_REQUESTS')
        u.prove('the request counts, even if it fails', ex.term(ex.split(n1), 'int') >= 1)
        if k == 'raise':
            u.prove('only failures of the request are raised', u.is_exc(v, 'OSError'))
        else:
            u.prove('gives the handle opened', isinstance(ex.split(v), Opaque) and ex.split(v).tag == 'handle')
            u.cover('web request', web)
    return unit


def setting(key, other):
    def unit(u):
        ex = u.ex
        m = ex.project.modules[M]
        a, b = u.sym('str', 'a'), u.sym('str', 'b')
        u.call(M + '.set_url_or_file_open_config', key, a)
        u.call(M + '.set_url_or_file_open_config', other, b)
        c = ex.global_name(m, 'CONFIG')
        u.prove('each setting is kept', simp_and(ex.eq(ex.bi.getitem(c, key), a), ex.eq(ex.bi.getitem(c, other), b)))
        u.cover('reached')
    return unit


# ---- command line options
def record(ex, a):
    ex.st.ghost['config'] = ex.st.ghost.get('config', ()) + ((a['key'], a['value']),)


def options(u):
    ex = u.ex
    token, delay = u.opt('str', 'token'), u.opt('real', 'delay')
    args = ex.alloc(ObjCell(Opaque, {'checksum': False, 'hash': None, 'access_token': token, 'delay': delay}))
    k, v = u.attempt(lambda: u.call('client_utils.process_shared_misc_options', args, include_remote=True))
    c = dict((ex.split(a), b) for a, b in ex.st.ghost.get('config', ()))
    hast = z3.And(z3.Not(absent(token)), val(token) != ex.lit(''))
    neg = z3.And(z3.Not(absent(delay)), val(delay) < 0)
    if k == 'raise':
        u.prove('refused only for a negative delay', neg)
        u.cover('refused')
        return
    u.prove('a negative delay is refused', z3.Not(neg))
    u.prove('the token is configured if there is one', hast if 'bearer_token' in c else z3.Not(hast))
    if 'bearer_token' in c:
        u.prove('as given', ex.eq(c['bearer_token'], token))
    wait = z3.And(z3.Not(absent(delay)), val(delay) > 0)
    u.prove('the delay is configured if there is one', wait if 'delay' in c else z3.Not(wait))
    if 'delay' in c:
        u.prove('the delay as given', ex.eq(c['delay'], delay))
    u.prove('nothing else is configured', set(c) <= {'bearer_token', 'delay'})
    u.cover('both', z3.And(hast, wait))


F = M + '.url_or_file_open'
UNITS = [
    Unit('url_or_file_open', opening(False), F, opaque=False, ext=EXT, merge=False, covers=['web request'], ms=8000),
    Unit('url_or_file_open first', opening(True), F, opaque=False, ext=EXT, merge=False, covers=['web request'], ms=8000),
    Unit('configuration 1', setting('bearer_token', 'delay'), M + '.set_url_or_file_open_config'),
    Unit('configuration 2', setting('delay', 'bearer_token'), M + '.set_url_or_file_open_config'),
    Unit('command line options', options, 'client_utils.process_shared_misc_options', merge=False,
         models={M + '.set_url_or_file_open_config': record}, covers=['both', 'refused']),
]
CONF = dict(assumptions=['word characters in URI schemes are ASCII', 'urllib.request opens exactly the request it is given',
                         'file URIs have a lower case scheme'])
