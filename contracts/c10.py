"""C10: UrlAuthority, over all URLs (SMT strings; urlparse and dirname trusted)."""
import z3
from pydv.unit import Unit
from pydv.values import *
from .lib import *


def parts(u, url):
    ex = u.ex
    f = lambda n: ex.bi.uf('urlparse.' + n, [url], 'str')
    path = f('path')
    from pydv import externals
    d = externals.MODELS['os.path.dirname'](ex, [path], {})
    return f('scheme').t, f('netloc').t, ex.term(d, 'str')


def spec(u, master, url, strict):
    ex = u.ex
    ms, mn, md = parts(u, master)
    s, n, d = parts(u, url)
    dot, sl = z3.StringVal('.'), z3.StringVal('/')
    server = z3.Or(n == mn, z3.SuffixOf(z3.Concat(dot, mn), n))
    base = ex.bi.z3_rstrip(T('str', md), ['/']).t
    below = z3.Or(d == md, z3.PrefixOf(z3.Concat(base, sl), d))
    return z3.And(s == ms, server, z3.Or(z3.Not(strict), below))


def auth(make):
    def unit(u):
        ex = u.ex
        master, url = u.sym('str', 'master'), u.sym('str', 'url')
        strict = u.sym('bool', 'strict')
        a = make(u, master, strict)
        r = B(ex.truth(u.method(a, 'has_authority_over', url)))
        g = spec(u, master, url, strict.t)
        u.prove('authority exactly when scheme, server and path say so', r == g)
        u.cover('authority over a path below', z3.And(g, strict.t))
        u.cover('no authority', z3.Not(g))
    return unit


def later(u, master, strict):
    a = u.new('url_authority.UrlAuthority', u.sym('str', 'first'), strict=strict)
    u.method(a, 'set_master', master)
    return a


def nobody(u):
    ex = u.ex
    url = u.sym('str', 'url')
    strict = u.sym('bool', 'strict')
    a = u.new('url_authority.UrlAuthority', strict=strict)
    s = ex.bi.uf('urlparse.scheme', [url], 'str').t
    u.assume(z3.Or(*[s == z3.StringVal(x) for x in ('http', 'https', 'ftp')]))
    u.prove('no authority over a web URL', simp_not(B(ex.truth(u.method(a, 'has_authority_over', url)))))
    u.cover('reached')


def again(u):
    """Asking does not change the answer."""
    ex = u.ex
    master, url, other = (u.sym('str', x) for x in ('master', 'url', 'other'))
    strict = u.sym('bool', 'strict')
    a = u.new('url_authority.UrlAuthority', master, strict)
    u.method(a, 'has_authority_over', other)
    r = B(ex.truth(u.method(a, 'has_authority_over', url)))
    u.prove('the answer does not depend on earlier questions', r == spec(u, master, url, strict.t))
    u.cover('reached')


K = ('url_authority.UrlAuthority.__init__', 'url_authority.UrlAuthority.set_master',
     'url_authority.UrlAuthority.has_authority_over')
UNITS = [
    Unit('UrlAuthority(url, strict)', auth(lambda u, m, s: u.new('url_authority.UrlAuthority', m, s)), K, opaque=False),
    Unit('UrlAuthority(url).set_master(url2)', auth(later), K, opaque=False),
    Unit('UrlAuthority()', nobody, K, opaque=False),
    Unit('UrlAuthority asked twice', again, K, opaque=False),
]
CONF = dict(assumptions=['urlparse gives the components of a URL', 'os.path.dirname(p) is a prefix of p that does not '
                         'end in a slash unless it consists of slashes'])
