"""Trusted contracts of what touches disk and network, with ghost state that records it."""
import z3
from pydv.values import *
from pydv.builtins import HTTPException, DistutilsFileError
from .lib import *


def g(ex, k, v=None):
    if v is None:
        return ex.st.ghost[k]
    ex.st.ghost[k] = v


def tint(n):
    return T('int', z3.IntVal(n))


def tbool(b):
    return T('bool', z3.BoolVal(b))


def same_opt(ex, got, want):
    """Both absent, or the same number."""
    ws = [(h, w) for h, w in alts(got) if w is not None]
    return z3.And(absent(got) == absent(want), *[z3.Implies(z3.And(B(h), z3.Not(absent(want))), ex.term(w, 'real') == val(want)) for h, w in ws])


class Effects:
    """Download into a file: open the URI, open the file, copy; set the time; remove."""

    def __init__(self, u, resource, filename, tries, timeout='any'):
        self.u, self.filename, self.tries, self.timeout = u, filename, tries, timeout
        self.uri = u.ex.ref_get(resource, 'uri')
        st = u.ex.st.ghost
        st['opens'] = tint(0)
        st['last'] = tint(0)         # of the attempts: 0 none yet, 1 timed out, 2 failed, 3 succeeded
        st['copied'] = tbool(False)  # content of the URI written to the file
        st['touched'] = tbool(False)  # anything at all done to the disk
        st['timed'] = tbool(False)
        st['time'] = T('real', z3.RealVal(0))
        st['removed'] = tbool(False)
        u.ex.ext.update({
            'open': self.open, 'shutil.copyfileobj': self.copy, 'os.utime': self.utime, 'os.unlink': self.unlink,
            'os.remove': self.unlink, 'os.stat': self.stat, 'distutils.dir_util.mkpath': self.mkpath,
            'os.makedirs': self.mkpath, 'os.path.getsize': self.getsize,
            'attr:urlhandle': handle_attr, 'attr:outhandle': self.out_attr, 'attr:stat': stat_attr,
            'time.sleep': lambda ex, a, k: None})

    def say(self, what, goal):
        self.u.prove(what, goal)

    def fail(self, ex):
        """A time out, another failure, or neither."""
        k = ex.choose2('outcome', 5)
        if k == 0:
            ex.st.ghost['last'] = tint(1)
            ex.raise_(TimeoutError, 'timed out')
        if k < 4:
            ex.st.ghost['last'] = tint(2)
            ex.raise_((OSError, HTTPException, ValueError)[k - 1], 'failed')

    def url_open(self, ex, a):
        """Call-site contract of url_or_file_open (C22)."""
        self.say('only the URI of the resource is fetched', ex.eq(a['uri'], self.uri))
        self.say('a method is not asked for', ex.is_none(a.get('method')))
        if self.timeout != 'any':
            self.say('with the timeout configured', same_opt(ex, a.get('timeout'), self.timeout))
        n, last = g(ex, 'opens'), g(ex, 'last')
        self.say('a further attempt only after a timeout', z3.Or(ex.term(n, 'int') == 0, ex.term(last, 'int') == 1))
        ex.st.ghost['opens'] = T('int', ex.term(n, 'int') + 1)
        self.say('no more attempts than configured', ex.term(n, 'int') + 1 <= self.tries.t)
        self.fail(ex)
        return Opaque('urlhandle', (n,))

    def open(self, ex, a, k):
        mode = ex.split(a[1] if len(a) > 1 else k.get('mode', 'r'))
        if not isinstance(mode, str):
            raise Unsupported('mode')
        if mode in ('r', 'rb'):
            self.fail(ex)
            return Opaque('inhandle')
        self.say('only the given file is written', ex.eq(a[0], self.filename))
        self.say('the file is written from its start, in binary mode', mode in ('wb', 'bw'))
        ex.st.ghost['touched'] = tbool(True)
        self.fail(ex)
        ex.st.ghost['copied'] = tbool(False)
        return Opaque('outhandle')

    def copy(self, ex, a, k):
        src, dst = ex.split(a[0]), ex.split(a[1])
        ok = isinstance(src, Opaque) and src.tag == 'urlhandle' and isinstance(dst, Opaque) and dst.tag == 'outhandle'
        self.say('the content is copied from the URI to the file', ok)
        self.fail(ex)
        ex.st.ghost['copied'] = tbool(True)
        ex.st.ghost['last'] = tint(3)
        return None

    def out_attr(self, ex, v, name):
        if name == 'write':
            return Builtin('write', self.write)
        if name == 'close':
            return Builtin('close', lambda ex, a, k: None)
        raise Unsupported('handle.%s' % name)

    def write(self, ex, a, k):
        d = ex.split(a[0])
        self.say('what is written is the content of the URI', isinstance(d, Opaque) and d.tag == 'content')
        self.fail(ex)
        ex.st.ghost['copied'] = tbool(True)
        ex.st.ghost['last'] = tint(3)
        return T('int', z3.Int(ex.fresh_name('written')))

    def mkpath(self, ex, a, k):
        self.say('only the directory of the file is made',
                 ex.eq(ex.split(a[0]), ex.split(ex.call(Ext('os.path.dirname'), [self.filename], {}))))
        ex.st.ghost['touched'] = tbool(True)
        k = ex.choose2('mkpath', 3)
        if k < 2:
            ex.st.ghost['last'] = tint(2)
            ex.raise_((OSError, DistutilsFileError)[k], 'cannot be made')
        return None

    def utime(self, ex, a, k):
        self.say('only the time of the given file is set', ex.eq(a[0], self.filename))
        ts = ex.split(a[1]) if len(a) > 1 else ex.split(k.get('times'))
        if not isinstance(ts, tuple):
            raise Unsupported('os.utime')
        t = [ex.split(x) for x in ts]
        self.say('both times are set to the same', ex.eq(t[0], t[1]))
        ex.st.ghost['touched'] = tbool(True)
        ex.st.ghost['timed'] = tbool(True)
        ex.st.ghost['time'] = T('real', ex.term(t[1], 'real'))
        return None

    def stat(self, ex, a, k):
        return Opaque('stat')

    def getsize(self, ex, a, k):
        return ex.fresh('int', 'size')

    def unlink(self, ex, a, k):
        self.say('only the given file is removed', ex.eq(a[0], self.filename))
        ex.st.ghost['touched'] = tbool(True)
        if ex.choose2('unlink', 2) == 0:
            ex.raise_(OSError, 'cannot be removed')
        ex.st.ghost['removed'] = tbool(True)
        return None


def handle_attr(ex, v, name):
    if name == 'read':
        return Builtin('read', lambda ex, a, k: Opaque('content'))
    if name == 'close':
        return Builtin('close', lambda ex, a, k: None)
    raise Unsupported('handle.%s' % name)


def stat_attr(ex, v, name):
    return ex.fresh('int' if name == 'st_size' else 'real', name)
