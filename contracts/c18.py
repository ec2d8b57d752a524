"""C18: client state is remembered per site."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.builtins import NoSectionError, NoOptionError
from .lib import *

P = 'client_state.ClientState.'


class Config:
    """Trusted contract of ConfigParser: sections of options, case-insensitive option names, and the file they are in."""

    def __init__(self, u):
        self.u, self.n = u, 0
        ex = u.ex
        SS = ex.SS
        self.sorts = dict(sec=z3.ArraySort(SS, z3.BoolSort()), dom=z3.ArraySort(SS, z3.ArraySort(SS, z3.BoolSort())),
                          val=z3.ArraySort(SS, z3.ArraySort(SS, SS)))
        self.none = dict(sec=z3.K(SS, z3.BoolVal(False)), dom=z3.K(SS, z3.K(SS, z3.BoolVal(False))))
        self.none['val'] = z3.Const('no_values', self.sorts['val'])
        g = ex.st.ghost
        for k, s in self.sorts.items():
            g['fs.' + k] = z3.Const('fs0.' + k, z3.ArraySort(SS, s))      # by name of the file
        sec, opt, f = z3.Consts('sec opt f', SS)
        # what is read is well formed: options are in a section, no file is the same as an empty one
        u.assume(z3.ForAll([f, sec, opt], z3.Implies(g['fs.dom'][f][sec][opt], g['fs.sec'][f][sec])))
        self.snaps = {}
        ex.ext.update({'configparser.ConfigParser': self.new, 'configparser.RawConfigParser': self.new, 'open': self.open,
                       'in:sections': lambda ex, v, x: self.snaps[v.data][ex.term(x, 'str')],
                       'attr:config': self.attr, 'attr:cfgfile': self.fattr, 'os.path.exists': self.exists,
                       'os.path.isfile': self.exists})

    def exists(self, ex, a, k):
        """No file has no content; one that is there may have none as well."""
        f = ex.term(ex.split(a[0]), 'str')
        b = z3.Bool(ex.fresh_name('exists'))
        s = z3.Const('any', ex.SS)
        ex.assume(z3.Implies(z3.Not(b), z3.ForAll([s], z3.Not(ex.st.ghost['fs.sec'][f][s]))))
        return T('bool', b)

    def new(self, ex, a, k):
        if a or k:
            raise Unsupported('options of ConfigParser')
        self.n += 1
        n = ex.fresh_name('config')
        for x in self.sorts:
            ex.st.ghost['%s.%s' % (n, x)] = self.none[x]
        return Opaque('config', n)

    def get(self, ex, n, x):
        return ex.st.ghost['%s.%s' % (n, x)]

    def put(self, ex, n, x, v):
        ex.st.ghost['%s.%s' % (n, x)] = v

    def open(self, ex, a, k):
        mode = ex.split(a[1] if len(a) > 1 else k.get('mode', 'r'))
        if mode not in ('w', 'r', 'rt', 'wt'):
            raise Unsupported('mode %r' % (mode,))
        f = ex.split(a[0])
        if 'w' in mode:
            for x in self.sorts:
                s = ex.st.ghost['fs.' + x]
                ex.st.ghost['fs.' + x] = z3.Store(s, ex.term(f, 'str'), self.none[x])
        return Opaque('cfgfile', (f, mode))

    def fattr(self, ex, v, name):
        if name in ('close', 'flush'):
            return Builtin(name, lambda ex, a, k: None)
        raise Unsupported('handle.%s' % name)

    def attr(self, ex, v, name):
        n = v.data
        me = getattr(self, 'm_' + name, None)
        if me is None:
            raise Unsupported('ConfigParser.%s' % name)
        return Builtin(name, lambda ex, a, k: me(ex, n, *[ex.split(x) for x in a], **{x: ex.split(y) for x, y in k.items()}))

    def key(self, ex, k):
        low = ex.call(ex.bi.method(k, 'lower'), [], {})
        t = ex.term(low, 'str')
        if isinstance(low, T):
            again = ex.term(ex.call(ex.bi.method(low, 'lower'), [], {}), 'str')
            ex.assume(again == t)
        return t

    def m_read(self, ex, n, f, encoding=None):
        if not self.get(ex, n, 'sec').eq(self.none['sec']):
            raise Unsupported('ConfigParser.read after other calls')
        for x in self.sorts:
            self.put(ex, n, x, ex.st.ghost['fs.' + x][ex.term(f, 'str')])
        return Opaque('list of files read')

    def m_has_section(self, ex, n, s):
        return T('bool', self.get(ex, n, 'sec')[ex.term(s, 'str')])

    def m_sections(self, ex, n):
        k = ex.fresh_name('sections')
        self.snaps[k] = self.get(ex, n, 'sec')      # as it is now
        return Opaque('sections', k)

    def m_add_section(self, ex, n, s):
        t = ex.term(s, 'str')
        if ex.branch(self.get(ex, n, 'sec')[t]):
            ex.raise_(ValueError)
        self.put(ex, n, 'sec', z3.Store(self.get(ex, n, 'sec'), t, z3.BoolVal(True)))
        self.put(ex, n, 'dom', z3.Store(self.get(ex, n, 'dom'), t, z3.K(ex.SS, z3.BoolVal(False))))

    def need(self, ex, n, s):
        t = ex.term(s, 'str')
        if not ex.branch(self.get(ex, n, 'sec')[t]):
            ex.raise_(NoSectionError)
        return t

    def m_has_option(self, ex, n, s, o):
        t = ex.term(s, 'str')
        return T('bool', z3.And(self.get(ex, n, 'sec')[t], self.get(ex, n, 'dom')[t][self.key(ex, o)]))

    def m_set(self, ex, n, s, o, v=None):
        t = self.need(ex, n, s)
        if not (isinstance(v, str) or isinstance(v, T) and v.kind == 'str'):
            ex.raise_(TypeError)
        o = self.key(ex, o)
        dom, val = self.get(ex, n, 'dom'), self.get(ex, n, 'val')
        self.put(ex, n, 'dom', z3.Store(dom, t, z3.Store(dom[t], o, z3.BoolVal(True))))
        self.put(ex, n, 'val', z3.Store(val, t, z3.Store(val[t], o, ex.term(v, 'str'))))

    def m_remove_option(self, ex, n, s, o):
        t = self.need(ex, n, s)
        o = self.key(ex, o)
        dom = self.get(ex, n, 'dom')
        had = dom[t][o]
        self.put(ex, n, 'dom', z3.Store(dom, t, z3.Store(dom[t], o, z3.BoolVal(False))))
        return T('bool', had)

    def m_remove_section(self, ex, n, s):
        t = ex.term(s, 'str')
        sec, dom = self.get(ex, n, 'sec'), self.get(ex, n, 'dom')
        self.put(ex, n, 'sec', z3.Store(sec, t, z3.BoolVal(False)))
        self.put(ex, n, 'dom', z3.Store(dom, t, z3.K(ex.SS, z3.BoolVal(False))))
        return T('bool', sec[t])

    def m_get(self, ex, n, s, o, fallback=MISSING, **kw):
        if set(kw) - {'raw'}:
            raise Unsupported('ConfigParser.get(%s)' % ', '.join(kw))
        t = ex.term(s, 'str')
        if not ex.branch(self.get(ex, n, 'sec')[t]):
            if fallback is not MISSING:
                return fallback
            ex.raise_(NoSectionError)
        o = self.key(ex, o)
        if not ex.branch(self.get(ex, n, 'dom')[t][o]):
            if fallback is not MISSING:
                return fallback
            ex.raise_(NoOptionError)
        return T('str', self.get(ex, n, 'val')[t][o])

    def m_getfloat(self, ex, n, s, o, fallback=MISSING, **kw):
        v = self.m_get(ex, n, s, o, fallback=fallback, **kw)
        return v if v is fallback else ex.bi.f_float(ex, [v], {})

    def m_write(self, ex, n, f, space_around_delimiters=True):
        if not (isinstance(f, Opaque) and f.tag == 'cfgfile' and 'w' in f.data[1]):
            raise Unsupported('ConfigParser.write')
        t = ex.term(f.data[0], 'str')
        for x in self.sorts:
            ex.st.ghost['fs.' + x] = z3.Store(ex.st.ghost['fs.' + x], t, self.get(ex, n, x))


def state_of(u, site):
    """What get_state of a new client process says: (raised, absent, value)."""
    k, v = u.attempt(lambda: u.method(u.new('client_state.ClientState'), 'get_state', site))
    if k == 'raise':
        return (z3.BoolVal(True), z3.BoolVal(False), z3.RealVal(0))
    v = u.ex.split(v)
    if v is None:
        return (z3.BoolVal(False), z3.BoolVal(True), z3.RealVal(0))
    return (z3.BoolVal(False), z3.BoolVal(False), u.ex.term(v, 'real'))


def simplified(u, site):
    """The name of a site without punctuation and letter case."""
    ex = u.ex
    return ex.term(ex.call(ex.bi.method(ex.call(Ext('re.sub'), [r'[^\w]', '_', site], {}), 'lower'), [], {}), 'str')


def recorded(u):
    Config(u)
    site = u.sym('str', 'site')
    ts = u.sym('real', 'timestamp')
    who = u.new('client_state.ClientState')
    k, r = u.attempt(lambda: u.method(who, 'set_state', site, ts))
    if k == 'raise':
        u.prove('a timestamp can be recorded', False)
        return
    k, v = u.attempt(lambda: u.method(who, 'get_state', site))
    u.prove('the same client gets the timestamp recorded', False if k == 'raise' else u.ex.eq(v, ts))
    e, a, v = state_of(u, site)
    u.prove('another client gets the timestamp recorded', z3.And(z3.Not(e), z3.Not(a), v == ts.t))
    u.cover('recorded')


def removed(u):
    Config(u)
    site = u.sym('str', 'site')
    k, r = u.attempt(lambda: u.method(u.new('client_state.ClientState'), 'set_state', site, None))
    if k == 'raise':
        u.prove('the state can be removed', False)
        return
    e, a, v = state_of(u, site)
    u.prove('after removal there is no state', a)
    u.cover('removed')


def others(u):
    c = Config(u)
    site, other = u.sym('str', 'site'), u.sym('str', 'other')
    u.assume(simplified(u, site) != simplified(u, other))
    ts = u.opt('real', 'timestamp')
    e0, a0, v0 = state_of(u, other)
    k, r = u.attempt(lambda: u.method(u.new('client_state.ClientState'), 'set_state', site, ts))
    if k == 'raise':
        u.prove('the state can be set', False)
        return
    e1, a1, v1 = state_of(u, other)
    u.prove('the state of another site is as it was', z3.And(e0 == e1, a0 == a1, v0 == v1))
    u.cover('another has a state', z3.And(z3.Not(a0), z3.Not(e0)))
    u.cover('another has none', a0)


def nothing(u):
    ex = u.ex
    Config(u)
    site, f, s = u.sym('str', 'site'), z3.Const('f', ex.SS), z3.Const('s', ex.SS)
    x = z3.Const('x', ex.SS)
    # no file, or one that has nothing for the site
    u.assume(z3.Or(z3.ForAll([f, s], z3.Not(ex.st.ghost['fs.sec'][f][s])),
                   z3.ForAll([f, s], z3.Not(ex.st.ghost['fs.dom'][f][s][simplified(u, site)]))))
    e, a, v = state_of(u, site)
    u.prove('a site for which nothing is recorded has no state', a)
    u.cover('none', a)


UNITS = [
    Unit('set_state then get_state', recorded, [P + 'set_state', P + 'get_state'], merge=False, covers=['recorded']),
    Unit('set_state(None) then get_state', removed, [P + 'set_state', P + 'get_state'], merge=False, covers=['removed']),
    Unit('other sites', others, [P + 'set_state', P + 'get_state'], merge=False,
         covers=['another has a state', 'another has none']),
    Unit('nothing recorded', nothing, P + 'get_state', merge=False, covers=['none']),
]
CONF = dict(assumptions=['ConfigParser reads back the sections and options it wrote (names of word characters, values that are '
                         'numbers), option names taken without letter case; the state file was written by it and can be written',
                         'the text of a float reads back as the same float'])
