"""Call-site contracts of what a synchronisation calls, with ghost state that records what is done."""
import z3
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *

RT = {'Resource': CHANGED}
CLIENT = 'client.Client.'


def tint(n):
    return T('int', z3.IntVal(n))


def tbool(b):
    return T('bool', b if is_z3(b) else z3.BoolVal(b))


class Sync:
    """A client with any settings, its mapper, authorities, state file and the list it reads."""

    def __init__(self, u, audit_only=None):
        ex = u.ex
        self.u, self.ex = u, ex
        S, I, Bo = ex.SS, z3.IntSort(), z3.BoolSort()
        self.DST = z3.Function('path_of', S, S)
        self.MAPPED = z3.Function('is_mapped', S, Bo)
        self.AUTH = z3.Function('has_authority', S, Bo, S, Bo)
        self.SMU = z3.Function('sitemap_uri', S, S)
        self.nmap = u.sym('int', 'mappings')
        u.assume(self.nmap.t >= 0)
        self.unsafe = u.sym('bool', 'unsafe')
        self.mapper = u.bare('mapper.Mapper')
        c = u.new('client.Client')
        self.c = c
        a = ex.cell(c).attrs
        self.v = dict(mapper=self.mapper, noauth=u.sym('bool', 'noauth'), strictauth=u.sym('bool', 'strictauth'),
                      dryrun=u.sym('bool', 'dryrun'), ignore_failures=u.sym('bool', 'ignore_failures'),
                      sitemap_name=u.opt('str', 'sitemap_name'), resource_list_name=u.sym('str', 'resource_list_name'),
                      change_list_name=u.sym('str', 'change_list_name'), last_timestamp=u.sym('real', 'last_timestamp'))
        a.update(self.v)
        a['hashes'] = ex.alloc(SetCell({x: u.sym('bool', 'asked ' + x).t for x in ('md5', 'sha-1', 'sha-256')}))
        sm = self.v['sitemap_name']
        self.sitemap = z3.If(absent(sm), self.SMU(self.v['resource_list_name'].t), val(sm))
        g = ex.st.ghost
        g['ups'] = Seq(empty(ex, R), R)         # resources handed to update_resource, outside a dry run
        g['dels'] = Seq(empty(ex, R), R)        # those handed to delete_resource, outside a dry run, if deletion is allowed
        g['acts'] = Seq(empty(ex, R), R)        # both, in order
        g['latest'] = T('real', z3.RealVal(0))  # latest timestamp of the resources downloaded, if above 0
        g['latest_all'] = T('real', z3.RealVal(0))  # or deleted
        g['recorded'] = tint(0)                 # how often state was recorded
        g['state'] = T('real', z3.RealVal(0))   # what
        g['cause'] = tbool(False)               # something failed
        m = ex.models
        m.update({
            'mapper.Mapper.__len__': lambda ex, a: self.nmap, 'mapper.Mapper.unsafe': lambda ex, a: self.unsafe,
            'mapper.Mapper.__repr__': lambda ex, a: ex.fresh('str', 'mapper'), 'mapper.Mapper.src_to_dst': self.src_to_dst,
            CLIENT + 'sitemap_uri': lambda ex, a: T('str', self.SMU(ex.term(ex.split(a['basename']), 'str'))),
            'url_authority.UrlAuthority.__init__': self.auth_init,
            'url_authority.UrlAuthority.has_authority_over': self.auth,
            CLIENT + 'update_resource': self.update, CLIENT + 'delete_resource': self.delete,
            CLIENT + 'log_status': lambda ex, a: None,
            'client_state.ClientState.set_state': self.set_state, 'client_state.ClientState.get_state': self.get_state,
            'w3c_datetime.datetime_to_str': lambda ex, a: ex.fresh('str', 'w3c'),
            'w3c_datetime.str_to_datetime': self.str_to_datetime})
        self.start = u.opt('real', 'state')
        self.parsed = u.sym('real', 'from')

    def g(self, k):
        v = self.ex.st.ghost[k]
        return v.t

    def gval(self, v, k):
        return v.loop.get(v.ex.st, ('ghost', k)).t

    def fail(self, name, *args):
        self.ex.st.ghost['cause'] = tbool(True)
        self.ex.raise_(self.exc(name), *args)

    def exc(self, name):
        for m in self.ex.project.modules.values():
            if name in m.classes:
                return m.classes[name]
        import builtins
        return getattr(builtins, name)

    def only(self, ex, o):
        self.u.prove('the mapper of the client is used', ex.split(o) == self.mapper)

    def src_to_dst(self, ex, a):
        """C09: the path of the URI, or an error if no mapping applies."""
        self.only(ex, a['self'])
        t = ex.term(ex.split(a['src_uri']), 'str')
        if not ex.branch(self.MAPPED(t)):
            self.fail('MapperError', 'no mapping')
        return T('str', self.DST(t))

    def auth_init(self, ex, a):
        at = ex.cell(ex.split(a['self'])).attrs
        at['ghost_url'], at['ghost_strict'] = ex.split(a.get('url')), ex.split(a.get('strict', False))
        return None

    def auth(self, ex, a):
        """C10."""
        at = ex.cell(ex.split(a['self'])).attrs
        if at['ghost_url'] is None:
            return False
        return T('bool', self.AUTH(ex.term(at['ghost_url'], 'str'), B(ex.truth(at['ghost_strict'])),
                                   ex.term(ex.split(a['url']), 'str')))

    def may(self, r, strict=None, url=None):
        """Authority of the sitemap (or the given document) over the resource."""
        url = self.sitemap if url is None else url
        return self.AUTH(url, self.v['strictauth'].t if strict is None else strict, fget(self.ex, 'uri', r).t)

    def resource_arg(self, ex, a):
        r = ex.split(a['resource'])
        if not isinstance(r, Ref):
            raise Unsupported('a resource made up')
        uri = fget(ex, 'uri', r.t).t
        self.u.prove('the file is the one the mapping gives for the URI of the resource',
                     ex.term(ex.split(a['filename']), 'str') == self.DST(uri))
        self.before_act(r)
        return r

    def before_act(self, r):
        pass

    def push(self, ex, k, r, g=True):
        s = ex.st.ghost[k].t
        t = z3.Concat(s, z3.Unit(r.t))
        ex.st.ghost[k] = Seq(t if g is True else z3.If(g, t, s), R)

    def bump(self, ex, k, ts, g):
        t = ex.st.ghost[k].t
        ex.st.ghost[k] = T('real', z3.If(z3.And(g, z3.Not(absent(ts)), val(ts) > t), val(ts), t))

    def update(self, ex, a):
        """C05: one attempt to bring the file up to date, reported as 0 or 1."""
        r = self.resource_arg(ex, a)
        ch = ex.split(a.get('change'))
        self.change_arg(ex, r, ch)
        dry = self.v['dryrun'].t
        self.push(ex, 'ups', r, z3.Not(dry))
        self.push(ex, 'acts', r, z3.Not(dry))
        done = z3.Bool(ex.fresh_name('written'))
        ex.assume(z3.Implies(done, z3.Not(dry)))
        if ex.branch(z3.Bool(ex.fresh_name('fails'))):
            ex.assume(z3.And(z3.Not(dry), z3.Not(self.v['ignore_failures'].t)))
            self.fail('ClientFatalError', 'failed')
        ts = fget(ex, 'timestamp', r.t)
        at = ex.cell(self.c).attrs
        t0 = ex.term(ex.split(at['last_timestamp']), 'real')
        at['last_timestamp'] = T('real', z3.If(z3.And(done, z3.Not(absent(ts)), val(ts) > t0), val(ts), t0))
        self.bump(ex, 'latest', ts, done)
        self.bump(ex, 'latest_all', ts, done)
        return T('int', z3.If(done, z3.IntVal(1), z3.IntVal(0)))

    def change_arg(self, ex, r, ch):
        pass

    def delete(self, ex, a):
        """C05: removal of the local copy, if deletion is allowed; never fails."""
        r = self.resource_arg(ex, a)
        self.delete_arg(ex, r)
        allow = B(ex.truth(ex.split(a.get('allow_deletion', False))))
        self.u.prove('deletion is allowed to the callee exactly if allowed', allow == self.allow)
        live = z3.And(allow, z3.Not(self.v['dryrun'].t))
        self.push(ex, 'dels', r, live)
        self.push(ex, 'acts', r, live)
        ts = fget(ex, 'timestamp', r.t)
        at = ex.cell(self.c).attrs
        t0 = ex.term(ex.split(at['last_timestamp']), 'real')
        at['last_timestamp'] = T('real', z3.If(z3.And(z3.Not(absent(ts)), val(ts) > t0), val(ts), t0))
        self.bump(ex, 'latest_all', ts, z3.BoolVal(True))
        n = z3.Bool(ex.fresh_name('removed'))
        ex.assume(z3.Implies(n, live))
        return T('int', z3.If(n, z3.IntVal(1), z3.IntVal(0)))

    def delete_arg(self, ex, r):
        pass

    def set_state(self, ex, a):
        """C18."""
        self.u.prove('state is recorded for the sitemap', ex.term(ex.split(a['site']), 'str') == self.sitemap)
        t = ex.split(a.get('timestamp'))
        self.u.prove('a time is recorded, not none', t is not None)
        ex.st.ghost['recorded'] = T('int', ex.st.ghost['recorded'].t + 1)
        if t is not None:
            ex.st.ghost['state'] = T('real', ex.term(t, 'real'))
        return None

    def get_state(self, ex, a):
        self.u.prove('the state read is that of the sitemap', ex.term(ex.split(a['site']), 'str') == self.sitemap)
        return self.start

    def str_to_datetime(self, ex, a):
        """C11, of the starting time given."""
        s = ex.split(a['s'] if 's' in a else list(a.values())[0])
        if s is None:
            return None
        self.u.prove('the starting time given is read', ex.eq(s, self.from_))
        if ex.branch(z3.Bool('bad_from')):
            self.fail('ValueError', 'bad')
        return self.parsed

    def growing(self, *floors):
        """Candidates: what the client has seen is the latest of what was done (and of a floor)."""
        oid = self.c.id

        def cands(ex, loop):
            k = ('attr', oid, 'last_timestamp')
            out = []
            if k in loop.mod and k not in loop.poison:
                for gk in ('latest', 'latest_all'):
                    for e in floors:
                        def same(v, gk=gk, e=e):
                            g = v.ex.st.ghost[gk].t
                            return v.ex.term(v.loop.get(v.ex.st, k), 'real') == z3.If(g > e, g, e)
                        out.append(('latest timestamp is %s or at least %s' % (gk, str(e)[:20]), same))
            return out
        self.u.fold(Extra(cands))
