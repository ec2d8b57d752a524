"""C21: where the resource list is looked for."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Fold, Pred, Extra
from .lib import *
from .coll import Coll

C = 'client.Client.'
RES = dict(RESOURCE, capability=('opt', 'str'))
LIST, DESC, CAPS = 0, 1, 2                  # what is asked for
st = lambda ex, v: ex.term(ex.split(v), 'str')
G = lambda ex, k: ex.st.ghost[k].t
err = lambda ex, n: ex.raise_(ex.project.cls('client_utils.' + n), 'message')
arg = lambda a: [v for k, v in a.items() if k != 'self'][0]


def urls(ex):
    """Trusted: urlsplit and urlunsplit; HOST is what has the scheme and authority of a URI and no more."""
    J, HOST = z3.Function('urljoin', ex.SS, ex.SS, ex.SS), z3.Function('host of', ex.SS, ex.SS)
    part = lambda i: z3.Function('urlsplit.%d' % i, ex.SS, ex.SS)

    def split(n):
        return lambda ex, a, k: tuple(T('str', part(i)(st(ex, a[0]))) for i in range(n))

    def unsplit(ex, a, k):
        xs = [ex.split(v) for v in (a[0] if isinstance(a[0], tuple) else [v for _, v in ex.bi.items_of(ex.split(a[0]))[1]])]
        if all(x == '' for x in xs[2:]) and all(isinstance(x, T) for x in xs[:2]):
            s, n = xs[0].t, xs[1].t
            if s.num_args() == 1 and s.decl().eq(part(0)) and n.eq(part(1)(s.arg(0))):
                return T('str', HOST(s.arg(0)))
        raise Unsupported('urlunsplit')
    ex.ext.update({'urllib.parse.urljoin': lambda ex, a, k: T('str', J(st(ex, a[0]), st(ex, a[1]))), 'urllib.parse.urlsplit': split(5),
                   'urllib.parse.urlparse': split(6), 'urllib.parse.urlunsplit': unsplit, 'urllib.parse.urlunparse': unsplit})
    return J, HOST


def find(u):
    """The places are tried in order, a later one only after all before it could not be read."""
    ex = u.ex
    J, HOST = urls(ex)
    S = z3.Const('sitemap uri', ex.SS)
    OK = lambda x: z3.Function('can be read ' + x, ex.SS, z3.BoolSort())
    READ = {LIST: OK('as list'), DESC: OK('as description'), CAPS: OK('as capability list')}
    FATAL = {k: z3.Function('unsuitable %d' % k, ex.SS, z3.BoolSort()) for k in (DESC, CAPS)}
    NAMED = {k: z3.Function('list named by %d' % k, ex.SS, ex.SS) for k in (DESC, CAPS)}
    CONTENT = z3.Function('the list at', ex.SS, z3.IntSort())
    sm, cl = u.opt('str', 'sitemap_name'), u.opt('str', 'capability_list_uri')
    c = u.bare('client.Client', sitemap_name=sm, capability_list_uri=cl, logger=Opaque('logger'), resource_list_name=u.sym('str', 'name'))
    lit = ex.lit
    wk = lit('.well-known/resourcesync')
    h = HOST(S)
    kind = lambda p: z3.If(p <= 1, DESC, LIST)
    place = lambda p: z3.If(p == 0, J(S, wk), z3.If(p == 1, J(h, wk), z3.If(p == 2, J(S, lit('resourcelist.xml')), z3.If(
        p == 3, J(S, lit('sitemap.xml')), J(h, lit('sitemap.xml'))))))
    explicit = z3.Or(z3.Not(absent(sm)), z3.Not(absent(cl)))
    g = ex.st.ghost
    I = lambda v: T('int', v if is_z3(v) else z3.IntVal(v))
    g['place'] = I(0)
    g['kind'] = I(z3.If(z3.Not(absent(sm)), LIST, z3.If(z3.Not(absent(cl)), CAPS, DESC)))
    g['uri'] = T('str', z3.If(z3.Not(absent(sm)), val(sm), z3.If(z3.Not(absent(cl)), val(cl), place(z3.IntVal(0)))))
    g['over'] = T('bool', z3.BoolVal(False))
    g['fatal'] = T('bool', z3.BoolVal(False))
    g['found'] = I(-1)

    def failed(ex):
        """What comes after something that could not be read."""
        p = G(ex, 'place') + 1
        ex.st.ghost.update(place=I(p), kind=I(kind(p)), uri=T('str', place(p)), over=T('bool', z3.Or(explicit, p > 4)))

    def attempt(kind_):
        def model(ex, a):
            x = st(ex, arg(a))
            what = ['resource list', 'source description', 'capability list'][kind_]
            u.prove('the %s is looked for where it is its turn' % what, z3.And(z3.Not(G(ex, 'over')), G(ex, 'kind') == kind_, G(ex, 'uri') == x))
            if not ex.branch(READ[kind_](x)):
                failed(ex)
                err(ex, 'ClientError')
            if kind_ == LIST:
                ex.st.ghost.update(over=T('bool', z3.BoolVal(True)), found=I(CONTENT(x)))
                return Ref(CONTENT(x), 'Found')
            if ex.branch(FATAL[kind_](x)):
                ex.st.ghost.update(over=T('bool', z3.BoolVal(True)), fatal=T('bool', z3.BoolVal(True)))
                err(ex, 'ClientFatalError')
            n = NAMED[kind_](x)
            ex.st.ghost.update(kind=I(LIST), uri=T('str', n))
            return T('str', n)
        return model
    x = z3.Const('x', ex.SS)
    u.assume(z3.ForAll([x], CONTENT(x) >= 0))
    ex.models.update({C + 'read_resource_list': attempt(LIST), C + 'find_resource_list_from_source_description': attempt(DESC),
                      C + 'find_resource_list_from_capability_list': attempt(CAPS), C + 'sitemap_uri': lambda ex, a: T('str', S)})
    k, r = u.attempt(lambda: u.method(c, 'find_resource_list'))
    over, found, fatal = G(ex, 'over'), G(ex, 'found'), G(ex, 'fatal')
    u.prove('it ends only if there is no more place to be tried', over)
    if k == 'raise':
        u.prove('an error only if none was found (%s)' % r.name, found < 0)
        u.prove('an error of the client', z3.BoolVal(r.name in ('ClientError', 'ClientFatalError')))
        u.prove('what is found but unsuitable is fatal', z3.Implies(fatal, z3.BoolVal(r.name == 'ClientFatalError')))
        u.prove('so is that there is none in any place', z3.Implies(z3.Not(explicit), z3.BoolVal(r.name == 'ClientFatalError')))
        u.cover('nowhere', z3.And(z3.Not(explicit), z3.Not(fatal)))
        u.cover('explicit fails', explicit)
        u.cover('unsuitable', fatal)
        return
    r = ex.split(r)
    u.prove('the list read is what is found', z3.And(found >= 0, r.t == found) if isinstance(r, Ref) else False)
    u.cover('last place', G(ex, 'place') == 4)
    u.cover('through a description', z3.And(G(ex, 'place') == 1, z3.Not(explicit)))
    u.cover('explicit capability list', z3.And(absent(sm), explicit))


def from_description(u):
    ex = u.ex
    J, _ = urls(ex)
    uri = u.sym('str', 'uri')
    there = z3.Bool('can be read')
    g = ex.st.ghost
    g['reads'] = g['asked'] = T('int', z3.IntVal(0))
    g['target'] = T('str', z3.Const('no target', ex.SS))
    coll = Coll(u, 'resource_set.ResourceSet', 'sources', ordered=True)
    order = coll.order.t

    def read(ex, a):
        u.prove('the description asked for is read', st(ex, arg(a)) == uri.t)
        u.prove('it is read once', G(ex, 'reads') == 0)
        ex.st.ghost['reads'] = T('int', G(ex, 'reads') + 1)
        if not ex.branch(there):
            ex.raise_(Exception if ex.branch(z3.Bool('plain')) else OSError, 'cannot be read')
        ex.setattr(ex.split(a['self']), 'resources', coll.obj)

    def caps(ex, a):
        ex.st.ghost['asked'] = T('int', G(ex, 'asked') + 1)
        ex.st.ghost['target'] = T('str', st(ex, arg(a)))
        w = z3.Int('outcome')
        if ex.branch(w == 1):
            err(ex, 'ClientError')
        if ex.branch(w == 2):
            err(ex, 'ClientFatalError')
        return T('str', z3.Const('list uri', ex.SS))
    ex.models.update({'list_base_with_index.ListBaseWithIndex.read': read, 'list_base.ListBase.read': read,
                      C + 'find_resource_list_from_capability_list': caps})
    c = u.bare('client.Client', logger=Opaque('logger'))
    k, r = u.attempt(lambda: u.method(c, 'find_resource_list_from_source_description', uri))
    single = z3.Length(order) == 1
    asked = G(ex, 'asked')
    w = z3.Int('outcome')
    if k == 'raise':
        e = r.name
        u.prove('an error of the client (%s)' % e, e in ('ClientError', 'ClientFatalError'))
        u.prove('what cannot be read may be looked for elsewhere', z3.Implies(z3.Not(there), z3.BoolVal(e == 'ClientError')))
        u.prove('without just one source it is a fatal error', z3.Implies(z3.And(there, asked == 0), z3.And(
            z3.BoolVal(e == 'ClientFatalError'), z3.Not(single))))
        u.prove('other errors are those of the capability list', z3.Implies(asked > 0, z3.And(
            z3.Implies(w == 1, z3.BoolVal(e == 'ClientError')), z3.Implies(w == 2, z3.BoolVal(e == 'ClientFatalError')), z3.Or(w == 1, w == 2))))
        u.cover('not read', z3.Not(there))
        u.cover('no source', z3.And(there, asked == 0))
    else:
        u.prove('the list named by the capability list is what is found', st(ex, r) == z3.Const('list uri', ex.SS))
        u.prove('it was asked', asked == 1)
        u.cover('found')
    t = G(ex, 'target')
    u.prove('asked once, if there is just one source', z3.Implies(asked > 0, z3.And(asked == 1, there)))
    u.prove('its capability list is asked, resolved against the description', z3.Implies(asked > 0, z3.And(single, t == J(uri.t, order[0]))))


def from_caps(u):
    ex = u.ex
    J, _ = urls(ex)
    uri = u.sym('str', 'uri')
    there = z3.Bool('can be read')
    s = u.old(u.seq(R, 'capabilities'))
    g = ex.st.ghost
    g['reads'] = T('int', z3.IntVal(0))
    want = ex.lit('resourcelist')
    is_ = lambda e: z3.And(z3.Not(absent(fget(ex, 'capability', e))), val(fget(ex, 'capability', e)) == want)
    none = u.fold(Pred('no resource list', s, lambda ex, e, i: z3.Not(is_(e.t))))
    j, k_ = z3.Ints('first k')            # the first resource list, if there is one
    isfirst = z3.And(0 <= j, j < z3.Length(s.t), is_(s.t[j]), z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < j), z3.Not(is_(s.t[k_])))))
    u.fold(Extra(lambda ex, loop: [('not yet come to the first', lambda v: z3.Implies(isfirst, v.i <= j))]
                 if loop.along is not None and loop.along.t.eq(s.t) else []))

    def read(ex, a):
        u.prove('the capability list asked for is read', st(ex, arg(a)) == uri.t)
        u.prove('it is read once', G(ex, 'reads') == 0)
        ex.st.ghost['reads'] = T('int', G(ex, 'reads') + 1)
        if not ex.branch(there):
            ex.raise_(Exception if ex.branch(z3.Bool('plain')) else OSError, 'cannot be read')
    ex.models.update({'list_base_with_index.ListBaseWithIndex.read': read, 'list_base.ListBase.read': read,
                      'capability_list.CapabilitySet.__iter__': lambda ex, a: ex.alloc(IterCell(('seq', s)))})
    c = u.bare('client.Client', logger=Opaque('logger'))
    k, r = u.attempt(lambda: u.method(c, 'find_resource_list_from_capability_list', uri))
    n = z3.Length(s.t)
    if k == 'raise':
        u.prove('what cannot be read may be looked for elsewhere', z3.Implies(z3.Not(there), z3.BoolVal(r.name == 'ClientError')))
        u.prove('without a resource list it is a fatal error', z3.Implies(there, z3.And(z3.BoolVal(r.name == 'ClientFatalError'), none.all_to(ex, n))))
        u.cover('not read', z3.Not(there))
        u.cover('no list', z3.And(there, n > 1))
        return
    u.prove('only if it could be read', there)
    u.prove('only if there is a resource list', z3.Not(none.all_to(ex, n)))
    u.prove('the first one named, resolved against the capability list', z3.Implies(isfirst, st(ex, r) == J(uri.t, val(fget(ex, 'uri', s.t[j])))))
    u.cover('found', n > 2)


def read_list(u):
    """Any error in reading is one after which the list may be looked for elsewhere."""
    ex = u.ex
    uri = u.sym('str', 'uri')
    multi = u.sym('bool', 'allow multifile')
    there = z3.Bool('can be read')
    mp = u.bare('mapper.Mapper')
    ex.st.ghost['reads'] = T('int', z3.IntVal(0))

    def read(ex, a):
        me = ex.split(a['self'])
        u.prove('the list asked for is read', st(ex, arg(a)) == uri.t)
        u.prove('once', G(ex, 'reads') == 0)
        u.prove('with the setting for several files', B(ex.eq(u.get(me, 'allow_multifile'), multi)))
        u.prove('with the mapper of the client', z3.BoolVal(ex.split(u.get(me, 'mapper')) == mp))
        ex.st.ghost['reads'] = T('int', G(ex, 'reads') + 1)
        ex.setattr(me, 'uri', 'this was read')
        if not ex.branch(there):
            ex.raise_(Exception if ex.branch(z3.Bool('plain')) else OSError, 'cannot be read')
    ex.models.update({'list_base_with_index.ListBaseWithIndex.read': read, 'list_base.ListBase.read': read})
    c = u.bare('client.Client', logger=Opaque('logger'), allow_multifile=multi, mapper=mp)
    k, r = u.attempt(lambda: u.method(c, 'read_resource_list', uri))
    if k == 'raise':
        u.prove('an error only if it cannot be read (%s)' % r.name, z3.And(z3.Not(there), z3.BoolVal(r.name == 'ClientError')))
        u.cover('not read')
        return
    u.prove('only if it can be read', there)
    u.prove('the list read is given back', z3.And(G(ex, 'reads') == 1, B(ex.eq(u.get(r, 'uri'), 'this was read'))))
    u.cover('read')


def named(u):
    """A name is below the source base unless it is a URI or a full path."""
    ex = u.ex
    base, name = u.sym('str', 'base'), u.sym('str', 'name')
    sm = u.opt('str', 'sitemap_name')
    c = u.bare('client.Client', mapper=u.bare('mapper.Mapper'), sitemap_name=sm, resource_list_name=name)
    ex.models['mapper.Mapper.default_src_uri'] = lambda ex, a: base
    r = u.method(c, 'sitemap_uri', name)
    full = z3.Or(z3.PrefixOf(z3.StringVal('/'), name.t), scheme(name.t))
    is_ = lambda r, t: B(ex.eq(ex.split(r), T('str', t)))
    want = z3.If(full, name.t, z3.Concat(base.t, z3.StringVal('/'), name.t))
    u.prove('the URI of a name', is_(r, want))
    u.prove('the sitemap asked for, or that of the usual name', is_(u.get(c, 'sitemap'), z3.If(absent(sm), want, val(sm))))
    u.cover('scheme', scheme(name.t))
    u.cover('below', z3.Not(full))


WORD = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'))
scheme = lambda t: z3.InRe(t, z3.Concat(z3.Plus(WORD), z3.Re(':'), z3.Full(z3.ReSort(z3.StringSort()))))

RT = {'Resource': RES, 'Found': {}}
UNITS = [Unit('places', find, C + 'find_resource_list', reftypes=RT,
              covers=['nowhere', 'explicit fails', 'unsuitable', 'last place', 'through a description', 'explicit capability list']),
         Unit('description', from_description, C + 'find_resource_list_from_source_description', reftypes=RT,
              covers=['not read', 'no source', 'found']),
         Unit('capability list', from_caps, C + 'find_resource_list_from_capability_list', reftypes=RT, covers=['not read', 'no list', 'found']),
         Unit('reading', read_list, C + 'read_resource_list', reftypes=RT, covers=['read', 'not read']),
         Unit('names', named, [C + 'sitemap_uri', C + 'sitemap'], opaque=False, covers=['scheme', 'below'])]
CONF = dict(assumptions=[
    'urljoin, urlsplit and urlunsplit as documented; reading a document (C15) gives its entries or raises an error',
    'the order in which a capability list gives its entries is that of CapabilitySet (C08)'])
