"""C13: which documents are accepted."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.loops import Pred, Fold, Extra
from .lib import *
from .etree import Trees, E, SM, RS, whole

S = 'sitemap.Sitemap'
CHANGES = ('created', 'updated', 'deleted')
MD = {'md_at': 'at', 'capability': 'capability', 'change': 'change', 'datetime': 'datetime', 'md_completed': 'completed',
      'md_from': 'from', 'hash': 'hash', 'length': 'length', 'path': 'path', 'mime_type': 'type', 'md_until': 'until'}
LN = {'hash': 'hash', 'href': 'href', 'length': 'length', 'modified': 'modified', 'path': 'path', 'rel': 'rel', 'pri': 'pri',
      'mime_type': 'type'}


def sitemap(u, **kw):
    return u.new(S, **kw)


def attributes(u, d, names, tr, e, ints, prove):
    """The dict d has exactly these attributes of the element."""
    ex = u.ex
    d = ex.split(d)
    c = ex.cell(d)
    if c.entries is None or not set(c.entries) <= set(names):
        u.prove('only known attributes are taken', False)
        return
    for n, x in names.items():
        k = ex.lit(x)
        hits, miss = ex.bi.dict_lookup(c, n)
        present = simp_or(*[g for g, v in hits])
        u.prove('%s is there if the element states it' % n, B(present) == tr.has(e, k))
        if not hits:
            continue
        v = hits[0][1] if len(hits) == 1 else ex.merge_vals([(B(g), v) for g, v in hits])
        want = T('int', whole(ex, tr.att(e, k))[1]) if n in ints else T('str', tr.att(e, k))
        u.prove('%s as stated' % n, z3.Implies(tr.has(e, k), B(ex.eq(v, want))))


def ln_unit(u):
    ex = u.ex
    tr = Trees(u)
    s = sitemap(u)
    e = z3.Int('ln')
    ctx = u.sym('str', 'context')
    H, A = lambda n: tr.has(e, ex.lit(n)), lambda n: tr.att(e, ex.lit(n))
    ok = ln_ok(ex, tr, e)
    k, v = u.attempt(lambda: u.method(s, 'ln_from_etree', Ref(e, 'Element'), ctx))
    if k == 'raise':
        u.prove('rejected with a sitemap error (%s)' % v.name, v.name == 'SitemapParseError')
        u.prove('rejected only if something is wrong', z3.Not(ok))
        for nm, g in (('no target', z3.Not(H('href'))), ('no relation', z3.And(H('href'), z3.Not(H('rel')))),
                      ('priority', z3.And(H('href'), H('rel'), z3.Not(H('length')), H('pri')))):
            u.cover('rejected: ' + nm, g)
        return
    u.prove('accepted only if right', ok)
    attributes(u, v, LN, tr, e, ('length', 'pri'), u.prove)
    u.cover('accepted', z3.And(H('pri'), H('length'), H('type')))


def ln_ok(ex, tr, e):
    H, A = lambda n: tr.has(e, ex.lit(n)), lambda n: tr.att(e, ex.lit(n))
    li, _ = whole(ex, A('length'))
    pi, pv = whole(ex, A('pri'))
    return z3.And(H('href'), H('rel'), z3.Implies(H('length'), li), z3.Implies(H('pri'), z3.And(pi, pv >= 1, pv <= 999999)))


def md_ok(ex, tr, e):
    H, A = lambda n: tr.has(e, ex.lit(n)), lambda n: tr.att(e, ex.lit(n))
    return z3.And(z3.Implies(H('change'), z3.Or(*[A('change') == ex.lit(c) for c in CHANGES])),
                  z3.Implies(H('length'), whole(ex, A('length'))[0]))


def md_unit(version):
    def unit(u):
        ex = u.ex
        tr = Trees(u)
        s = sitemap(u, spec_version=version)
        e = z3.Int('md')
        H = lambda n: tr.has(e, ex.lit(n))
        ok = md_ok(ex, tr, e)
        k, v = u.attempt(lambda: u.method(s, 'md_from_etree', Ref(e, 'Element'), u.sym('str', 'context')))
        if k == 'raise':
            u.prove('rejected with a sitemap error (%s)' % v.name, v.name == 'SitemapParseError')
            u.prove('rejected only if something is wrong', z3.Not(ok))
            u.cover('rejected: change', z3.And(H('change'), z3.Not(H('length'))))
            u.cover('rejected: length', z3.And(H('length'), z3.Not(H('change'))))
            return
        u.prove('accepted only if right', ok)
        names = dict(MD)
        if version == '1.0':
            del names['datetime']
        attributes(u, v, names, tr, e, ('length',), u.prove)
        u.cover('accepted', z3.And(H('change'), H('length'), H('from')))
    return unit


def dt_ok(ex, t):
    """Contract of str_to_datetime (C11) on a text."""
    return ex.bi.uf('is_w3c_datetime', [T('str', t)], 'bool').t


class Parts:
    """Call-site contracts of the parsers of parts (proved by the units above), and of datetimes and digests (C11, C16)."""

    def __init__(self, u, tr):
        self.u, self.tr = u, tr
        ex = u.ex
        I = z3.IntSort()
        self.LN = z3.Function('link_of', I, I)
        u.ex.models.update({S + '.md_from_etree': self.md, S + '.ln_from_etree': self.ln,
                            'w3c_datetime.str_to_datetime': self.dt, 'resource.Resource.hash': self.hash})

    def error(self, ex):
        ci = ex.project.modules['sitemap'].classes['SitemapParseError']
        raise PyRaise(Exc(ci, ('bad',)))

    def md(self, ex, a):
        e = ex.split(a['md_element']).t
        if not ex.branch(md_ok(ex, self.tr, e)):
            self.error(ex)
        d = {}
        for n, x in MD.items():
            k = ex.lit(x)
            v = T('int', whole(ex, self.tr.att(e, k))[1]) if n == 'length' else T('str', self.tr.att(e, k))
            d[n] = (self.tr.has(e, k), v)
        return ex.alloc(DictCell(d))

    def ln(self, ex, a):
        e = ex.split(a['ln_element']).t
        if not ex.branch(ln_ok(ex, self.tr, e)):
            self.error(ex)
        return Ref(self.LN(e), 'dict')

    def dt(self, ex, a):
        s = a['s']
        s = ex.split(s)
        if s is None:
            return None
        if not ex.branch(dt_ok(ex, ex.term(s, 'str'))):
            ex.raise_(ValueError, 'bad datetime')
        return ex.bi.uf('timestamp_of', [s], 'real')

    def hash(self, ex, a):
        if len(a) < 2:
            raise Unsupported('reading digests')
        if ex.branch(z3.Bool(ex.fresh_name('bad_hash'))):
            ex.raise_(ValueError, 'bad hash')
        return None


def entry_ok(ex, tr, e, i):
    """What an entry element has to be; i: index variable for links."""
    kids = lambda t: tr.found(e, ex.lit(t))
    loc, lm, md, ln = kids(SM + 'loc'), kids(SM + 'lastmod'), kids(RS + 'md'), kids(RS + 'ln')
    m = md[0]
    dts = [z3.Implies(tr.has(m, ex.lit(x)), dt_ok(ex, tr.att(m, ex.lit(x)))) for x in ('datetime', 'at', 'completed', 'from', 'until')]
    return z3.And(z3.Length(loc) == 1, z3.Not(tr.notext(loc[0])), tr.text(loc[0]) != ex.lit(''),
                  z3.Length(lm) <= 1,
                  z3.Implies(z3.Length(lm) == 1, z3.Or(tr.notext(lm[0]), dt_ok(ex, tr.text(lm[0])))),
                  z3.Length(md) <= 1,
                  z3.Implies(z3.Length(md) == 1, z3.And(md_ok(ex, tr, m), *dts)))


def entry(u):
    ex = u.ex
    tr = Trees(u)
    s = sitemap(u)
    Parts(u, tr)
    e = z3.Int('entry')
    for t in ('loc', 'lastmod'):
        tr.found(e, ex.lit(SM + t))
    lns = tr.found(e, ex.lit(RS + 'ln'))
    links = u.fold(Pred('a link is right', Seq(lns, E), lambda ex, x, i: ln_ok(ex, tr, x.t)))
    ok = z3.And(entry_ok(ex, tr, e, None), links.all_to(ex, z3.Length(lns)))
    rc = u.cls('resource.Resource')
    k, v = u.attempt(lambda: u.method(s, 'resource_from_etree', Ref(e, 'Element'), rc))
    n = lambda t: z3.Length(tr.found(e, ex.lit(t)))
    if k == 'raise':
        u.prove('rejected with a sitemap error (%s)' % v.name, v.name == 'SitemapParseError')
        u.prove('rejected only if something is wrong', z3.Not(ok))
        for nm, g in (('no location', n(SM + 'loc') == 0), ('locations', n(SM + 'loc') == 2),
                      ('metadata', z3.And(n(SM + 'loc') == 1, n(SM + 'lastmod') == 0, n(RS + 'md') == 2)),
                      ('links', z3.And(n(SM + 'loc') == 1, n(SM + 'lastmod') == 0, n(RS + 'md') == 0))):
            u.cover('rejected: ' + nm, g)
        return
    u.prove('accepted only if right', ok)
    u.prove('the location is its URI', ex.eq(u.get(v, 'uri'), T('str', tr.text(tr.found(e, ex.lit(SM + 'loc'))[0]))))
    u.cover('accepted', z3.And(n(SM + 'lastmod') == 1, n(RS + 'md') == 1, n(RS + 'ln') == 2))


def document(index, cap):
    """index: what is asked for; cap: whether a capability is expected."""
    def unit(u):
        ex = u.ex
        tr = Trees(u)
        s = sitemap(u)
        p = Parts(u, tr)
        I = z3.IntSort()
        MDOK, OK = z3.Function('md_right', I, z3.BoolSort()), z3.Function('entry_right', I, z3.BoolSort())
        MDOF, RES, LN = z3.Function('md_of', I, I), z3.Function('resource_of', I, I), p.LN
        LNOK = z3.Function('ln_right', I, z3.BoolSort())

        def part(ok, mk):
            def model(ex, a):
                e = [ex.split(v) for n, v in a.items() if isinstance(ex.split(v), Ref) and ex.split(v).cls == 'Element'][0].t
                if not ex.branch(ok(e)):
                    p.error(ex)
                return mk(e)
            return model
        ex.models.update({S + '.resource_from_etree': part(OK, lambda e: Ref(RES(e), 'Resource')),
                          S + '.md_from_etree': part(MDOK, lambda e: Ref(MDOF(e), 'dict')),
                          S + '.ln_from_etree': part(LNOK, lambda e: Ref(LN(e), 'dict'))})
        root = z3.Int('root')
        kids = Seq(tr.kids(root), E)
        n = z3.Length(kids.t)
        lit = ex.lit
        tag = lambda e: tr.tag(e)
        is_map, is_index = tag(root) == lit(SM + 'urlset'), tag(root) == lit(SM + 'sitemapindex')
        want = z3.If(is_map, lit(SM + 'url'), lit(SM + 'sitemap'))
        ent, md, ln = lambda e: tag(e) == want, lambda e: tag(e) == lit(RS + 'md'), lambda e: tag(e) == lit(RS + 'ln')
        ents = u.fold(Fold('entries_before', kids, 'bool', z3.BoolVal(False), lambda ex, acc, e, i: z3.Or(acc, ent(e.t))))
        mds = u.fold(Fold('md_before', kids, 'bool', z3.BoolVal(False), lambda ex, acc, e, i: z3.Or(acc, md(e.t))))
        mdr = u.fold(Fold('md', kids, 'int', z3.IntVal(-1), lambda ex, acc, e, i: z3.If(md(e.t), MDOF(e.t), acc)))
        cnt = u.fold(Fold('number', kids, 'int', z3.IntVal(0), lambda ex, acc, e, i: z3.If(ent(e.t), acc + 1, acc)))
        D = ('ref', 'dict')
        res = u.fold(Fold('resources', kids, ('seq', R), empty(ex, R),
                          lambda ex, acc, e, i: z3.If(ent(e.t), z3.Concat(acc, z3.Unit(RES(e.t))), acc)))
        lns = u.fold(Fold('links', kids, ('seq', D), empty(ex, D),
                          lambda ex, acc, e, i: z3.If(ln(e.t), z3.Concat(acc, z3.Unit(LN(e.t))), acc)))
        good = u.fold(Pred('is right', kids, lambda ex, e, i: z3.And(
            z3.Implies(ent(e.t), OK(e.t)),
            z3.Implies(md(e.t), z3.And(z3.Not(ents.at(ex, i)), z3.Not(mds.at(ex, i)), MDOK(e.t))),
            z3.Implies(ln(e.t), z3.And(z3.Not(ents.at(ex, i)), LNOK(e.t))))))


        def cands(ex, loop):
            out = []
            for k in loop.mod:
                if k in loop.poison or loop.along is None or not loop.along.t.eq(kids.t):
                    continue
                get = lambda v, k=k: v.loop.get(v.ex.st, k)
                out.append(('%s: the metadata so far' % (k,), lambda v, get=get: get(v).t == z3.If(
                    mdr.at(ex, v.i) != -1, mdr.at(ex, v.i), old)))
                out.append(('%s: what it states so far' % (k,), lambda v, get=get: is_opt(
                    ex, get(v), states(mdr.at(ex, v.i)), stated(mdr.at(ex, v.i)), 'str')))
            return out
        u.fold(Extra(cands))
        dom = lambda: ex.farr('dict', 'dom', '', z3.ArraySort(ex.SS, z3.BoolSort()))
        vals = lambda: ex.farr('dict', 'val', '', z3.ArraySort(ex.SS, ex.SS))
        d0, v0 = dom(), vals()
        old = z3.Int('old_md')
        r0 = u.old(u.seq(R, 'resources'))
        l0 = u.old(u.seq(D, 'links'))
        box = u.new('resource_container.ResourceContainer', resources=ex.alloc(ListCell(None, r0)), md=Ref(old, 'dict'),
                    ln=ex.alloc(ListCell(None, l0)))
        tree = Opaque('etree', Ref(root, 'Element'))
        fh = Opaque('handle')
        tr.parsed = (fh, tree)
        kw = dict(fh=fh) if index is None else dict(etree=tree)
        expected = u.sym('str', 'capability') if cap else None
        m = mdr.at(ex, n)
        capk = lit('capability')
        states = lambda m: z3.And(m != -1, z3.Select(z3.Select(d0, m), capk))
        stated = lambda m: z3.Select(z3.Select(v0, m), capk)
        i = z3.Int('i')
        u.assume(z3.ForAll([i], MDOF(i) >= 0))
        rl = lit('resourcelist')
        capok = z3.BoolVal(True) if not cap else z3.If(states(m), stated(m) == expected.t, expected.t == rl)
        rootok = z3.Or(is_map, is_index) if index is None else is_index if index else is_map
        alls = good.all_to(ex, n)
        k, v = u.attempt(lambda: u.method(s, 'parse_xml', resources=box, capability=expected, sitemapindex=index, **kw))
        if k == 'raise':
            u.prove('rejected with a sitemap error (%s)' % v.name, v.name in ('SitemapParseError', 'SitemapIndexError'))
            u.prove('rejected only if something is wrong', z3.Not(z3.And(rootok, alls, capok)))
            u.cover('rejected: root', z3.Not(rootok))
            if cap:
                u.cover('rejected: capability', z3.And(rootok, n == 0))
            return
        u.prove('the root is right', rootok)
        u.prove('every part is right', alls)
        u.prove('the capability is right', capok)
        u.prove('it is the container given', ex.eq(v, box))
        u.prove('entries are added in order', seq_term(ex, u.get(box, 'resources'), R) == z3.Concat(r0.t, res.at(ex, n)))
        u.prove('links are added in order', seq_term(ex, u.get(box, 'ln'), D) == z3.Concat(l0.t, lns.at(ex, n)))
        u.prove('the number of entries', ex.eq(u.get(s, 'resources_created'), T('int', cnt.at(ex, n))))
        u.prove('the metadata is that of the document', u.get(box, 'md').t == z3.If(m != -1, m, old))
        u.prove('it is told which kind it was', ex.eq(u.get(s, 'parsed_index'), T('bool', is_index)))
        u.cover('accepted', n == 3)
    return unit


RT = dict(Resource=RESOURCE, dict={}, Element={})
UNITS = [
    Unit('link', ln_unit, [S + '.ln_from_etree'], covers=['accepted', 'rejected: priority']),
    Unit('metadata', md_unit('1.1'), [S + '.md_from_etree'], covers=['accepted', 'rejected: change', 'rejected: length']),
    Unit('metadata (1.0)', md_unit('1.0'), [S + '.md_from_etree'], covers=['accepted', 'rejected: change', 'rejected: length']),
    Unit('entry', entry, [S + '.resource_from_etree'], reftypes=RT, covers=['accepted', 'rejected: links']),
] + [Unit('document (%s%s)' % ({None: 'either', True: 'index', False: 'sitemap'}[x], ', capability' if c else ''), document(x, c),
          [S + '.parse_xml'], reftypes=RT, covers=['accepted', 'rejected: root'] + (['rejected: capability'] if c else []))
     for x in (None, True, False) for c in (False, True)]
CONF = dict(assumptions=[
    'ElementTree and defusedxml parse documents into elements with a tag, text, attributes and children; findall gives the children '
    'with a tag in document order', 'int() decides which texts are whole numbers'])

LISTS = {'resource_list.ResourceList': 'resourcelist', 'change_list.ChangeList': 'changelist',
         'resource_dump.ResourceDump': 'resourcedump', 'change_dump.ChangeDump': 'changedump',
         'resource_dump_manifest.ResourceDumpManifest': 'resourcedump-manifest',
         'change_dump_manifest.ChangeDumpManifest': 'changedump-manifest',
         'capability_list.CapabilityList': 'capabilitylist', 'source_description.SourceDescription': 'description',
         'archives.ResourceListArchive': 'resourcelist-archive', 'archives.ChangeListArchive': 'changelist-archive',
         'archives.ResourceDumpArchive': 'resourcedump-archive', 'archives.ChangeDumpArchive': 'changedump-archive'}


def lists(u):
    """Every kind of list is read from a document of its own kind."""
    ex = u.ex
    calls = []

    def parse_xml(ex, a):
        calls.append({k: ex.split(v) for k, v in a.items()})
        return a['resources']
    ex.models[S + '.parse_xml'] = parse_xml
    fh = Opaque('handle')
    for key, cap in LISTS.items():
        for how in ('fh', 'str_data'):
            l = u.new(key)
            del calls[:]
            if how == 'fh':
                u.method(l, 'parse', fh=fh)
            else:
                u.method(l, 'parse', str_data=u.sym('str', 'data'))
            n = '%s: ' % key.split('.')[1]
            u.prove(n + 'the document is parsed', len(calls) == 1)
            c = calls[0]
            u.prove(n + 'expecting its capability', c.get('capability') == cap)
            u.prove(n + 'expecting no index', c.get('sitemapindex') is False)
            u.prove(n + 'into the list', ex.eq(c['resources'], l))
            if how == 'fh':
                u.prove(n + 'from what is given', c.get('fh') is fh)
    u.cover('reached')


UNITS.append(Unit('lists', lists, ['list_base.ListBase.parse'], covers=['reached']))
