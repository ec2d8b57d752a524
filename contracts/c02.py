"""C02: Resource.equal / __eq__ against the specification of equality, for all field values."""
import z3
from pydv.unit import Unit
from pydv.values import *

FIELDS = ('timestamp', 'length')
STRS = ('md5', 'sha1', 'sha256')


def resource(u, name):
    r = {}
    r['uri'] = u.sym('str', name + '.uri')
    r['timestamp'] = u.opt('real', name + '.timestamp')
    r['length'] = u.opt('int', name + '.length')
    for f in STRS:
        r[f] = u.opt('str', name + '.' + f)
    for f in ('mime_type', 'change', 'path', 'ln', '_extra'):
        r[f] = None
    r['ts_datetime'] = u.opt('real', name + '.ts_datetime')
    r['mime_type'] = u.opt('str', name + '.mime_type')
    return u.bare('resource.Resource', **r), r


def absent(v):
    return B([g for g, w in v.alts if w is None][0])


def val(v):
    return [w for g, w in v.alts if w is not None][0].t


def spec(a, b, delta):
    na, nb = absent(a['timestamp']), absent(b['timestamp'])
    d = val(a['timestamp']) - val(b['timestamp'])
    ts = z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), d < delta, -d < delta))
    g = [a['uri'].t == b['uri'].t, ts]
    for f in ('length',) + STRS:
        g.append(z3.Or(absent(a[f]), absent(b[f]), val(a[f]) == val(b[f])))
    return z3.And(*g)


def unchanged(u, oid, r):
    from pydv.ex import same
    c = u.ex.cell(oid)
    return all(same(c.attrs.get(k), v) for k, v in r.items()) and set(c.attrs) == set(r)


def eq_unit(u):
    a, ra = resource(u, 'a')
    b, rb = resource(u, 'b')
    g = u.ex.truth(u.method(a, '__eq__', b))
    s = spec(ra, rb, z3.RealVal(1))
    u.prove('a == b exactly when the specification of equality holds', B(g) == s)
    u.prove('neither resource is changed', unchanged(u, a, ra) and unchanged(u, b, rb))
    u.cover('equal with both timestamps', z3.And(s, z3.Not(absent(ra['timestamp']))))
    u.cover('unequal', z3.Not(s))


def equal_unit(u):
    a, ra = resource(u, 'a')
    b, rb = resource(u, 'b')
    delta = u.sym('real', 'delta')
    g = u.ex.truth(u.method(a, 'equal', b, delta))
    s = spec(ra, rb, delta.t)
    u.prove('a.equal(b, delta) exactly when the specification holds', B(g) == s)
    u.cover('within a tolerance above one', z3.And(s, delta.t > 1, val(ra['timestamp']) - val(rb['timestamp']) > 1,
                                                   z3.Not(absent(ra['timestamp']))))


def sym_unit(u):
    a, ra = resource(u, 'a')
    b, rb = resource(u, 'b')
    delta = u.sym('real', 'delta')
    g = u.ex.truth(u.method(a, 'equal', b, delta))
    h = u.ex.truth(u.method(b, 'equal', a, delta))
    u.prove('equal is symmetric', B(g) == B(h))
    u.cover('reached')


def none_unit(u):
    a, ra = resource(u, 'a')
    g = u.ex.truth(u.method(a, '__eq__', None))
    u.prove('a == None is False', z3.Not(B(g)))
    k, v = u.attempt(lambda: u.method(a, 'equal', None))
    u.prove('a.equal(None) is False', k == 'ok' and simp_not(B(u.ex.truth(v))))
    u.cover('reached')


def ne_unit(u):
    a, ra = resource(u, 'a')
    b, rb = resource(u, 'b')
    import ast
    g = u.ex.compare(ast.NotEq(), a, b)
    u.prove('a != b is the negation of a == b', B(g) == z3.Not(spec(ra, rb, z3.RealVal(1))))
    u.cover('reached')


T = 'resource.Resource.'
UNITS = [
    Unit('Resource.__eq__', eq_unit, (T + '__eq__', T + 'equal'), covers=['equal with both timestamps', 'unequal']),
    Unit('Resource.equal(delta)', equal_unit, (T + 'equal',)),
    Unit('Resource.equal symmetric', sym_unit, (T + 'equal',)),
    Unit('Resource == None', none_unit, (T + '__eq__', T + 'equal')),
    Unit('Resource !=', ne_unit, (T + '__eq__',)),
]
