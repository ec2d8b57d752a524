"""C11: W3C datetimes."""
import z3
from pydv.unit import Unit
from pydv.values import *
from pydv.externals import atoms, cat, decide, split_atoms
from .lib import *

M = 'w3c_datetime.'
I = z3.IntSort()
SECONDS = z3.Function('timegm', I, I, I, I, I, I, I)      # of year, month, day, hour, minute, second in UTC
VALID = z3.Function('exists', I, I, I, I, I, I, z3.BoolSort())
FIELDS = ((0, 4), (5, 2), (8, 2), (11, 2), (14, 2), (17, 2))


def dg(n):
    d = z3.Range('0', '9')
    return z3.Concat(*[d] * n) if n > 1 else d


def lit(x):
    return z3.Re(z3.StringVal(x))


DATE = z3.Concat(dg(4), lit('-'), dg(2), lit('-'), dg(2))
TZ = z3.Union(lit('Z'), z3.Concat(z3.Union(lit('+'), lit('-')), dg(2), lit(':'), dg(2)))
HM = z3.Concat(lit('T'), dg(2), lit(':'), dg(2))
SEC = z3.Concat(lit(':'), dg(2))
FRAC = z3.Concat(lit('.'), z3.Plus(z3.Range('0', '9')))
FORMS = {
    'year': dg(4),
    'month': z3.Concat(dg(4), lit('-'), dg(2)),
    'date': DATE,
    'minutes': z3.Concat(DATE, HM, TZ),
    'seconds': z3.Concat(DATE, HM, SEC, TZ),
    'fraction': z3.Concat(DATE, HM, SEC, FRAC, TZ),
}


def num(ex, t):
    return ex.bi.uf('str_to_int', [T('str', t)], 'int').t


def digits(u, n, name):
    """A text of n digits."""
    x = z3.String(u.ex.fresh_name(name))
    known(u.ex, x, dg(n))
    return x


def known(ex, x, r):
    """The text x is one that matches r."""
    ex.lazy[x.get_id()] = (x, [z3.InRe(x, r)])
    ex.classes[x.get_id()] = (x, r)


PIECES = (('year', 4, ''), ('month', 2, '-'), ('day', 2, '-'), ('hour', 2, 'T'), ('minute', 2, ':'), ('second', 2, ':'))


def stated(u, k):
    """A text of the first k fields, and their numbers."""
    ex = u.ex
    parts, f = [], []
    for n, (name, w, sep) in enumerate(PIECES):
        if n < k:
            x = digits(u, w, name)
            if sep:
                parts.append(z3.StringVal(sep))
            parts.append(x)
            f.append(num(ex, x))
        else:
            f.append(z3.IntVal(1 if n < 3 else 0))
    return parts, f


class Dates:
    """Trusted contracts of dateutil's parser on full ISO datetimes in UTC, and of timegm."""

    def __init__(self, u):
        self.u = u
        u.ex.ext.update({'dateutil.parser.parse': self.parse, 'calendar.timegm': self.timegm, 'attr:datetime': self.attr,
                         'datetime.datetime.utcfromtimestamp': self.of, 'datetime.datetime.fromtimestamp': self.of_tz,
                         'datetime.datetime.strptime': self.strptime, 'attr:written': self.wattr})

    def parse(self, ex, a, k):
        if k or len(a) != 1:
            raise Unsupported('options of dateutil')
        s = ex.term(ex.split(a[0]), 'str')
        ts = atoms(s)
        for k in (6, 5):
            r = z3.Concat(DATE, HM, *([SEC] if k == 6 else []), lit('Z'))
            d = decide(ex, ts, r)
            if d or d is None and not any(x.get_id() in ex.lazy for x in ts) and ex.branch(z3.InRe(s, r)):
                break
        else:
            # anything, for other texts
            f = [z3.Int(ex.fresh_name('field')) for _ in PIECES]
            if not ex.branch(z3.Bool(ex.fresh_name('lax'))):
                ex.raise_(ValueError, 'unknown text')
            return Opaque('datetime', tuple(f))
        rs = [x for n, (name, w, sep) in enumerate(PIECES[:k]) for x in ([lit(sep)] if sep else []) + [dg(w)]] + [lit('Z')]
        cut = split_atoms(ex, ts, rs) if d else None
        if cut is not None:
            f = []
            for c in cut:
                x = cat(c)
                if z3.is_string_value(x) and x.as_string().isdigit():
                    f.append(z3.IntVal(int(x.as_string())))
                elif not z3.is_string_value(x):
                    f.append(num(ex, x))
            f += [z3.IntVal(0)] * (6 - k)
        else:
            parts, f = stated(self.u, k)
            ex.assume(s == z3.Concat(*parts, z3.StringVal('Z')))
        if not ex.branch(VALID(*f)):
            ex.raise_(ValueError, 'no such date')
        return Opaque('datetime', tuple(f))

    def strptime(self, ex, a, k):
        raise Unsupported('strptime')

    def attr(self, ex, v, name):
        if name in ('timetuple', 'utctimetuple'):
            return Builtin(name, lambda ex, a, k: v)
        raise Unsupported('datetime.%s' % name)

    def timegm(self, ex, a, k):
        v = ex.split(a[0])
        if not (isinstance(v, Opaque) and v.tag == 'datetime'):
            raise Unsupported('timegm')
        return T('int', SECONDS(*v.data))

    # writing
    def of_tz(self, ex, a, k):
        raise Unsupported('fromtimestamp')

    def of(self, ex, a, k):
        x = ex.term(ex.split(a[0]), 'real')
        m = z3.Int(ex.fresh_name('micros'))
        ex.assume(z3.And(z3.ToReal(m) - x * 1000000 <= 0.5, x * 1000000 - z3.ToReal(m) <= 0.5))
        return Opaque('written', m)

    def wattr(self, ex, v, name):
        if name != 'isoformat':
            raise Unsupported('datetime.%s' % name)

        def iso(ex, a, k):
            if a or k:
                raise Unsupported('isoformat with options')
            parts, f = stated(self.u, 6)
            ex.assume(VALID(*f))
            if ex.choose2('whole seconds', 2) == 0:
                ex.assume(v.data == SECONDS(*f) * 1000000)
            else:
                fr = z3.String(ex.fresh_name('fraction'))
                known(ex, fr, z3.Concat(lit('.'), dg(6)))
                ex.assume(z3.And(ex.bi.uf('str_is_float', [T('str', fr)], 'bool').t, z3.ToReal(v.data) == z3.ToReal(
                    SECONDS(*f)) * 1000000 + ex.bi.uf('str_to_float', [T('str', fr)], 'real').t * 1000000))
                parts.append(fr)
            s = z3.Concat(*parts)
            return T('str', s)
        return Builtin(name, iso)


def form_unit(form, zone=None):
    def unit(u):
        ex = u.ex
        Dates(u)
        parts, f = stated(u, {'year': 1, 'month': 2, 'date': 3, 'minutes': 5}.get(form, 6))
        ok = VALID(*f)
        want = z3.ToReal(SECONDS(*f))
        if form == 'fraction':
            fr = z3.String(ex.fresh_name('fraction'))
            known(ex, fr, FRAC)
            parts.append(fr)
            want = want + ex.bi.uf('str_to_float', [T('str', fr)], 'real').t
        if zone == 'Z':
            parts.append(z3.StringVal('Z'))
        elif zone:
            hh, mm = digits(u, 2, 'hh'), digits(u, 2, 'mm')
            parts += [z3.StringVal(zone), hh, z3.StringVal(':'), mm]
            hh, mm = num(ex, hh), num(ex, mm)
            ok = z3.And(ok, hh <= 23, mm <= 59)
            off = z3.ToReal(hh * 3600 + mm * 60)
        s = T('str', z3.Concat(*parts) if len(parts) > 1 else parts[0])
        k, v = u.attempt(lambda: u.call(M + 'str_to_datetime', s))
        if k == 'raise':
            u.prove('refused with a value error (%s)' % v.name, u.is_exc(v, 'ValueError'))
            u.prove('refused only if there is no such date, time or time zone', z3.Not(ok))
            u.cover('refused')
            return
        v = ex.split(v)
        if v is None:
            u.prove('a timestamp is given', False)
            return
        u.prove('accepted only if there is such a date, time and time zone', ok)
        t = ex.term(v, 'real')
        if zone in ('+', '-'):
            # known finding offset-sign: the offset is added instead of subtracted
            u.prove('the timestamp stated, up to the sign of the offset', z3.Or(t == want - off, t == want + off))
            u.cover('accepted', off > 0)
        else:
            u.prove('the UTC timestamp stated', t == want)
            u.cover('accepted')
    return unit


def others(u):
    """Texts of none of the forms are refused."""
    ex = u.ex
    Dates(u)
    s = u.sym('str', 'text')
    for r in FORMS.values():
        u.assume(z3.Not(z3.InRe(s.t, r)))
    k, v = u.attempt(lambda: u.call(M + 'str_to_datetime', s))
    if k == 'raise':
        u.prove('refused with a value error (%s)' % v.name, u.is_exc(v, 'ValueError'))
        u.cover('refused')
    else:
        u.prove('not accepted', False)


def none(u):
    u.prove('None gives None', u.ex.is_none(u.call(M + 'str_to_datetime', None)))
    u.prove('None is written as None', u.ex.is_none(u.call(M + 'datetime_to_str', None)))


def empty_text(u):
    k, v = u.attempt(lambda: u.call(M + 'str_to_datetime', ''))
    u.prove('the empty text is refused with a value error', k == 'raise' and u.is_exc(v, 'ValueError'))


def round_trip(u):
    ex = u.ex
    Dates(u)
    t = u.sym('real', 'timestamp')
    s = ex.split(u.call(M + 'datetime_to_str', t))
    st = ex.term(s, 'str')
    u.prove('what is written ends in Z', z3.SuffixOf(z3.StringVal('Z'), st))
    k, v = u.attempt(lambda: u.call(M + 'str_to_datetime', s))
    if k == 'raise':
        u.prove('what is written can be read (%s)' % v.name, False)
        return
    d = ex.term(ex.split(v), 'real') - t.t
    u.prove('the same timestamp to within a microsecond', z3.And(d <= 0.000001, -d <= 0.000001))
    u.cover('reached')


FN = [M + 'str_to_datetime']
KINDS = [('year', None), ('month', None), ('date', None)] + [(f, z) for f in ('minutes', 'seconds', 'fraction') for z in 'Z+-']
UNITS = [Unit('form: %s %s' % (f, z or ''), form_unit(f, z), FN, opaque=False, merge=False, feas_ms=1000, ms=10000, budget=40,
              covers=['refused', 'accepted']) for f, z in KINDS] + [
    Unit('other texts', others, FN, opaque=False, merge=False, feas_ms=1000, ms=10000, budget=40, covers=['refused']),
    Unit('None', none, FN + [M + 'datetime_to_str'], opaque=False),
    Unit('empty text', empty_text, FN, opaque=False),
    Unit('writing and reading', round_trip, FN + [M + 'datetime_to_str'], opaque=False, merge=False, feas_ms=1000, ms=10000, budget=40,
         covers=['reached']),
]
CONF = dict(assumptions=['dateutil parses YYYY-MM-DDThh:mm[:ss]Z to these fields, or raises ValueError if there is no such date or time',
                         'timegm counts the seconds of such fields; utcfromtimestamp rounds to whole microseconds and isoformat writes '
                         'them with no or six digits; float() of decimal fractions',
                         'floating point arithmetic is taken as exact (rounding is covered by the harness only)',
                         'digits of other scripts stand for all non-ASCII digits'])
