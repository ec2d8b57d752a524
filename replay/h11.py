"""C11: W3C datetimes."""
import calendar
import datetime
import re
from fractions import Fraction
import harness
from resync.w3c_datetime import str_to_datetime, datetime_to_str

WHAT = 'texts near the W3C datetime forms with an independent strict reader, and timestamps of years 1970 to 9999 written and read'
FORM = re.compile(r'([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?(Z|[+-][0-9]{2}:[0-9]{2}))?)?)?')


def want(s):
    """The timestamp a text stands for (exact), and the offset; None if it is none."""
    m = FORM.fullmatch(s)
    if not m:
        return None
    y, mo, d, h, mi, sec = [int(x) if x else v for x, v in zip(m.groups(), (0, 1, 1, 0, 0, 0))]
    try:
        t = Fraction(calendar.timegm(datetime.datetime(y, mo, d, h, mi, sec).timetuple()))
    except ValueError:
        return None
    off = 0
    z = m.group(8)
    if z and z != 'Z':
        hh, mm = int(z[1:3]), int(z[4:6])
        if hh > 23 or mm > 59:
            return None
        off = (hh * 3600 + mm * 60) * (-1 if z[0] == '-' else 1)
    if m.group(7):
        t += Fraction('0' + m.group(7))
    return t - off, off


def text(rng):
    def n(w, lo, hi):
        r = rng.random()
        v = rng.randint(lo, hi) if r < .9 else rng.choice([lo, hi, hi + 1, max(lo - 1, 0), 10 ** w - 1, 0])
        return '%0*d' % (w, v)
    s = rng.choice([n(4, 1970, 2030), n(4, 1, 9999), '2012', '1900', '2000', '0001', '0000'])
    k = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 5, 5])
    if k >= 1:
        s += '-' + n(2, 1, 12)
    if k >= 2:
        s += '-' + rng.choice([n(2, 1, 28), n(2, 28, 31)])
    if k >= 3:
        s += 'T' + n(2, 0, 23) + ':' + n(2, 0, 59)
        if k >= 4:
            s += ':' + n(2, 0, 59)
        if k >= 5:
            s += '.' + rng.choice(['0', '5', '25', '000001', '999999', '1234567', '123456789012', '45', '1' * 30, '9999999', '0000001', '%d' % rng.randrange(10 ** 9)])
        s += rng.choice(['Z', 'Z', '+', '-'])
        if s[-1] in '+-':
            s += n(2, 0, 23) + ':' + n(2, 0, 59)
    r = rng.random()
    if r < .35:
        i = rng.randrange(len(s) + 1)
        c = rng.choice(['0', '9', '-', ':', '.', 'T', 'Z', '+', ' ', '\n', 't', 'z', 'x', '\u0661', '\uff11', ',', 'W'])
        q = rng.random()
        s = s[:i] + c + s[i:] if q < .4 else s[:i] + c + s[i + 1:] if q < .7 else s[:i] + s[i + 1:]
    elif r < .45:
        s = s + rng.choice(['\n', ' ', 'Z', '0', '+00:00', '.5', 'x', '\r\n', '\t'])
    elif r < .5:
        s = rng.choice([' ', '\n', '0', '+', '-', 'x']) + s
    elif r < .55:
        s = s.replace(rng.choice([':', '-', 'T', '.']), rng.choice(['', ' ', '/']))
    elif r < .57:
        s = s.replace(':', '').replace('-', '')
    return s


FIXED = [('read', x) for x in ('', '2012', '2012-02-29', '2011-02-29', '1900-02-29', '2000-02-29', '2012-01-01T24:00Z',
                               '2012-01-01T00:00+23:59', '2012-01-01T00:00+24:00', '2012-01-01T00:00-00:60', '2012-01-01T00:00:00.Z',
                               '2012-01-01T00:00.5Z', '2012-01-01T00:00:60Z', '2012\n', '2012-01-01T00:00:00Z\n', '20120101',
                               '2012-01-01T00:00:00.5', '2012-01-01T00:00:00.1.2Z', '2012-01-01T00:00:00.5.5Z', '1970-01-01T00:00:00.9999999Z', '1970-01-02T00:00:00.123456789Z')] + [
    ('write', x) for x in (0, 1, 0.5, 0.000001, 0.999999, 1e9, 1234567890.123456, 253402300799, 253402300799.5, 86399.999999, 951782400)] + [
    ('none', None)]


def gen(rng, h):
    if rng.random() < .75:
        return ('read', text(rng))
    hi = rng.choice([2, 86400 * 400, 2000000000, 253402300799])
    t = rng.choice([rng.randint(0, hi), rng.random() * hi, rng.randint(0, hi) + rng.randint(0, 999999) / 1e6])
    return ('write', t)


def run(case, h):
    kind, x = case
    if kind == 'none':
        if str_to_datetime(None) is not None or datetime_to_str(None) is not None:
            return 'None does not give None'
        return None
    if kind == 'read':
        w = want(x)
        h.count('valid' if w else 'invalid')
        try:
            t = str_to_datetime(x)
        except ValueError as e:
            return 'valid datetime %r is refused: %s' % (x, e) if w else None
        except Exception as e:
            return '%r gives %s: %s' % (x, type(e).__name__, e)
        if w is None:
            return '%r is accepted as %r' % (x, t)
        if not isinstance(t, (int, float)):
            return '%r is read as %r' % (x, t)
        tol = Fraction(1, 10 ** 14) + abs(w[0]) / 2 ** 50      # what sums of floats can tell apart
        if abs(Fraction(t) - w[0]) > tol:
            if w[1] and abs(Fraction(t) - (w[0] + 2 * w[1])) <= tol:
                return harness.known('offset-sign', '%r is read as %r: the time zone offset is added' % (x, t))
            return '%r is read as %r, not %r' % (x, t, float(w[0]))
        return None
    s = datetime_to_str(x)
    h.count('written')
    if not isinstance(s, str) or not s.endswith('Z') or not FORM.fullmatch(s):
        return '%r is written as %r' % (x, s)
    w = want(s)
    tol = Fraction(1, 10 ** 6) + abs(Fraction(x)) / 2 ** 51
    if w is None or abs(w[0] - Fraction(x)) > tol:
        return '%r is written as %r' % (x, s)
    if abs(Fraction(str_to_datetime(s)) - Fraction(x)) > tol:
        return '%r is written as %r and read as %r' % (x, s, str_to_datetime(s))
    return None
