"""C23: options."""
from resync import client_utils as cu

WHAT = 'option strings put together from names, separators (comma, equals sign) and empty pieces'
PIECES = ['up', 'http://a/b', '', 'type', 'a=b', 'a=c', 'pri=1', '=', 'a=', '=b', 'a==b', 'a=b=c', ' ', 'rel=x', 'href=y', 'x y=z', 'UP', 'Type=A', ' a = b ', 'HTTP://A/B', 'a="b"', 'http://a/?q=1']


def gen(rng, h):
    op = rng.choice(['link', 'link', 'links', 'caps', 'lists'])
    def s():
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        p = [rng.choice(PIECES[:8] + ['Up'] if rng.random() < .7 else PIECES) for i in range(n)]
        if rng.random() < .5 and n > 2:
            p[2:] = [rng.choice(['a=1', 'b=2', 'a=3', 'c=c', 'rel=r', 'href=']) for x in p[2:]]
        if op == 'caps' and rng.random() < .7:
            p = [rng.choice(['resourcelist=http://a/r', 'changelist=c.xml', 'resourcelist=2', 'a=', '=b', '=']) for x in p]
        return ','.join(p)
    if op == 'links':
        return dict(op=op, s=rng.choice([None, [], 1, 2, 3, 3]), o=[s() if rng.random() < .4 else 'up,http://a/%d,x=%d' % (i, i) for i in range(3)])
    return dict(op=op, s=s())


def spec(s):
    segs = s.split(',')
    if len(segs) < 2 or segs[1] == '':
        return None
    d = {'rel': segs[0], 'href': segs[1]}
    for t in segs[2:]:
        if t.count('=') != 1 or t[0] == '=' or t[-1] == '=':
            return None
        i = t.index('=')
        d[t[:i]] = t[i + 1:]
    return d


def caps(s):
    d = {}
    for t in s.split(','):
        if t.count('=') != 1:
            return None
        i = t.index('=')
        d[t[:i]] = t[i + 1:]
    return d


def run(c, h):
    op, s = c['op'], c['s']
    if op == 'link':
        f, exp = cu.parse_link, spec(s)
    elif op == 'caps':
        f, exp = cu.parse_capabilities, caps(s)
    elif op == 'lists':
        f, exp = cu.parse_capability_lists, s.split(',')
    else:
        if isinstance(s, int):
            s = c['o'][:s]
        exp = []
        for x in s or []:
            y = spec(x)
            if y is None:
                exp = None
                break
            exp.append(y)
        f = cu.parse_links
    try:
        r = f(s)
    except cu.ClientFatalError:
        r = None
        if exp is not None:
            return '%s: option %r is refused, should give %r' % (op, s, exp)
        h.count('refused')
    if r is not None and exp is None:
        return '%s: option %r is accepted as %r' % (op, s, r)
    if r != exp:
        return '%s: option %r gives %r, expected %r' % (op, s, r, exp)


def shrink(c):
    if isinstance(c['s'], str):
        p = c['s'].split(',')
        for i in range(len(p)):
            yield dict(c, s=','.join(p[:i] + p[i + 1:]))
