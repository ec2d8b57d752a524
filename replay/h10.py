"""C10: URL authority."""
from resync.url_authority import UrlAuthority

WHAT = 'pairs of URLs from pools of schemes, servers (with ports, sub-domains and look-alikes) and paths'
SCHEMES = ['http', 'https', 'ftp', 'HTTP']
NETS = ['example.org', 'a.example.org', 'b.a.example.org', 'notexample.org', 'xexample.org', 'org', 'example.org.',
        'example.org:80', 'a.example.org:80', 'example.com', 'www.example.org', 'example.org.evil.com', 'EXAMPLE.org',
        'user@example.org', '192.168.0.1', 'aexample.org', 'b.example.orgx', 'x-example.org', 'none.none.none']
SEGS = ['a', 'ab', 'b', 'a.b', '', 'A', 'abc', '%2e', 'a b', 'ä', 'not', 'very', 'likely', 'a;b', ';', 'a,b', 'a=b', 'a:b']


def path(rng):
    p = ''.join('/' + rng.choice(SEGS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))
    return p


def url(rng, near=None):
    if near and rng.random() < .8:
        s, n, p = near
        if rng.random() < .15:
            s = rng.choice(SCHEMES)
        r = rng.random()
        if r < .25:
            n = rng.choice(NETS)
        elif r < .45:
            n = rng.choice(['a.', 'x', 'www.', '.', 'x-']) + n
        elif r < .5:
            n = n.split('.', 1)[-1] or n
        r = rng.random()
        d = p.rsplit('/', 1)[0]
        if r < .3:
            p = d + '/' + rng.choice(SEGS)
        elif r < .5:
            p = d + path(rng)
        elif r < .65:
            p = d + rng.choice(SEGS) + path(rng)
        elif r < .75:
            p = d.rsplit('/', 1)[0] + '/x'
        elif r < .85:
            p = path(rng)
        return s, n, p if p[:1] in ('', '/') else '/' + p
    return rng.choice(SCHEMES), rng.choice(NETS), path(rng)


def gen(rng, h):
    m = url(rng)
    us = []
    for _ in range(rng.choice([1, 2, 3])):
        u = url(rng, m)
        q = rng.choice(['', '', '', '?x=/y/z', '#f/g', ';p=1'])
        us.append(list(u) + [q])
    return dict(m=m, us=us, strict=rng.random() < .6, how=rng.choice([0, 0, 0, 1, 2, 3]), mq=rng.choice(['', '', '?a=/b']) if m[2] else '')


def segs(p):
    """Directory of a path as a list of segments, without empty ones at the end."""
    d = p.split('/')[:-1]
    while d and d[-1] == '':
        d.pop()
    return d


def run(c, h):
    s, n, p = c['m']
    m = '%s://%s%s%s' % (s, n, p, c['mq'])
    strict = c['strict']
    if c['how'] == 0:
        a = UrlAuthority(m, strict) if strict else UrlAuthority(m)
    elif c['how'] == 1:
        a = UrlAuthority('http://first.example/x/y', strict=strict)
        a.set_master(m)
    elif c['how'] == 2:
        a = UrlAuthority(url=m, strict=strict)
    else:
        a = UrlAuthority(strict=strict)
    for s2, n2, p2, q in c['us']:
        if n2.endswith('.') or n.endswith('.') or n2 == '' or '..' in n2 or (p2 == '' and p != ''):
            continue
        if p2 == '':
            q = ''
        u = '%s://%s%s%s' % (s2, n2, p2, q)
        got = a.has_authority_over(u)
        if c['how'] == 3:
            exp = False
        else:
            exp = s.lower() == s2.lower() and (n == n2 or n2.endswith('.' + n))
            md, d = segs(p), segs(p2)
            if exp and strict:
                exp = d[:len(md)] == md
        h.count('yes' if exp else 'no')
        if bool(got) != exp:
            return '%s%r has authority over %r: %r, expected %r' % (
                'strict ' if strict else '', m if c['how'] != 3 else None, u, got, exp)


def shrink(c):
    if len(c['us']) > 1:
        for u in c['us']:
            yield dict(c, us=[u])
