"""C13: which documents are accepted."""
import io
from xml.sax.saxutils import escape, quoteattr
from resync.sitemap import Sitemap, SitemapParseError, SitemapIndexError
from resync.resource_container import ResourceContainer
from resync.change_list import ChangeList
from resync.resource_list import ResourceList

WHAT = 'documents of zero to six parts near the valid ones, with an independent account of what is acceptable'
SM = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS = 'http://www.openarchives.org/rs/terms/'
GOOD_DT = ['2012', '2012-03-04', '2012-03-04T05:06:07Z', '2012-03-04T05:06:07.5Z']
BAD_DT = ['yesterday', '2012-13-01', '2012-03-04T05:06:07', '']
GOOD_INT, BAD_INT = ['0', '1', '12', '999999'], ['', 'x', '1.5', '1e3', '0x10', '1 2', '--1']
CAPS = ['resourcelist', 'resourcelist', 'changelist', 'changelist', 'resourcedump', 'unheard-of', '', 'Resourcelist']


def pick(rng, good, bad, p=.12):
    return rng.choice(bad) if rng.random() < p else rng.choice(good)


def md(rng):
    a = {}
    if rng.random() < .5:
        a['capability'] = rng.choice(CAPS)
    if rng.random() < .4:
        a['change'] = pick(rng, ['created', 'updated', 'deleted'], ['Updated', '', 'moved', 'created '])
    if rng.random() < .4:
        a['length'] = pick(rng, GOOD_INT, BAD_INT)
    for x in ('datetime', 'at', 'completed', 'from', 'until'):
        if rng.random() < .15:
            a[x] = pick(rng, GOOD_DT, BAD_DT)
    if rng.random() < .2:
        a['hash'] = rng.choice(['md5:abc', 'md5:1 sha-256:2', 'bad', 'crc:1', ''])
    if rng.random() < .2:
        a['type'] = 'text/plain'
    return ('md', a)


def ln(rng):
    a = {'rel': rng.choice(['up', 'up', 'duplicate', 'index', 'describedby', 'alternate', 'x']), 'href': 'http://e.org/u'}
    for x in ('rel', 'href'):
        r = rng.random()
        if r < .06:
            del a[x]
        elif r < .08:
            a[x] = ''
    if rng.random() < .4:
        a['pri'] = pick(rng, ['1', '2', '999999', '77', '+5', '007'], ['0', '1000001', '-999999', '1000000', '-1', 'x', '', '1.0'], .25)
    if rng.random() < .3:
        a['length'] = pick(rng, GOOD_INT, BAD_INT)
    if rng.random() < .2:
        a['type'] = 'text/html'
    return ('ln', a)


def entry(rng, n):
    kids = []
    for _ in range(rng.choice([1] * 16 + [0, 2])):
        kids.append(('loc', rng.choice(['http://e.org/%d' % n] * 12 + ['', ' '])))
    for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2] if rng.random() < .3 else [0, 1])):
        kids.append(('lastmod', pick(rng, GOOD_DT, BAD_DT)))
    for _ in range(rng.choice([0, 1, 1, 2] if rng.random() < .2 else [0, 1])):
        kids.append(md(rng))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        kids.append(ln(rng))
    if rng.random() < .2:
        kids.append(('other', 'x'))
    rng.shuffle(kids)
    return kids


def gen(rng, h):
    root = rng.choice(['urlset'] * 6 + ['sitemapindex'] * 3 + ['rss', 'nons', 'rsurlset', 'url'])
    parts = []
    for n in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        tag = rng.choice(['url', 'sitemap']) if rng.random() < .1 else 'sitemap' if root == 'sitemapindex' else 'url'
        parts.append((tag, entry(rng, n)))
    pre = [md(rng) for _ in range(rng.choice([0, 1, 1, 1, 2] if rng.random() < .3 else [0, 1, 1]))]
    pre += [ln(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(pre)
    parts = pre + parts
    if rng.random() < .15 and len(parts) > 1:
        i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
        parts.insert(j, parts.pop(i))
    if rng.random() < .2:
        parts.insert(rng.randrange(len(parts) + 1), ('other', 'y'))
    return dict(root=root, parts=parts, cap=rng.choice([None, None, 'resourcelist', 'resourcelist', 'changelist', 'resourcedump'] + [''] * (rng.random() < .1)),
                index=rng.choice([None, None, False, True]), before=rng.choice([None, None, 'changelist', 'resourcelist']))


def xml(case):
    def el(tag, body):
        if tag in ('md', 'ln'):
            return '<rs:%s%s/>' % (tag, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in body.items()))
        if tag in ('url', 'sitemap'):
            return '<%s>%s</%s>' % (tag, ''.join(el(*x) for x in body), tag)
        return '<%s>%s</%s>' % (tag, escape(body), tag)
    r = case['root']
    ns = ' xmlns:rs="%s"' % RS
    name = r
    if r == 'nons':
        name = 'urlset'
    elif r == 'rsurlset':
        name = 'rs:urlset'
        ns += ' xmlns="%s"' % SM
    else:
        ns += ' xmlns="%s"' % SM
    return '<?xml version="1.0" encoding="UTF-8"?>\n<%s%s>%s</%s>' % (name, ns, ''.join(el(*x) for x in case['parts']), name)


def whole(s):
    t = s[1:] if s[:1] in '+-' else s
    return t.isdigit()


def bad_md(a, entry):
    if 'change' in a and a['change'] not in ('created', 'updated', 'deleted'):
        return 'change type'
    if 'length' in a and not whole(a['length']):
        return 'length'
    if entry:
        for x in ('datetime', 'at', 'completed', 'from', 'until'):
            if x in a and a[x] not in GOOD_DT:
                return x


def bad_ln(a):
    if 'href' not in a:
        return 'no target'
    if 'rel' not in a:
        return 'no relation'
    if 'length' in a and not whole(a['length']):
        return 'length of link'
    if 'pri' in a and (not whole(a['pri']) or not 1 <= int(a['pri']) <= 999999):
        return 'priority'


def bad_entry(kids):
    n = lambda t: [b for x, b in kids if x == t]
    if len(n('loc')) != 1 or n('loc')[0] == '':
        return 'location'
    if len(n('lastmod')) > 1 or any(x and x not in GOOD_DT for x in n('lastmod')):
        return 'last modification'
    if len(n('md')) > 1:
        return 'metadata elements'
    for a in n('md'):
        b = bad_md(a, True)
        if b:
            return b
    for a in n('ln'):
        b = bad_ln(a)
        if b:
            return b


def wrong(case):
    """What is wrong with it, or None."""
    r = case['root']
    if r not in ('urlset', 'sitemapindex'):
        return 'root'
    if case['index'] is not None and case['index'] != (r == 'sitemapindex'):
        return 'kind'
    tag = 'sitemap' if r == 'sitemapindex' else 'url'
    entries, mds = 0, []
    for t, b in case['parts']:
        if t == tag:
            entries += 1
            w = bad_entry(b)
            if w:
                return w
        elif t in ('md', 'ln'):
            if entries:
                return t + ' after entry'
            if t == 'md' and mds:
                return 'two md'
            w = bad_md(b, False) if t == 'md' else bad_ln(b)
            if w:
                return w
            if t == 'md':
                mds.append(b)
    if case['cap'] is not None:
        got = mds[0].get('capability') if mds else None
        if got is None and case['cap'] != 'resourcelist' or got is not None and got != case['cap']:
            return 'capability'


def run(case, h):
    text = xml(case)
    w = wrong(case)
    h.count('wrong: ' + w if w else 'right')
    box = ResourceContainer(md={'capability': case['before']} if case['before'] else None)
    s = Sitemap()
    try:
        r = s.parse_xml(fh=io.StringIO(text), resources=box, capability=case['cap'], sitemapindex=case['index'])
    except (SitemapParseError, SitemapIndexError) as e:
        return None if w else 'rejected (%s) although right: %s' % (e, text)
    except Exception as e:
        return '%s: %s for %s' % (type(e).__name__, e, text)
    if w:
        return 'accepted in spite of %s (capability %r, index %r): %s' % (w, case['cap'], case['index'], text)
    tag = 'sitemap' if case['root'] == 'sitemapindex' else 'url'
    ents = [b for t, b in case['parts'] if t == tag]
    locs = [[x for t, x in b if t == 'loc'][0] for b in ents]
    if r is not box or [x.uri for x in box] != locs or s.resources_created != len(locs):
        return 'entries %r for %s' % ([x.uri for x in box], text)
    if s.parsed_index != (tag == 'sitemap'):
        return 'parsed_index %r for %s' % (s.parsed_index, text)
    lns = [b['href'] for t, b in case['parts'] if t == 'ln']
    if [x['href'] for x in box.ln] != lns:
        return 'links %r for %s' % (box.ln, text)
    for b, x in zip(ents, box):
        want = [a['href'] for t, a in b if t == 'ln']
        if [a['href'] for a in (x.ln or [])] != want:
            return 'links %r of entry for %s' % (x.ln, text)
    return None
