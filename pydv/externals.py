"""Trusted contracts of functions outside the package (each use is reported as an assumption).

Pure functions of strings are evaluated when their arguments are concrete and
are uninterpreted functions of their arguments otherwise, except where a
definition is given in terms of the string theory.
"""
import math
import os
import posixpath
import re
import urllib.parse
import z3

from .values import *


def concrete(v):
    if isinstance(v, (str, int, float, bytes, type(None))) and not isinstance(v, T):
        return True
    return isinstance(v, tuple) and all(concrete(x) for x in v)


def lower(ex, v):
    """Concrete Python value of a value, or raise Unsupported."""
    if concrete(v):
        return v
    if isinstance(v, Oid):
        c = ex.cell(v)
        if isinstance(c, ListCell) and c.items is not None and all(g is True for g, _ in c.items):
            return [lower(ex, w) for _, w in c.items]
    raise Unsupported('not concrete')


def pure(name, fn, kind, check=None):
    def model(ex, a, k):
        a = [ex.split(x) for x in a]
        if k:
            raise Unsupported('%s with keywords' % name)
        try:
            cs = [lower(ex, x) for x in a]
        except Unsupported:
            cs = None
        if cs is not None:
            try:
                r = fn(*cs)
            except Exception as e:
                ex.raise_(type(e))
            return r
        for x in a:
            if x is None:
                ex.raise_(TypeError)
        if check:
            r = check(ex, a)
            if r is not None:
                return r
        args = []
        for x in a:
            if isinstance(x, Oid):
                x = ex.seq_of(ex.cell(x), 'str')
            args.append(x)
        return ex.bi.uf(name, args, kind)
    return model


def path_join(ex, a):
    if ex.opaque:
        if len(a) == 2:
            return None
        r = a[0]
        for x in a[1:]:
            r = MODELS['os.path.join'](ex, [r, x], {})
        return r
    r = ex.term(a[0], 'str')
    sl = z3.StringVal('/')
    for x in a[1:]:
        b = ex.term(x, 'str')
        r = z3.If(z3.PrefixOf(sl, b), b, z3.If(z3.Or(r == z3.StringVal(''), z3.SuffixOf(sl, r)),
                                                z3.Concat(r, b), z3.Concat(r, sl, b)))
    return T('str', r)


# ---- urlparse
UFIELDS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')


def urlparse(ex, a, k):
    s = ex.split(a[0])
    if s is None:
        ex.raise_(TypeError)
    if isinstance(s, str):
        return Opaque('urlparsed', tuple(urllib.parse.urlparse(s)))
    return Opaque('urlparsed', tuple(ex.bi.uf('urlparse.' + f, [s], 'str') for f in UFIELDS))


def urlparsed_attr(ex, v, name):
    if name in UFIELDS:
        return v.data[UFIELDS.index(name)]
    if name == 'hostname':
        net = v.data[1]
        if isinstance(net, str):
            return urllib.parse.urlparse('//' + net).hostname
        return U([(ex.bi.uf('urlparse.no_hostname', [net], 'bool').t, None),
                  (z3.Not(ex.bi.uf('urlparse.no_hostname', [net], 'bool').t), ex.bi.uf('urlparse.hostname', [net], 'str'))])
    raise Unsupported('urlparse().%s' % name)


def urlunparse(ex, a, k):
    v = ex.split(a[0])
    items = list(v.data) if isinstance(v, Opaque) else ex.bi.concrete_items(v)
    items = [ex.split(x) for x in items]
    items = ['' if x is None else x for x in items]
    if all(isinstance(x, str) for x in items):
        return urllib.parse.urlunparse(items)
    return ex.bi.uf('urlunparse', items, 'str')


# ---- regular expressions
def match_value(ex, how, pat, s, flags):
    key = 're.%s(%r%s)' % (how, pat, ',%s' % flags if flags else '')
    h = ex.ext.get('re:' + how) or ex.ext.get('re')
    if h:
        r = h(ex, how, pat, s)
        if r is not MISSING:
            return r
    if not ex.opaque:
        r = string_match(ex, how, pat, s, flags)
        if r is not MISSING:
            return r
    ok = ex.bi.uf(key, [s], 'bool')
    n = re.compile(pat).groups
    m = Opaque('match', tuple(ex.bi.uf(key + '.group%d' % i, [s], 'str') for i in range(n + 1)))
    return U([(ok.t, m), (z3.Not(ok.t), None)])


def re_match(how):
    def model(ex, a, k):
        pat, s = ex.split(a[0]), ex.split(a[1])
        if isinstance(pat, Opaque) and pat.tag == 're':
            pat = pat.data[0]
        flags = a[2] if len(a) > 2 else k.get('flags')
        if s is None:
            ex.raise_(TypeError)
        if isinstance(pat, str) and isinstance(s, str):
            try:
                m = getattr(re, how)(pat, s)
            except re.error:
                ex.raise_(re.error)
            return None if m is None else Opaque('match', (m.group(0),) + m.groups())
        if not isinstance(pat, str):
            h = ex.ext.get('re.symbolic')
            if h:
                return h(ex, how, pat, s)
            parts = escape_parts(pat)
            if parts is not None and not ex.opaque:
                return sym_pattern(ex, how, parts, s, flags)
            ok = ex.bi.uf('re.%s' % how, [pat, s], 'bool')
            return U([(ok.t, Opaque('match', tuple(ex.bi.uf('re.%s.group%d' % (how, i), [pat, s], 'str') for i in range(10)))),
                      (z3.Not(ok.t), None)])
        return match_value(ex, how, pat, s, flags)
    return model


def match_attr(ex, v, name):
    if name == 'group':
        def group(ex, a, k):
            i = a[0] if a else 0
            if not isinstance(i, int) or i >= len(v.data):
                ex.raise_(IndexError)
            return v.data[i]
        return Builtin('match.group', group)
    if name == 'groups':
        return Builtin('match.groups', lambda ex, a, k: tuple(v.data[1:]))
    raise Unsupported('match.%s' % name)


def re_attr(ex, v, name):
    if name in ('match', 'search', 'fullmatch'):
        return Builtin('re.' + name, lambda ex, a, k: re_match(name)(ex, [v.data[0]] + list(a), k))
    if name == 'sub':
        return Builtin('re.sub', lambda ex, a, k: re_sub(ex, [v.data[0]] + list(a), k))
    raise Unsupported('pattern.%s' % name)


def re_compile(ex, a, k):
    p = ex.split(a[0])
    if isinstance(p, str):
        try:
            re.compile(p)
        except re.error:
            ex.raise_(re.error)
    else:
        bad = ex.bi.uf('re.bad_pattern', [p], 'bool')
        if ex.branch(bad.t):
            ex.raise_(re.error)
    return Opaque('re', (p,))


def re_sub(ex, a, k):
    pat, repl, s = ex.split(a[0]), ex.split(a[1]), ex.split(a[2])
    if isinstance(pat, Opaque):
        pat = pat.data[0]
    if all(isinstance(x, str) for x in (pat, repl, s)):
        return re.sub(pat, repl, s)
    if s is None:
        ex.raise_(TypeError)
    h = ex.ext.get('re.sub')
    if h:
        r = h(ex, pat, repl, s)
        if r is not MISSING:
            return r
    if isinstance(pat, str) and isinstance(repl, str):
        try:
            key = str(re._parser.parse(pat))      # patterns that are the same but for the way they are written
            key = re.sub(r'\(NEGATE, None\), \(CATEGORY, CATEGORY_(\w+)\)\]', r'(CATEGORY, CATEGORY_NOT_\1)]', key)
        except re.error:
            ex.raise_(re.error)
        return ex.bi.uf('re.sub(%s,%r)' % (key, repl), [s], 'str')
    return ex.bi.uf('re.sub', [pat, repl, s], 'str')


def re_escape(ex, a, k):
    s = ex.split(a[0])
    if isinstance(s, str):
        return re.escape(s)
    return T('str', ex.bi.uf('re.escape', [s], 'str').t, ('escaped', s))


def escape_parts(p):
    """A pattern that is re.escape(value) followed by a constant pattern: (value, rest)."""
    m = p.meta if isinstance(p, T) else None
    if m and m[0] == 'escaped':
        return m[1], ''
    if m and m[0] == 'cat':
        ps = list(m[1])
        if isinstance(ps[0], str) and ps[0] in ('^', r'\A'):
            ps = ps[1:]
        q = ps[0].meta if ps and isinstance(ps[0], T) else None
        if q and q[0] == 'escaped' and all(isinstance(x, str) for x in ps[1:]):
            return q[1], ''.join(ps[1:])
    return None


def sym_pattern(ex, how, parts, s, flags):
    lit, rest = parts
    if how not in ('match', 'fullmatch'):
        raise Unsupported('re.%s with a symbolic pattern' % how)
    lt, st = ex.term(lit, 'str'), ex.term(s, 'str')
    n = z3.Length(lt)
    tail = T('str', z3.SubString(st, n, z3.Length(st) - n))
    r = string_match(ex, how, rest, tail, flags)
    if r is MISSING:
        raise Unsupported('pattern %r' % rest)
    pre = z3.PrefixOf(lt, st)
    out, none = [], []
    for g, v in (r.alts if isinstance(r, U) else [(z3.BoolVal(True), r)]):
        if v is None:
            none.append(g)
        else:
            out.append((simp_and(pre, g), Opaque('match', (concat0(lt, v.data[0]),) + v.data[1:])))
    return U(out + [(simp_or(z3.Not(pre), *none), None)])


def concat0(lt, v):
    return T('str', z3.Concat(lt, v.t)) if isinstance(v, T) else v


DOTALL = [False]
ASCII = [False]


def to_re(tree):
    """z3 regular expression of a parsed Python pattern (ASCII classes)."""
    import re._constants as c
    out = []
    for op, av in tree:
        if op is c.LITERAL:
            out.append(z3.Re(z3.StringVal(chr(av))))
        elif op is c.NOT_LITERAL:
            out.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Re(chr(av))))
        elif op is c.ANY and DOTALL[0]:
            out.append(z3.AllChar(z3.ReSort(z3.StringSort())))
        elif op is c.ANY:
            out.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Re('\n')))
        elif op is c.IN:
            neg, alts = False, []
            for o, v in av:
                if o is c.NEGATE:
                    neg = True
                elif o is c.LITERAL:
                    alts.append(z3.Re(chr(v)))
                elif o is c.RANGE:
                    alts.append(z3.Range(chr(v[0]), chr(v[1])))
                elif o is c.CATEGORY:
                    alts.append(category(c, v))
                else:
                    return None
            r = alts[0] if len(alts) == 1 else z3.Union(*alts)
            out.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), r) if neg else r)
        elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
            lo, hi, sub = av
            r = to_re(sub)
            if r is None:
                return None
            if hi is c.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                out.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        elif op is c.SUBPATTERN:
            r = to_re(av[3])
            if r is None:
                return None
            out.append(r)
        elif op is c.BRANCH:
            rs = [to_re(x) for x in av[1]]
            if any(r is None for r in rs):
                return None
            out.append(z3.Union(*rs))
        else:
            return None
    if not out:
        return z3.Re('')
    return out[0] if len(out) == 1 else z3.Concat(*out)


def category(c, v):
    if v is c.CATEGORY_DIGIT:
        # there are digits of other scripts: one such range stands for all of them
        return z3.Range('0', '9') if ASCII[0] else z3.Union(z3.Range('0', '9'), z3.Range(chr(0x660), chr(0x669)))
    if v is c.CATEGORY_NOT_DIGIT:
        return z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), category(c, c.CATEGORY_DIGIT))
    if v is c.CATEGORY_WORD:
        return z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'))
    if v is c.CATEGORY_NOT_WORD:
        return z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), category(c, c.CATEGORY_WORD))
    if v is c.CATEGORY_SPACE:
        return z3.Union(*[z3.Re(x) for x in ' \t\n\r\f\v'])
    raise Unsupported('character class')


def width(c, tree):
    """Number of characters matched when it is always the same, else None."""
    n = 0
    for op, av in tree:
        if op in (c.LITERAL, c.NOT_LITERAL, c.ANY, c.IN):
            n += 1
        elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
            w = width(c, av[2])
            if w is None or av[0] != av[1]:
                return None
            n += w * av[0]
        elif op is c.SUBPATTERN:
            w = width(c, av[3])
            if w is None:
                return None
            n += w
        elif op is c.BRANCH:
            ws = {width(c, list(x)) for x in av[1]}
            if len(ws) != 1 or None in ws:
                return None
            n += ws.pop()
        else:
            return None
    return n


def has_group(c, tree):
    for op, av in tree:
        if op is c.SUBPATTERN and (av[0] is not None or has_group(c, av[3])):
            return True
        if op in (c.MAX_REPEAT, c.MIN_REPEAT) and has_group(c, av[2]):
            return True
        if op is c.BRANCH and any(has_group(c, x) for x in av[1]):
            return True
    return False


def atoms(t):
    """A text as a list of constants of one character, and other terms."""
    if z3.is_string_value(t):
        return [z3.StringVal(x) for x in t.as_string()] if '\\u' not in t.as_string() else [t]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in atoms(c)]
    return [t]


def cat(ts):
    """Concatenation, constants joined."""
    out = []
    for t in ts:
        if out and z3.is_string_value(t) and z3.is_string_value(out[-1]):
            out[-1] = z3.StringVal(out[-1].as_string() + t.as_string())
        else:
            out.append(t)
    return z3.StringVal('') if not out else out[0] if len(out) == 1 else z3.Concat(*out)


def lang(ex, ts):
    """Regular expression of the texts these atoms can be, when known."""
    rs = []
    for t in ts:
        r = z3.Re(t) if z3.is_string_value(t) else ex.classes.get(t.get_id(), (None, None))[1]
        if r is None:
            return None
        rs.append(r)
    return z3.Re('') if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)


_DEC = {}


def decide(ex, ts, r):
    """Whether texts of these atoms match: True, False, or None when some do or it is not known."""
    a = lang(ex, ts)
    if a is None:
        return None
    k = (a.sexpr(), r.sexpr())
    if k not in _DEC:
        x = z3.String('x!decide')
        res = None
        for ans, g in ((True, z3.Not(z3.InRe(x, r))), (False, z3.InRe(x, r))):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(z3.InRe(x, a), g)
            if s.check() == z3.unsat:
                res = ans
                break
        _DEC[k] = res
    return _DEC[k]


def split_atoms(ex, ts, rs):
    """The only way to cut the text of these atoms into pieces matching rs, if it is between atoms: a list of lists."""
    if len(ts) > 60:
        return None
    memo = {}

    def ways(i, k):
        if (i, k) in memo:
            return memo[(i, k)]
        out = []
        if k == len(rs):
            out = [[]] if i == len(ts) else []
        else:
            for j in range(i, len(ts) + 1):
                if len(out) < 3 and (k < len(rs) - 1 or j == len(ts)) and decide(ex, ts[i:j], rs[k]) is True:
                    out += [[ts[i:j]] + w for w in ways(j, k + 1)]
        memo[(i, k)] = out
        return out
    ws = ways(0, 0)
    if len(ws) != 1:
        return None
    w = ws[0]
    for k in range(len(rs) - 1):
        if not only_cut(lang(ex, w[k]), lang(ex, sum(w[k + 1:], [])), rs[k],
                        rs[k + 1] if k + 2 == len(rs) else z3.Concat(*rs[k + 1:])):
            return None
    return w


_CUT = {}


def only_cut(a, b, r1, r2):
    """No text of a followed by one of b can be cut into one of r1 and one of r2 at another place."""
    key = tuple(x.sexpr() for x in (a, b, r1, r2))
    if key not in _CUT:
        p, v, q = [z3.String('%s!cut' % x) for x in 'pvq']
        _CUT[key] = True
        for cs in ((z3.InRe(p, a), z3.InRe(z3.Concat(p, v), r1), z3.InRe(q, r2), z3.InRe(z3.Concat(v, q), b)),
                   (z3.InRe(z3.Concat(p, v), a), z3.InRe(p, r1), z3.InRe(z3.Concat(v, q), r2), z3.InRe(q, b))):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(v != z3.StringVal(''), *cs)
            if s.check() != z3.unsat:
                _CUT[key] = False
                break
    return _CUT[key]


class Pieces:
    """Takes a matched text apart: facts about the pieces, and the value of each group."""

    def __init__(self, ex):
        import re._constants as c
        self.ex, self.c = ex, c
        self.facts, self.groups = [], {}

    def fact(self, cond, f):
        self.facts.append(f if cond is True else z3.Implies(cond, f))

    def put(self, i, cond, v):
        if cond is True:
            self.groups[i] = v
        else:
            self.groups[i] = U([(cond, v), (z3.Not(cond), None)])

    def none(self, tree):
        for op, av in tree:
            if op is self.c.SUBPATTERN:
                if av[0] is not None:
                    self.groups[av[0]] = None
                self.none(av[3])
            elif op in (self.c.MAX_REPEAT, self.c.MIN_REPEAT):
                self.none(av[2])
            elif op is self.c.BRANCH:
                for x in av[1]:
                    self.none(x)

    def take(self, tree, t, cond):
        """Text t matches tree (under cond)."""
        c, ex = self.c, self.ex
        if not has_group(c, tree):
            return
        if len(tree) == 1:
            op, av = tree[0]
            if op is c.SUBPATTERN:
                if av[0] is not None:
                    self.put(av[0], cond, T('str', t))
                return self.take(list(av[3]), t, cond)
            if op in (c.MAX_REPEAT, c.MIN_REPEAT):
                lo, hi, sub = av
                inner = to_re(sub)
                if (lo, hi) == (0, 1) and z3.is_string_value(t) and t.as_string() == '':
                    if z3.is_false(z3.simplify(z3.InRe(t, inner))):
                        return self.none(tree)
                if (lo, hi) == (0, 1) and z3.is_false(z3.simplify(z3.InRe(z3.StringVal(''), inner))):
                    if decide(ex, atoms(t), inner) is True:
                        return self.take(list(sub), t, cond)
                    here = t != z3.StringVal('')
                    return self.take(list(sub), t, here if cond is True else z3.And(cond, here))
                if (lo, hi) == (1, 1):
                    return self.take(list(sub), t, cond)
                self.unknown(tree)
                return
            if op is c.BRANCH:
                earlier = []
                for x in av[1]:
                    d = decide(ex, atoms(t), to_re(x))
                    if d is False:
                        self.none(x)
                        continue
                    if d is True and not earlier:
                        self.take(list(x), t, cond)
                        for y in av[1][list(av[1]).index(x) + 1:]:
                            self.none(y)
                        return
                    here = z3.And(*([cond] if cond is not True else []), z3.InRe(t, to_re(x)), *earlier)
                    earlier.append(z3.Not(z3.InRe(t, to_re(x))))
                    self.take(list(x), t, here)
                return
            self.unknown(tree)
            return
        # runs without groups are one piece
        runs = []
        for x in tree:
            if runs and not has_group(c, [x]) and not has_group(c, runs[-1]):
                runs[-1].append(x)
            else:
                runs.append([x])
        cut = split_atoms(ex, atoms(t), [to_re(r) for r in runs]) if lang(ex, atoms(t)) is not None else None
        if cut is not None:
            for r, p in zip(runs, cut):
                self.take(r, cat(p), cond)
            return
        out = [z3.String(ex.fresh_name('grp')) for r in runs]
        for r, p in zip(runs, out):
            ex.classes[p.get_id()] = (p, to_re(r))
        self.fact(cond, t == z3.Concat(*out))
        for r, p in zip(runs, out):
            w = width(c, r)
            if w is not None:
                self.fact(cond, z3.Length(p) == w)
        for r, p in zip(runs, out):
            self.fact(cond, z3.InRe(p, to_re(r)))
            self.take(r, p, cond)

    def unknown(self, tree):
        c = self.c
        for op, av in tree:
            if op is c.SUBPATTERN:
                if av[0] is not None:
                    self.groups[av[0]] = Opaque('nogroup')
                self.unknown(av[3])
            elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
                self.unknown(av[2])
            elif op is c.BRANCH:
                for x in av[1]:
                    self.unknown(x)


def string_match(ex, how, pat, s, flags=None):
    """Match of a constant pattern in the string theory; groups are pieces of a decomposition."""
    import re._parser as sp
    import re._constants as c
    tree = list(sp.parse(pat))
    st = ex.term(s, 'str')
    start = how == 'match' or how == 'fullmatch'
    end = how == 'fullmatch'
    nl = False
    if tree and tree[0] == (c.AT, c.AT_BEGINNING) or tree and tree[0] == (c.AT, c.AT_BEGINNING_STRING):
        tree, start = tree[1:], True
    if tree and tree[-1] == (c.AT, c.AT_END):
        tree, end, nl = tree[:-1], True, True
    elif tree and tree[-1] == (c.AT, c.AT_END_STRING):
        tree, end = tree[:-1], True
    flags = flags or 0
    if not isinstance(flags, int) or int(flags) & ~(16 | 256):
        return MISSING
    DOTALL[0] = bool(flags & 16)
    ASCII[0] = bool(flags & 256)
    full = to_re(tree)
    if full is None:
        return MISSING
    anyre = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    whole = ([] if start else [anyre]) + [full] + ([] if end and not nl else
                                                   [z3.Option(z3.Re('\n'))] if end else [anyre])
    whole = whole[0] if len(whole) == 1 else z3.Concat(*whole)
    ok = z3.InRe(st, whole)
    d = decide(ex, atoms(st), whole)
    if d is False:
        return None
    n = re.compile(pat).groups
    ps = Pieces(ex)
    if start and end and not nl:
        body = st
    else:
        pieces = []
        if not start:
            pieces.append(z3.String(ex.fresh_name('pre')))
        body = z3.String(ex.fresh_name('match'))
        pieces.append(body)
        if not end or nl:
            tail = z3.String(ex.fresh_name('post'))
            if nl:
                ps.fact(True, z3.Or(tail == z3.StringVal(''), tail == z3.StringVal('\n')))
            pieces.append(tail)
        ps.fact(True, st == (z3.Concat(*pieces) if len(pieces) > 1 else pieces[0]))
        ps.fact(True, z3.InRe(body, full))
    ps.take(tree, body, True)
    if ps.facts:
        ex.assume(z3.Implies(ok, z3.And(*ps.facts)))
    ps.groups[0] = T('str', body)
    data = tuple(ps.groups.get(i, Opaque('nogroup')) for i in range(n + 1))
    if d is True:
        return Opaque('match', data)
    return U([(ok, Opaque('match', data)), (z3.Not(ok), None)])


def ceil(ex, a, k):
    v = ex.split(a[0])
    if isinstance(v, (int, float)):
        return math.ceil(v)
    t = ex.term(v, 'real')
    return T('int', -z3.ToInt(-t))


def floor(ex, a, k):
    v = ex.split(a[0])
    if isinstance(v, (int, float)):
        return math.floor(v)
    return T('int', z3.ToInt(ex.term(v, 'real')))


def islice(ex, a, k):
    src = ex.bi.items_of(a[0])
    if len(a) == 2:
        lo, hi = 0, ex.split(a[1])
    else:
        lo, hi = ex.split(a[1]), ex.split(a[2])
        lo = 0 if lo is None else lo
    if len(a) > 3:
        raise Unsupported('islice step')
    if src[0] == 'list':
        if isinstance(lo, int) and (hi is None or isinstance(hi, int)) and all(g is True for g, _ in src[1]):
            return ex.bi.make_iter(ex.new_list([v for _, v in src[1]][lo:hi]))
        src = ('seq', ex.seq_of(ListCell(src[1])))
    s = src[1]
    n = z3.Length(s.t)
    lt = ex.term(lo, 'int')
    ht = n if hi is None else ex.term(hi, 'int')
    if ex.branch(z3.Or(lt < 0, ht < 0)):
        ex.raise_(ValueError)
    mn = lambda x: z3.If(x > n, n, x)
    cnt = z3.If(mn(ht) > mn(lt), mn(ht) - mn(lt), 0)
    return ex.bi.make_iter(ex.alloc(ListCell(None, Seq(z3.Extract(s.t, mn(lt), cnt), s.ek))))


def now(ex, a, k):
    n = ex.st.ghost.get('clock', 0)
    ex.st.ghost['clock'] = n + 1
    return T('real', z3.Real('now%d' % n))


def ordered_dict(ex, a, k):
    return ex.bi.f_dict(ex, a, k)


def dirname_s(ex, a):
    if ex.opaque:
        return None
    d = ex.bi.uf('os.path.dirname', [a[0]], 'str')
    p = ex.term(a[0], 'str')
    sl = z3.Star(z3.Re('/'))
    # the head up to the last slash, less trailing slashes unless it is nothing else
    ex.assume(z3.PrefixOf(d.t, p))
    ex.assume(z3.Or(z3.InRe(d.t, sl), z3.Not(z3.SuffixOf(z3.StringVal('/'), d.t))))
    return d


def stringio(ex, a, k):
    return Opaque('stringio', tuple(a))


MODELS = {
    'logging.getLogger': lambda ex, a, k: Opaque('logger'),
    'logging.info': lambda ex, a, k: None,
    'logging.warning': lambda ex, a, k: None,
    'os.path.join': pure('os.path.join', posixpath.join, 'str', path_join),
    'os.path.dirname': pure('os.path.dirname', posixpath.dirname, 'str', dirname_s),
    'os.path.basename': pure('os.path.basename', posixpath.basename, 'str'),
    'posixpath.basename': pure('os.path.basename', posixpath.basename, 'str'),
    'os.path.normpath': pure('os.path.normpath', posixpath.normpath, 'str'),
    'os.path.relpath': pure('os.path.relpath', lambda *a: posixpath.relpath(*a), 'str'),
    'os.path.commonprefix': pure('os.path.commonprefix', posixpath.commonprefix, 'str'),
    'os.path.splitext': pure('os.path.splitext', posixpath.splitext, 'str'),
    'urllib.parse.urlparse': urlparse,
    'urllib.parse.urlunparse': urlunparse,
    'urllib.parse.urljoin': pure('urljoin', urllib.parse.urljoin, 'str'),
    'attr:urlparsed': urlparsed_attr,
    're.match': re_match('match'),
    're.search': re_match('search'),
    're.fullmatch': re_match('fullmatch'),
    're.compile': re_compile,
    're.sub': re_sub,
    're.escape': re_escape,
    'attr:match': match_attr,
    'attr:re': re_attr,
    'math.ceil': ceil,
    'math.floor': floor,
    'itertools.islice': islice,
    'time.time': now,
    'collections.OrderedDict': ordered_dict,
    'io.StringIO': stringio,
}

CONSTANTS = {
    'logging.DEBUG': 10, 'logging.INFO': 20, 'logging.WARNING': 30,
    'os.sep': '/', 'os.path.sep': '/', 're.DOTALL': 16, 're.S': 16, 're.IGNORECASE': 2, 're.I': 2, 're.ASCII': 256, 're.A': 256,
    'zipfile.ZIP_STORED': 0, 'zipfile.ZIP_DEFLATED': 8,
}
