"""Reads the real source of the package under verification (every run)."""
import ast
import hashlib
import os

from .values import *

BUILTIN_BASES = {'object': object, 'dict': dict, 'OrderedDict': dict, 'list': list, 'set': set,
                 'Exception': Exception, 'ValueError': ValueError, 'IOError': OSError}


class FuncInfo:
    def __init__(self, name, node, module, cls=None, kind='func'):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.globals = {x for n in walk_own(node) if isinstance(n, ast.Global) for x in n.names}

    @property
    def key(self):
        return self.module.name + '.' + ((self.cls.name + '.') if self.cls else '') + self.name

    def __repr__(self):
        return '<func %s>' % self.key


def walk_own(fn):
    """Nodes of a function, not those of functions nested in it."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []        # ClassInfo or Python class
        self.methods = {}
        self.props = {}        # name -> [getter, setter]
        self.assigns = {}
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            # depth first, later duplicates win: enough for the hierarchies here
            for b in self.bases:
                for c in (b.mro() if isinstance(b, ClassInfo) else [b]):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """('method'|'prop'|'attr'|'builtin', thing, owner) or None."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return ('prop', c.props[name], c)
                if name in c.methods:
                    return ('method', c.methods[name], c)
                if name in c.assigns:
                    return ('attr', c.assigns[name], c)
            elif c is not object and hasattr(c, name):
                return ('builtin', c, c)
        return None

    def builtin_base(self):
        for c in self.mro():
            if not isinstance(c, ClassInfo) and c is not object:
                return c
        return None

    def is_exc(self):
        b = self.builtin_base()
        return b is not None and issubclass(b, BaseException)

    def slots(self):
        """Names of __slots__ or None when instances have a __dict__."""
        out = []
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if '__slots__' not in c.assigns:
                    return None
                out += [ast.literal_eval(e) for e in c.assigns['__slots__'].elts]
            elif c is not object:
                return None
        return out

    def subclass_of(self, other):
        return other in self.mro() or (isinstance(other, type) and any(
            isinstance(c, type) and issubclass(c, other) for c in self.mro()))

    def __repr__(self):
        return '<class %s>' % self.name


class Module:
    def __init__(self, name, path, src=None):
        self.name, self.path, self.src = name, path, src
        if src is None:
            with open(path) as f:
                self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}


class Project:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.modules = {}
        d = os.path.join(root, package)
        h = hashlib.sha256()
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                name = fn[:-3]
                m = Module(name, os.path.join(d, fn))
                h.update(m.src.encode())
                self.modules[name] = m
        self.digest = h.hexdigest()[:16]
        for m in self.modules.values():
            self.scan(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                self.bases(m, c)

    def stub(self, name, src):
        """A trusted contract of a library class, written as code that is executed in its place."""
        if name not in self.modules:
            m = self.modules[name] = Module(name, '<trusted contract %s>' % name, src)
            m.stub = True
            self.scan(m, m.tree.body)
            for c in m.classes.values():
                self.bases(m, c)
        return self.modules[name]

    def scan(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                m.funcs[n.name] = FuncInfo(n.name, n, m)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self.scan_class(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = ('ext', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.imports[a.asname or a.name] = self.imp(n, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m.assigns[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.assigns[n.target.id] = n.value
            elif isinstance(n, ast.Try):
                self.scan(m, n.body)
            elif isinstance(n, ast.If):
                self.scan(m, n.body)

    def imp(self, n, name):
        mod = n.module or ''
        if n.level == 1 or mod.split('.')[0] == self.package:
            sub = mod if n.level else mod[len(self.package):].lstrip('.')
            if sub == '':
                return ('repomod', name) if name in self.modules else ('repo', '__init__', name)
            return ('repo', sub, name)
        return ('ext', mod + '.' + name)

    def scan_class(self, m, n):
        c = ClassInfo(n.name, m, n)
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                decs = [ast.unparse(d) for d in b.decorator_list]
                if 'property' in decs:
                    c.props.setdefault(b.name, [None, None])[0] = FuncInfo(b.name, b, m, c, 'prop')
                elif any(d.endswith('.setter') for d in decs):
                    c.props.setdefault(b.name, [None, None])[1] = FuncInfo(b.name, b, m, c, 'setter')
                else:
                    kind = 'static' if 'staticmethod' in decs else 'class' if 'classmethod' in decs else 'func'
                    c.methods[b.name] = FuncInfo(b.name, b, m, c, kind)
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                c.assigns[b.targets[0].id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                c.assigns[b.target.id] = b.value
        return c

    def bases(self, m, c):
        for b in c.node.bases:
            name = ast.unparse(b)
            v = self.find_class(m, name)
            if v is None:
                if name in BUILTIN_BASES:
                    v = BUILTIN_BASES[name]
                else:
                    v = object
                    c.unknown_base = name
            c.bases.append(v)

    def find_class(self, m, name):
        if name in m.classes:
            return m.classes[name]
        i = m.imports.get(name)
        if i and i[0] == 'repo':
            return self.find_class(self.modules[i[1]], i[2]) if i[1] in self.modules else None
        return None

    def func(self, key):
        """'module.func' or 'module.Class.method' (inherited methods found too)."""
        p = key.split('.')
        m = self.modules.get(p[0])
        if m is None:
            raise Unsupported('no module %s' % p[0])
        if len(p) == 2:
            if p[1] in m.funcs:
                return m.funcs[p[1]]
        else:
            c = self.find_class(m, p[1])
            if c:
                name, kind = (p[2].split('@') + [None])[:2]
                f = c.find(name)
                if f and f[0] == 'method':
                    return f[1]
                if f and f[0] == 'prop':
                    r = f[1][1 if kind == 'setter' else 0]
                    if r:
                        return r
        raise Unsupported('no function %s' % key)

    def cls(self, key):
        mod, name = key.split('.')
        m = self.modules.get(mod)
        c = self.find_class(m, name) if m else None
        if c is None:
            raise Unsupported('no class %s' % key)
        return c
