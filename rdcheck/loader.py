"""Parse the package under analysis and resolve names statically."""
import ast
import os

PKG = 'rdtools'


class Func:
    def __init__(self, mod, qual, node, cls=None, outer=None):
        self.mod, self.qual, self.node, self.cls, self.outer = mod, qual, node, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.body = node.body if isinstance(node.body, list) else [ast.Return(value=node.body, lineno=node.lineno, col_offset=0)]
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        nd = len(a.defaults)
        self.defaults = dict(zip(self.params[len(self.params) - nd:], a.defaults)) if nd else {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.decorators = getattr(node, 'decorator_list', [])
        self.doc = ast.get_docstring(node) if hasattr(node, 'name') else None
        self.has_nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node)
        self.globals = {g for n in ast.walk(node) if isinstance(n, ast.Global) for g in n.names}
        self.nonlocals = {g for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for g in n.names}
        self._locals = None

    @property
    def locals(self):
        if self._locals is None:
            s = set(self.params) | set(self.kwonly)
            if self.vararg:
                s.add(self.vararg)
            if self.kwarg:
                s.add(self.kwarg)

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, ast.Lambda):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        s.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        s.add(c.name)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            s.add((al.asname or al.name).split('.')[0])
                    walk(c)
            for b in self.body:
                h = ast.Module(body=[b], type_ignores=[])
                walk(h)
            self._locals = s - self.globals - self.nonlocals
        return self._locals

    def where(self):
        return '%s:%s' % (self.mod.rel, self.qual)


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = node.bases
        self.methods, self.props, self.setters, self.attrs = {}, {}, {}, {}
        self.static = set()
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = Func(mod, node.name + '.' + n.name, n, cls=self)
                dec = [ast.unparse(d) for d in n.decorator_list]
                if 'property' in dec:
                    self.props[n.name] = f
                elif any(d.endswith('.setter') for d in dec):
                    self.setters[n.name] = f
                else:
                    self.methods[n.name] = f
                    if 'staticmethod' in dec:
                        self.static.add(n.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.attrs[n.targets[0].id] = n.value

    def find(self, name, prog, table='methods'):
        c = self
        t = getattr(c, table)
        if name in t:
            return t[name]
        for b in c.bases:
            k = prog.resolve_class(c.mod, b)
            if k is not None:
                r = k.find(name, prog, table)
                if r is not None:
                    return r
        return None


class Mod:
    def __init__(self, prog, name, path, rel):
        self.prog, self.name, self.path, self.rel = prog, name, path, rel
        with open(path, encoding='utf-8') as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src)
        self.names = {}       # name -> ('func',Func)|('cls',Cls)|('ext',dotted)|('mod',name)|('expr',node)
        self.functions, self.classes = {}, {}
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, ast.FunctionDef):
            f = Func(self, n.name, n)
            self.functions[n.name] = f
            self.names[n.name] = ('func', f)
        elif isinstance(n, ast.ClassDef):
            c = Cls(self, n)
            self.classes[n.name] = c
            self.names[n.name] = ('cls', c)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for k, v in import_bindings(n, self.name):
                self.names[k] = v
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.names[t.id] = ('expr', n.value)
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        if isinstance(a, ast.Name):
                            self.names[a.id] = ('expr', b)
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            self.names[n.target.id] = ('expr', n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self._top(b)
            for b in getattr(n, 'orelse', []):
                self._top(b)


def import_bindings(n, modname=PKG):
    out = []
    if isinstance(n, ast.Import):
        for al in n.names:
            if al.asname:
                out.append((al.asname, _imp(al.name)))
            else:
                out.append((al.name.split('.')[0], _imp(al.name.split('.')[0])))
    else:
        base = n.module or ''
        if n.level:
            base = PKG + ('.' + base if base else '')
        for al in n.names:
            if al.name == '*':
                continue
            out.append((al.asname or al.name, _imp(base + '.' + al.name)))
    return out


def _imp(dotted):
    if dotted == PKG or dotted.startswith(PKG + '.'):
        return ('pkg', dotted)
    return ('ext', dotted)


class Program:
    def __init__(self, repo='/repo', overlay=None):
        self.repo = repo
        self.mods = {}
        root = os.path.join(repo, PKG)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ('test', 'tests', 'data', 'models', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py') or f == '_version.py':
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.mods[name] = Mod(self, name, p, rel)

    def resolve_pkg(self, dotted, depth=0):
        """dotted 'rdtools.x.y' -> ('mod',Mod)|('func',..)|('cls',..)|('expr',node,Mod)|None"""
        if dotted in self.mods:
            return ('mod', self.mods[dotted])
        if depth > 8 or '.' not in dotted:
            return None
        base, nm = dotted.rsplit('.', 1)
        b = self.resolve_pkg(base, depth + 1)
        if b and b[0] == 'mod':
            return self.lookup(b[1], nm, depth + 1)
        return None

    def lookup(self, mod, name, depth=0):
        e = mod.names.get(name)
        if e is None:
            if mod.name + '.' + name in self.mods:
                return ('mod', self.mods[mod.name + '.' + name])
            return None
        if e[0] == 'pkg':
            return self.resolve_pkg(e[1], depth + 1)
        if e[0] == 'expr':
            return ('expr', e[1], mod)
        return e

    def resolve_class(self, mod, node):
        import ast as _a
        if isinstance(node, _a.Name):
            e = self.lookup(mod, node.id)
            if e and e[0] == 'cls':
                return e[1]
        return None

    def func(self, modname, qual):
        m = self.mods.get(PKG + '.' + modname)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.')
            c = m.classes.get(c)
            if c is None:
                e = self.lookup(m, qual.split('.')[0])
                c = e[1] if e and e[0] == 'cls' else None
            return c.find(f, self) if c else None
        e = self.lookup(m, qual)
        return e[1] if e and e[0] == 'func' else None

    def cls(self, modname, name):
        m = self.mods.get(PKG + '.' + modname)
        e = self.lookup(m, name) if m else None
        return e[1] if e and e[0] == 'cls' else None

    def all_funcs(self):
        out = []
        for m in self.mods.values():
            out += list(m.functions.values())
            for c in m.classes.values():
                out += list(c.methods.values()) + list(c.props.values()) + list(c.setters.values())
        return out
