"""The syntax trees of the package and tools, with their bindings."""
import ast
import builtins
import glob
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILTINS = set(dir(builtins)) | {
    '__file__', '__name__', '__doc__', '__package__', '__spec__',
    '__loader__', '__builtins__', '__path__', '__annotations__',
    '__cached__', 'WindowsError'}


class Module:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.rel = os.path.relpath(path, REPO)
        with open(path, 'rb') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.package = name.rpartition('.')[0]
        if path.endswith('__init__.py'):
            self.package = name
        self.bindings = {}          # name -> list of binding nodes
        self.stars = []
        self.collect(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.bindings.setdefault(x, []).append(n)

    def bind(self, name, node):
        self.bindings.setdefault(name, []).append(node)

    def collect(self, body):
        for name, node in bound_in(body):
            if name == '*':
                self.stars.append(node)
            else:
                self.bind(name, node)

    def exports(self, project, seen=()):
        out = set(self.bindings) | {'__name__', '__file__', '__doc__',
                                    '__path__', '__dict__'}
        for n in self.stars:
            m = project.import_target(self, n)
            if isinstance(m, Module) and m.name not in seen:
                out |= m.exports(project, seen + (self.name,))
            elif m is not None and not isinstance(m, Module):
                out |= set(getattr(m, '__all__', dir(m)))
        return out


def targets(t):
    """Names bound by an assignment target."""
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            yield n.id


def expr_binds(e):
    """Names bound by := in an expression."""
    for n in ast.walk(e):
        if isinstance(n, ast.NamedExpr):
            yield n.target.id, n


def bound_in(body):
    """(name, node) for the bindings made by statements in this scope."""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            yield s.name, s
            continue
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name == '*':
                    yield '*', s
                elif a.asname:
                    yield a.asname, s
                else:
                    yield (a.name.split('.')[0]
                           if isinstance(s, ast.Import) else a.name), s
            continue
        for f, v in ast.iter_fields(s):
            if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    for n in ast.walk(x):
                        if isinstance(n, ast.Name) and isinstance(
                                n.ctx, ast.Store):
                            yield n.id, s
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(s, f, None)
            if isinstance(v, list):
                yield from bound_in(v)
        for h in getattr(s, 'handlers', ()):
            if h.name:
                yield h.name, h
            yield from bound_in(h.body)
        for c in getattr(s, 'cases', ()):
            for n in ast.walk(c.pattern):
                for k in ('name', 'rest'):
                    if getattr(n, k, None):
                        yield getattr(n, k), c
            yield from bound_in(c.body)


class Project:
    def __init__(self):
        self.modules = {}
        for p in sorted(glob.glob(os.path.join(REPO, 'h800', '**', '*.py'),
                                  recursive=True)):
            if p.endswith('_test.py') or os.path.basename(p).startswith(
                    'test_') or os.path.basename(p) == 'conftest.py':
                continue
            n = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
            if n.endswith('.__init__'):
                n = n[:-9]
            self.add(p, n)
        for p in sorted(glob.glob(os.path.join(REPO, 'tools', '*.py'))):
            self.add(p, os.path.basename(p)[:-3])
        self.declared = set()
        try:
            with open(os.path.join(REPO, 'requirements.txt')) as f:
                for line in f:
                    d = line.split('==')[0].split('>')[0].strip().lower()
                    if d:
                        self.declared.add(d.replace('-', '_'))
        except OSError:
            pass

    def add(self, path, name):
        self.modules[name] = Module(path, name)

    def external(self, name):
        """A library module, None if unknown, True if declared."""
        top = name.split('.')[0]
        if top in sys.stdlib_module_names:
            if top in ('antigravity', 'this', 'idlelib', 'turtle',
                       'tkinter'):
                return True
            try:
                __import__(name)
                return sys.modules[name]
            except ImportError:
                return None
        if top.lower() in self.declared or top in ('setuptools', 'pytest'):
            return True
        return None

    def lookup(self, m, name):
        """A module by absolute name as seen from m: Module, library module,
        True (declared, unknown contents) or None."""
        if name in self.modules:
            return self.modules[name]
        if not m.name.startswith('h800'):
            # tools find the modules beside them
            pass
        return self.external(name)

    def absolute(self, m, node):
        if not node.level:
            return node.module
        parts = m.package.split('.') if m.package else []
        if node.level > 1:
            parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def import_target(self, m, node):
        return self.lookup(m, self.absolute(m, node))


def exprs(s):
    """Expression children of a statement, not of nested statements."""
    for f, v in ast.iter_fields(s):
        if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
            if not isinstance(s, (ast.Lambda, ast.IfExp)):
                continue
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, ast.AST):
                yield x
