"""C29: no code modifies a table of the package, a class constant or a
default argument value."""
import ast
import os

from .source import Project

HERE = os.path.dirname(os.path.abspath(__file__))
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            '__setitem__', '__delitem__', '__iadd__'}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
           ast.SetComp)


def tables():
    with open(os.path.join(HERE, 'tables.txt')) as f:
        names = f.read().split()
    return {n for n in names if n.rpartition('.')[2].lstrip('_').isupper()}


class Scan:
    def __init__(self):
        self.project = Project()
        self.tables = tables()
        self.violations = {}
        self.sites = 0
        self.functions = 0
        self.constants = {}          # class name -> constants
        for m in self.project.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    for s in n.body:
                        for t in getattr(s, 'targets', ()):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and \
                                        x.id.lstrip('_').isupper():
                                    self.constants.setdefault(
                                        n.name, set()).add(x.id)

    def report(self, m, node, where, what):
        label = '%s: %s' % (m.rel, what)
        self.violations.setdefault(label, []).append(
            '%s:%d in %s' % (m.rel, node.lineno, where))

    # ---- what an expression is
    def table(self, m, e, local, alias):
        """Name of the table an expression denotes, or None."""
        if isinstance(e, ast.Name):
            if e.id in alias:
                return alias[e.id]
            if e.id in local:
                return None
            return self.global_name(m, e.id)
        if isinstance(e, ast.Attribute):
            mod = self.module(m, e.value, local)
            if mod:
                n = '%s.%s' % (mod, e.attr)
                return n if n in self.tables else None
        return None

    def global_name(self, m, name):
        n = '%s.%s' % (m.name, name)
        if n in self.tables:
            return n
        for b in m.bindings.get(name, ()):
            if isinstance(b, ast.ImportFrom):
                for a in b.names:
                    if (a.asname or a.name) == name:
                        n = '%s.%s' % (self.project.absolute(m, b), a.name)
                        if n in self.tables:
                            return n
        return None

    def module(self, m, e, local):
        if isinstance(e, ast.Name) and e.id not in local:
            for b in m.bindings.get(e.id, ()):
                if isinstance(b, ast.Import):
                    for a in b.names:
                        if a.asname == e.id:
                            return a.name
                        if not a.asname and a.name == e.id:
                            return a.name
                        if not a.asname and a.name.split('.')[0] == e.id:
                            return e.id
                if isinstance(b, ast.ImportFrom):
                    for a in b.names:
                        if (a.asname or a.name) == e.id:
                            n = '%s.%s' % (self.project.absolute(m, b),
                                           a.name)
                            if n in self.project.modules:
                                return n
        if isinstance(e, ast.Attribute):
            p = self.module(m, e.value, local)
            if p and '%s.%s' % (p, e.attr) in self.project.modules:
                return '%s.%s' % (p, e.attr)
        return None

    def constant(self, e):
        """Class.NAME for a class constant written through the class."""
        if not isinstance(e, ast.Attribute):
            return None
        v = e.value
        if isinstance(v, ast.Name) and e.attr in self.constants.get(v.id, ()):
            return '%s.%s' % (v.id, e.attr)
        through = isinstance(v, ast.Name) and v.id == 'cls' or \
            isinstance(v, ast.Attribute) and v.attr == '__class__' or \
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
            v.func.id == 'type'
        if through:
            for c, names in self.constants.items():
                if e.attr in names:
                    return '%s.%s' % (c, e.attr)
        return None

    # ---- functions
    def code(self, m, body, where, local, alias, top):
        """Look at the statements of one scope (not nested functions)."""
        todo = list(body)
        globals_ = set()
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.function(m, n, where, local)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.ClassDef):
                self.code(m, n.body, n.name, set(), {}, True)
                continue
            if isinstance(n, ast.Lambda):
                todo.append(n.body)
                continue
            if isinstance(n, ast.Global):
                for x in n.names:
                    t = self.global_name(m, x)
                    if t and x not in globals_:
                        globals_.add(x)
                        self.rebound(m, body, x, t, where)
            self.node(m, n, where, local, alias, top)
            todo.extend(ast.iter_child_nodes(n))

    def rebound(self, m, body, name, t, where):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == name and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.report(m, n, where, '%s is rebound' % t)

    def node(self, m, n, where, local, alias, top):
        def own(t):
            return top and t.rpartition('.')[0] == m.name

        def hit(e, what):
            self.sites += 1
            t = self.table(m, e, local, alias)
            if t and not own(t):
                self.report(m, e, where, '%s %s' % (t, what))
            elif not t and isinstance(e, ast.Attribute):
                c = self.constant(e)
                if c:
                    self.report(m, e, where, '%s %s' % (c, what))
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            hit(n.value, 'is modified')
        elif isinstance(n, ast.AugAssign) and isinstance(
                n.target, (ast.Name, ast.Attribute)):
            if not isinstance(n.target, ast.Name) or n.target.id in alias:
                hit(n.target, 'is modified')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in MUTATORS:
            hit(n.func.value, 'is modified')
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in getattr(n, 'targets', None) or [n.target]:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                          else [t]):
                    if isinstance(x, ast.Attribute):
                        hit(x, 'is rebound')

    def function(self, m, f, outer, outer_local):
        self.functions += 1
        where = f.name if outer in (None, '<module>') else \
            '%s.%s' % (outer, f.name)
        a = f.args
        args = a.posonlyargs + a.args
        names = [x.arg for x in args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        stores = {}
        globals_ = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                stores.setdefault(n.id, []).append(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                globals_ |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                stores.setdefault(n.name, []).append(n)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    stores.setdefault(x.asname or x.name.split('.')[0],
                                      []).append(n)
        local = (set(names) | set(stores)) - globals_ | set(outer_local)
        alias = {}
        pairs = list(zip(args[len(args) - len(a.defaults):], a.defaults))
        pairs += [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for x, d in pairs:
            if x.arg in stores:
                continue
            t = self.table(m, d, set(), {})
            if t:
                alias[x.arg] = t
            elif isinstance(d, MUTABLE) or isinstance(d, ast.Call) and \
                    isinstance(d.func, ast.Name) and d.func.id in (
                        'list', 'dict', 'set'):
                alias[x.arg] = 'default of %s in %s' % (x.arg, where)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and \
                    len(stores.get(n.targets[0].id, ())) == 1 and \
                    n.targets[0].id not in names:
                t = self.table(m, n.value, local, alias)
                if t:
                    alias[n.targets[0].id] = t
        self.code(m, f.body, where, local, alias, False)


def run():
    s = Scan()
    for m in s.project.modules.values():
        s.code(m, m.tree.body, '<module>', set(), {}, True)
    return {
        'violations': [{'label': k, 'constructs': v}
                       for k, v in sorted(s.violations.items())],
        'obligations': s.sites + s.functions,
        'rule': 'no store, deletion, in-place operation or mutating method '
                'call has as its target a table of the package '
                '(rules/tables.txt), a class constant, or a parameter whose '
                'default is mutable, directly or through a local alias',
        'analysed': {'modules': len(s.project.modules),
                     'functions': s.functions, 'mutation_sites': s.sites,
                     'tables': len(s.tables)},
        'sites': []}
