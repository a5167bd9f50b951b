"""C28: every name, attribute, import and call in the code resolves.

Conservative: a construct is reported only when it cannot resolve whatever
the inputs are; what is not known statically (an object of unknown class, a
call of an unknown function) is assumed to be right."""
import ast
import builtins
import io
import string

from .source import BUILTINS, Module, Project, bound_in, exprs

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
ALL = object()          # any name may be bound (unreachable code)


class Class:
    def __init__(self, project, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.bases = []         # Class, python class, or None (unknown)
        self.own = {}           # class-level name -> node
        self.inst = set()       # instance attributes
        self.dynamic = bool(node.keywords)
        self.subs = []
        for n, s in bound_in(node.body):
            self.own.setdefault(n, []).append(s)
        changed = [n.target for n in ast.walk(node)
                   if isinstance(n, ast.AugAssign)]
        for f in ast.walk(node):
            if isinstance(f, FUNC) and f.args.args:
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and x.value.id == me and \
                            isinstance(x.ctx, ast.Store) and \
                            x not in changed:
                        self.inst.add(x.attr)
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in ('setattr', 'vars'):
                self.dynamic = True
            if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                self.dynamic = True
        if '__getattr__' in self.own or '__getattribute__' in self.own:
            self.dynamic = True

    def method(self, name):
        """The function a name of the class stands for; None if it is not
        exactly one undecorated (or class/static) method."""
        d = self.own.get(name)
        if d and len(d) == 1 and isinstance(d[0], FUNC):
            return d[0]
        return None


def namedtuple_fields(call):
    if isinstance(call, ast.Call) and len(call.args) >= 2:
        f = call.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if 'namedtuple' in n:
            a = call.args[1]
            if isinstance(a, (ast.List, ast.Tuple)) and all(
                    isinstance(e, ast.Constant) for e in a.elts):
                return [e.value for e in a.elts]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                return a.value.replace(',', ' ').split()
    return None


class Scope:
    def __init__(self, node, kind, parent, module):
        self.node, self.kind, self.parent = node, kind, parent
        self.module = module
        self.names = set()
        self.other = set()      # global and nonlocal
        self.cls = parent.cls if parent else None


class Resolver:
    def __init__(self):
        self.p = Project()
        self.violations = {}
        self.obligations = 0
        self.counts = {}
        self.classes = {}
        self.functions = 0
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[m.name, n.name] = Class(self.p, m, n)
        for c in self.classes.values():
            for b in c.node.bases:
                t = self.static(c.module, b)
                if isinstance(t, ast.ClassDef):
                    t = self.class_of(t)
                if namedtuple_fields(b):
                    c.inst |= set(namedtuple_fields(b))
                    t = tuple
                    c.dynamic = c.dynamic or False
                    c.own.setdefault('_fields', [])
                    c.own.setdefault('_replace', [])
                    c.own.setdefault('_asdict', [])
                    c.own.setdefault('_make', [])
                    c.own.setdefault('__new__', [b])
                c.bases.append(t if isinstance(t, (Class, type)) else None)
                if isinstance(t, Class):
                    t.subs.append(c)
        self.known_attrs()

    # ---- project-wide attribute names
    def known_attrs(self):
        k = set()
        for t in (str, bytes, bytearray, int, float, complex, bool, list,
                  dict, set, frozenset, tuple, slice, range, object, type,
                  Exception, OSError, SystemExit, UnicodeDecodeError,
                  StopIteration, ImportError, SyntaxError, type(None),
                  type(lambda: 0), type(ast), io.TextIOWrapper, io.StringIO,
                  io.BytesIO, type(len), type((x for x in ())), property,
                  memoryview, KeyError, AttributeError, NameError):
            k |= set(dir(t))
        k |= {'name', 'mode', 'dest', '__wrapped__'}
        for m in self.p.modules.values():
            k |= set(m.bindings) | set(m.name.split('.'))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    k.add(n.attr)
                if isinstance(n, ast.ClassDef):
                    k |= {x for x, _ in bound_in(n.body)}
                f = namedtuple_fields(n)
                if f:
                    k |= set(f) | {'_fields', '_replace', '_asdict', '_make'}
                if isinstance(n, ast.Call):
                    # option destinations, setattr, types.SimpleNamespace,
                    # dataclass-like helpers: names given as constants
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(
                                a.value, str):
                            k.add(a.value.lstrip('-').replace('-', '_'))
                    for a in n.keywords:
                        if a.arg:
                            k.add(a.arg)
                        if isinstance(a.value, ast.Constant) and isinstance(
                                a.value.value, str):
                            k.add(a.value.value)
                    if isinstance(n.func, ast.Name) and n.func.id in (
                            'setattr', 'type', 'make_dataclass'):
                        if not (len(n.args) > 1 and isinstance(
                                n.args[1], ast.Constant)) and \
                                n.func.id != 'type':
                            self.any_attr = True
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    names = [a.name for a in n.names] if isinstance(
                        n, ast.Import) else [self.p.absolute(m, n)]
                    for x in names:
                        t = self.p.lookup(m, x) if x else None
                        if t is not None and not isinstance(t, Module) and \
                                t is not True:
                            for v in list(vars(t).values()):
                                k |= set(dir(v)) if isinstance(v, type) \
                                    else set()
                            k |= set(dir(t))
                        if t is True:
                            k |= {'extract', 'extractOne', 'ratio'}
        self.attrs = k

    any_attr = False

    def class_of(self, node):
        for c in self.classes.values():
            if c.node is node:
                return c
        return None

    # ---- reports
    def report(self, m, node, what, where=''):
        label = '%s: %s' % (m.rel, what)
        site = '%s:%d%s' % (m.rel, getattr(node, 'lineno', 0),
                            ' in ' + where if where else '')
        self.violations.setdefault(label, []).append(site)

    def count(self, kind):
        self.obligations += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1

    # ---- what an expression denotes, independent of inputs
    def binding(self, m, name):
        """What a module-level name always stands for."""
        b = m.bindings.get(name)
        if b is None:
            for n in m.stars:
                t = self.p.import_target(m, n)
                if isinstance(t, Module) and name in t.bindings:
                    return self.binding(t, name)
            return None
        if all(isinstance(x, ast.Import) and all(
                not a.asname for a in x.names
                if a.name.split('.')[0] == name) for x in b):
            return self.p.lookup(m, name)
        if len(b) != 1:
            return None
        b = b[0]
        if isinstance(b, FUNC + (ast.ClassDef,)):
            return b
        if isinstance(b, ast.Import):
            for a in b.names:
                if a.asname == name:
                    return self.p.lookup(m, a.name)
                if not a.asname and a.name.split('.')[0] == name:
                    return self.p.lookup(m, name)
        if isinstance(b, ast.ImportFrom):
            for a in b.names:
                if (a.asname or a.name) == name:
                    t = self.p.import_target(m, b)
                    base = self.p.absolute(m, b)
                    if isinstance(t, Module):
                        if a.name in t.bindings:
                            return self.binding(t, a.name)
                        sub = (base + '.' if base else '') + a.name
                        return self.p.modules.get(sub)
                    if t is not None and t is not True:
                        return getattr(t, a.name, None)
        return None

    def static(self, m, e):
        if isinstance(e, ast.Name):
            r = self.binding(m, e.id)
            if r is None and e.id not in m.bindings:
                v = getattr(builtins, e.id, None)
                return v if isinstance(v, type) else None
            return r
        if isinstance(e, ast.Attribute):
            t = self.static(m, e.value)
            if isinstance(t, Module):
                if e.attr in t.bindings:
                    return self.binding(t, e.attr)
                return self.p.modules.get(t.name + '.' + e.attr)
            if t is not None and hasattr(t, '__name__') and hasattr(
                    t, '__dict__') and type(t).__name__ == 'module':
                return getattr(t, e.attr, None)
        return None

    def module_of(self, node):
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if n is node:
                    return m
        return None

    # ---- analysis
    def run(self):
        for m in self.p.modules.values():
            self.m = m
            top = Scope(m.tree, 'module', None, m)
            top.names = m.exports(self.p)
            self.imported = set()
            self.imports(m)
            self.body(m.tree.body, top, '')
            Flow(self, m, m.tree.body, set(), None, '', top)
            self.options(m)
            self.formats(m)
        return self

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.count('import')
                    if self.p.lookup(m, a.name) is None and \
                            not self.guarded(m, n):
                        self.report(m, n, "module '%s' does not exist" %
                                    a.name)
            elif isinstance(n, ast.ImportFrom):
                base = self.p.absolute(m, n)
                t = self.p.lookup(m, base) if base else None
                if t is None:
                    self.count('import')
                    if base == '__future__' or self.guarded(m, n):
                        continue
                    self.report(m, n, "module '%s' does not exist" % base)
                    continue
                for a in n.names:
                    self.count('import')
                    if a.name == '*' or t is True:
                        continue
                    if isinstance(t, Module):
                        if a.name not in t.exports(self.p) and \
                                base + '.' + a.name not in self.p.modules \
                                and '__getattr__' not in t.bindings:
                            self.report(m, n, "'%s' is not defined in %s" % (
                                a.name, base))
                    elif not hasattr(t, a.name) and not self.guarded(m, n):
                        self.report(m, n, "'%s' is not defined in %s" % (
                            a.name, base))

    def guarded(self, m, node):
        """Inside a try that handles the failure of the import."""
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and any(
                    n is node for s in t.body for n in ast.walk(s)):
                return True
        return False

    def new_scope(self, node, kind, parent, names):
        s = Scope(node, kind, parent, parent.module)
        s.names = set(names)
        return s

    def resolve(self, scope, name):
        s, first = scope, True
        while s is not None:
            if (first or s.kind != 'class') and name in s.names and \
                    name not in s.other:
                return s
            first = False
            s = s.parent
        return None

    def body(self, stmts, scope, where):
        for s in stmts:
            self.stmt(s, scope, where)

    def stmt(self, s, scope, where):
        if isinstance(s, FUNC):
            for d in s.decorator_list:
                self.expr(d, scope, where)
            self.function(s, scope, where)
            return
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.expr(d, scope, where)
            for k in s.keywords:
                self.expr(k.value, scope, where)
            c = self.new_scope(s, 'class', scope,
                               [n for n, _ in bound_in(s.body)])
            c.names |= {'__module__', '__qualname__'}
            c.cls = self.class_of(s)
            self.members(s, where)
            self.body(s.body, c, (where + '.' if where else '') + s.name)
            return
        for e in exprs(s):
            self.expr(e, scope, where)
        if isinstance(s, ast.AugAssign) and isinstance(
                s.target, ast.Attribute):
            self.attribute(s.target, scope, where, read=True)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(s, f, None)
            if isinstance(v, list):
                self.body(v, scope, where)
        for h in getattr(s, 'handlers', ()):
            if h.type is not None:
                self.expr(h.type, scope, where)
            self.body(h.body, scope, where)
        for c in getattr(s, 'cases', ()):
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.expr):
                    self.expr(n, scope, where)
                    break
            if c.guard is not None:
                self.expr(c.guard, scope, where)
            self.body(c.body, scope, where)

    def members(self, s, where):
        """Methods that can never be called as what they are."""
        for f in s.body:
            if not isinstance(f, FUNC):
                continue
            decs = []
            for d in f.decorator_list:
                decs.append(d.id if isinstance(d, ast.Name) else
                            d.attr if isinstance(d, ast.Attribute) else None)
            a = f.args
            need = len(a.posonlyargs) + len(a.args) - len(a.defaults)
            room = len(a.posonlyargs) + len(a.args)
            if a.vararg:
                room = 10 ** 6
            kwneed = [x for x, d in zip(a.kwonlyargs, a.kw_defaults)
                      if d is None]
            self.count('method')
            n = None
            if decs == ['property'] or decs in (['getter'], ['deleter']):
                n = 1
            elif decs == ['setter']:
                n = 2
            elif not decs and f.name != '__new__':
                if room == 0:
                    self.report(self.m, f, 'method %s.%s takes no arguments, '
                                'not even the instance' % (s.name, f.name))
                continue
            if n is not None and (need > n or room < n or kwneed):
                self.report(self.m, f, 'property %s.%s (%s) takes %d '
                            'arguments' % (s.name, f.name,
                                           decs[0], need))

    def function(self, f, scope, where):
        self.functions += 1
        name = getattr(f, 'name', '<lambda>')
        here = (where + '.' if where else '') + name
        a = f.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.expr(d, scope, where)
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        params += [x.arg for x in (a.vararg, a.kwarg) if x]
        body = f.body if isinstance(f.body, list) else []
        names = set(params) | {n for n, _ in bound_in(body)}
        s = self.new_scope(f, 'function', scope, names)
        if scope.kind == 'class':
            s.names.add('__class__')
            s.me = params[0] if params else None
            decs = [getattr(d, 'id', None) for d in
                    getattr(f, 'decorator_list', ())]
            if 'staticmethod' in decs:
                s.me = None
            s.owner = scope.cls
        for x in walk_scope(body):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                s.other |= set(x.names)
        if isinstance(f, ast.Lambda):
            self.expr(f.body, s, here)
            return
        self.body(body, s, here)
        captured = {n.id for g in walk_scope(body, inner=True)
                    for n in ast.walk(g)
                    if isinstance(n, ast.Name)} if False else set()
        Flow(self, self.m, body, set(params), names - s.other - captured,
             here, s)

    def self_of(self, scope, name):
        """The class a name is an instance of, if it is the first parameter
        of the method this code is in."""
        s = self.resolve(scope, name)
        if s is not None and s.kind == 'function' and \
                getattr(s, 'me', None) == name and \
                getattr(s, 'owner', None) is not None:
            # not rebound
            for n in ast.walk(s.node):
                if isinstance(n, ast.Name) and n.id == name and isinstance(
                        n.ctx, ast.Store):
                    return None
            return s.owner
        return None

    def expr(self, e, scope, where):
        if isinstance(e, ast.Lambda):
            self.function(e, scope, where)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            c = self.new_scope(e, 'function', scope, [
                n.id for g in e.generators for n in ast.walk(g.target)
                if isinstance(n, ast.Name)])
            for g in e.generators:
                self.expr(g.iter, c, where)
                self.expr(g.target, c, where)
                for i in g.ifs:
                    self.expr(i, c, where)
            for f in ('elt', 'key', 'value'):
                v = getattr(e, f, None)
                if v is not None:
                    self.expr(v, c, where)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.count('name')
            if self.resolve(scope, e.id) is None and e.id not in BUILTINS:
                self.report(self.m, e, "name '%s' is not defined" % e.id,
                            where)
        if isinstance(e, ast.Attribute):
            self.attribute(e, scope, where)
        if isinstance(e, ast.Call):
            self.call(e, scope, where)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword, ast.Starred,
                              ast.comprehension, ast.withitem, ast.Slice)):
                self.expr(x, scope, where)
            elif isinstance(x, ast.AST) and not isinstance(
                    x, (ast.expr_context, ast.operator, ast.cmpop,
                        ast.boolop, ast.unaryop, ast.stmt, ast.arguments)):
                self.expr(x, scope, where)

    def denotes(self, scope, e):
        """Like static, respecting local names."""
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        s = self.resolve(scope, x.id)
        if s is not None and s.kind != 'module':
            return None
        return self.static(self.m, e)

    def attribute(self, e, scope, where, read=False):
        if isinstance(e.ctx, ast.Store) and not read:
            return
        self.count('attribute')
        t = self.denotes(scope, e.value)
        if isinstance(t, Module):
            if e.attr not in t.exports(self.p) and \
                    t.name + '.' + e.attr not in self.p.modules and \
                    '__getattr__' not in t.bindings:
                self.report(self.m, e, "'%s' is not defined in %s" % (
                    e.attr, t.name), where)
            return
        if type(t).__name__ == 'module':
            if not hasattr(t, e.attr):
                self.report(self.m, e, "'%s' is not defined in %s" % (
                    e.attr, t.__name__), where)
            return
        cls = None
        if isinstance(e.value, ast.Name):
            cls = self.self_of(scope, e.value.id)
        if isinstance(t, ast.ClassDef):
            cls = self.class_of(t)
            if cls is not None and not self.has_attr(cls, e.attr, type):
                self.report(self.m, e, "class %s has no attribute '%s'" % (
                    cls.name, e.attr), where)
            return
        if isinstance(t, type):
            if not hasattr(t, e.attr) and t.__module__ != 'optparse':
                self.report(self.m, e, "%s has no attribute '%s'" % (
                    t.__name__, e.attr), where)
            return
        if cls is not None:
            if not self.has_attr(cls, e.attr, object):
                self.report(self.m, e, "%s has no attribute '%s'" % (
                    cls.name, e.attr), where)
            return
        if e.attr not in self.attrs and not self.any_attr:
            self.report(self.m, e, "nothing has an attribute '%s'" % e.attr,
                        where)

    def has_attr(self, c, name, kind):
        """Whether a class, an ancestor or a descendant defines it."""
        if name in self.outside:
            return True
        if any(hasattr(k, name) for k in (object, kind)):
            return True
        if name.startswith('__') and not name.endswith('__'):
            pass                # private: names kept as written
        todo, seen = [c], []
        for up in (True, False):
            todo = [c]
            while todo:
                x = todo.pop()
                if x is None:
                    return True
                if isinstance(x, type):
                    if hasattr(x, name):
                        return True
                    continue
                if x.dynamic or name in x.own or name in x.inst or \
                        x.node.decorator_list:
                    return True
                todo.extend(x.bases if up else x.subs)
        return False

    @property
    def outside(self):
        """Attributes stored on objects other than self."""
        if not hasattr(self, '_outside'):
            out = set()
            for m in self.p.modules.values():
                selfs = set()
                for f in ast.walk(m.tree):
                    if isinstance(f, ast.ClassDef):
                        for g in f.body:
                            if isinstance(g, FUNC) and g.args.args:
                                for x in ast.walk(g):
                                    if isinstance(x, ast.Attribute) and \
                                            isinstance(x.value, ast.Name) \
                                            and x.value.id == \
                                            g.args.args[0].arg:
                                        selfs.add(id(x))
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, ast.Store) and id(x) not in selfs:
                        out.add(x.attr)
            self._outside = out
        return self._outside

    # ---- calls
    def call(self, e, scope, where):
        f = e.func
        t, bound = None, 0
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and not f.value.args:
                s = scope
                while s is not None and not getattr(s, 'owner', None):
                    s = s.parent
                if s is not None:
                    t, bound = self.inherited(s.owner, f.attr, skip=True), 1
            elif isinstance(f.value, ast.Name) and self.self_of(
                    scope, f.value.id) is not None:
                c = self.self_of(scope, f.value.id)
                if f.attr not in c.inst:
                    t, bound = self.inherited(c, f.attr), 1
                    if t is None:
                        return
            else:
                t = self.denotes(scope, f)
        elif isinstance(f, ast.Name):
            t = self.denotes(scope, f)
        if isinstance(t, ast.ClassDef):
            c = self.class_of(t)
            if c is None or c.dynamic and '__new__' in c.own:
                return
            if t.decorator_list or t.keywords or \
                    self.inherited(c, '__new__') is not None or \
                    '__new__' in c.own or self.builtin_base(c):
                return
            i = self.inherited(c, '__init__')
            if i is None:
                if self.unknown_base(c):
                    return
                self.count('call')
                if e.args or e.keywords:
                    self.report(self.m, e, 'class %s takes no arguments' %
                                c.name, where)
                return
            self.check_call(e, i, 1, c.name, where)
            return
        if isinstance(t, FUNC):
            if bound and any(getattr(d, 'id', None) == 'staticmethod'
                             for d in t.decorator_list):
                bound = 0
            name = t.name
            if name == '__init__':
                name = [c.name for c in self.classes.values()
                        if any(x is t for x in c.node.body)][0] + '.__init__'
            self.check_call(e, t, bound, name, where)

    def unknown_base(self, c):
        return any(b is None or isinstance(b, type) and b is not object or
                   isinstance(b, Class) and self.unknown_base(b)
                   for b in c.bases)

    builtin_base = unknown_base

    def inherited(self, c, name, skip=False):
        """The method a name of the class stands for, by the base classes."""
        seen = []

        def mro(x):
            if isinstance(x, Class) and x not in seen:
                seen.append(x)
                for b in x.bases:
                    mro(b)
            elif not isinstance(x, Class):
                seen.append(x)
        mro(c)
        for x in seen[1:] if skip else seen:
            if not isinstance(x, Class):
                if x is object:
                    continue
                return None
            if name in x.own:
                return x.method(name)
        return None

    def check_call(self, e, f, bound, name, where):
        decs = [getattr(d, 'id', getattr(d, 'attr', None))
                for d in f.decorator_list]
        if any(d not in ('staticmethod', 'classmethod') for d in decs):
            return
        if any(isinstance(a, ast.Starred) for a in e.args) or any(
                k.arg is None for k in e.keywords):
            return
        self.count('call')
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        required = pos[:len(pos) - nd]
        if bound:
            if not pos:
                if a.vararg is None:
                    self.report(self.m, e, '%s() takes no arguments, not '
                                'even the instance' % name, where)
                    return
            pos, required = pos[1:], required[1:]
        given = set(pos[:len(e.args)])
        if len(e.args) > len(pos) and a.vararg is None:
            self.report(self.m, e, '%s() takes %d positional arguments, %d '
                        'given' % (name, len(pos), len(e.args)), where)
            return
        kwonly = [x.arg for x in a.kwonlyargs]
        only = {x.arg for x in a.posonlyargs}
        for k in e.keywords:
            if k.arg in given:
                self.report(self.m, e, "%s() gets argument '%s' twice" % (
                    name, k.arg), where)
            elif (k.arg in pos and k.arg not in only) or k.arg in kwonly or \
                    a.kwarg is not None:
                given.add(k.arg)
            else:
                self.report(self.m, e, "%s() has no parameter '%s'" % (
                    name, k.arg), where)
        for r in required + [x.arg for x, d in zip(
                a.kwonlyargs, a.kw_defaults) if d is None]:
            if r not in given:
                self.report(self.m, e, "%s() is called without '%s'" % (
                    name, r), where)

    # ---- option values
    def options(self, m):
        """opts.x for the result of parse_args needs an option x."""
        dests, open_ = set(), False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        'add_option', 'add_argument', 'set_defaults'):
                if n.func.attr == 'set_defaults':
                    dests |= {k.arg for k in n.keywords}
                    continue
                kw = {k.arg: k.value for k in n.keywords}
                if None in kw or any(isinstance(a, ast.Starred)
                                     for a in n.args):
                    open_ = True
                if 'dest' in kw:
                    if isinstance(kw['dest'], ast.Constant):
                        dests.add(kw['dest'].value)
                    else:
                        open_ = True
                    continue
                flags = [a.value for a in n.args
                         if isinstance(a, ast.Constant)]
                if len(flags) != len(n.args) or not flags:
                    open_ = True
                    continue
                longs = [x for x in flags if x.startswith('--')] or flags
                dests.add(longs[0].lstrip('-').replace('-', '_'))
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        'add_argument_group', 'add_option_group',
                        'add_subparsers', 'add_mutually_exclusive_group',
                        'add_options'):
                open_ = open_ or n.func.attr == 'add_options'
        if open_:
            return
        for f in ast.walk(m.tree):
            if not isinstance(f, FUNC):
                continue
            names = {}
            for n in walk_scope(f.body):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.value, ast.Call) and isinstance(
                            n.value.func, ast.Attribute) and \
                        n.value.func.attr == 'parse_args':
                    t = n.targets[0]
                    if isinstance(t, ast.Tuple) and t.elts:
                        t = t.elts[0]
                    if isinstance(t, ast.Name):
                        names[t.id] = n
            for n in walk_scope(f.body):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Store) and n.id in names and not any(
                            x is n for x in ast.walk(names[n.id])):
                    names.pop(n.id)
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id in names and \
                        isinstance(n.ctx, ast.Load):
                    self.count('option')
                    if n.attr not in dests and not n.attr.startswith('_') \
                            and n.attr not in ('ensure_value', 'read_file'):
                        self.report(m, n, "there is no option '%s'" % n.attr,
                                    f.name)

    # ---- format strings
    def formats(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and isinstance(
                        n.left.value, str):
                self.percent(m, n)
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'format' and \
                    isinstance(n.func.value, ast.Constant) and isinstance(
                        n.func.value.value, str):
                self.braces(m, n)

    def percent(self, m, n):
        need, named = percent_fields(n.left.value)
        if need is None:
            self.count('format')
            self.report(m, n, 'bad format %r' % n.left.value[:60])
            return
        r = n.right
        if named:
            if isinstance(r, ast.Dict) and all(isinstance(
                    k, ast.Constant) for k in r.keys):
                self.count('format')
                for x in named:
                    if x not in [k.value for k in r.keys]:
                        self.report(m, n, "format %r needs '%s'" % (
                            n.left.value[:60], x))
            return
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            self.count('format')
            if len(r.elts) != need:
                self.report(m, n, 'format %r needs %d values, %d given' % (
                    n.left.value[:60], need, len(r.elts)))
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.ListComp,
                            ast.List)):
            self.count('format')
            if need != 1:
                self.report(m, n, 'format %r needs %d values, 1 given' % (
                    n.left.value[:60], need))

    def braces(self, m, n):
        self.count('format')
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        auto, used = 0, []

        def fields(text):
            nonlocal auto
            for _, name, spec, _ in string.Formatter().parse(text):
                if name is None:
                    continue
                base = name.split('.')[0].split('[')[0]
                if base == '':
                    used.append(auto)
                    auto += 1
                elif base.isdigit():
                    used.append(int(base))
                else:
                    used.append(base)
                if spec:
                    fields(spec)
        text = n.func.value.value
        try:
            fields(text)
        except ValueError:
            self.report(m, n, 'bad format %r' % text[:60])
            return
        kws = [k.arg for k in n.keywords]
        for u in used:
            if isinstance(u, int) and u >= len(n.args) or \
                    isinstance(u, str) and u not in kws:
                self.report(m, n, 'format %r needs %r' % (text[:60], u))


def percent_fields(text):
    """(number of values, names); (None, ()) for a malformed text."""
    i, n, names = 0, 0, []
    while i < len(text):
        if text[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(text) and text[i] == '%':
            i += 1
            continue
        if i < len(text) and text[i] == '(':
            j = text.find(')', i)
            if j < 0:
                return None, ()
            names.append(text[i + 1:j])
            i = j + 1
        while i < len(text) and text[i] in '#0- +':
            i += 1
        for part in range(2):
            if i < len(text) and text[i] == '*':
                n += 1
                i += 1
            else:
                while i < len(text) and text[i].isdigit():
                    i += 1
            if part == 0:
                if i < len(text) and text[i] == '.':
                    i += 1
                else:
                    break
        while i < len(text) and text[i] in 'hlL':
            i += 1
        if i >= len(text) or text[i] not in 'diouxXeEfFgGcrsa%':
            return None, ()
        if text[i] != '%':
            n += 1
        i += 1
    return n, names


def walk_scope(body, inner=False):
    """Nodes of this scope, not of functions and classes inside."""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, FUNC + (ast.ClassDef, ast.Lambda)):
            if inner:
                yield n
            continue
        if not inner:
            yield n
        todo.extend(ast.iter_child_nodes(n))


class Flow:
    """A local name is read where no assignment to it can have happened."""

    def __init__(self, r, m, body, start, names, where, scope):
        self.r, self.m, self.names, self.where = r, m, names, where
        self.scope = scope
        self.breaks = []
        for n in walk_scope(body):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id in ('exec', 'globals',
                                                        'locals', 'vars'):
                return
        if names is None:
            if m.stars:
                return
            names = {n for n, b in m.bindings.items()
                     if not any(isinstance(x, ast.Global) for x in b)}
            self.names = names
        self.seq(body, set(start))

    def use(self, node, st):
        """Names read by an expression (not in nested scopes)."""
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, ast.Lambda):
                    todo.extend(n.args.defaults)
                else:
                    todo.append(n.generators[0].iter)
                    for x in ast.walk(n):
                        if isinstance(x, ast.NamedExpr) and st is not ALL:
                            st.add(x.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if st is not ALL and n.id in self.names and \
                        n.id not in st and not (
                            self.scope.kind == 'module' and
                            n.id in BUILTINS):
                    self.r.report(self.m, n, "'%s' is read before it is "
                                  "assigned" % n.id, self.where)
            if isinstance(n, ast.NamedExpr) and st is not ALL:
                st.add(n.target.id)
            todo.extend(ast.iter_child_nodes(n))

    def bind(self, node, st):
        if st is ALL:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)

    def join(self, *sts):
        live = [s for s in sts if s is not ALL]
        if not live:
            return ALL
        return set().union(*live)

    def assigned(self, body):
        out = {n for n, _ in bound_in(body)}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
        return out

    def copy(self, st):
        return ALL if st is ALL else set(st)

    def seq(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, FUNC):
            for d in s.decorator_list + s.args.defaults:
                self.use(d, st)
            if st is not ALL:
                st.add(s.name)
            return st
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.use(d, st)
            if st is not ALL:
                st.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            if st is not ALL:
                for a in s.names:
                    st.add((a.asname or a.name).split('.')[0])
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
                self.bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            self.use(s.target, st)
            if isinstance(s.target, ast.Name) and st is not ALL and \
                    s.target.id in self.names and s.target.id not in st:
                self.r.report(self.m, s, "'%s' is read before it is "
                              "assigned" % s.target.id, self.where)
            self.bind(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                self.bind(s.target, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, st)
                if isinstance(t, ast.Name) and st is not ALL:
                    st.discard(t.id)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in exprs(s):
                self.use(e, st)
            return ALL
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.breaks:
                self.breaks[-1].append(self.copy(st))
            return ALL
        if isinstance(s, ast.If):
            self.use(s.test, st)
            a = self.seq(s.body, self.copy(st))
            b = self.seq(s.orelse, self.copy(st))
            return self.join(a, b)
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            if isinstance(s, ast.While):
                self.use(s.test, st)
            else:
                self.use(s.iter, st)
            inside = self.copy(st)
            if inside is not ALL:
                inside |= self.assigned(s.body)
                if not isinstance(s, ast.While):
                    self.bind(s.target, inside)
            self.breaks.append([])
            out = self.seq(s.body, self.copy(inside))
            b = self.breaks.pop()
            after = self.join(self.copy(st), out, *b)
            if after is not ALL:
                after |= self.assigned(s.body)
                if not isinstance(s, ast.While):
                    self.bind(s.target, after)
            e = self.seq(s.orelse, self.copy(after))
            return self.join(e, after if s.orelse else e)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            before = self.copy(st)
            out = self.seq(s.body, st)
            if before is not ALL:
                before |= self.assigned(s.body)
            # a context manager may swallow an exception
            return before if out is ALL else out
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            before = self.copy(st)
            out = self.seq(s.body, self.copy(st))
            out = self.seq(s.orelse, out)
            mid = self.copy(before)
            if mid is not ALL:
                mid |= self.assigned(s.body)
            outs = [out]
            for h in s.handlers:
                x = self.copy(mid)
                if h.type is not None:
                    self.use(h.type, x)
                if h.name and x is not ALL:
                    x.add(h.name)
                x = self.seq(h.body, x)
                if h.name and x is not ALL:
                    x.discard(h.name)
                outs.append(x)
            r = self.join(*outs)
            if s.finalbody:
                fin = self.copy(before)
                if fin is not ALL:
                    fin |= self.assigned(s.body)
                    fin |= self.assigned(s.orelse)
                    for h in s.handlers:
                        fin |= self.assigned(h.body)
                f = self.seq(s.finalbody, fin)
                if f is ALL:
                    return ALL
                if r is not ALL:
                    r |= self.assigned(s.finalbody)
            return r
        if type(s).__name__ == 'Match':
            self.use(s.subject, st)
            outs = [self.copy(st)]
            for c in s.cases:
                x = self.copy(st)
                if x is not ALL:
                    for n in ast.walk(c.pattern):
                        for k in ('name', 'rest'):
                            if getattr(n, k, None):
                                x.add(getattr(n, k))
                if c.guard is not None:
                    self.use(c.guard, x)
                outs.append(self.seq(c.body, x))
            return self.join(*outs)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        for e in exprs(s):
            self.use(e, st)
        return st


def run():
    r = Resolver().run()
    return {
        'violations': [{'label': k, 'constructs': v}
                       for k, v in sorted(r.violations.items())],
        'obligations': r.obligations,
        'rule': 'each name, attribute, import, call of a project function, '
                'option value and format must have a definition that accepts '
                'it; a local name must be assigned on some path before it is '
                'read',
        'analysed': {'modules': len(r.p.modules),
                     'classes': len(r.classes),
                     'functions': r.functions,
                     'sites': dict(sorted(r.counts.items()))},
        'sites': []}
