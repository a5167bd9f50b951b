"""Abstract interpreter for the Python subset used in (and around) h800.

Statements are analysed once, under a guard (`pc`, a decision diagram);
diverging values are joined into guarded unions; loops over guarded sequences
are unrolled per element.  Nothing of the analysed code is executed by the
host interpreter."""
import ast
import itertools
import builtins as _bi
import os
import re
import string as _string
import sys
import time

from . import bdd, values as V, terms as T
from .bdd import TRUE, FALSE, and_, or_, neg
from .values import (Term, BV, SB, Un, UNDEF, Unsupported, mk, atom, sb, is_int,
                     is_intlike, v_ite, v_union, same)


class Dead(Exception):
    """The current guard is unsatisfiable."""


class AnchorMissing(Exception):
    """Something the analysis is anchored to is not in the tree."""


# ------------------------------------------------------------ heap objects

class H:
    __slots__ = ('birth', 'uid')


_uid = [0]


class HObj(H):
    __slots__ = ('cls', 'attrs', 'lastw')

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.uid)


class HList(H):
    __slots__ = ('ents', 'version', 'kind')

    def __repr__(self):
        return 'HList%s' % ([v for _, v in self.ents[:6]],)


_SEQ = itertools.count(1)


class Ent:
    """An entry of a dictionary.  segs: when the key was inserted at several
    points under different guards, the guards with their points."""
    __slots__ = ('g', 'k', 'v', 'seq', 'segs')

    def __init__(self, g, k, v):
        self.g, self.k, self.v = g, k, v
        self.seq = next(_SEQ)
        self.segs = None

    def widen(self, n, d):
        """Present under n as well, from now on."""
        new = and_(n, neg(self.g))
        if new == FALSE:
            return
        d.version += 1
        if self is not d.ents[-1] or self.segs:
            if self.g == FALSE:
                self.seq, self.segs = next(_SEQ), None
                d.ents.remove(self)
                d.ents.append(self)
            else:
                old = self.segs or [(self.g, self.seq)]
                self.segs = [(and_(h, self.g), q) for h, q in old] + \
                    [(new, next(_SEQ))]
        self.g = or_(self.g, n)


def in_order(d):
    """(guard, entry) in the order of iteration."""
    if all(e.segs is None for e in d.ents) or d.kind in ('set', 'frozenset'):
        return [(e.g, e) for e in d.ents]
    out = []
    for e in d.ents:
        for h, q in e.segs or [(e.g, e.seq)]:
            h = and_(h, e.g)
            if h != FALSE:
                out.append((q, h, e))
    out.sort(key=lambda x: x[0])
    return [(h, e) for _, h, e in out]


class HDict(H):
    __slots__ = ('ents', 'index', 'syms', 'version', 'kind', 'factory',
                 'snap')

    def __repr__(self):
        return 'HDict{%s}' % ', '.join('%r' % (e.k,) for e in self.ents[:6])


class SliceV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class RangeV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'globals_', 'nonlocals', 'module',
                 'is_class')

    def __init__(self, module, parent=None, locals_=None, is_class=False):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.globals_ = ()
        self.nonlocals = ()
        self.module = module
        self.is_class = is_class


class ModV:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.env = Env(self)

    def __repr__(self):
        return '<module %s>' % self.name


class FuncV:
    __slots__ = ('name', 'node', 'env', 'defaults', 'kwdefaults', 'module',
                 'owner', 'qualname', 'is_gen', 'localnames', 'attrs',
                 'native_defaults')

    def __repr__(self):
        return '<function %s>' % self.qualname


class ClassV:
    def __init__(self, name, bases, module):
        self.name = name
        self.bases = bases
        self.module = module
        self.attrs = {}
        self.node = None
        self.qualname = name
        self.mro = self._mro()
        self.fields = None          # namedtuple fields
        self.is_enum = False
        self.annotations = []
        self.dcfields = None
        self.dcfields_raw = {}

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassV):
                if name in c.attrs:
                    return c.attrs[name], c
        return None, None

    def native(self):
        for c in self.mro:
            if isinstance(c, NativeClass) and c.py is not object:
                return c
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class NativeClass:
    """A built-in class (exceptions, int, str, ...)."""
    def __init__(self, py):
        self.py = py
        self.name = py.__name__
        self.mro = [self]
        self.bases = ()
        self.attrs = {}

    def lookup(self, name):
        return None, None

    def __repr__(self):
        return '<builtin class %s>' % self.name


class BoundV:
    __slots__ = ('self_', 'func')

    def __init__(self, s, f):
        self.self_, self.func = s, f


class MethodV:
    """Method of a built-in value."""
    __slots__ = ('obj', 'name')

    def __init__(self, o, n):
        self.obj, self.name = o, n


class BuiltinV:
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class PropV:
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, a, b=None, c=None):
        self.fget, self.fset, self.fdel = a, b, c


class StaticV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassMV(StaticV):
    __slots__ = ()


class SuperV:
    __slots__ = ('cls', 'obj')

    def __init__(self, c, o):
        self.cls, self.obj = c, o


class PartialV:
    __slots__ = ('f', 'args', 'kw')

    def __init__(self, f, a, k):
        self.f, self.args, self.kw = f, a, k


class Lazy:
    """Lazy iterable: kind in enumerate, map, filter, genexp, genfunc, items,
    keys, values, zip, reversed, chain."""
    __slots__ = ('kind', 'a', 'used', 'partial')

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        self.used, self.partial = FALSE, False


class HIter(H):
    """An explicit iterator over a snapshot or live list."""
    __slots__ = ('src', 'pos')


class HFile(H):
    __slots__ = ('name', 'mode', 'lines', 'pos', 'closed')


class Stream:
    def __init__(self, name):
        self.name = name


class Frame:
    __slots__ = ('func', 'env', 'entry', 'rets', 'loops', 'yield_to',
                 'yield_frame', 'yield_depth', 'cls', 'self_', 'line')

    def __init__(self, func, env, entry):
        self.func, self.env, self.entry = func, env, entry
        self.rets = []
        self.loops = []
        self.yield_to = None
        self.cls = self.self_ = None
        self.line = 0


class Loop:
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = self.cont = FALSE


# ------------------------------------------------------------ scope analysis

def local_names(node):
    """Names bound in a function body."""
    out, glob, nonl = set(), set(), set()
    has_yield = [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                out.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    targets(m.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                            ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - glob - nonl, glob, nonl, has_yield[0]


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
          ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
          '%': 'mod', '**': 'pow', '<<': 'lshift', '>>': 'rshift', '&': 'and',
          '|': 'or', '^': 'xor', '@': 'matmul'}
NATIVE_TYPES = (int, str, float, bool, bytes, type(None), range, complex)


def _nat(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    if op == '<<':
        return a << b
    if op == '>>':
        return a >> b
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    raise Unsupported(op)


class Interp:
    MAX_LOOP = 20000
    MAX_DEPTH = 120

    def __init__(self, repo='/repo', extra=None):
        self.repo = repo
        self.extra = dict(extra or {})      # module name -> path
        self.pc = TRUE
        self.handlers = [[]]
        self.frame = None
        self.depth = 0
        self.modules = {}
        self.events = []                    # (guard, kind, payload)
        self.seen = {}                      # functions analysed -> count
        self.files = {}                     # virtual files: name -> lines
        self.nodes = 0
        self.native_classes = {}
        self.cur_exc = []
        self.opt_values = None              # optparse model
        self.opt_args = []
        self.deadline = None
        self.builtins = {}
        self.raise_sites = {}
        self.snapped = {}
        self.opaque_n = 0
        self.stdout = Stream('stdout')
        self.stderr = Stream('stderr')
        self.sources = {}
        self.file_exists = None
        from . import builtin
        builtin.install(self)

    # -------------------------------------------------------- allocation
    def _new(self, o):
        _uid[0] += 1
        o.uid = _uid[0]
        o.birth = self.pc
        return o

    def new_obj(self, cls):
        o = self._new(HObj())
        o.cls, o.attrs, o.lastw = cls, {}, {}
        return o

    def new_list(self, items=(), kind='list'):
        o = self._new(HList())
        o.ents = [[TRUE, v] for v in items]
        o.version = 0
        o.kind = kind
        return o

    def new_dict(self, kind='dict'):
        o = self._new(HDict())
        o.ents, o.index, o.syms, o.version = [], {}, [], 0
        o.kind = kind
        o.factory = None
        o.snap = False
        return o

    def grel(self, obj):
        """Current guard relative to the object's birth."""
        if isinstance(obj, HDict) and obj.snap:
            self.unsupported('change of a namespace')
        if self.pc == obj.birth:
            return TRUE
        return bdd.constrain(self.pc, obj.birth)

    # -------------------------------------------------------- errors
    def native_class(self, py):
        c = self.native_classes.get(py)
        if c is None:
            c = self.native_classes[py] = NativeClass(py)
            c.mro = [c] + [self.native_class(b) for b in py.__mro__[1:]]
        return c

    def make_exc(self, py, *args):
        o = self.new_obj(self.native_class(py))
        o.attrs['args'] = tuple(args)
        return o

    def throw_obj(self, exc, cond=TRUE):
        g = and_(self.pc, cond)
        if g == FALSE:
            return
        f = self.frame
        site = None
        if f is not None and f.func is not None:
            site = (f.func.module.path, f.func.qualname, f.line)
        self.handlers[-1].append((g, exc))
        self.raise_sites.setdefault(id(exc), (exc, site))
        self.pc = and_(self.pc, neg(g))
        if self.pc == FALSE:
            raise Dead()

    def throw(self, py, msg='', cond=TRUE):
        if and_(self.pc, cond) == FALSE:
            return
        self.throw_obj(self.make_exc(py, msg), cond)

    def unsupported(self, what):
        f = self.frame
        where = ''
        if f is not None and f.func is not None:
            where = ' in %s line %d' % (f.func.qualname, f.line)
        raise Unsupported(what + where)

    def opaque(self, why, ty='str'):
        self.opaque_n += 1
        return mk('opaque', '%s#%d' % (why, self.opaque_n), ty=ty)

    # -------------------------------------------------------- unions
    def vmap(self, f, v):
        if not isinstance(v, Un):
            return f(v)
        base = self.pc
        out, after = [], FALSE
        for g, x in v.alts:
            p = and_(base, g)
            if p == FALSE:
                continue
            self.pc = p
            try:
                r = f(x)
            except Dead:
                continue
            out.append((g, r))
            after = or_(after, self.pc)
        self.pc = after
        if after == FALSE:
            raise Dead()
        return v_union(out)

    def live(self, v):
        """Drop union alternatives that are impossible under the guard."""
        if isinstance(v, Un):
            out = [(g, x) for g, x in v.alts if and_(g, self.pc) != FALSE]
            if not out:
                raise Dead()
            if len(out) == 1:
                return out[0][1]
            if len(out) < len(v.alts):
                return Un(out)
        return v

    # -------------------------------------------------------- truth, equality
    def truth(self, v):
        if v is True:
            return TRUE
        if v is False or v is None:
            return FALSE
        if isinstance(v, SB):
            return v.b
        if isinstance(v, (int, str, float, bytes, range)):
            return TRUE if v else FALSE
        if isinstance(v, BV):
            return V.nonzero(v)
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Term):
            if v.ty == 'str':
                return neg(T.t_eq(v, ''))
            if v.ty == 'int':
                return neg(T.t_cmp_eq(v, 0))
            if v.ty == 'bool':
                return atom(v)
            if v.ty == 'list':
                return T.list_ge(v, 1)
            self.unsupported('truth of %s' % v.ty)
        if isinstance(v, Un):
            r = self.vmap(lambda x: sb(self.truth(x)), v)
            if isinstance(r, Un):
                raise Unsupported('truth')
            return V.bool_bits(r)
        if isinstance(v, HList):
            return bdd.disj([g for g, _ in v.ents])
        if isinstance(v, HDict):
            return bdd.disj([e.g for e in v.ents])
        if isinstance(v, HObj):
            for m in ('__bool__', '__len__'):
                f, _ = v.cls.lookup(m)
                if f is not None:
                    return self.truth(self.call(BoundV(v, f), [], {}))
            if v.cls.__class__ is ClassV and v.cls.fields is not None:
                return TRUE if v.cls.fields else FALSE
            return TRUE
        if isinstance(v, RangeV):
            return self.lt(v.start, v.stop)
        return TRUE

    def eq(self, a, b):
        """a == b as a decision diagram."""
        if isinstance(a, Un) or isinstance(b, Un):
            if isinstance(a, Un):
                r = self.vmap(lambda x: sb(self.eq(x, b)), a)
            else:
                r = self.vmap(lambda x: sb(self.eq(a, x)), b)
            return V.bool_bits(r)
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, BV) and isinstance(b, BV):
                return V.eq_int_under(a, b, self.pc)
            return V.eq_int(a, b)
        if T.is_str(a) and T.is_str(b):
            return T.t_eq(a, b)
        if (T.is_tint(a) and (is_intlike(b) or T.is_tint(b))) or \
                (T.is_tint(b) and is_intlike(a)):
            return T.t_cmp_eq(V.restrict_int(a, self.pc),
                              V.restrict_int(b, self.pc))
        if isinstance(a, NATIVE_TYPES) and isinstance(b, NATIVE_TYPES):
            return TRUE if a == b else FALSE
        if isinstance(a, HObj):
            f, _ = a.cls.lookup('__eq__')
            if f is not None:
                v = self.call(BoundV(a, f), [b], {})
                if not any(x is NotImplemented for _, x in V.alts_of(v)):
                    return self.truth(v)
                g = None
                if isinstance(b, HObj):
                    g, _ = b.cls.lookup('__eq__')
                w = a is b
                if g is not None:
                    w = self.call(BoundV(b, g), [a], {})
                    w = v_union([(h, a is b if x is NotImplemented else x)
                                 for h, x in V.alts_of(w)])
                return self.truth(v_union(
                    [(h, x) for h, x in V.alts_of(v)
                     if x is not NotImplemented] +
                    [(h, w) for h, x in V.alts_of(v)
                     if x is NotImplemented]))
            if getattr(a.cls, 'fields', None) is not None:
                a = self.nt_tuple(a)
        if isinstance(b, HObj):
            f, _ = b.cls.lookup('__eq__')
            if f is not None:
                v = self.call(BoundV(b, f), [a], {})
                v = v_union([(h, a is b if x is NotImplemented else x)
                             for h, x in V.alts_of(v)])
                return self.truth(v)
            if getattr(b.cls, 'fields', None) is not None:
                b = self.nt_tuple(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return bdd.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, HList) and isinstance(b, HList):
            if a.kind != b.kind:
                return FALSE
            return self.eq_seq(a.ents, b.ents)
        if isinstance(a, HList) and a.kind == 'tuple' and \
                isinstance(b, tuple):
            return self.eq_seq(a.ents, [[TRUE, x] for x in b])
        if isinstance(b, HList) and b.kind == 'tuple' and \
                isinstance(a, tuple):
            return self.eq_seq([[TRUE, x] for x in a], b.ents)
        if isinstance(a, HDict) and isinstance(b, HDict):
            if (a.kind in ('set', 'frozenset')) != \
                    (b.kind in ('set', 'frozenset')):
                return FALSE
            if 'counter' in (a.kind, b.kind):
                self.unsupported('comparison of Counters')
            return self.eq_dict(a, b)
        if isinstance(a, Term) and isinstance(b, Term) and a.ty == b.ty:
            if a is b:
                return TRUE
            if a.ty == 'list':
                if T.order(a) > T.order(b):
                    a, b = b, a
                return atom(mk('eq', a, b, ty='bool'))
        if isinstance(a, Term) and a.ty == 'obj' or \
                isinstance(b, Term) and b.ty == 'obj':
            return atom(mk('eq', a, b, ty='bool'))
        return TRUE if a is b else FALSE

    def eq_seq(self, ea, eb):
        ea = [(g, v) for g, v in ea if and_(g, self.pc) != FALSE]
        eb = [(g, v) for g, v in eb if and_(g, self.pc) != FALSE]
        if len(ea) == len(eb) and all(
                and_(self.pc, bdd.xor(g, h)) == FALSE
                for (g, _), (h, _) in zip(ea, eb)):
            r = TRUE
            for (g, x), (h, y) in zip(ea, eb):
                if not same(x, y):
                    r = and_(r, bdd.implies(g, self.eq_under(g, x, y)))
            return r
        # general: compare by position
        na, nb = self.count(ea), self.count(eb)
        r = V.eq_int(na, nb)
        for p in range(min(len(ea), len(eb))):
            xs, ys = self.at_pos(ea, p), self.at_pos(eb, p)
            if xs is None or ys is None:
                continue
            gx = and_(xs[0], ys[0])
            if and_(gx, self.pc) == FALSE:
                continue
            r = and_(r, bdd.implies(gx, self.eq_under(gx, xs[1], ys[1])))
        return r

    def eq_under(self, g, x, y):
        base = self.pc
        p = and_(base, g)
        if p == FALSE:
            return TRUE
        self.pc = p
        try:
            return self.eq(x, y)
        finally:
            self.pc = base

    def count(self, ents):
        """Number of present entries as an int value."""
        n, fixed = 0, 0
        for g, _ in ents:
            if g == TRUE:
                fixed += 1
            elif g != FALSE:
                n = V.add(n, V.bv((g, FALSE)))
        return V.add(n, fixed)

    def at_pos(self, ents, p):
        """(guard, value) of the element at position p (int value)."""
        out, n = [], 0
        for g, v in ents:
            c = and_(g, self.eq(n, p))
            if and_(c, self.pc) != FALSE:
                out.append((c, v))
            n = V.add(n, V.bv((g, FALSE)))
            if is_int(p) and isinstance(p, int) and isinstance(n, int) and \
                    n > p:
                break
        if not out:
            return None
        return bdd.disj([g for g, _ in out]), v_union(out)

    def eq_dict(self, a, b):
        r = TRUE
        for d, e in ((a, b), (b, a)):
            for x in d.ents:
                g = and_(x.g, self.pc)
                if g == FALSE:
                    continue
                base = self.pc
                self.pc = g
                try:
                    has, val = self.dict_find(e, x.k)
                    ok = has
                    if d is a and has != FALSE:
                        self.pc = and_(g, has)
                        if self.pc != FALSE:
                            ok = and_(has, self.eq(x.v, val))
                finally:
                    self.pc = base
                r = and_(r, bdd.implies(x.g, ok))
        return r

    def is_(self, a, b):
        if isinstance(a, Un) or isinstance(b, Un):
            if isinstance(a, Un):
                return V.bool_bits(self.vmap(lambda x: sb(self.is_(x, b)), a))
            return V.bool_bits(self.vmap(lambda x: sb(self.is_(a, x)), b))
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if V.is_boollike(a) and V.is_boollike(b):
            return bdd.iff(V.bool_bits(a), V.bool_bits(b))
        if V.is_boollike(a) or V.is_boollike(b):
            return FALSE
        if is_int(a) and is_int(b):
            return V.eq_int(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if T.is_str(a) and T.is_str(b):
            return self.eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return TRUE if a is b or a == b == () else FALSE
        if isinstance(a, BoundV) or isinstance(a, MethodV):
            return FALSE
        return TRUE if a is b else FALSE

    def implemented(self, v):
        if any(x is NotImplemented for _, x in V.alts_of(v)):
            self.unsupported('NotImplemented')
        return v

    def lt(self, a, b):
        if isinstance(a, Un) or isinstance(b, Un):
            if isinstance(a, Un):
                r = self.vmap(lambda x: sb(self.lt(x, b)), a)
            else:
                r = self.vmap(lambda x: sb(self.lt(a, x)), b)
            return V.bool_bits(r)
        if is_intlike(a) and is_intlike(b):
            if isinstance(a, int) and isinstance(b, int):
                return TRUE if a < b else FALSE
            return V.lt_int(a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return TRUE if a < b else FALSE
        if T.is_str(a) and T.is_str(b):
            return T.t_lt(a, b)
        if (T.is_tint(a) and (is_intlike(b) or T.is_tint(b))) or \
                (T.is_tint(b) and is_intlike(a)):
            return neg(T.t_cmp_ge(V.restrict_int(a, self.pc),
                                  V.restrict_int(b, self.pc)))
        if isinstance(a, HObj) and getattr(a.cls, 'fields', None) is None:
            f, _ = a.cls.lookup('__lt__')
            if f is not None:
                return self.truth(self.implemented(
                    self.call(BoundV(a, f), [b], {})))
            if isinstance(b, HObj):
                f, _ = b.cls.lookup('__gt__')
                if f is not None:
                    return self.truth(self.call(BoundV(b, f), [a], {}))
        if isinstance(a, HObj) and isinstance(b, HObj) and \
                getattr(a.cls, 'fields', None) is not None:
            a, b = self.nt_tuple(a), self.nt_tuple(b)
        if isinstance(a, HList) and isinstance(b, HList):
            a = tuple(self.static_items(a))
            b = tuple(self.static_items(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            r, same = FALSE, TRUE         # same: all before are equal
            base = self.pc
            for x, y in zip(a, b):
                if and_(base, same) == FALSE:
                    break
                self.pc = and_(base, same)
                try:
                    e = self.eq(x, y)
                finally:
                    self.pc = base
                differ = and_(same, neg(e))
                r = or_(r, and_(differ, self.lt_under(differ, x, y)))
                base = self.pc
                same = and_(same, e)
            if len(a) < len(b):
                r = or_(r, same)
            return r
        if isinstance(a, float) and is_intlike(b) or \
                isinstance(b, float) and is_intlike(a):
            self.unsupported('float comparison')
        if isinstance(a, Term) and a.ty == 'obj' or \
                isinstance(b, Term) and b.ty == 'obj':
            self.unsupported('ordering of opaque values')
        self.throw(TypeError, "'<' not supported between instances")
        raise Dead()

    def lt_under(self, g, x, y):
        base = self.pc
        p = and_(base, g)
        if p == FALSE:
            return FALSE
        self.pc = p
        rest = and_(base, neg(g))
        try:
            return self.lt(x, y)
        except Dead:
            self.pc = FALSE
            return FALSE
        finally:
            self.pc = or_(self.pc, rest)
            if self.pc == FALSE:
                raise Dead()

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return sb(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            if isinstance(a, HObj):
                f, _ = a.cls.lookup('__ne__')
                if f is not None:
                    return self.call(BoundV(a, f), [b], {})
            return sb(neg(self.eq(a, b)))
        if isinstance(op, ast.Lt):
            return sb(self.lt(a, b))
        if isinstance(op, ast.Gt):
            return sb(self.lt(b, a))
        if isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            # a <= b
            if self.has_set(a) and self.has_set(b):
                return sb(self.subset(a, b))
            if isinstance(a, HObj) and a.cls.lookup('__le__')[0] is not None:
                return self.call(BoundV(a, a.cls.lookup('__le__')[0]), [b], {})
            if isinstance(a, HObj) or isinstance(b, HObj):
                return sb(or_(self.lt(a, b), self.eq(a, b)))
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return a <= b
            return sb(neg(self.lt(b, a)))
        if isinstance(op, ast.Is):
            return sb(self.is_(a, b))
        if isinstance(op, ast.IsNot):
            return sb(neg(self.is_(a, b)))
        if isinstance(op, ast.In):
            return sb(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return sb(neg(self.contains(b, a)))
        self.unsupported('compare')

    def has_set(self, v):
        return isinstance(v, HDict) and v.kind in ('set', 'frozenset')

    def subset(self, a, b):
        r = TRUE
        for e in a.ents:
            g = and_(e.g, self.pc)
            if g == FALSE:
                continue
            base = self.pc
            self.pc = g
            try:
                has = self.dict_find(b, e.k)[0]
            finally:
                self.pc = base
            r = and_(r, bdd.implies(e.g, has))
        return r

    def contains(self, c, x):
        """x in c"""
        if isinstance(c, Un):
            return V.bool_bits(self.vmap(
                lambda y: sb(self.contains(y, x)), c))
        if T.is_str(c):
            if isinstance(x, Un):
                return V.bool_bits(self.vmap(
                    lambda y: sb(self.contains(c, y)), x))
            if not T.is_str(x):
                self.throw(TypeError, "'in <string>' requires string")
                raise Dead()
            return T.t_in(x, c)
        if isinstance(c, tuple):
            return bdd.disj([self.eq(x, y) for y in c])
        if isinstance(c, HDict):
            return self.dict_find(c, x)[0]
        if isinstance(c, HList):
            return bdd.disj([and_(g, self.eq_under(g, x, v))
                             for g, v in c.ents])
        if isinstance(c, Lazy) and c.kind == 'keys':
            return self.contains(c.a[0], x)
        if isinstance(c, range):
            if isinstance(x, int):
                return TRUE if x in c else FALSE
            if is_int(x) and c.step == 1:
                return and_(neg(self.lt(x, c.start)), self.lt(x, c.stop))
            if is_int(x):
                return bdd.disj([self.eq(x, y) for y in c])
            if isinstance(x, Un):
                return V.bool_bits(self.vmap(
                    lambda y: sb(self.contains(c, y)), x))
            if T.is_tint(x) and c.step == 1:
                return and_(neg(self.lt(x, c.start)), self.lt(x, c.stop))
            return FALSE
        if isinstance(c, RangeV) and c.step == 1 and is_int(x):
            return and_(neg(self.lt(x, c.start)), self.lt(x, c.stop))
        if isinstance(c, HObj):
            f, _ = c.cls.lookup('__contains__')
            if f is not None:
                return self.truth(self.call(BoundV(c, f), [x], {}))
            if getattr(c.cls, 'fields', None) is not None:
                return self.contains(self.nt_tuple(c), x)
        if c is None or is_intlike(c):
            self.throw(TypeError, "argument is not iterable")
            raise Dead()
        if isinstance(c, ClassV) and c.is_enum:
            return bdd.disj([self.eq(x, m) for m in c.members.values()])
        if isinstance(c, Term):
            if c.ty == 'list':
                return atom(mk('in', x, c, ty='bool'))
            self.unsupported('in')
        found = [FALSE]

        def fn(v):
            e = and_(self.pc, self.eq(v, x))
            found[0] = or_(found[0], e)
            self.pc = and_(self.pc, neg(e))
            if self.pc == FALSE:
                raise Dead()
        base = self.pc
        self.for_each(c, fn)
        self.pc = base
        return found[0]

    # -------------------------------------------------------- dicts
    def hkey(self, k):
        """Hashable host key for a concrete dict key, or None if symbolic."""
        if k is None or isinstance(k, (int, str, float, bytes, bool)):
            return k
        if isinstance(k, tuple):
            out = []
            for x in k:
                h = self.hkey(x)
                if h is None and x is not None:
                    return None
                out.append(h)
            return ('#t',) + tuple(out)
        if isinstance(k, (Term, BV, SB, Un)):
            return None
        if isinstance(k, HObj):
            if getattr(k.cls, 'fields', None) is not None:
                return self.hkey(self.nt_tuple(k))
            if k.cls.lookup('__eq__')[0] is not None:
                self.unsupported('dict key with __eq__')
            return ('#o', id(k))
        if isinstance(k, (HList, HDict)):
            if isinstance(k, HDict) and k.kind == 'frozenset':
                return ('#o', id(k))
            self.throw(TypeError, 'unhashable type')
            raise Dead()
        return ('#o', id(k))

    def is_nonekey(self, k):
        return k is None

    def dict_find(self, d, k):
        """(has, value): presence guard and value of key k."""
        if isinstance(k, Un):
            pair = self.vmap(lambda x: self._find_pair(d, x), k)
            return V.bool_bits(pair[0]), pair[1]
        h = self.hkey(k)
        if h is not None or k is None:
            e = d.index.get(h)
            alts = []
            if e is not None and e.g != FALSE:
                if not d.syms:
                    return e.g, e.v
                alts.append((e.g, e.v))
            for s in d.syms:
                c = and_(s.g, self.eq_key(s.k, k))
                if and_(c, self.pc) != FALSE:
                    alts.append((c, s.v))
            if not alts:
                return FALSE, UNDEF
            return bdd.disj([g for g, _ in alts]), v_union(alts)
        alts = []
        if isinstance(k, BV):
            for g, key in self.decode(k, d):
                e = d.index[key]
                c = and_(e.g, g)
                if c != FALSE:
                    alts.append((c, e.v))
            ents = d.syms
        else:
            ents = d.ents
        for e in ents:
            if e.g == FALSE:
                continue
            c = and_(e.g, self.eq_key(e.k, k))
            if and_(c, self.pc) != FALSE:
                alts.append((c, e.v))
        if not alts:
            return FALSE, UNDEF
        return bdd.disj([g for g, _ in alts]), v_union(alts)

    def _find_pair(self, d, x):
        has, v = self.dict_find(d, x)
        return (sb(has), v)

    def eq_key(self, a, b):
        return self.eq(a, b)

    def decode(self, k, d):
        """[(guard within pc, concrete int key of d)] matching the int k."""
        keys = [x for x in d.index if isinstance(x, int)]
        return self.decode_keys(k, keys)

    def decode_keys(self, k, keys):
        bits = k.bits
        n = len(bits)
        out = []

        def rec(i, g, ks):
            if g == FALSE or not ks:
                return
            if i < 0:
                for x in ks:
                    out.append((g, x))
                return
            b = bits[i]
            z, o = [], []
            for x in ks:
                (o if (x >> i) & 1 else z).append(x)
            if z:
                rec(i - 1, and_(g, neg(b)), z)
            if o:
                rec(i - 1, and_(g, b), o)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        rec(n - 1, self.pc, [x for x in keys if lo <= x <= hi])
        return out

    def dict_get(self, d, k):
        """d[k] with KeyError."""
        has, v = self.dict_find(d, k)
        if d.factory is not None and and_(self.pc, neg(has)) != FALSE:
            base = self.pc
            self.pc = and_(base, neg(has))
            nv = self.call(d.factory, [], {})
            if d.kind != 'counter':
                self.dict_set(d, k, nv)
            self.pc = base
            return v_union([(has, v), (neg(has), nv)]) if has != FALSE else nv
        if has != TRUE:
            self.throw(KeyError, k, neg(has))
        return self.live(v)

    def dict_set(self, d, k, v):
        if isinstance(k, Un):
            base = self.pc
            for g, x in k.alts:
                p = and_(base, g)
                if p != FALSE:
                    self.pc = p
                    self.dict_set(d, x, v)
            self.pc = base
            return
        if isinstance(d.snap, HObj) and isinstance(k, str):
            self.raw_set(d.snap, k, v)      # the __dict__ of an instance
            return
        h = self.hkey(k)
        g = self.grel(d)
        if isinstance(k, BV):
            try:
                cs = V.cases_int(k, self.pc, 300)
            except Unsupported:
                cs = None
            if cs is None and d.index and all(
                    isinstance(x, int) for x in d.index):
                cs = self.decode(k, d)
                cov = bdd.disj([c for c, _ in cs])
                if and_(self.pc, neg(cov)) != FALSE:
                    self.unsupported('dict store with unbounded int key')
            if cs is not None:
                base = self.pc
                for c, n in cs:
                    self.pc = c
                    self.dict_set(d, n, v)
                self.pc = base
                return
        if h is not None or k is None:
            e = d.index.get(h)
            hit = FALSE
            for s in d.syms:
                c = and_(s.g, self.eq_key(s.k, k))
                if and_(c, self.pc) != FALSE:
                    s.v = v_ite(and_(g, c), v, s.v)
                    hit = or_(hit, c)
            if e is not None:
                if e.g == TRUE and hit == FALSE:
                    e.v = v_ite(g, v, e.v)
                else:
                    n = and_(g, neg(hit))
                    if e.g == FALSE:
                        e.v = v
                    else:
                        e.v = v_ite(n, v, e.v)
                    e.widen(n, d)
            else:
                n = and_(g, neg(hit))
                if n != FALSE:
                    e = Ent(n, k, v)
                    d.index[h] = e
                    d.ents.append(e)
                    d.version += 1
            return
        hit = FALSE
        for e in d.ents:
            if e.g == FALSE:
                continue
            c = and_(e.g, self.eq_key(e.k, k))
            if and_(c, self.pc) != FALSE:
                e.v = v_ite(and_(g, c), v, e.v)
                hit = or_(hit, c)
        n = and_(g, neg(hit))
        if and_(n, self.pc) != FALSE:
            e = Ent(n, k, v)
            d.ents.append(e)
            d.syms.append(e)
            d.version += 1

    def dict_del(self, d, k, missing_ok=False):
        missing_ok = missing_ok or d.kind == 'counter'
        if isinstance(k, Un):
            base = self.pc
            after = FALSE
            for g, x in k.alts:
                p = and_(base, g)
                if p != FALSE:
                    self.pc = p
                    try:
                        self.dict_del(d, x, missing_ok)
                    except Dead:
                        continue
                    after = or_(after, self.pc)
            self.pc = after
            if after == FALSE:
                raise Dead()
            return
        has, _ = self.dict_find(d, k)
        if not missing_ok and has != TRUE:
            self.throw(KeyError, k, neg(has))
        g = self.grel(d)
        for e in list(d.ents):
            c = and_(e.g, self.eq_key(e.k, k))
            if and_(c, self.pc) != FALSE:
                e.g = and_(e.g, neg(and_(g, c)))
                d.version += 1
                if e.g == FALSE:
                    d.ents.remove(e)
                    if e in d.syms:
                        d.syms.remove(e)
                    else:
                        del d.index[self.hkey(e.k)]

    # -------------------------------------------------------- lists
    def list_append(self, l, v):
        l.ents.append([self.grel(l), v])
        l.version += 1

    def list_len(self, l):
        return self.count(l.ents)

    def static_items(self, l):
        """Items of a list all of whose elements are certainly present."""
        out = []
        for g, v in l.ents:
            if and_(self.pc, neg(g)) == FALSE:
                out.append(v)
            elif and_(self.pc, g) != FALSE:
                self.unsupported('conditional element')
        return out

    def norm_index(self, i, n):
        """Python index normalisation; throws IndexError."""
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if j < 0 or j >= n:
                self.throw(IndexError, 'index out of range')
            return j
        neg_ = self.lt(i, 0)
        if neg_ != FALSE:
            i = v_ite(neg_, V.add(i, n) if is_int(i) and is_int(n) else
                      self.binop('+', i, n), i)
        bad = or_(self.lt(i, 0), neg(self.lt(i, n)))
        if bad != FALSE:
            self.throw(IndexError, 'index out of range', bad)
        return i

    def list_get(self, ents, i):
        ents = [(g, v) for g, v in ents if and_(g, self.pc) != FALSE]
        if isinstance(i, int) and all(and_(self.pc, neg(g)) == FALSE
                                      for g, _ in ents):
            i = self.norm_index(i, len(ents))
            return ents[i][1]
        n = self.count(ents)
        i = self.norm_index(i, n)
        r = self.at_pos(ents, i)
        if r is None:
            raise Dead()
        return self.live(r[1])

    def list_set(self, l, i, v):
        ents = l.ents
        n = self.count(ents)
        i = self.norm_index(i, n)
        g0 = self.grel(l)
        p = 0
        for e in ents:
            c = and_(e[0], self.eq(p, i))
            if c != FALSE:
                e[1] = v_ite(and_(g0, c), v, e[1])
            p = V.add(p, V.bv((e[0], FALSE)))

    def list_del(self, l, i):
        n = self.count(l.ents)
        i = self.norm_index(i, n)
        g0 = self.grel(l)
        p = 0
        for e in list(l.ents):
            here = and_(e[0], self.eq(p, i))
            p = V.add(p, V.bv((e[0], FALSE)))
            c = and_(g0, here)
            if c != FALSE:
                e[0] = and_(e[0], neg(c))
        l.ents[:] = [e for e in l.ents if e[0] != FALSE]
        l.version += 1

    def slice_ents(self, ents, s):
        """Slice of a guarded sequence: new entries."""
        a, b, st = s.start, s.stop, s.step
        ents = [(g, v) for g, v in ents if and_(g, self.pc) != FALSE]
        if all(and_(self.pc, neg(g)) == FALSE for g, _ in ents) and \
                all(x is None or isinstance(x, int) for x in (a, b, st)):
            return [[TRUE, v] for _, v in ents][a:b:st]
        if st not in (None, 1):
            if st == -1 and a is None and b is None:
                return [[g, v] for g, v in reversed(ents)]
            self.unsupported('slice step')
        n = self.count(ents)

        def fix(x, dflt):
            if x is None:
                return dflt
            x = self.as_index(x)
            ng = self.lt(x, 0)
            if ng != FALSE:
                x = v_ite(ng, V.add(x, n), x)
            return x
        lo = fix(a, 0)
        hi = fix(b, n)
        out, p = [], 0
        for g, v in ents:
            c = and_(g, and_(neg(self.lt(p, lo)), self.lt(p, hi)))
            if c != FALSE:
                out.append([c, v])
            p = V.add(p, V.bv((g, FALSE)))
        return out

    # -------------------------------------------------------- iteration
    def step(self, g, v, fn):
        base = self.pc
        on = and_(base, g)
        if on == FALSE:
            return
        self.pc = on
        try:
            fn(v)
        except Dead:
            self.pc = FALSE
        if on != base:
            self.pc = or_(self.pc, and_(base, neg(g)))

    def for_each(self, it, fn):
        """Call fn(value) for every element under its guard.  On return pc is
        the guard under which iteration ran to its end (may be FALSE)."""
        if isinstance(it, Un):
            base, after = self.pc, FALSE
            for g, x in it.alts:
                p = and_(base, g)
                if p == FALSE:
                    continue
                self.pc = p
                try:
                    self.for_each(x, fn)
                except Dead:
                    continue
                after = or_(after, self.pc)
            self.pc = after
            return
        if isinstance(it, (range, tuple, str, bytes)):
            for n, v in enumerate(it):
                if n > self.MAX_LOOP:
                    self.unsupported('loop too long')
                self.step(TRUE, v, fn)
                if self.pc == FALSE:
                    return
            return
        if isinstance(it, HList):
            self.each_list(it, fn)
            return
        if isinstance(it, HDict):
            self.each_dict(it, fn, 'keys')
            return
        if isinstance(it, RangeV):
            self.each_range(it, fn)
            return
        if isinstance(it, Lazy):
            self.each_lazy(it, fn)
            return
        if isinstance(it, HIter):
            self.each_iter(it, fn)
            return
        if isinstance(it, HFile):
            self.each_list(self.file_rest(it), fn)
            return
        if isinstance(it, HObj):
            if getattr(it.cls, 'fields', None) is not None:
                self.for_each(self.nt_tuple(it), fn)
                return
            f, _ = it.cls.lookup('__iter__')
            if f is not None:
                r = self.call(BoundV(it, f), [], {})
                if isinstance(r, HObj):
                    self.each_next(r, fn)
                elif isinstance(r, Un) and all(isinstance(x, HObj)
                                               for _, x in r.alts):
                    self.each_next(r, fn)
                else:
                    self.for_each(r, fn)
                return
            f, _ = it.cls.lookup('__getitem__')
            if f is not None:
                self.each_getitem(it, f, fn)
                return
        if isinstance(it, ClassV) and it.is_enum:
            self.for_each(tuple(it.members.values()), fn)
            return
        if isinstance(it, Term):
            self.unsupported('iteration over %s' % V.show(it, 2))
        self.throw(TypeError, 'object is not iterable')
        raise Dead()

    def each_list(self, l, fn):
        i = 0
        pos = 0
        while i < len(l.ents):
            g, v = l.ents[i]
            ver = l.version
            base = self.pc
            self.step(g, v, fn)
            i += 1
            if l.version != ver:
                # modified while iterating: go on by position
                if and_(base, neg(g)) != FALSE:
                    self.unsupported('list modified during iteration')
                p = i
                # positions before i must have been certain
                while self.pc != FALSE:
                    ents = l.ents
                    n = self.count(ents)
                    more = self.lt(p, n)
                    if and_(self.pc, more) == FALSE:
                        return
                    base = self.pc
                    self.pc = and_(base, more)
                    r = self.at_pos(ents, p)
                    val = self.live(r[1])
                    self.pc = base
                    self.step(more, val, fn)
                    p += 1
                    if p > self.MAX_LOOP:
                        self.unsupported('endless list iteration')
                return
            if self.pc == FALSE:
                return
            if i > self.MAX_LOOP:
                self.unsupported('endless list iteration')

    def each_dict(self, d, fn, what):
        ver = d.version
        for g, e in in_order(d):
            if g == FALSE:
                continue
            v = e.k if what == 'keys' else e.v if what == 'values' else \
                (e.k, e.v)
            self.step(g, v, fn)
            if self.pc == FALSE:
                return
            if d.version != ver:
                try:
                    self.throw(RuntimeError, 'dictionary changed size during '
                               'iteration')
                except Dead:
                    pass
                return

    def each_range(self, r, fn):
        a, b, st = r.start, r.stop, r.step
        if not isinstance(st, int):
            base, after = self.pc, FALSE
            for g, n in V.cases_int(st, base, 64):
                self.pc = and_(base, g)
                if self.pc == FALSE:
                    continue
                try:
                    self.each_range(RangeV(a, b, n), fn)
                except Dead:
                    self.pc = FALSE
                after = or_(after, self.pc)
            self.pc = after
            if after == FALSE:
                raise Dead()
            return
        if st == 0:
            self.unsupported('range step')
        if not (is_intlike(a) and is_intlike(b)):
            self.unsupported('range over %s' % V.show((a, b), 2))
        a = V.restrict_int(a, self.pc)
        b = V.restrict_int(b, self.pc)
        alo, ahi = V.bounds_int(a, self.pc)
        blo, bhi = V.bounds_int(b, self.pc)
        if st > 0:
            cand = range(alo, bhi)
        else:
            cand = range(ahi, blo, -1)
        if alo == ahi:
            cand = range(alo, bhi if st > 0 else blo, st)
        if len(cand) > self.MAX_LOOP:
            self.unsupported('range too long')
        for n in cand:
            if st > 0:
                g = and_(neg(V.lt_int(n, a)), V.lt_int(n, b))
            else:
                g = and_(neg(V.lt_int(a, n)), V.lt_int(b, n))
            if abs(st) != 1 and alo != ahi:
                al = FALSE
                for c, x in V.cases_int(a, and_(self.pc, g), 5000):
                    if (n - x) % st == 0:
                        al = or_(al, c)
                g = and_(g, al)
            self.step(g, n, fn)
            if self.pc == FALSE:
                return

    def each_next(self, obj, fn):
        f = self.get_attr(obj, '__next__')
        base = self.pc
        done = FALSE
        for _ in range(self.MAX_LOOP):
            self.handlers.append([])
            try:
                v = self.call(f, [], {})
            except Dead:
                v = UNDEF
                self.pc = FALSE
            raised = self.handlers.pop()
            for g, e in raised:
                if self.exc_matches(e, StopIteration):
                    done = or_(done, g)
                else:
                    self.handlers[-1].append((g, e))
            if self.pc == FALSE:
                break
            try:
                fn(v)
            except Dead:
                self.pc = FALSE
            if self.pc == FALSE:
                break
        else:
            self.unsupported('endless iterator')
        self.pc = or_(done, FALSE)

    def each_getitem(self, obj, f, fn):
        done = FALSE
        for i in range(self.MAX_LOOP):
            self.handlers.append([])
            try:
                v = self.call(BoundV(obj, f), [i], {})
            except Dead:
                self.pc = FALSE
                v = UNDEF
            raised = self.handlers.pop()
            for g, e in raised:
                if self.exc_matches(e, IndexError):
                    done = or_(done, g)
                else:
                    self.handlers[-1].append((g, e))
            if self.pc == FALSE:
                break
            try:
                fn(v)
            except Dead:
                self.pc = FALSE
            if self.pc == FALSE:
                break
        else:
            self.unsupported('endless iterator')
        self.pc = done

    def each_lazy(self, z, fn):
        if z.kind in ('keys', 'values', 'items'):
            self.each_dict(z.a[0], fn, z.kind)
            return
        # an iterator is exhausted after its first complete iteration
        base = self.pc
        again = and_(base, z.used)
        if again != FALSE and z.partial:
            self.unsupported('resumed %s iterator' % z.kind)
        z.used = or_(z.used, base)
        if again == base:
            return
        self.pc = and_(base, neg(again))
        live = self.pc
        self.each_lazy1(z, fn)
        if self.pc != live:
            z.partial = True
        self.pc = or_(self.pc, again)

    def each_lazy1(self, z, fn):
        k, a = z.kind, z.a
        if k == 'enumerate':
            n = [a[1]]
            # counter only matters where iteration is live
            base = self.pc

            def f2(v):
                cur = n[0]
                g = bdd.constrain(self.pc, base)
                n[0] = v_ite(g, self.binop('+', cur, 1), cur)
                fn((V.restrict_int(cur, self.pc) if isinstance(cur, BV)
                    else cur, v))
            self.for_each(a[0], f2)
        elif k == 'map':
            self.for_each(a[1], lambda v: fn(self.call(a[0], [v], {})))
        elif k == 'filter':
            def ff(v):
                c = self.truth(v if a[0] is None
                               else self.call(a[0], [v], {}))
                base = self.pc
                self.step(c, v, fn)
            self.for_each(a[1], ff)
        elif k == 'genexp':
            node, env, frame, first = a
            # the consumer runs in its own scope, between two resumptions
            # of the generator expression
            caller, c_env, c_entry = self.frame, frame.env, frame.entry

            def deliver():
                v = self.eval(node.elt)
                me = self.frame, frame.env, frame.entry
                self.frame, frame.env, frame.entry = caller, c_env, c_entry
                try:
                    fn(v)
                finally:
                    self.frame, frame.env, frame.entry = me
            self.comp_loop(node.generators, 0, env, frame, first, deliver)
        elif k == 'genfunc':
            func, env = a
            self.run_generator(func, env, fn)
        elif k == 'chain':
            for x in a[0]:
                self.for_each(x, fn)
                if self.pc == FALSE:
                    return
        elif k == 'zip':
            self.each_zip(a[0], fn)
        elif k == 'reversed':
            l = self.to_list(a[0])
            for g, v in reversed(l.ents):
                self.step(g, v, fn)
                if self.pc == FALSE:
                    return
        elif k == 'count':
            n, st = a
            for _ in range(self.MAX_LOOP):
                self.step(TRUE, n, fn)
                if self.pc == FALSE:
                    return
                n = self.binop('+', n, st)
            self.unsupported('endless count')
        elif k == 'takewhile' or k == 'dropwhile':
            self.unsupported(k)
        else:
            self.unsupported('lazy ' + k)

    def each_zip(self, its, fn):
        # an endless counter is bounded by the other iterables
        lists = []
        for x in its:
            if isinstance(x, Lazy) and x.kind == 'count':
                lists.append(None)
            else:
                lists.append(self.to_list(x))
        fin = [l for l in lists if l is not None]
        if not fin:
            self.unsupported('endless zip')
        n = min(len(l.ents) for l in fin)
        for p in range(n):
            vals, g = [], TRUE
            for x, l in zip(its, lists):
                if l is None:
                    vals.append(self.binop('+', x.a[0],
                                           self.binop('*', p, x.a[1])))
                    continue
                if all(e[0] == TRUE for e in l.ents[:p + 1]):
                    vals.append(l.ents[p][1])
                    continue
                r = self.at_pos([tuple(e) for e in l.ents], p)
                if r is None:
                    g = FALSE
                    break
                g = and_(g, r[0])
                vals.append(r[1])
            if g == FALSE:
                return
            self.step(g, tuple(vals), fn)
            if self.pc == FALSE:
                return

    def each_iter(self, it, fn):
        l = it.src
        i = it.pos
        if not isinstance(i, int):
            self.unsupported('iterator position')
        while i < len(l.ents):
            g, v = l.ents[i]
            i += 1
            if self.pc == it.birth or True:
                it.pos = v_ite(self.grel(it), i, it.pos)
            self.step(g, v, fn)
            if self.pc == FALSE:
                return

    def run_generator(self, func, env, fn):
        caller = self.frame
        depth = len(self.handlers)
        fr = Frame(func, env, self.pc)
        fr.cls, fr.self_ = func.owner, None

        def consume(v):
            saved = self.handlers[depth:]
            del self.handlers[depth:]
            me = self.frame
            self.frame = caller
            try:
                fn(v)
            finally:
                self.frame = me
                self.handlers.extend(saved)
        fr.yield_to = consume
        self.frame = fr
        self.depth += 1
        try:
            self.note(func)
            p = self.run(func.node.body, self.pc)
        finally:
            self.frame = caller
            self.depth -= 1
            del self.handlers[depth:]
        self.gen_value = v_union([(g, v) for g, v in fr.rets] +
                                 ([(p, None)] if p != FALSE else [])) \
            if fr.rets else None
        for g, _ in fr.rets:
            p = or_(p, g)
        self.pc = p

    def to_list(self, v, kind='list'):
        """Materialise an iterable into a fresh list."""
        out = self.new_list((), kind)
        base = self.pc

        def fn(x):
            out.ents.append([bdd.constrain(self.pc, base), x])
        if isinstance(v, HList):
            out.ents = [list(e) for e in v.ents if and_(e[0], base) != FALSE]
            return out
        if isinstance(v, tuple) or isinstance(v, (str, range)):
            if len(v) > self.MAX_LOOP:
                self.unsupported('sequence too long')
            out.ents = [[TRUE, x] for x in v]
            return out
        if isinstance(v, Un):
            parts = []
            for g, x in v.alts:
                p = and_(base, g)
                if p == FALSE:
                    continue
                self.pc = p
                try:
                    l = self.to_list(x)
                except Dead:
                    continue
                parts.append((g, l, self.pc))
            self.pc = bdd.disj([p for _, _, p in parts])
            if self.pc == FALSE:
                raise Dead()
            for g, l, _ in parts:
                for h, x in l.ents:
                    out.ents.append([and_(g, h), x])
            return out
        self.for_each(v, fn)
        if self.pc == FALSE:
            raise Dead()
        return out

    # -------------------------------------------------------- attributes
    def nt_tuple(self, o):
        return tuple(o.attrs[f] for f in o.cls.fields)

    def get_attr(self, o, name):
        if isinstance(o, HObj):
            return self.get_obj_attr(o, name)
        if isinstance(o, Un):
            return self.get_union_attr(o, name)
        if isinstance(o, ModV):
            v = o.env.vars.get(name, UNDEF)
            if v is UNDEF:
                sub_ = self.try_submodule(o, name)
                if sub_ is not None:
                    return sub_
                self.throw(AttributeError, 'module %s has no attribute %s' %
                           (o.name, name))
                raise Dead()
            return v
        if isinstance(o, ClassV):
            return self.get_class_attr(o, name)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, HObj) else \
                self.live(o.obj).mro if isinstance(o.obj, ClassV) else \
                self.union_class(o.obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.attrs:
                    return self.bind(c.attrs[name], o.obj, c)
            if name == '__init__':
                nat = [c for c in mro[i + 1:] if isinstance(c, NativeClass)
                       and c.py is not object]
                if nat and issubclass(nat[0].py, BaseException):
                    obj = o.obj

                    def init(*a, **k):
                        self.set_attr(obj, 'args', tuple(a))
                    return BuiltinV('__init__', lambda it, a, k: init(*a))
                return BuiltinV('__init__', lambda it, a, k: self.obj_init(
                    a, k))
            if name == '__setattr__':
                return BuiltinV('__setattr__', lambda it, a, k:
                                self.generic_set(o.obj, a[0], a[1]))
            if name in ('__repr__', '__str__'):
                return BuiltinV(name, lambda it, a, k: self.opaque('repr'))
            if name == '__new__':
                return BuiltinV('__new__',
                                lambda it, a, k: self.new_obj(a[0]))
            if name in ('__init_subclass__', '__del__'):
                return BuiltinV(name, lambda it, a, k: None)
            if isinstance(o.obj, HObj) and o.obj.cls.fields is not None:
                pass
            if any(isinstance(c, BuiltinV) or isinstance(c, NativeClass) and
                   hasattr(c.py, name) for c in mro) or \
                    hasattr(object, name):
                self.unsupported('super().' + name)
            self.throw(AttributeError, "'super' object has no attribute %r"
                       % name)
            raise Dead()
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(
                    o.node, ast.Lambda) else None
            if name == '__defaults__':
                return tuple(o.defaults)
            if hasattr(lambda: 0, name) or name == '__wrapped__' or \
                    name in ('cache_clear', 'cache_info'):
                self.unsupported(name)
            self.throw(AttributeError, name)
            raise Dead()
        if isinstance(o, BuiltinV) and name in o.attrs:
            return o.attrs[name]
        if isinstance(o, BuiltinV) and '#opaque' in o.attrs:
            self.unsupported(o.name)
        if isinstance(o, SliceV):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            return MethodV(o, name)
        if isinstance(o, PropV):
            if name in ('setter', 'getter', 'deleter'):
                def dec(it, a, k, kind=name):
                    f = a[0]
                    if kind == 'setter':
                        return PropV(o.fget, f, o.fdel)
                    if kind == 'getter':
                        return PropV(f, o.fset, o.fdel)
                    return PropV(o.fget, o.fset, f)
                return BuiltinV(name, dec)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
        if isinstance(o, BoundV) and name in ('__name__', '__self__',
                                              '__func__', '__doc__'):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.get_attr(o.func, name)
        if isinstance(o, NativeClass):
            if name == '__name__':
                return o.name
            if name == '__init__':
                return BuiltinV('__init__', lambda it, a, k:
                                self.native_init(a, k))
            if name == '__new__':
                return BuiltinV('__new__',
                                lambda it, a, k: self.new_obj(a[0]))
            if name == '__repr__' or name == '__str__':
                return BuiltinV(name, lambda it, a, k: self.opaque('repr'))
            if o.py is object and name == '__setattr__':
                return BuiltinV(name, lambda it, a, k:
                                self.generic_set(*a))
            if o.py is object and name == '__getattribute__':
                return BuiltinV(name, lambda it, a, k:
                                self.plain_get(*a))
            if hasattr(o.py, name):
                def nm(it, a, k, name=name):
                    if name.startswith('__') and isinstance(a[0], HObj) and \
                            a[0].cls.lookup(name)[0] is not None:
                        self.unsupported('%s.%s' % (o.name, name))
                    return self.call(self.get_attr(a[0], name), a[1:], k)
                if name == 'fromkeys':
                    return BuiltinV(name, lambda it, a, k:
                                    self.dict_fromkeys(a))
                if name == 'maketrans':
                    return BuiltinV(name, lambda it, a, k:
                                    self.maketrans(a))
                if any(isinstance(vars(b).get(name), (classmethod,
                                                      staticmethod))
                       or type(vars(b).get(name)) is type(vars(dict)[
                           'fromkeys']) for b in o.py.__mro__):
                    return BuiltinV(name, lambda it, a, k:
                                    self.unsupported(name))
                return BuiltinV(name, nm)
            self.throw(AttributeError, name)
            raise Dead()
        if isinstance(o, Stream) or isinstance(o, (HFile, HIter)):
            return MethodV(o, name)
        from . import builtin
        return builtin.value_attr(self, o, name)

    def obj_init(self, a, k):
        if a or k:
            self.throw(TypeError, 'object.__init__() takes no arguments')
            raise Dead()
        return None

    def native_init(self, a, k):
        if a and isinstance(a[0], HObj) and a[0].cls.native() is not None:
            self.set_attr(a[0], 'args', tuple(a[1:]))
        return None

    def union_class(self, u):
        cs = {id(x.cls): x.cls for g, x in u.alts
              if and_(g, self.pc) != FALSE and isinstance(x, HObj)}
        if len(cs) != 1:
            self.unsupported('super on a union of classes')
        return list(cs.values())[0]

    def get_union_attr(self, u, name):
        """Attribute of a union: objects of one class are handled together."""
        groups, order = {}, []
        for g, x in u.alts:
            if and_(g, self.pc) == FALSE:
                continue
            k = id(x.cls) if isinstance(x, HObj) else ('v', id(x))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((g, x))
        if not order:
            raise Dead()
        base, after, out = self.pc, FALSE, []
        for k in order:
            items = groups[k]
            g = bdd.disj([h for h, _ in items])
            self.pc = and_(base, g)
            if self.pc == FALSE:
                continue
            try:
                if len(items) == 1:
                    r = self.get_attr(items[0][1], name)
                else:
                    r = self.get_group_attr(items, name)
            except Dead:
                continue
            out.append((g, r))
            after = or_(after, self.pc)
        self.pc = after
        if after == FALSE:
            raise Dead()
        return v_union(out)

    def get_group_attr(self, items, name):
        cls = items[0][1].cls
        f, owner = cls.lookup(name)
        u = Un(items)
        if isinstance(f, PropV):
            if f.fget is None:
                self.unsupported('property without a getter')
            return self.call(f.fget, [u], {})
        if f is not None and self.data_descriptor(f):
            return self.bind(f, u, owner)
        alts, missing = [], []
        for g, x in items:
            v = x.attrs.get(name, UNDEF)
            if v is UNDEF:
                missing.append((g, x))
            else:
                alts.append((g, v))
        if missing:
            if alts:
                return self.vmap(lambda x: self.get_obj_attr(x, name), u)
            if f is None:
                return self.vmap(lambda x: self.get_obj_attr(x, name), u)
            return self.bind(f, u, owner)
        r = v_union(alts)
        if isinstance(r, Un) and any(x is UNDEF for _, x in r.alts):
            return self.vmap(lambda x: self.get_obj_attr(x, name), u)
        return r

    def bind(self, f, obj, owner=None):
        if isinstance(f, FuncV):
            return BoundV(obj, f)
        if isinstance(f, PropV):
            if f.fget is None:
                self.throw(AttributeError, 'unreadable attribute')
                raise Dead()
            return self.call(f.fget, [obj], {})
        if isinstance(f, ClassMV):
            c = obj.cls if isinstance(obj, HObj) else obj if isinstance(
                obj, ClassV) else self.union_class(obj)
            return BoundV(c, f.f)
        if isinstance(f, StaticV):
            return f.f
        if isinstance(f, BuiltinV) and f.attrs.get('#method'):
            return BoundV(obj, f)
        if isinstance(f, HObj):
            g, _ = f.cls.lookup('__get__')
            if g is not None:
                return self.call(BoundV(f, g), [
                    obj, obj.cls if isinstance(obj, HObj) else
                    self.union_class(obj)], {})
        if isinstance(f, PartialV) and getattr(f, 'method', False):
            return BoundV(obj, f)
        return f

    def get_obj_attr(self, o, name):
        if isinstance(o.cls, ClassV) and \
                o.cls.lookup('__getattribute__')[0] is not None:
            self.unsupported('__getattribute__')
        return self.plain_get(o, name)

    def data_descriptor(self, f):
        return isinstance(f, HObj) and isinstance(f.cls, ClassV) and \
            f.cls.lookup('__get__')[0] is not None and \
            f.cls.lookup('__set__')[0] is not None

    def plain_get(self, o, name):
        cls = o.cls
        f, owner = cls.lookup(name)
        if f is not None and self.data_descriptor(f):
            return self.bind(f, o, owner)
        if isinstance(f, PropV):
            if f.fget is None:
                self.throw(AttributeError, 'unreadable attribute')
                raise Dead()
            return self.call(f.fget, [o], {})
        v = o.attrs.get(name, UNDEF)
        if v is not UNDEF:
            if isinstance(v, Un):
                und = [g for g, x in v.alts if x is UNDEF]
                if und:
                    u = bdd.disj(und)
                    if and_(u, self.pc) != FALSE:
                        if f is not None:
                            rest = [(g, x) for g, x in v.alts
                                    if x is not UNDEF]
                            return v_union(rest + [(u, self.bind(f, o,
                                                                 owner))])
                        self.throw(AttributeError, self.attr_msg(o, name), u)
                    v = v_union([(g, x) for g, x in v.alts
                                 if x is not UNDEF])
                return self.live(v)
            return v
        if f is not None:
            return self.bind(f, o, owner)
        if name == '__class__':
            return cls
        if name == '__dict__':
            d = self.new_dict()
            for k, x in o.attrs.items():
                und = bdd.disj([g for g, y in V.alts_of(x) if y is UNDEF])
                if und == TRUE or and_(self.pc, neg(und)) == FALSE:
                    continue
                base = self.pc
                if und != FALSE:
                    x = v_union([(g, y) for g, y in V.alts_of(x)
                                 if y is not UNDEF])
                self.pc = and_(base, neg(und))
                self.dict_set(d, k, x)
                self.pc = base
            d.snap = o
            self.snapped.setdefault(o.uid, []).append(d)
            return d
        if getattr(cls, 'fields', None) is not None:
            from . import builtin
            r = builtin.nt_attr(self, o, name)
            if r is not None:
                return r
        f, _ = cls.lookup('__getattr__')
        if f is not None:
            return self.call(BoundV(o, f), [name], {})
        if cls.__class__ is NativeClass or cls.native() is not None:
            if name == 'with_traceback':
                return BuiltinV(name, lambda it, a, k: o)
            if name == 'code' and 'args' in o.attrs:
                a = o.attrs['args']
                return a[0] if a else None
            if name in ('__init__', '__str__', '__repr__'):
                return MethodV(o, name)
            nat = cls if isinstance(cls, NativeClass) else cls.native()
            if not issubclass(nat.py, BaseException):
                return MethodV(o, name)
        if name in ('__init__', '__repr__', '__str__', '__eq__', '__ne__',
                    '__hash__', '__setattr__', '__getattribute__',
                    '__format__', '__sizeof__'):
            return MethodV(o, name)
        if hasattr(object, name) or self.native_has(cls, name):
            self.unsupported('attribute ' + name)
        self.throw(AttributeError, self.attr_msg(o, name))
        raise Dead()

    def native_has(self, cls, name):
        for c in getattr(cls, 'mro', ()):
            if isinstance(c, NativeClass) and hasattr(c.py, name) or \
                    isinstance(c, BuiltinV):
                return True
        return False

    def attr_msg(self, o, name):
        return "'%s' object has no attribute '%s'" % (o.cls.name, name)

    def get_class_attr(self, c, name):
        f, owner = c.lookup(name)
        if f is None:
            if name == '__name__' or name == '__qualname__':
                return c.name
            if name == '__mro__':
                return tuple(c.mro)
            if name == '__bases__':
                return tuple(c.bases)
            if name == '__doc__':
                return ast.get_docstring(c.node) if c.node else None
            if name == '__module__':
                return c.module.name
            if name == '__dict__':
                d = self.new_dict()
                for k, v in c.attrs.items():
                    self.dict_set(d, k, v)
                d.snap = True
                return d
            if name == '__members__' and c.is_enum:
                d = self.new_dict()
                for k, v in c.members.items():
                    self.dict_set(d, k, v)
                return d
            if c.fields is not None:
                from . import builtin
                r = builtin.nt_class_attr(self, c, name)
                if r is not None:
                    return r
            for b in c.mro:
                if isinstance(b, NativeClass) and (
                        b.py is not object or name in (
                            '__init__', '__new__', '__repr__', '__str__')):
                    return self.get_attr(b, name)
            if hasattr(type, name):
                self.unsupported('type attribute ' + name)
            self.throw(AttributeError, "type object '%s' has no attribute "
                       "'%s'" % (c.name, name))
            raise Dead()
        if isinstance(f, ClassMV):
            return BoundV(c, f.f)
        if isinstance(f, StaticV):
            return f.f
        if isinstance(f, HObj) and isinstance(f.cls, ClassV):
            g, _ = f.cls.lookup('__get__')
            if g is not None:
                return self.call(BoundV(f, g), [None, c], {})
        return f

    def raw_set(self, o, name, v):
        if isinstance(o, Un):
            base = self.pc
            for g, x in o.alts:
                p = and_(base, g)
                if p != FALSE:
                    self.pc = p
                    self.raw_set(x, name, v)
            self.pc = base
            return
        g = self.grel(o)
        f = self.frame
        if f is not None and f.func is not None:
            o.lastw[name] = (f.func.module.path, f.func.qualname, f.line)
        if g == TRUE:
            o.attrs[name] = v
        else:
            old = o.attrs.get(name, UNDEF)
            o.attrs[name] = v_ite(g, v, old)
        if isinstance(o, HObj) and o.uid in self.snapped:
            if v is UNDEF:
                self.unsupported('deletion of an attribute seen in __dict__')
            for d in self.snapped[o.uid]:
                if and_(self.pc, d.birth) != FALSE:
                    d.snap = False
                    try:
                        self.dict_set(d, name, v)
                    finally:
                        d.snap = o

    def set_attr(self, o, name, v):
        if isinstance(o, Un):
            groups, order = {}, []
            for g, x in o.alts:
                if and_(g, self.pc) == FALSE:
                    continue
                k = id(x.cls) if isinstance(x, HObj) else ('v', id(x))
                groups.setdefault(k, []).append((g, x))
                if k not in order:
                    order.append(k)
            base, after = self.pc, FALSE
            for k in order:
                items = groups[k]
                g = bdd.disj([h for h, _ in items])
                self.pc = and_(base, g)
                try:
                    if len(items) == 1:
                        self.set_attr(items[0][1], name, v)
                    else:
                        s, _ = items[0][1].cls.lookup('__setattr__')
                        if s is not None:
                            self.call(BoundV(Un(items), s), [name, v], {})
                        else:
                            self.generic_set(Un(items), name, v)
                except Dead:
                    continue
                after = or_(after, self.pc)
            self.pc = after
            if after == FALSE:
                raise Dead()
            return
        if isinstance(o, HObj):
            s, _ = o.cls.lookup('__setattr__')
            if s is not None:
                self.call(BoundV(o, s), [name, v], {})
                return
            if getattr(o.cls, 'fields', None) is not None:
                self.throw(AttributeError, "can't set attribute")
                raise Dead()
            if getattr(o.cls, 'frozen', False):
                self.throw(AttributeError, "cannot assign to field")
                raise Dead()
            self.generic_set(o, name, v)
            return
        if isinstance(o, ClassV):
            if self.pc != TRUE:
                old = o.attrs.get(name, UNDEF)
                v = v_ite(self.pc, v, old)
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            if self.pc != TRUE:
                v = v_ite(self.pc, v, o.env.vars.get(name, UNDEF))
            o.env.vars[name] = v
            return
        if isinstance(o, FuncV):
            if name.startswith('__'):
                self.unsupported('set attribute of a function')
            if self.pc != TRUE:
                v = v_ite(self.pc, v, o.attrs.get(name, UNDEF))
            o.attrs[name] = v
            return
        if isinstance(o, BuiltinV):
            if 'set:' + name in o.attrs:
                o.attrs['set:' + name](v)
                return
            o.attrs[name] = v
            return
        if isinstance(o, (NATIVE_TYPES, tuple, BV, SB, Term, HList, HDict)):
            self.throw(AttributeError, 'object has no attribute %r' % name)
            raise Dead()
        self.unsupported('set attribute of %s' % type(o).__name__)

    def generic_set(self, o, name, v):
        """object.__setattr__ for an object, or a union of one class."""
        if not isinstance(name, str):
            self.unsupported('setattr with symbolic name')
        c = o.cls if isinstance(o, HObj) else self.union_class(o)
        f, _ = c.lookup(name) if isinstance(c, ClassV) else (None, None)
        if isinstance(f, PropV):
            self.set_prop(f, o, name, v)
            return
        if isinstance(f, HObj):
            s, _ = f.cls.lookup('__set__')
            if s is not None:
                self.call(BoundV(f, s), [o, v], {})
                return
        if isinstance(c, ClassV) and not self.has_room(c, name):
            self.throw(AttributeError, "'%s' object has no attribute '%s'"
                       % (c.name, name))
            raise Dead()
        self.raw_set(o, name, v)

    def has_room(self, c, name):
        """Can instances of c have an attribute of that name?"""
        room = []
        for b in c.mro:
            if isinstance(b, NativeClass):
                if b.py is not object:
                    return True
                continue
            if not isinstance(b, ClassV) or '__slots__' not in b.attrs or \
                    b.dcfields is not None:
                return True
            v = b.attrs['__slots__']
            if isinstance(v, str):
                v = (v,)
            try:
                room += v if isinstance(v, tuple) else self.static_items(
                    self.to_list(v))
            except Unsupported:
                return True
        return name in room or '__dict__' in room or any(
            isinstance(r, str) and r.startswith('__') and not
            r.endswith('__') and name.endswith(r) for r in room)

    def set_prop(self, f, o, name, v):
        if f.fset is None:
            self.throw(AttributeError, "property '%s' has no setter" % name)
            raise Dead()
        self.call(f.fset, [o, v], {})

    # -------------------------------------------------------- calls
    def note(self, f):
        k = (f.module.path, f.qualname)
        self.seen[k] = self.seen.get(k, 0) + 1

    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, BuiltinV):
            return f.fn(self, list(args), kw)
        if isinstance(f, MethodV):
            from . import builtin
            return builtin.call_method(self, f.obj, f.name, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, NativeClass):
            from . import builtin
            return builtin.call_native_class(self, f, list(args), kw)
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Un):
            return self.vmap(lambda x: self.call(x, args, kw), f)
        if isinstance(f, HObj):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundV(f, m), args, kw)
        if isinstance(f, (StaticV, ClassMV)):
            return self.call(f.f, args, kw)
        self.throw(TypeError, 'object is not callable')
        raise Dead()

    def instantiate(self, c, args, kw):
        if c.is_enum:
            if len(args) != 1 or kw or 'Flag' in c.enum_kind:
                self.unsupported('enum call')
            v = args[0]
            out, cov = [], FALSE
            for m in c.members.values():
                g = self.is_(m, v) if isinstance(m, HObj) else FALSE
                g = or_(g, self.eq(m.attrs['value'] if isinstance(m, HObj)
                                   else m, v))
                out.append((g, m))
                cov = or_(cov, g)
            self.throw(ValueError, 'not a valid enum value', neg(cov))
            return self.live(v_union(out))
        if c.fields is not None:
            from . import builtin
            init, _ = c.lookup('__new__')
            if init is None or isinstance(init, BuiltinV):
                return builtin.nt_new(self, c, args, kw)
        for b in c.mro:
            for n, x in b.attrs.items():
                if isinstance(x, PropV):
                    x = x.fget
                if isinstance(x, FuncV) and '#abstract' in x.attrs and \
                        c.lookup(n)[1] is b:
                    self.unsupported('instance of an abstract class')
        new, _ = c.lookup('__new__')
        if isinstance(new, (FuncV, StaticV)):
            o = self.call(new, [c] + list(args), kw)
            if not isinstance(o, HObj):
                return o
        else:
            o = self.new_obj(c)
        init, _ = c.lookup('__init__')
        if init is not None:
            self.call(BoundV(o, init), args, kw)
            return o
        nat = c.native()
        if nat is not None:
            if issubclass(nat.py, BaseException):
                o.attrs['args'] = tuple(args)
                return o
            from . import builtin
            return builtin.subclass_native(self, c, nat, o, args, kw)
        if args or kw:
            self.throw(TypeError, '%s() takes no arguments' % c.name)
            raise Dead()
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = Env(f.module, f.env, f.localnames[0])
        env.globals_, env.nonlocals = f.localnames[1], f.localnames[2]
        vars_ = env.vars
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(names)
        args = list(args)
        kw = dict(kw)
        if len(args) > npos:
            if a.vararg is None:
                self.throw(TypeError, '%s() takes %d positional arguments but '
                           '%d were given' % (f.name, npos, len(args)))
                raise Dead()
            vars_[a.vararg.arg] = tuple(args[npos:])
            args = args[:npos]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        ponly = len(a.posonlyargs)
        dflt = f.defaults
        first_d = npos - len(dflt)
        for i, n in enumerate(names):
            if n in vars_ and i < len(args):
                if n in kw and i >= ponly:
                    self.throw(TypeError, '%s() got multiple values for '
                               'argument %r' % (f.name, n))
                    raise Dead()
                continue
            if n in kw and i >= ponly:
                vars_[n] = kw.pop(n)
            elif i >= first_d:
                vars_[n] = dflt[i - first_d]
            else:
                self.throw(TypeError, '%s() missing required argument %r' %
                           (f.name, n))
                raise Dead()
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                vars_[n] = kw.pop(n)
            elif n in f.kwdefaults:
                vars_[n] = f.kwdefaults[n]
            else:
                self.throw(TypeError, '%s() missing keyword argument %r' %
                           (f.name, n))
                raise Dead()
        if a.kwarg is not None:
            d = self.new_dict()
            for k, v in kw.items():
                self.dict_set(d, k, v)
            vars_[a.kwarg.arg] = d
        elif kw:
            self.throw(TypeError, '%s() got an unexpected keyword argument %r'
                       % (f.name, sorted(kw)[0]))
            raise Dead()
        return env

    def memo_call(self, f, args, kw):
        """A function with a cache: the same object for the same
        (constant) arguments."""
        memo = f.attrs.pop('#memo')
        try:
            parts = []
            for a in list(args) + [x for k in sorted(kw)
                                   for x in (k, kw[k])]:
                if isinstance(a, (str, int, float, type(None), bytes)):
                    parts.append((type(a).__name__, a))
                elif isinstance(a, (HObj, ClassV, FuncV)):
                    parts.append(('id', id(a)))
                elif isinstance(a, (HList, HDict)):
                    self.throw(TypeError, 'unhashable type')
                    raise Dead()
                else:
                    parts = None
                    break
            if parts is None:
                return self.call_func(f, args, kw)
            key = tuple(parts)
            g, v, _ = memo.get(key, (FALSE, None, None))
            if g != FALSE and and_(self.pc, neg(g)) == FALSE:
                return v
            r = self.call_func(f, args, kw)
            if g != FALSE:
                r = v_union([(g, v), (neg(g), r)])
            memo[key] = (or_(g, self.pc), r, list(args))
            return r
        finally:
            f.attrs['#memo'] = memo

    def call_func(self, f, args, kw):
        if f.node is None:
            self.unsupported('call of %s' % f.name)
        if f.attrs and '#memo' in f.attrs:
            return self.memo_call(f, args, kw)
        env = self.bind_args(f, args, kw)
        if f.is_gen:
            return Lazy('genfunc', f, env)
        if self.depth > self.MAX_DEPTH:
            self.throw(RecursionError, 'maximum recursion depth exceeded')
            raise Dead()
        fr = Frame(f, env, self.pc)
        fr.cls = f.owner
        if f.owner is not None and args:
            fr.self_ = args[0]
        saved = self.frame
        self.frame = fr
        self.depth += 1
        base = self.pc
        try:
            self.note(f)
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                return v
            p = self.run(f.node.body, self.pc)
        finally:
            self.frame = saved
            self.depth -= 1
        rets = fr.rets
        if p != FALSE:
            rets.append((p, None))
        if not rets:
            self.pc = FALSE
            raise Dead()
        total = rets[0][0] if len(rets) == 1 else \
            bdd.disj([g for g, _ in rets])
        self.pc = total
        if len(rets) == 1:
            return rets[0][1]
        if total != TRUE:
            rets = [(bdd.constrain(g, total), v) for g, v in rets]
        return v_union(rets)

    # -------------------------------------------------------- exceptions
    def exc_class(self, e):
        return e.cls

    def exc_matches(self, e, py):
        for c in e.cls.mro:
            if isinstance(c, NativeClass) and issubclass(c.py, py):
                return True
        return False

    def exc_isa(self, e, typ):
        if isinstance(typ, tuple):
            return any(self.exc_isa(e, t) for t in typ)
        if isinstance(typ, NativeClass):
            return self.exc_matches(e, typ.py)
        if not isinstance(typ, ClassV):
            self.unsupported('exception class %r' % (typ,))
        return typ in e.cls.mro

    # -------------------------------------------------------- statements
    def run(self, stmts, pc):
        """Execute statements under pc; return the guard of falling out."""
        self.pc = pc
        if pc == FALSE:
            return FALSE
        try:
            for s in stmts:
                self.exec(s)
        except Dead:
            self.pc = FALSE
            return FALSE
        return self.pc

    def exec(self, s):
        self.nodes += 1
        if self.deadline is not None and time.time() > self.deadline:
            self.unsupported('time budget used up')
        if self.frame is not None:
            self.frame.line = s.lineno
        m = getattr(self, 'x_' + s.__class__.__name__, None)
        if m is None:
            self.unsupported('statement %s' % s.__class__.__name__)
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr_stmt = s.value
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(
                ast.Name(t.id, ast.Load()), t))
            self.assign(t, self.aug(op, old, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.get_attr(o, self.mangle(t.attr))
            self.set_attr(o, self.mangle(t.attr),
                          self.aug(op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            old = self.get_item(o, k)
            self.set_item(o, k, self.aug(op, old, self.eval(s.value)))
        else:
            self.unsupported('augmented assignment')

    def aug(self, op, a, b):
        if isinstance(a, Un):
            return self.vmap(lambda x: self.aug(op, x, b), a)
        if isinstance(a, HList) and op == '+':
            from . import builtin
            builtin.call_method(self, a, 'extend', [b], {})
            return a
        if isinstance(a, HDict) and op == '|':
            from . import builtin
            builtin.call_method(self, a, 'update', [b], {})
            return a
        if isinstance(a, HObj):
            f, _ = a.cls.lookup('__i%s__' % DUNDER[op])
            if f is not None:
                return self.call(BoundV(a, f), [b], {})
        return self.binop(op, a, b)

    def set_name(self, name, v):
        fr = self.frame
        env = fr.env
        if name in env.globals_:
            env = self.module_env(env)
        elif name in env.nonlocals:
            e = env.parent
            while e is not None and not (e.locals and name in e.locals):
                e = e.parent
            env = e
        old = env.vars.get(name, UNDEF)
        if self.pc == TRUE or self.pc == fr.entry and env is fr.env:
            env.vars[name] = v
        elif env is fr.env:
            env.vars[name] = v_ite(bdd.constrain(self.pc, fr.entry), v, old)
        else:
            env.vars[name] = v_ite(self.pc, v, old)

    def module_env(self, env):
        return env.module.env

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.set_item(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported('assignment target')

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.live(v)
        if isinstance(v, Un) and all(isinstance(x, tuple)
                                     for _, x in v.alts):
            pass
        if isinstance(v, Un):
            n = len(elts)
            if star:
                self.unsupported('starred unpacking of a union')
            r = self.vmap(lambda x: self.unpack_items(x, n), v)
            items = r if isinstance(r, tuple) else self.unsupported('unpack')
        elif star:
            l = self.static_items(self.to_list(v))
            i = star[0]
            after = len(elts) - i - 1
            if len(l) < len(elts) - 1:
                self.throw(ValueError, 'not enough values to unpack')
                raise Dead()
            items = l[:i] + [self.new_list(l[i:len(l) - after])] + \
                l[len(l) - after:]
        else:
            items = self.unpack_items(v, len(elts))
        for e, x in zip(elts, items):
            self.assign(e, x)

    def unpack_items(self, v, n):
        if isinstance(v, tuple):
            items = v
        elif isinstance(v, Term) and v.ty == 'list':
            bad = neg(and_(T.list_ge(v, n), neg(T.list_ge(v, n + 1))))
            self.throw(ValueError, 'wrong number of values to unpack', bad)
            return tuple(T.list_item(v, i) for i in range(n))
        elif isinstance(v, HList):
            cnt = self.count([tuple(e) for e in v.ents])
            bad = neg(self.eq(cnt, n))
            self.throw(ValueError, 'wrong number of values to unpack', bad)
            return tuple(self.list_get([tuple(e) for e in v.ents], i)
                         for i in range(n))
        else:
            items = self.static_items(self.to_list(v))
        if len(items) != n:
            self.throw(ValueError, 'wrong number of values to unpack')
            raise Dead()
        return tuple(items)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
                self.set_name(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.del_item(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.get_attr(o, self.mangle(t.attr))
                if not isinstance(o, HObj) or not isinstance(
                        o.cls, ClassV) or \
                        o.cls.lookup('__delattr__')[0] is not None or \
                        o.cls.lookup(t.attr)[0] is not None:
                    self.unsupported('del attribute')
                self.raw_set(o, self.mangle(t.attr), UNDEF)
            else:
                self.unsupported('del')

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        base = self.pc
        p1 = self.run(s.body, and_(base, c))
        p2 = self.run(s.orelse, and_(base, neg(c))) if s.orelse else \
            and_(base, neg(c))
        self.pc = or_(p1, p2)
        if self.pc == FALSE:
            raise Dead()

    def x_While(self, s):
        loop = Loop()
        fr = self.frame
        fr.loops.append(loop)
        done = FALSE
        n = 0
        try:
            while True:
                try:
                    c = self.truth(self.eval(s.test))
                except Dead:
                    self.pc = FALSE
                    break
                done = or_(done, and_(self.pc, neg(c)))
                p = and_(self.pc, c)
                if p == FALSE:
                    break
                n += 1
                if n > self.MAX_LOOP:
                    self.unsupported('while loop does not end')
                p = self.run(s.body, p)
                p = or_(p, loop.cont)
                loop.cont = FALSE
                self.pc = p
                if p == FALSE:
                    break
        finally:
            fr.loops.pop()
        p = self.run(s.orelse, done) if s.orelse else done
        self.pc = or_(p, loop.brk)
        if self.pc == FALSE:
            raise Dead()

    def x_For(self, s):
        it = self.eval(s.iter)
        loop = Loop()
        fr = self.frame
        fr.loops.append(loop)

        def body(v):
            self.assign(s.target, v)
            p = self.run(s.body, self.pc)
            self.pc = or_(p, loop.cont)
            loop.cont = FALSE
            if self.pc == FALSE:
                raise Dead()
        try:
            try:
                self.for_each(it, body)
            except Dead:
                self.pc = FALSE
        finally:
            fr.loops.pop()
        p = self.pc
        if s.orelse:
            p = self.run(s.orelse, p)
        self.pc = or_(p, loop.brk)
        if self.pc == FALSE:
            raise Dead()

    def x_Break(self, s):
        l = self.frame.loops[-1]
        l.brk = or_(l.brk, self.pc)
        self.pc = FALSE
        raise Dead()

    def x_Continue(self, s):
        l = self.frame.loops[-1]
        l.cont = or_(l.cont, self.pc)
        self.pc = FALSE
        raise Dead()

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.frame.rets.append((self.pc, v))
        self.pc = FALSE
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            if not self.cur_exc or not self.cur_exc[-1]:
                self.throw(RuntimeError, 'No active exception to reraise')
                raise Dead()
            base = self.pc
            for g, e in self.cur_exc[-1]:
                p = and_(base, g)
                if p != FALSE:
                    self.handlers[-1].append((p, e))
            self.pc = FALSE
            raise Dead()
        e = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)

        def go(e):
            if isinstance(e, (ClassV, NativeClass)):
                e = self.call(e, [], {})
            if not isinstance(e, HObj):
                self.throw(TypeError, 'exceptions must derive from '
                           'BaseException')
                raise Dead()
            self.throw_obj(e)
        self.vmap(go, e)
        raise Dead()

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if and_(self.pc, neg(c)) != FALSE:
            base = self.pc
            self.pc = and_(base, neg(c))
            msg = self.eval(s.msg) if s.msg is not None else ''
            self.pc = base
            self.throw(AssertionError, msg, neg(c))

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_Try(self, s):
        fr = self.frame
        nrets = len(fr.rets)
        loops0 = [(l, l.brk, l.cont) for l in fr.loops]
        depth = self.depth
        self.handlers.append([])
        outer = self.frame
        p_ok = self.run(s.body, self.pc)
        self.frame, self.depth = outer, depth
        raised = self.handlers.pop()
        if s.finalbody:
            self.handlers.append([])
        if s.orelse and p_ok != FALSE:
            p_ok = self.run(s.orelse, p_ok)
        p_out = p_ok
        for h in s.handlers:
            if not raised:
                break
            if h.type is None:
                typ = self.native_class(BaseException)
            else:
                self.pc = bdd.disj([g for g, _ in raised])
                typ = self.eval(h.type)
            hit = [(g, e) for g, e in raised if self.exc_isa(e, typ)]
            raised = [(g, e) for g, e in raised if not self.exc_isa(e, typ)]
            if not hit:
                continue
            g = bdd.disj([x for x, _ in hit])
            self.pc = g
            if h.name:
                self.set_name(h.name, v_union(hit))
            self.cur_exc.append(hit)
            p = self.run(h.body, g)
            self.cur_exc.pop()
            p_out = or_(p_out, p)
        if s.finalbody:
            raised = raised + self.handlers.pop()
            leaving = bdd.disj([g for g, _ in raised] +
                               [g for g, _ in fr.rets[nrets:]])
            for l, b, c in loops0:
                leaving = or_(leaving, or_(and_(l.brk, neg(b)),
                                           and_(l.cont, neg(c))))
            allp = or_(p_out, leaving)
            if allp != FALSE:
                nrets1 = len(fr.rets)
                loops1 = [(l, l.brk, l.cont) for l in fr.loops]
                for l, b, c in loops0:
                    l.brk, l.cont = b, c
                p = self.run(s.finalbody, allp)
                p_out = and_(p, p_out)
                # what the final block itself leaves by replaces the rest
                stay = neg(and_(allp, neg(p)))
                for (l, b, c), (_, b0, c0) in zip(loops1, loops0):
                    l.brk = or_(l.brk, and_(b, stay) if b != b0 else b)
                    l.cont = or_(l.cont, and_(c, stay) if c != c0 else c)
                    if stay != TRUE:
                        l.brk = or_(l.brk, b0)
                        l.cont = or_(l.cont, c0)
                if stay != TRUE:
                    raised = [(and_(g, stay), e) for g, e in raised]
                    raised = [(g, e) for g, e in raised if g != FALSE]
                    fr.rets[nrets:nrets1] = [
                        (and_(g, stay), v) for g, v in fr.rets[nrets:nrets1]]
                    fr.rets[:] = [(g, v) for g, v in fr.rets if g != FALSE]
        self.handlers[-1].extend(raised)
        self.pc = p_out
        if p_out == FALSE:
            raise Dead()

    x_TryStar = None

    def x_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            p = self.run(body, self.pc)
            self.pc = p
            if p == FALSE:
                raise Dead()
            return
        it = items[0]
        cm = self.eval(it.context_expr)
        cm = self.live(cm)
        if isinstance(cm, Lazy) and cm.kind == 'genfunc' and \
                'contextmanager' in cm.a[0].attrs:
            # push style: the body runs at the yield
            state = {}

            fr = self.frame
            nrets = len(fr.rets)
            loops0 = [(l, l.brk, l.cont) for l in fr.loops]
            plain = not any(isinstance(n, (ast.Try, ast.With))
                            for n in ast.walk(cm.a[0].node))

            def consume(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                h = len(self.handlers[-1])
                self.with_items(items[1:], body)
                if len(fr.rets) != nrets or [
                        (l, l.brk, l.cont) for l in fr.loops] != loops0:
                    self.unsupported('leaving a generator context')
                if len(self.handlers[-1]) != h and not plain:
                    self.unsupported('exception in a generator context')

            def safe(v):
                try:
                    consume(v)
                except Dead:
                    if not plain or len(fr.rets) != nrets or [
                            (l, l.brk, l.cont) for l in fr.loops] != loops0:
                        self.unsupported('leaving a generator context')
                    raise
            self.run_generator(cm.a[0], cm.a[1], safe)
            if self.pc == FALSE:
                raise Dead()
            return
        if isinstance(cm, HObj) and cm.cls.lookup('__enter__')[0] is not None:
            v = self.call(self.get_attr(cm, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.handlers.append([])
            fr = self.frame
            nrets = len(fr.rets)
            loops0 = [(l, l.brk, l.cont) for l in fr.loops]
            try:
                self.with_items(items[1:], body)
                ok = self.pc
            except Dead:
                ok = FALSE
            raised = self.handlers.pop()
            leaving = bdd.disj([g for g, _ in fr.rets[nrets:]])
            for l, b, c in loops0:
                leaving = or_(leaving, or_(and_(l.brk, neg(b)),
                                           and_(l.cont, neg(c))))
            ex = self.get_attr_safe(cm, '__exit__', or_(ok, leaving))
            if or_(ok, leaving) != FALSE:
                self.pc = or_(ok, leaving)
                self.call(ex, [None, None, None], {})
                ok = and_(ok, self.pc)
            for g, e in raised:
                self.pc = g
                ex = self.get_attr(cm, '__exit__')
                r = self.truth(self.call(ex, [e.cls, e, None], {}))
                ok = or_(ok, and_(self.pc, r))
                rest = and_(self.pc, neg(r))
                if rest != FALSE:
                    self.handlers[-1].append((rest, e))
            self.pc = ok
            if ok == FALSE:
                raise Dead()
            return
        # files and streams
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm)
        try:
            self.with_items(items[1:], body)
        finally:
            if isinstance(cm, HFile):
                self.event('close', cm)

    def get_attr_safe(self, o, name, pc):
        if pc == FALSE:
            return None
        self.pc = pc
        return self.get_attr(o, name)

    def x_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.set_name(s.name, v)

    def make_func(self, node, name):
        f = FuncV()
        f.name, f.node = name, node
        fr = self.frame
        env = fr.env
        f.owner = None
        if env.is_class:
            f.owner = None          # set when the class is made
            f.env = env.parent
            f.qualname = '%s.%s' % (fr.func.qualname, name)
        else:
            f.env = env
            q = fr.func.qualname if fr.func is not None else ''
            f.qualname = '%s.%s' % (q, name) if q else name
        f.module = env.module
        a = node.args
        f.defaults = [self.eval(d) for d in a.defaults]
        f.kwdefaults = {x.arg: self.eval(d) for x, d in
                        zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cached = getattr(node, '_ln', None)
        if cached is None:
            cached = node._ln = local_names(node)
        f.localnames = cached
        f.is_gen = cached[3]
        f.attrs = {}
        if f.owner is None and fr.cls is not None and not env.is_class:
            f.owner = fr.cls
        return f

    def x_ClassDef(self, s):
        from . import builtin
        bases = [self.eval(b) for b in s.bases]
        kws = {k.arg: self.eval(k.value) for k in s.keywords}
        c = builtin.build_class(self, s, bases, kws)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.set_name(s.name, v)

    def x_Import(self, s):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.set_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.set_name(top, self.load(top))

    def x_ImportFrom(self, s):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            pkg = self.frame.env.module.name.split('.')
            if not self.frame.env.module.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                for k, v in m.env.vars.items():
                    if not k.startswith('_'):
                        self.set_name(k, v)
                continue
            v = m.env.vars.get(a.name, UNDEF)
            if v is UNDEF:
                v = self.try_submodule(m, a.name)
                if v is None:
                    self.throw(ImportError, 'cannot import name %r from %r' %
                               (a.name, name))
                    raise Dead()
            self.set_name(a.asname or a.name, v)

    def x_Match(self, s):
        subj = self.eval(s.subject)
        rest = self.pc
        out = FALSE
        for case in s.cases:
            if rest == FALSE:
                break
            self.pc = rest
            binds = {}
            c = self.match_pattern(case.pattern, subj, binds)
            self.pc = and_(rest, c)
            if self.pc == FALSE:
                continue
            for k, v in binds.items():
                self.set_name(k, v)
            if case.guard is not None:
                g = self.truth(self.eval(case.guard))
                c = and_(c, g)
            p = self.run(case.body, and_(rest, c))
            out = or_(out, p)
            rest = and_(rest, neg(c))
        self.pc = or_(out, rest)
        if self.pc == FALSE:
            raise Dead()

    def match_pattern(self, p, v, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = or_(r, self.match_pattern(q, v, binds))
            return r
        if isinstance(p, ast.MatchAs):
            c = TRUE
            if p.pattern is not None:
                c = self.match_pattern(p.pattern, v, binds)
            if p.name:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Un):
                self.unsupported('sequence pattern on union')
            if not isinstance(v, (tuple, HList)):
                return FALSE
            items = v if isinstance(v, tuple) else self.static_items(v)
            if len(items) != len(p.patterns):
                return FALSE
            return bdd.conj([self.match_pattern(q, x, binds)
                             for q, x in zip(p.patterns, items)])
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            from . import builtin
            return builtin.isinstance_(self, v, self.eval(p.cls))
        self.unsupported('match pattern')

    # -------------------------------------------------------- modules
    is_pkg = False

    def module_path(self, name):
        if name in self.extra:
            return self.extra[name], False
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            i = os.path.join(p, '__init__.py')
            return (i if os.path.exists(i) else p), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.module_path(name)
        if path is None:
            from . import builtin
            m = builtin.stub_module(self, name)
            if m is None and name.split('.')[0] in sys.stdlib_module_names:
                self.unsupported('module ' + name)
            if m is None:
                self.throw(ModuleNotFoundError, "No module named '%s'" % name)
                raise Dead()
            m.is_pkg = True
            self.modules[name] = m
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        m = ModV(name, path)
        m.is_pkg = pkg
        self.modules[name] = m
        if os.path.isfile(path):
            self.exec_module(m, path)
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            self.modules[parent].env.vars[leaf] = m
        return m

    def exec_module(self, m, path):
        with open(path, 'rb') as f:
            src = f.read()
        self.sources[path] = src
        m.env.vars['__name__'] = m.name
        m.env.vars['__file__'] = path
        m.env.vars['__doc__'] = None
        tree = ast.parse(src, path)
        fr = Frame(None, m.env, TRUE)
        saved = self.frame, self.pc, self.depth
        f = FuncV()
        f.module, f.qualname, f.name, f.node = m, '', '<module>', None
        f.owner = None
        fr.func = f
        self.frame, self.pc = fr, TRUE
        self.handlers.append([])
        try:
            self.run(tree.body, TRUE)
        finally:
            self.frame, self.pc, self.depth = saved
        raised = self.handlers.pop()
        if raised:
            e = raised[0][1]
            x = AnchorMissing('importing %s raises %s%r' %
                              (m.name, e.cls.name, e.attrs.get('args')))
            x.path = path
            raise x

    def try_submodule(self, m, name):
        full = m.name + '.' + name
        if full in self.modules:
            return self.modules[full]
        path, _ = self.module_path(full)
        if path is None:
            return None
        if m.path is None:
            return None
        return self.load(full)

    # -------------------------------------------------------- events
    def event(self, kind, *payload):
        self.events.append((self.pc, kind, payload))

    # -------------------------------------------------------- expressions
    def eval(self, e):
        self.nodes += 1
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            self.unsupported('expression %s' % e.__class__.__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def settled(self, v):
        """The constant an int is under the guard, or the int."""
        pc, n = self.pc, 0
        if pc == FALSE:
            return v
        bits = v.bits
        for i in range(len(bits) - 1, -1, -1):
            if and_(pc, bits[i]) == FALSE:
                b = 0
            elif and_(pc, neg(bits[i])) == FALSE:
                b = 1
            else:
                return v
            n = (-b if i == len(bits) - 1 else 2 * n + b)
        return n

    def e_Name(self, e):
        name = e.id
        env = self.frame.env
        first = True
        while env is not None:
            if (first or not env.is_class) and not (
                    first and name in env.globals_):
                v = env.vars.get(name, UNDEF)
                if v is not UNDEF:
                    if isinstance(v, Un):
                        return self.defined(v, name)
                    if isinstance(v, BV) and self.pc != self.frame.entry:
                        return self.settled(v)
                    return v
                if env.locals is not None and name in env.locals:
                    self.throw(UnboundLocalError,
                               "local variable '%s' referenced before "
                               "assignment" % name)
                    raise Dead()
            first = False
            env = env.parent
        v = self.frame.env.module.env.vars.get(name, UNDEF)
        if v is not UNDEF:
            if isinstance(v, Un):
                return self.defined(v, name)
            return v
        v = self.builtins.get(name)
        if v is not None:
            return v
        if name in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[name]
        self.throw(NameError, "name '%s' is not defined" % name)
        raise Dead()

    def defined(self, v, name):
        und = [g for g, x in v.alts if x is UNDEF]
        if und:
            u = bdd.disj(und)
            if and_(u, self.pc) != FALSE:
                self.throw(UnboundLocalError, "local variable '%s' referenced "
                           "before assignment" % name, u)
            v = v_union([(g, x) for g, x in v.alts if x is not UNDEF])
        return self.live(v)

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and \
                self.frame.cls is not None:
            return '_%s%s' % (self.frame.cls.name.lstrip('_'), name)
        return name

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), self.mangle(e.attr))

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.static_items(self.to_list(
                    self.eval(x.value))))
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            l = self.new_list()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    l.ents.extend(self.to_list(self.eval(x.value)).ents)
                else:
                    l.ents.append([TRUE, self.eval(x)])
            return l
        items = self.elts(e.elts)
        return self.new_list(items)

    def e_Set(self, e):
        d = self.new_dict('set')
        for x in self.elts(e.elts):
            self.dict_set(d, x, None)
        return d

    def e_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                from . import builtin
                builtin.call_method(self, d, 'update', [self.eval(v)], {})
            else:
                kk = self.eval(k)
                self.dict_set(d, kk, self.eval(v))
        d.version = 0
        return d

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        base = self.pc
        out, after = [], FALSE
        for g, x in ((c, e.body), (neg(c), e.orelse)):
            p = and_(base, g)
            if p == FALSE:
                continue
            self.pc = p
            try:
                v = self.eval(x)
            except Dead:
                continue
            out.append((g, v))
            after = or_(after, self.pc)
        self.pc = after
        if after == FALSE:
            raise Dead()
        return v_union(out)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for x in e.values[1:]:
            c = self.truth(v)
            if not is_and:
                c = neg(c)
            # c: evaluate the next operand
            base = self.pc
            p = and_(base, c)
            if p == FALSE:
                return v
            self.pc = p
            try:
                w = self.eval(x)
                after = self.pc
            except Dead:
                w, after = None, FALSE
            self.pc = or_(after, and_(base, neg(c)))
            if self.pc == FALSE:
                raise Dead()
            if after == FALSE:
                continue
            if and_(base, neg(c)) == FALSE:
                v = w
            else:
                v = v_union([(neg(c), self.under(neg(c), v)), (c, w)])
        return v

    def under(self, g, v):
        """Refine v by a guard (drop impossible alternatives)."""
        if isinstance(v, Un):
            p = and_(self.pc, g)
            out = [(h, x) for h, x in v.alts if and_(h, p) != FALSE]
            if out and len(out) < len(v.alts):
                return v_union(out)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return sb(neg(self.truth(v)))
        return self.vmap(lambda x: self.unary(e.op, x), v)

    def unary(self, op, v):
        if isinstance(v, HObj):
            n = {ast.USub: '__neg__', ast.UAdd: '__pos__',
                 ast.Invert: '__invert__'}[type(op)]
            f, _ = v.cls.lookup(n)
            if f is not None:
                return self.call(BoundV(v, f), [], {})
        if isinstance(v, float):
            return -v if isinstance(op, ast.USub) else v
        if is_intlike(v):
            if isinstance(op, ast.USub):
                return V.negate(v)
            if isinstance(op, ast.Invert):
                return V.inv(v)
            return V.bv(V.bits_of(v))
        if T.is_tint(v):
            if isinstance(op, ast.USub):
                return T.i_scale(v, -1)
            if isinstance(op, ast.UAdd):
                return v
            return T.i_add(T.i_scale(v, -1), -1)
        self.throw(TypeError, 'bad operand type for unary operator')
        raise Dead()

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if op == '+':
            if isinstance(a, Un):
                a = T.digit_union(a)
            if isinstance(b, Un):
                b = T.digit_union(b)
        if isinstance(a, Un):
            return self.vmap(lambda x: self.binop(op, x, b), a)
        ta, tb = type(a), type(b)
        if op == '%' and T.is_str(a):
            from . import builtin
            return builtin.percent(self, a, b)
        if isinstance(b, Un):
            return self.vmap(lambda x: self.binop(op, a, x), b)
        if ta in (int, bool, float) and tb in (int, bool, float):
            try:
                if op == '**' and isinstance(b, int) and abs(b) > 100000:
                    self.unsupported('huge power')
                if op == '<<' and b > 100000:
                    self.unsupported('huge shift')
                return _nat(op, a, b)
            except (ZeroDivisionError, ValueError, TypeError,
                    OverflowError) as ex:
                self.throw(type(ex), str(ex))
                raise Dead()
        if is_intlike(a) and is_intlike(b):
            return self.int_op(op, a, b)
        if isinstance(a, HObj):
            f, _ = a.cls.lookup('__%s__' % DUNDER[op])
            if f is not None:
                v = self.call(BoundV(a, f), [b], {})
                if v is not NotImplemented:
                    return self.implemented(v)
        if isinstance(b, HObj):
            f, _ = b.cls.lookup('__r%s__' % DUNDER[op])
            if f is not None:
                v = self.call(BoundV(b, f), [a], {})
                if v is not NotImplemented:
                    return self.implemented(v)
        if isinstance(a, HObj) and a.cls.fields is not None:
            return self.binop(op, self.nt_tuple(a), b)
        if isinstance(b, HObj) and getattr(b.cls, 'fields', None) is not None:
            return self.binop(op, a, self.nt_tuple(b))
        if T.is_tint(a) and (is_intlike(b) or T.is_tint(b)) or \
                T.is_tint(b) and is_intlike(a):
            return self.tint_op(op, a, b)
        if T.is_str(a) and T.is_str(b) and op == '+':
            return T.cat(a, b)
        if op == '*' and T.is_str(b):
            a, b = b, a
        if op == '*' and T.is_str(a):
            if isinstance(b, int):
                return T.cat(*([a] * b)) if b > 0 else ''
            if isinstance(b, (BV, V.SB)):
                from .builtin import by_cases
                return by_cases(self, b, lambda n: mk('repeat', a, n)
                                if isinstance(n, BV) else
                                T.cat(*([a] * max(n, 0))))
            if is_int(b) or T.is_tint(b):
                return mk('repeat', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if op == '*' and isinstance(b, (tuple, HList)):
            a, b = b, a
        if op == '*' and isinstance(a, tuple) and isinstance(b, int):
            return a * b
        if op == '*' and isinstance(a, tuple) and is_intlike(b):
            from .builtin import by_cases
            return by_cases(self, b, lambda n: a * self.times(n))
        if isinstance(a, HList):
            if op == '+' and isinstance(b, HList):
                l = self.new_list()
                l.ents = [list(x) for x in a.ents] + [list(x) for x in b.ents]
                return l
            if op == '*' and isinstance(b, int):
                l = self.new_list()
                l.ents = [list(x) for _ in range(b) for x in a.ents]
                return l
            if op == '*' and is_intlike(b):
                l = self.new_list()
                l.ents = []
                cases = V.cases_int(b, self.pc, 64)
                if cases is None:
                    self.unsupported('list repeated a symbolic number of '
                                     'times')
                for i in range(max([n for _, n in cases] + [0])):
                    g = FALSE
                    for h, n in cases:
                        if n > i:
                            g = or_(g, h)
                    for x in a.ents:
                        x = list(x)
                        x[0] = and_(x[0], g)
                        if x[0] != FALSE:
                            l.ents.append(x)
                return l
        if isinstance(a, HDict) and isinstance(b, HDict):
            from . import builtin
            return builtin.dict_op(self, op, a, b)
        if isinstance(a, Lazy) and a.kind == 'keys' or \
                isinstance(b, Lazy) and b.kind == 'keys':
            from . import builtin
            return builtin.dict_op(self, op, builtin.make_set(self, a),
                                   builtin.make_set(self, b))
        if isinstance(a, Term) and a.ty == 'list' and op == '+' or \
                isinstance(b, Term) and b.ty == 'list' and op == '+':
            self.unsupported('concatenation of opaque lists')
        if isinstance(a, Term) and a.ty in ('obj', 'float') or \
                isinstance(b, Term) and b.ty in ('obj', 'float'):
            return mk('op', op, a, b, ty='float')
        if isinstance(a, float) and (is_intlike(b) or T.is_tint(b)) or \
                isinstance(b, float) and (is_intlike(a) or T.is_tint(a)):
            return mk('op', op, a, b, ty='float')
        if isinstance(a, Term) or isinstance(b, Term):
            self.unsupported('%s of opaque values' % op)
        self.throw(TypeError, 'unsupported operand type(s) for %s' % op)
        raise Dead()

    def times(self, n):
        if not isinstance(n, int):
            self.unsupported('repeated a symbolic number of times')
        return max(n, 0)

    def int_op(self, op, a, b):
        if op == '+':
            return V.add(a, b)
        if op == '-':
            return V.sub(a, b)
        if op == '&':
            return self._bool_if(a, b, V.bitop(and_, a, b))
        if op == '|':
            return self._bool_if(a, b, V.bitop(or_, a, b))
        if op == '^':
            return self._bool_if(a, b, V.bitop(bdd.xor, a, b))
        if op == '*':
            return V.mul(a, b)
        if op in ('<<', '>>'):
            ng = self.lt(b, 0)
            if ng != FALSE:
                self.throw(ValueError, 'negative shift count', ng)
            b = V.bv(V.bits_of(b))
            return V.shl(a, b, self.pc) if op == '<<' else \
                V.shr(a, b, self.pc)
        if op == '**':
            if isinstance(a, int) and not isinstance(a, bool) and \
                    a > 0 and a & (a - 1) == 0:
                ng = self.lt(b, 0)
                if and_(ng, self.pc) == FALSE:
                    k = a.bit_length() - 1
                    return V.shl(1, V.mul(b, k), self.pc)
            if isinstance(b, int) and b >= 0:
                r = 1
                for _ in range(b):
                    r = V.mul(r, a)
                return r
        if op in ('//', '%'):
            z = V.eq_int(b, 0)
            if and_(z, self.pc) != FALSE:
                self.throw(ZeroDivisionError, 'division by zero', z)
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return V.shr_const(a, k) if op == '//' else \
                    V.bitop(and_, a, b - 1)
            if isinstance(b, int) and b > 0:
                return self.divmod_const(op, a, b)
        # fall back on the finite set of values
        out = []
        try:
            ca = V.cases_int(a, self.pc, 600)
            for g, x in ca:
                for h, y in V.cases_int(b, g, 600):
                    r = _nat(op, x, y)
                    out.append((h, r))
                    if len(out) > 5000:
                        self.unsupported('int op %s' % op)
        except ZeroDivisionError:
            self.unsupported('division')
        return v_union(out)

    def divmod_const(self, op, a, b):
        """Floor division of an int by a positive constant."""
        bits = V.bits_of(a)
        # a = -2^(n-1)*s + u ; work on a + b*2^n to be non-negative
        n = len(bits)
        off = b << n
        u = V.add(a, off)
        ub = V.bits_of(u)
        rem, q = 0, []
        for k in range(len(ub) - 2, -1, -1):
            rem = V.add(V.shl_const(rem, 1), V.bv((ub[k], FALSE)))
            ge = neg(V.lt_int(rem, b))
            rem = V.ite_int(ge, V.sub(rem, b), rem)
            q.append(ge)
        if op == '%':
            return rem
        q = V.bv(list(reversed(q)) + [FALSE])
        return V.sub(q, 1 << n)

    def _bool_if(self, a, b, r):
        if V.is_boollike(a) and V.is_boollike(b):
            return sb(V.nonzero(r))
        return r

    def tint_op(self, op, a, b):
        if op == '+':
            return T.i_add(a, b)
        if op == '-':
            return T.i_add(a, b, -1)
        if op == '*':
            if isinstance(b, int):
                return T.i_scale(a, int(b))
            if isinstance(a, int):
                return T.i_scale(b, int(a))
            return mk('imul', a, b, ty='int')
        if op in ('//', '%'):
            z = T.t_cmp_eq(b, 0) if T.is_tint(b) else self.eq(b, 0)
            self.throw(ZeroDivisionError, 'division by zero', z)
            return mk('idiv' if op == '//' else 'imod', a, b, ty='int')
        return mk('op', op, a, b, ty='float')

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = TRUE
        base_after = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            if i:
                # short circuit
                base = self.pc
                p = and_(base, res)
                if p == FALSE:
                    return False
                self.pc = p
                try:
                    right = self.eval(r)
                    c = self.truth(self.compare2(op, left, right))
                    after = self.pc
                except Dead:
                    after, c = FALSE, FALSE
                    right = None
                self.pc = or_(after, and_(base, neg(res)))
                if self.pc == FALSE:
                    raise Dead()
                res = and_(res, c)
            else:
                right = self.eval(r)
                v = self.compare2(op, left, right)
                if len(e.ops) == 1:
                    return v
                res = self.truth(v)
            left = right
        return sb(res)

    def compare2(self, op, a, b):
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and (
                isinstance(a, Un) or isinstance(b, Un)):
            if isinstance(a, Un):
                return self.vmap(lambda x: self.compare2(op, x, b), a)
            return self.vmap(lambda x: self.compare2(op, a, x), b)
        return self.compare(op, a, b)

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args and 'super' not in self.frame.env.vars:
            return self.zero_super()
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.static_items(self.to_list(
                    self.eval(a.value))))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                v = self.live(v)
                if not isinstance(v, HDict):
                    self.unsupported('** of a non-dict')
                for en in v.ents:
                    if and_(self.pc, neg(en.g)) != FALSE:
                        self.unsupported('** with conditional keys')
                    kw[en.k] = en.v
            else:
                kw[k.arg] = v
        if self.frame is not None:
            self.frame.line = e.lineno
        return self.call(f, args, kw)

    def zero_super(self):
        fr = self.frame
        env = fr.env
        cls = fr.cls
        if cls is None:
            self.throw(RuntimeError, 'super(): no arguments')
            raise Dead()
        a = fr.func.node.args
        names = a.posonlyargs + a.args
        return SuperV(cls, env.vars[names[0].arg])

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        return self.get_item(o, k)

    def e_Slice(self, e):
        return SliceV(self.eval(e.lower) if e.lower else None,
                      self.eval(e.upper) if e.upper else None,
                      self.eval(e.step) if e.step else None)

    def e_Starred(self, e):
        self.unsupported('starred')

    def e_JoinedStr(self, e):
        from . import builtin
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                if v.conversion == 114:
                    x = builtin.to_repr(self, x)
                elif v.conversion == 115:
                    x = builtin.to_str(self, x)
                parts.append(builtin.format_value(self, x, spec))
        return builtin.cat_values(self, parts)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        env = self.frame.env
        # assign in the enclosing function scope
        while env.locals is None and env.parent is not None and \
                not env.is_class and env is not env.module.env:
            env = env.parent
        saved = self.frame.env
        self.frame.env = env
        try:
            self.set_name(e.target.id, v)
        finally:
            self.frame.env = saved
        return v

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        if self.frame.yield_to is None:
            self.unsupported('yield outside a driven generator')
        self.frame.yield_to(v)
        return None

    def e_YieldFrom(self, e):
        it = self.eval(e.value)
        y = self.frame.yield_to
        me = self.frame

        def fn(v):
            y(v)
        value = None
        if isinstance(it, Lazy) and it.kind == 'genfunc':
            if it.used != FALSE or it.partial:
                self.unsupported('resumed generator')
            self.for_each(it, fn)
            value = self.gen_value
        elif self.expr_stmt is e or isinstance(it, (
                str, tuple, range, HList, HDict, Lazy)):
            self.for_each(it, fn)
        else:
            self.unsupported('value of yield from')
        if self.pc == FALSE:
            raise Dead()
        return value

    expr_stmt = None

    def comp_loop(self, gens, i, env, frame, first, fn):
        """Run comprehension clauses; fn() at the innermost level."""
        if i == len(gens):
            fn()
            return
        g = gens[i]
        saved_frame = self.frame
        saved_env = frame.env
        self.frame = frame
        frame.env = env
        try:
            it = first if i == 0 and first is not None else self.eval(g.iter)
        finally:
            frame.env = saved_env
            self.frame = saved_frame

        def body(v):
            sf, se, ent = self.frame, frame.env, frame.entry
            self.frame = frame
            frame.env = env
            frame.entry = TRUE if self.pc == TRUE else self.pc
            try:
                env_assign = self.assign
                # comprehension variables are per iteration
                self.assign_fresh(g.target, v, env)
                base = self.pc
                off = FALSE
                for c in g.ifs:
                    t = self.truth(self.eval(c))
                    off = or_(off, and_(self.pc, neg(t)))
                    self.pc = and_(self.pc, t)
                    if self.pc == FALSE:
                        break
                if self.pc != FALSE:
                    try:
                        self.comp_loop(gens, i + 1, env, frame, None, fn)
                    except Dead:
                        self.pc = FALSE
                self.pc = or_(self.pc, off)
                if self.pc == FALSE:
                    raise Dead()
            finally:
                self.frame, frame.env, frame.entry = sf, se, ent
        self.for_each(it, body)

    def assign_fresh(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                self.unsupported('starred comprehension target')
            v = self.live(v)
            items = self.vmap(lambda x: self.unpack_items(x, len(t.elts)), v)
            for e, x in zip(t.elts, items):
                self.assign_fresh(e, x, env)
        else:
            self.unsupported('comprehension target')

    def comp_env(self):
        env = Env(self.frame.env.module, self.frame.env)
        return env

    def e_ListComp(self, e):
        out = self.new_list()
        base = self.pc

        def fn():
            v = self.eval(e.elt)
            out.ents.append([bdd.constrain(self.pc, base), v])
        self.comp_loop(e.generators, 0, self.comp_env(), self.frame, None, fn)
        if self.pc == FALSE:
            raise Dead()
        return out

    def e_SetComp(self, e):
        out = self.new_dict('set')
        self.comp_loop(e.generators, 0, self.comp_env(), self.frame, None,
                       lambda: self.dict_set(out, self.eval(e.elt), None))
        if self.pc == FALSE:
            raise Dead()
        return out

    def e_DictComp(self, e):
        out = self.new_dict()

        def fn():
            k = self.eval(e.key)
            self.dict_set(out, k, self.eval(e.value))
        self.comp_loop(e.generators, 0, self.comp_env(), self.frame, None, fn)
        if self.pc == FALSE:
            raise Dead()
        return out

    def e_GeneratorExp(self, e):
        first = self.eval(e.generators[0].iter)
        return Lazy('genexp', e, self.comp_env(), self.frame, first)

    # -------------------------------------------------------- subscripts
    def as_index(self, k):
        if isinstance(k, HObj):
            f, _ = k.cls.lookup('__index__')
            if f is not None:
                return self.call(BoundV(k, f), [], {})
        if isinstance(k, SB):
            return V.bv((k.b, FALSE))
        if isinstance(k, bool):
            return int(k)
        return k

    def get_item(self, o, k):
        if isinstance(o, Un):
            return self.get_union_item(o, k)
        if isinstance(o, HDict):
            return self.dict_get(o, k)
        if isinstance(o, HObj):
            if getattr(o.cls, 'fields', None) is not None:
                return self.get_item(self.nt_tuple(o), k)
            f, _ = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(BoundV(o, f), [k], {})
            self.throw(TypeError, 'object is not subscriptable')
            raise Dead()
        if isinstance(k, Un):
            return self.vmap(lambda x: self.get_item(o, x), k)
        if isinstance(k, SliceV) and any(
                isinstance(x, Un) for x in (k.start, k.stop, k.step)):
            return self.vmap(lambda a: self.vmap(lambda b: self.vmap(
                lambda c: self.get_item(o, SliceV(a, b, c)), k.step),
                k.stop), k.start)
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                if all(x is None or isinstance(x, int)
                       for x in (k.start, k.stop, k.step)):
                    return o[k.start:k.stop:k.step]
                l = self.new_list()
                l.ents = self.slice_ents([(TRUE, x) for x in o], k)
                return l
            k = self.as_index(k)
            self.need_int(k)
            return self.list_get([(TRUE, x) for x in o], k)
        if isinstance(o, HList):
            if isinstance(k, SliceV):
                l = self.new_list()
                l.ents = self.slice_ents([tuple(e) for e in o.ents], k)
                return l
            k = self.as_index(k)
            self.need_int(k)
            return self.list_get([tuple(e) for e in o.ents], k)
        if T.is_str(o):
            return self.str_item(o, k)
        if isinstance(o, range):
            if isinstance(k, SliceV):
                return o[k.start:k.stop:k.step]
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.throw(IndexError, 'range index out of range')
                    raise Dead()
            return self.list_get([(TRUE, x) for x in o], k)
        if isinstance(o, RangeV) and o.step == 1 and is_int(k):
            back = self.lt(k, 0)
            v = v_ite(back, self.binop('+', o.stop, k),
                      self.binop('+', o.start, k))
            self.throw(IndexError, 'range object index out of range',
                       cond=or_(self.lt(v, o.start),
                                neg(self.lt(v, o.stop))))
            return v
        if isinstance(o, Term) and o.ty == 'list':
            return self.term_list_item(o, k)
        if isinstance(o, Lazy) or o is None or is_intlike(o) or \
                isinstance(o, float) or isinstance(o, (FuncV, BoundV)):
            self.throw(TypeError, 'object is not subscriptable')
            raise Dead()
        if isinstance(o, ClassV):
            if o.is_enum:
                d = self.new_dict()
                for n, v in o.members.items():
                    self.dict_set(d, n, v)
                return self.dict_get(d, k)
            return o                 # Generic[...]
        if isinstance(o, (NativeClass, BuiltinV)):
            return o                 # list[int] in annotations
        self.unsupported('subscript of %s' % type(o).__name__)

    def need_int(self, k):
        if not (is_intlike(k) or T.is_tint(k)):
            self.throw(TypeError, 'indices must be integers or slices')
            raise Dead()

    def get_union_item(self, o, k):
        groups, order = {}, []
        for g, x in o.alts:
            if and_(g, self.pc) == FALSE:
                continue
            kk = id(x.cls) if isinstance(x, HObj) and \
                x.cls.lookup('__getitem__')[0] is not None else ('v', id(x))
            groups.setdefault(kk, []).append((g, x))
            if kk not in order:
                order.append(kk)
        base, after, out = self.pc, FALSE, []
        for kk in order:
            items = groups[kk]
            g = bdd.disj([h for h, _ in items])
            self.pc = and_(base, g)
            if self.pc == FALSE:
                continue
            try:
                if len(items) == 1:
                    r = self.get_item(items[0][1], k)
                else:
                    f, _ = items[0][1].cls.lookup('__getitem__')
                    r = self.call(BoundV(Un(items), f), [k], {})
            except Dead:
                continue
            out.append((g, r))
            after = or_(after, self.pc)
        self.pc = after
        if after == FALSE:
            raise Dead()
        return v_union(out)

    def str_item(self, o, k):
        if isinstance(k, SliceV):
            a, b, st = k.start, k.stop, k.step
            if isinstance(o, str) and all(x is None or isinstance(x, int)
                                          for x in (a, b, st)):
                return o[a:b:st]
            if st in (None, 1) and all(x is None or isinstance(x, int)
                                       for x in (a, b)):
                return T.t_slice(o, a, b)
            if st in (None, 1):
                a = 0 if a is None else a
                r = self.find_slice(o, a, b)
                if r is not None:
                    return r
                if isinstance(a, (BV, V.SB)) or isinstance(b, (BV, V.SB)):
                    from .builtin import by_cases

                    def part(x, y):
                        if any(isinstance(z, (BV, V.SB)) for z in (x, y)):
                            return mk('slice2', o, x, y)
                        return self.str_item(o, SliceV(x, y, None))
                    return by_cases(self, a, lambda x: by_cases(
                        self, b, lambda y: part(x, y)))
                return mk('slice2', o, a, b)
            self.unsupported('string slice step')
        k = self.as_index(k)
        self.need_int(k)
        if isinstance(k, int):
            if isinstance(o, str):
                try:
                    return o[k]
                except IndexError:
                    self.throw(IndexError, 'string index out of range')
                    raise Dead()
            if k >= 0:
                bad = neg(T.t_ge(T.t_len(o), k + 1))
                self.throw(IndexError, 'string index out of range', bad)
                s = T.t_slice(o, k, k + 1)
                return s
            bad = neg(T.t_ge(T.t_len(o), -k))
            self.throw(IndexError, 'string index out of range', bad)
            return mk('idx', o, k)
        if isinstance(o, str) and isinstance(k, (BV, V.SB)):
            from .builtin import by_cases
            return by_cases(self, k, lambda i: self.str_item(o, i)
                            if isinstance(i, int) else
                            mk('idx', o, self.norm_index(i, len(o))))
        n = T.t_len(o)
        i = self.norm_index(k, n)
        return mk('idx', o, i)

    def find_slice(self, o, a, b):
        """o[:o.find(s)] and o[o.find(s) + len(s):]."""
        at = b if a == 0 and isinstance(a, int) else a if b is None else None
        if not isinstance(o, Term) or not T.is_tint(at):
            return None
        k, parts = T.lin_of(at)
        parts = list(parts.values())
        if len(parts) != 1 or parts[0][1] != 1:
            return None
        f = parts[0][0]
        if f.op != 'scall' or f.args[0] != 'find' or len(f.args) != 3 or \
                f.args[1] is not o or not isinstance(f.args[2], str) or \
                not f.args[2]:
            return None
        sep = f.args[2]
        has = T.t_in(sep, o)
        if at is b and k == 0:
            yes, no = mk('before', o, sep), T.t_slice(o, 0, -1)
        elif at is a and k == len(sep):
            yes, no = mk('after', o, sep), T.t_slice(o, k - 1, None)
        else:
            return None
        if and_(self.pc, neg(has)) == FALSE:
            return yes
        if and_(self.pc, has) == FALSE:
            return no
        return v_union([(has, yes), (neg(has), no)])

    def term_list_item(self, o, k):
        if isinstance(k, SliceV):
            return mk('slice', o, k.start, k.stop, ty='list')
        k = self.as_index(k)
        if isinstance(k, int):
            need = k + 1 if k >= 0 else -k
            bad = neg(T.list_ge(o, need))
            self.throw(IndexError, 'list index out of range', bad)
            return T.list_item(o, k)
        self.unsupported('symbolic index into an opaque list')

    def set_item(self, o, k, v):
        if isinstance(o, Un):
            groups, order = {}, []
            for g, x in o.alts:
                if and_(g, self.pc) == FALSE:
                    continue
                kk = id(x.cls) if isinstance(x, HObj) and \
                    x.cls.lookup('__setitem__')[0] is not None \
                    else ('v', id(x))
                groups.setdefault(kk, []).append((g, x))
                if kk not in order:
                    order.append(kk)
            base, after = self.pc, FALSE
            for kk in order:
                items = groups[kk]
                g = bdd.disj([h for h, _ in items])
                self.pc = and_(base, g)
                if self.pc == FALSE:
                    continue
                try:
                    if len(items) == 1:
                        self.set_item(items[0][1], k, v)
                    else:
                        f, _ = items[0][1].cls.lookup('__setitem__')
                        self.call(BoundV(Un(items), f), [k, v], {})
                except Dead:
                    continue
                after = or_(after, self.pc)
            self.pc = after
            if after == FALSE:
                raise Dead()
            return
        if isinstance(o, HDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, HList):
            if isinstance(k, SliceV):
                l = self.to_list(v)
                n = len(o.ents)
                if k.start is None and k.stop is None and k.step is None:
                    g = self.grel(o)
                    if g == TRUE:
                        o.ents = [list(e) for e in l.ents]
                    else:
                        o.ents = [[and_(e[0], neg(g)), e[1]]
                                  for e in o.ents] + \
                            [[and_(e[0], g), e[1]] for e in l.ents]
                        o.ents = [e for e in o.ents if e[0] != FALSE]
                    o.version += 1
                    return
                if self.grel(o) == TRUE and all(
                        e[0] == TRUE for e in o.ents) and all(
                        e[0] == TRUE for e in l.ents) and all(
                        x is None or isinstance(x, int)
                        for x in (k.start, k.stop, k.step)):
                    o.ents[k.start:k.stop:k.step] = [list(e) for e in l.ents]
                    o.version += 1
                    return
                self.unsupported('list slice assignment')

            def st(i):
                self.need_int(i)
                self.list_set(o, self.as_index(i), v)
            self.vmap(st, k)
            return
        if isinstance(o, HObj):
            f, _ = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(BoundV(o, f), [k, v], {})
                return
        self.throw(TypeError, 'object does not support item assignment')
        raise Dead()

    def del_item(self, o, k):
        if isinstance(o, Un):
            self.vmap(lambda x: self.del_item(x, k), o)
        elif isinstance(o, HDict):
            self.dict_del(o, k)
        elif isinstance(o, HList):
            if isinstance(k, SliceV):
                if k.start is None and k.stop is None and k.step is None:
                    from . import builtin
                    builtin.call_method(self, o, 'clear', [], {})
                    return
                if self.grel(o) == TRUE and all(
                        e[0] == TRUE for e in o.ents) and all(
                        x is None or isinstance(x, int)
                        for x in (k.start, k.stop, k.step)):
                    del o.ents[k.start:k.stop:k.step]
                    o.version += 1
                    return
                self.unsupported('del slice')
            self.vmap(lambda i: self.list_del(o, self.as_index(i)), k)
        elif isinstance(o, HObj):
            f, _ = o.cls.lookup('__delitem__')
            if f is None:
                self.throw(TypeError, 'object does not support item deletion')
                raise Dead()
            self.call(BoundV(o, f), [k], {})
        else:
            self.throw(TypeError, 'object does not support item deletion')
            raise Dead()

    # -------------------------------------------------------- files
    def file_rest(self, f):
        l = self.new_list()
        l.ents = [list(e) for e in f.lines.ents]
        return l

    # -------------------------------------------------------- driver API
    def attempt(self, fn):
        """Run fn(); return (value or UNDEF, ok guard, [(guard, exc)]).
        Afterwards pc is what it was before: both outcomes continue."""
        base = self.pc
        self.handlers.append([])
        frame, depth = self.frame, self.depth
        nh = len(self.handlers)
        try:
            v = fn()
            ok = self.pc
        except Dead:
            v, ok = UNDEF, FALSE
        self.frame, self.depth = frame, depth
        del self.handlers[nh:]
        raised = self.handlers.pop()
        self.pc = base
        return v, ok, raised
