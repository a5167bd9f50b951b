"""Comparing and walking the abstract heap (C29)."""
from . import bdd, values as V
from .bdd import TRUE, FALSE, and_, or_, neg
from .values import Term, BV, SB, Un, UNDEF
from .interp import (HObj, HList, HDict, HIter, FuncV, ClassV, ModV, BoundV,
                     PropV, StaticV, PartialV, BuiltinV)


def children(v):
    """(guard, name, value) of the parts of a heap object."""
    if isinstance(v, HObj):
        return [(TRUE, '.' + k, x) for k, x in v.attrs.items()]
    if isinstance(v, HList):
        return [(e[0], '[%d]' % i, e[1]) for i, e in enumerate(v.ents)]
    if isinstance(v, HDict):
        out = []
        for e in v.ents:
            out.append((e.g, '[%r]' % (e.k,), e.v))
            out.append((e.g, ' key', e.k))
        return out
    if isinstance(v, tuple):
        return [(TRUE, '[%d]' % i, x) for i, x in enumerate(v)]
    if isinstance(v, BoundV):
        return [(TRUE, '.__self__', v.self_)]
    if isinstance(v, PartialV):
        return [(TRUE, '.args', x) for x in v.args]
    if isinstance(v, HIter):
        return [(TRUE, ' source', v.src)] if isinstance(
            v.src, (HList, HDict, HObj)) else []
    return []


def reach(v, guard=TRUE, skip=()):
    """id -> (guard, object, path) of the mutable objects reachable."""
    out = {}
    todo = [(guard, v, '')]
    while todo:
        g, x, path = todo.pop()
        if g == FALSE:
            continue
        if isinstance(x, Un):
            todo.extend((and_(g, h), y, path) for h, y in x.alts)
            continue
        if isinstance(x, (HObj, HList, HDict)):
            if id(x) in skip:
                continue
            if isinstance(x, HList) and x.kind == 'tuple':
                todo.extend((and_(g, h), y, path + n)
                            for h, n, y in children(x))
                continue
            if isinstance(x, HDict) and x.kind == 'frozenset':
                continue
            immutable = isinstance(x, HObj) and getattr(
                x.cls, 'fields', None) is not None
            old = out.get(id(x))
            if old is not None:
                new = and_(g, neg(old[0]))
                if new == FALSE:
                    continue
                out[id(x)] = (or_(old[0], g), x, old[2], immutable)
                g = new
            else:
                out[id(x)] = (g, x, path, immutable)
        for h, n, y in children(x):
            if isinstance(y, (Un, HObj, HList, HDict, tuple, BoundV,
                              PartialV, HIter)):
                todo.append((and_(g, h), y, path + n))
    return {k: r[:3] for k, r in out.items() if not r[3]}


def roots(it, repo):
    """(name, value) of the module- and class-level data and the defaults of
    the functions of the repository."""
    out = []
    seen = set()

    def func(name, f):
        if id(f) in seen:
            return
        seen.add(id(f))
        for i, d in enumerate(f.defaults or ()):
            out.append(('default %d of %s' % (i, name), d))
        for k, d in (f.kwdefaults or {}).items():
            out.append(('default %s of %s' % (k, name), d))

    def cls(name, c):
        if id(c) in seen:
            return
        seen.add(id(c))
        for k, v in list(c.attrs.items()):
            value('%s.%s' % (name, k), v)

    def value(name, v):
        if isinstance(v, FuncV):
            if v.module is None or not v.module.path or \
                    not v.module.path.startswith(repo):
                return
            func(name, v)
        elif isinstance(v, ClassV):
            if v.module is None or getattr(v.module, 'path', None) is None \
                    or not v.module.path.startswith(repo):
                return
            cls(name, v)
        elif isinstance(v, PropV):
            for f in (v.fget, v.fset, v.fdel):
                if isinstance(f, FuncV):
                    func(name, f)
        elif isinstance(v, StaticV):
            value(name, v.f)
        elif isinstance(v, (ModV, BuiltinV)):
            pass
        else:
            out.append((name, v))
    for m in list(it.modules.values()):
        if not getattr(m, 'path', None) or not m.path.startswith(repo) or \
                '/harness/' in m.path:
            continue
        for k, v in list(m.env.vars.items()):
            if k.startswith('__'):
                continue
            value('%s.%s' % (m.name, k), v)
    return out


def freeze(v, memo=None):
    """A copy of the parts, to compare with later."""
    memo = {} if memo is None else memo
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Un):
            todo.extend(y for _, y in x.alts)
            continue
        if isinstance(x, (HObj, HList, HDict)):
            if id(x) in memo:
                continue
            memo[id(x)] = (x, children(x))
        for _, _, y in children(x):
            if isinstance(y, (Un, HObj, HList, HDict, tuple, BoundV,
                              PartialV, HIter)):
                todo.append(y)
    return memo


def same_value(it, a, b):
    """Guard under which a value is still the same."""
    if a is b:
        return TRUE
    if isinstance(a, Un) or isinstance(b, Un):
        r = []
        for g, x in V.alts_of(a):
            for h, y in V.alts_of(b):
                gh = and_(g, h)
                if gh != FALSE:
                    r.append(and_(gh, same_value(it, x, y)))
        return bdd.disj(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return bdd.conj([same_value(it, x, y) for x, y in zip(a, b)])
    plain = (str, int, float, bytes, type(None), Term, BV, SB)
    if isinstance(a, plain) and isinstance(b, plain):
        if a is None or b is None:
            return FALSE
        return it.eq(a, b)
    return FALSE


def changed(it, memo):
    """(guard, object) for objects whose parts are not what they were."""
    out = []
    for x, old in memo.values():
        new = children(x)
        old = [e for e in old if e[0] != FALSE]
        new = [e for e in new if e[0] != FALSE]
        diff = FALSE
        if len(old) == len(new):
            for (g, n, a), (h, m, b) in zip(old, new):
                if g != h:
                    diff = or_(diff, bdd.xor(g, h))
                if n != m:
                    diff = or_(diff, g)
                elif a is not b:
                    diff = or_(diff, and_(g, neg(same_value(it, a, b))))
        else:
            k = 0
            while k < len(old) and k < len(new) and old[k] == new[k]:
                k += 1
            rest = old[k:] + new[k:]
            diff = bdd.disj([e[0] for e in rest])
        if diff != FALSE:
            out.append((diff, x))
    return out
