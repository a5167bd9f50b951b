"""Reduced ordered binary decision diagrams with complement edges.

A reference is an int: 2*node + complement.  Node 0 is the terminal TRUE, so
TRUE = 0 and FALSE = 1.  Variables are created in order; a smaller index is
nearer to the root.
"""
import sys

sys.setrecursionlimit(200000)

TRUE, FALSE = 0, 1
INF = 1 << 60

_var = [INF]
_lo = [0]
_hi = [0]
_uniq = {}
_andc = {}
_xorc = {}
_itec = {}
_conc = {}
nvars = 0
LIMIT = 6000000


class TooBig(Exception):
    """The diagrams outgrew the memory set aside for them."""


def reset():
    global nvars
    del _var[1:], _lo[1:], _hi[1:]
    _uniq.clear()
    _andc.clear()
    _xorc.clear()
    _itec.clear()
    _conc.clear()
    nvars = 0


def new_var():
    """Create a variable below all existing ones; return (index, reference)."""
    global nvars
    v = nvars
    nvars += 1
    return v, _mk(v, TRUE, FALSE)


def _mk(v, hi, lo):
    if hi == lo:
        return hi
    if hi & 1:                      # keep the then-edge regular
        return _mk(v, hi ^ 1, lo ^ 1) ^ 1
    k = (v, hi, lo)
    n = _uniq.get(k)
    if n is None:
        n = len(_var)
        if n > LIMIT:
            raise TooBig('%d decision-diagram nodes' % n)
        _var.append(v)
        _hi.append(hi)
        _lo.append(lo)
        _uniq[k] = n
    return n << 1


def literal(v):
    return _mk(v, TRUE, FALSE)


def neg(a):
    return a ^ 1


def and_(a, b):
    if a == b:
        return a
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1 or b == 1 or a == b ^ 1:
        return 1
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _andc.get(k)
    if r is not None:
        return r
    na, nb = a >> 1, b >> 1
    va, vb = _var[na], _var[nb]
    if va <= vb:
        ca = a & 1
        a1, a0 = _hi[na] ^ ca, _lo[na] ^ ca
        v = va
    else:
        a1 = a0 = a
        v = vb
    if vb <= va:
        cb = b & 1
        b1, b0 = _hi[nb] ^ cb, _lo[nb] ^ cb
    else:
        b1 = b0 = b
    r = _mk(v, and_(a1, b1), and_(a0, b0))
    _andc[k] = r
    return r


def or_(a, b):
    return and_(a ^ 1, b ^ 1) ^ 1


def xor(a, b):
    s = (a ^ b) & 1
    a &= ~1
    b &= ~1
    if a == b:
        return 1 ^ s
    if a == 0:
        return b ^ 1 ^ s
    if b == 0:
        return a ^ 1 ^ s
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _xorc.get(k)
    if r is None:
        na, nb = a >> 1, b >> 1
        va, vb = _var[na], _var[nb]
        if va <= vb:
            a1, a0 = _hi[na], _lo[na]
            v = va
        else:
            a1 = a0 = a
            v = vb
        if vb <= va:
            b1, b0 = _hi[nb], _lo[nb]
        else:
            b1 = b0 = b
        r = _mk(v, xor(a1, b1), xor(a0, b0))
        _xorc[k] = r
    return r ^ s


def iff(a, b):
    return xor(a, b) ^ 1


def implies(a, b):
    return and_(a, b ^ 1) ^ 1


def ite(f, g, h):
    if f == 0:
        return g
    if f == 1:
        return h
    if g == h:
        return g
    if f & 1:
        f ^= 1
        g, h = h, g
    if g == 0 or g == f:
        return or_(f, h)
    if g == 1 or g == f ^ 1:
        return and_(f ^ 1, h)
    if h == 0 or h == f ^ 1:
        return and_(f, g ^ 1) ^ 1
    if h == 1 or h == f:
        return and_(f, g)
    if g == h ^ 1:
        return xor(f, h)
    s = g & 1
    g ^= s
    h ^= s
    k = (f, g, h)
    r = _itec.get(k)
    if r is None:
        nf, ng, nh = f >> 1, g >> 1, h >> 1
        v = min(_var[nf], _var[ng], _var[nh])
        if _var[nf] == v:
            f1, f0 = _hi[nf], _lo[nf]
        else:
            f1 = f0 = f
        if _var[ng] == v:
            g1, g0 = _hi[ng], _lo[ng]
        else:
            g1 = g0 = g
        if _var[nh] == v:
            c = h & 1
            h1, h0 = _hi[nh] ^ c, _lo[nh] ^ c
        else:
            h1 = h0 = h
        r = _mk(v, ite(f1, g1, h1), ite(f0, g0, h0))
        _itec[k] = r
    return r ^ s


def constrain(f, c):
    """Coudert/Madre restrict: some g with g = f wherever c holds, and smaller."""
    if c == 0 or f <= 1:
        return f
    if c == 1:
        return f
    if f == c:
        return 0
    if f == c ^ 1:
        return 1
    s = f & 1
    f ^= s
    k = (f, c)
    r = _conc.get(k)
    if r is None:
        nf, nc = f >> 1, c >> 1
        vf, vc = _var[nf], _var[nc]
        cc = c & 1
        if vc < vf:
            r = constrain(f, or_(_hi[nc] ^ cc, _lo[nc] ^ cc))
        else:
            if vc == vf:
                c1, c0 = _hi[nc] ^ cc, _lo[nc] ^ cc
            else:
                c1 = c0 = c
            if c1 == 1:
                r = constrain(_lo[nf], c0)
            elif c0 == 1:
                r = constrain(_hi[nf], c1)
            else:
                r = _mk(vf, constrain(_hi[nf], c1), constrain(_lo[nf], c0))
        _conc[k] = r
    return r ^ s


def disj(xs):
    r = 1
    for x in xs:
        r = or_(r, x)
        if r == 0:
            break
    return r


def conj(xs):
    r = 0
    for x in xs:
        r = and_(r, x)
        if r == 1:
            break
    return r


def support(f):
    seen, out, todo = set(), set(), [f >> 1]
    while todo:
        n = todo.pop()
        if n == 0 or n in seen:
            continue
        seen.add(n)
        out.add(_var[n])
        todo.append(_hi[n] >> 1)
        todo.append(_lo[n] >> 1)
    return out


def size(f):
    seen, todo = set(), [f >> 1]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n:
            todo.append(_hi[n] >> 1)
            todo.append(_lo[n] >> 1)
    return len(seen)


def evaluate(f, val):
    """val: function variable index -> bool."""
    while f > 1:
        n, c = f >> 1, f & 1
        f = (_hi[n] if val(_var[n]) else _lo[n]) ^ c
    return f == 0


def pick(f, prefer=0):
    """One satisfying cube of f as {var: bool}; None if f is FALSE."""
    if f == 1:
        return None
    out = {}
    while f > 1:
        n, c = f >> 1, f & 1
        a, b = (_hi[n] ^ c), (_lo[n] ^ c)
        if prefer:
            if a != 1:
                out[_var[n]] = True
                f = a
            else:
                out[_var[n]] = False
                f = b
        else:
            if b != 1:
                out[_var[n]] = False
                f = b
            else:
                out[_var[n]] = True
                f = a
    return out


def cubes(f, limit=64):
    """Up to limit cubes of f."""
    out = []

    def rec(f, cube):
        if len(out) >= limit or f == 1:
            return
        if f == 0:
            out.append(dict(cube))
            return
        n, c = f >> 1, f & 1
        for bit, nxt in ((False, _lo[n] ^ c), (True, _hi[n] ^ c)):
            cube[_var[n]] = bit
            rec(nxt, cube)
            del cube[_var[n]]
    rec(f, {})
    return out
