"""Abstract values: bit-vector integers, Herbrand terms, guarded unions."""
from . import bdd
from .bdd import TRUE, FALSE, and_, or_, xor, ite, neg


class Unsupported(Exception):
    """The analyser does not model this construct."""


# ---------------------------------------------------------------- terms

class Term:
    __slots__ = ('op', 'args', 'ty', 'key')

    def __repr__(self):
        return show(self)


_terms = {}


def akey(a):
    if isinstance(a, Term):
        return ('T', id(a))
    if isinstance(a, BV):
        return ('B', a.bits)
    if isinstance(a, SB):
        return ('S', a.b)
    if isinstance(a, tuple):
        return ('tup',) + tuple(akey(x) for x in a)
    if a is None or isinstance(a, (int, str, float, bool, bytes)):
        return (type(a).__name__, a)
    return ('O', id(a))


def mk(op, *args, ty='str'):
    key = (op, ty) + tuple(akey(a) for a in args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.ty, t.key = op, args, ty, key
        _terms[key] = t
    return t


class SB:
    """Symbolic bool."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'SB(%d)' % self.b


class BV:
    """Symbolic int, two's complement, least significant bit first."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return 'BV<%d>' % len(self.bits)


class Un:
    """Guarded union: ((guard, value), ...), guards disjoint."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Un(%s)' % (', '.join(repr(v) for _, v in self.alts[:6]))


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def sb(b):
    if b == TRUE:
        return True
    if b == FALSE:
        return False
    return SB(b)


# ---------------------------------------------------------------- atoms

atoms = []          # variable index -> ('bit', name, k) or ('term', Term)
_atomvar = {}
inputs = {}         # name -> description


def reset():
    bdd.reset()
    _terms.clear()
    atoms.clear()
    _atomvar.clear()
    inputs.clear()
    from . import terms
    terms._seq.clear()


def atom(t):
    """Decision-diagram variable standing for a bool term."""
    r = _atomvar.get(id(t))
    if r is None:
        v, r = bdd.new_var()
        assert v == len(atoms)
        atoms.append(('term', t))
        _atomvar[id(t)] = r
    return r


def bit_atom(name, k):
    v, r = bdd.new_var()
    assert v == len(atoms)
    atoms.append(('bit', name, k))
    return r


def sym_bv(names_widths, signed=()):
    """Create input integers with interleaved bits (most significant first).

    names_widths: [(name, number of bits)]; names in `signed` are two's
    complement, the others are non-negative."""
    bits = {n: [None] * w for n, w in names_widths}
    top = max(w for _, w in names_widths)
    for k in range(top - 1, -1, -1):
        for n, w in names_widths:
            if k < w:
                bits[n][k] = bit_atom(n, k)
    out = []
    for n, w in names_widths:
        inputs[n] = ('int', w, n in signed)
        b = list(bits[n])
        if n not in signed:
            b.append(FALSE)
        out.append(bv(b))
    return out


def sym_bool(name):
    inputs[name] = ('bool',)
    return SB(bit_atom(name, 0))


def sym_term(name, ty='str'):
    inputs[name] = (ty,)
    return mk('sym', name, ty=ty)


# ---------------------------------------------------------------- ints

def const_bits(n):
    out = []
    while True:
        out.append(TRUE if n & 1 else FALSE)
        n >>= 1
        if n == 0 and out[-1] == FALSE:
            break
        if n == -1 and out[-1] == TRUE:
            break
        if n == 0:
            out.append(FALSE)
            break
        if n == -1:
            out.append(TRUE)
            break
    return out


_cb = {}


def bits_of(v):
    if isinstance(v, BV):
        return v.bits
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        r = _cb.get(v)
        if r is None:
            r = _cb[v] = tuple(const_bits(v))
        return r
    if isinstance(v, SB):
        return (v.b, FALSE)
    raise TypeError(v)


def bv(bits):
    bits = list(bits)
    while len(bits) > 1 and bits[-1] == bits[-2]:
        bits.pop()
    for b in bits:
        if b > 1:
            return BV(tuple(bits))
    n = 0
    for k, b in enumerate(bits):
        if b == TRUE:
            n |= 1 << k
    if bits[-1] == TRUE:
        n -= 1 << len(bits)
    return n


def ext(bits, n):
    return tuple(bits) + (bits[-1],) * (n - len(bits))


def is_int(v):
    return isinstance(v, (int, BV)) and not isinstance(v, bool)


def is_intlike(v):
    return isinstance(v, (int, BV, SB))


def is_boollike(v):
    return isinstance(v, (bool, SB))


def add(a, b, cin=FALSE):
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b)) + 1
    a, b = ext(a, n), ext(b, n)
    out, c = [], cin
    for x, y in zip(a, b):
        if c <= 1 and y <= 1:
            if c == FALSE and y == FALSE:
                out.append(x)
                continue
            if c == TRUE and y == TRUE:
                out.append(x)
                continue
        xy = xor(x, y)
        out.append(xor(xy, c))
        c = or_(and_(x, y), and_(c, xy))
    return bv(out)


def inv(a):
    return bv([b ^ 1 for b in bits_of(a)])


def sub(a, b):
    return add(a, inv(b), TRUE)


def negate(a):
    return sub(0, a)


def bitop(op, a, b):
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b))
    return bv([op(x, y) for x, y in zip(ext(a, n), ext(b, n))])


def ite_int(g, a, b):
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b))
    return bv([ite(g, x, y) for x, y in zip(ext(a, n), ext(b, n))])


def shl_const(a, k):
    return bv([FALSE] * k + list(bits_of(a)))


def shr_const(a, k):
    a = bits_of(a)
    return bv(a[k:] if k < len(a) else [a[-1]])


def restrict_int(a, pc):
    """Simplify an int under a guard."""
    if isinstance(a, BV) and pc != TRUE:
        return bv([bdd.constrain(b, pc) for b in a.bits])
    return a


def shl(a, s, pc):
    """a << s, s >= 0 under pc."""
    if isinstance(s, int):
        return shl_const(a, s)
    s = restrict_int(s, pc)
    if isinstance(s, int):
        return shl_const(a, s)
    sb_ = s.bits[:-1]
    if len(sb_) > 8:
        raise Unsupported('shift amount not bounded')
    r = a
    for k, b in enumerate(sb_):
        r = ite_int(b, shl_const(r, 1 << k), r)
    return r


def shr(a, s, pc):
    if isinstance(s, int):
        return shr_const(a, s)
    s = restrict_int(s, pc)
    if isinstance(s, int):
        return shr_const(a, s)
    r = a
    for k, b in enumerate(s.bits[:-1]):
        r = ite_int(b, shr_const(r, min(1 << k, 1 << 20)), r)
    return r


def mul(a, b):
    if isinstance(a, int) and not isinstance(a, bool):
        a, b = b, a
    if isinstance(b, int):
        b = int(b)
        if b < 0:
            return negate(mul(a, -b))
        r, k = 0, 0
        while b >> k:
            if (b >> k) & 1:
                r = add(r, shl_const(a, k))
            k += 1
        return r
    bb = bits_of(b)
    r = 0
    for k, g in enumerate(bb[:-1]):
        r = add(r, ite_int(g, shl_const(a, k), 0))
    if bb[-1] != FALSE:
        r = sub(r, ite_int(bb[-1], shl_const(a, len(bb) - 1), 0))
    return r


def eq_int(a, b):
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b))
    r = TRUE
    for x, y in zip(ext(a, n), ext(b, n)):
        r = and_(r, xor(x, y) ^ 1)
        if r == FALSE:
            break
    return r


def eq_int_under(a, b, pc):
    """a == b, where only pc matters."""
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b))
    bad = FALSE
    for x, y in zip(ext(a, n), ext(b, n)):
        if x != y:
            bad = or_(bad, and_(pc, xor(x, y)))
    return neg(bad)


def lt_int(a, b):
    a, b = bits_of(a), bits_of(b)
    n = max(len(a), len(b))
    a, b = ext(a, n), ext(b, n)
    r = FALSE
    for x, y in zip(a[:-1], b[:-1]):
        r = ite(xor(x, y), y, r)
    x, y = a[-1], b[-1]
    return ite(xor(x, y), x, r)


def nonzero(a):
    r = FALSE
    for x in bits_of(a):
        r = or_(r, x)
    return r


def cases_int(v, pc, limit=5000):
    """[(guard, int)] of the possible values under pc (guards within pc)."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return [(pc, v)]
    bits = bits_of(v)
    out = []

    def rec(k, g, acc):
        if g == FALSE:
            return
        if len(out) > limit:
            raise Unsupported('too many cases')
        if k < 0:
            out.append((g, acc))
            return
        b = bits[k]
        w = -(1 << k) if k == len(bits) - 1 else (1 << k)
        rec(k - 1, and_(g, b ^ 1), acc)
        rec(k - 1, and_(g, b), acc + w)
    rec(len(bits) - 1, pc, 0)
    out.sort(key=lambda t: t[1])
    return out


def bounds_int(v, pc):
    """Least and greatest value under pc."""
    if isinstance(v, int):
        return int(v), int(v)
    bits = bits_of(v)
    res = []
    for want_max in (False, True):
        g, n = pc, 0
        for k in range(len(bits) - 1, -1, -1):
            top = k == len(bits) - 1
            b = bits[k]
            first = b if (want_max != top) else b ^ 1
            # prefer bit value: for sign bit, min wants 1
            h = and_(g, first)
            if h != FALSE:
                g = h
                bit = (want_max != top)
            else:
                bit = not (want_max != top)
            if bit:
                n += -(1 << k) if top else (1 << k)
        res.append(n)
    return res[0], res[1]


# ---------------------------------------------------------------- unions

def vkey(v):
    if isinstance(v, tuple):
        return ('tup',) + tuple(vkey(x) for x in v)
    if isinstance(v, Term):
        return ('T', id(v))
    if v is None or isinstance(v, (str, bytes, float)):
        return (type(v).__name__, v)
    if isinstance(v, (bool, SB)):
        return 'bool'
    if isinstance(v, (int, BV)):
        return 'int'
    return ('O', id(v))


def same(a, b):
    """Definitely the same value (structurally)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bytes, float)):
        return a == b
    if isinstance(a, BV):
        return a.bits == b.bits
    if isinstance(a, SB):
        return a.b == b.b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Un):
        return len(a.alts) == len(b.alts) and all(
            g == h and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    return False


def v_ite(g, a, b):
    if g == TRUE or same(a, b):
        return a
    if g == FALSE:
        return b
    if is_int(a) and is_int(b):
        return ite_int(g, a, b)
    if is_boollike(a) and is_boollike(b):
        return sb(ite(g, bool_bits(a), bool_bits(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(v_ite(g, x, y) for x, y in zip(a, b))
    out = []
    if isinstance(a, Un):
        out += [(and_(g, h), x) for h, x in a.alts]
    else:
        out.append((g, a))
    ng = neg(g)
    if isinstance(b, Un):
        out += [(and_(ng, h), x) for h, x in b.alts]
    else:
        out.append((ng, b))
    return v_union(out)


def bool_bits(v):
    if isinstance(v, SB):
        return v.b
    return TRUE if v else FALSE


def v_union(alts):
    """Merge guarded alternatives (disjoint guards) into one value; outside
    the guards the result does not matter."""
    flat = []
    for g, v in alts:
        if g == FALSE:
            continue
        if isinstance(v, Un):
            for h, x in v.alts:
                gh = and_(g, h)
                if gh != FALSE:
                    flat.append((gh, x))
        else:
            flat.append((g, v))
    if not flat:
        raise Unsupported('empty union')
    if len(flat) == 1:
        return flat[0][1]
    groups, order = {}, []
    for g, v in flat:
        k = vkey(v)
        if isinstance(v, tuple):
            k = ('tuple', len(v))
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append((g, v))
    out = []
    for k in order:
        items = groups[k]
        if len(items) == 1:
            out.append(items[0])
            continue
        guard = bdd.disj([g for g, _ in items])
        if k == 'int':
            out.append((guard, _merge_int(items)))
        elif k == 'bool':
            r = items[-1][1]
            for g, v in items[:-1]:
                r = sb(ite(g, bool_bits(v), bool_bits(r)))
            out.append((guard, r))
        elif k[0] == 'tuple':
            n = k[1]
            out.append((guard, tuple(
                v_union([(g, v[i]) for g, v in items]) for i in range(n))))
        else:
            out.append((guard, items[0][1]))
    if len(out) == 1:
        return out[0][1]
    return Un(out)


def _merge_int(items):
    first = items[0][1]
    if all(same(v, first) for _, v in items):
        return first
    if len(items) <= 8:
        r = items[-1][1]
        for g, v in reversed(items[:-1]):
            r = ite_int(g, v, r)
        return r
    n = max(len(bits_of(v)) for _, v in items)
    bits = []
    ext_items = [(g, ext(bits_of(v), n)) for g, v in items]
    for k in range(n):
        col = []
        for g, b in ext_items:
            x = b[k]
            if x == TRUE:
                col.append(g)
            elif x != FALSE:
                x = and_(g, x)
                if x != FALSE:
                    col.append(x)
        bits.append(_or_tree(col))
    return bv(bits)


def _or_tree(xs):
    if not xs:
        return FALSE
    while len(xs) > 1:
        ys = []
        for i in range(0, len(xs) - 1, 2):
            ys.append(or_(xs[i], xs[i + 1]))
        if len(xs) & 1:
            ys.append(xs[-1])
        xs = ys
    return xs[0]


def alts_of(v):
    if isinstance(v, Un):
        return v.alts
    return ((TRUE, v),)


def concrete(v):
    """Is v free of symbolic parts (containers other than tuples excluded)?"""
    if isinstance(v, (Term, BV, SB, Un)):
        return False
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return True


def is_native(v):
    return v is None or isinstance(v, (int, str, float, bytes, bool)) or (
        isinstance(v, tuple) and all(is_native(x) for x in v))


# ---------------------------------------------------------------- printing

def show(v, depth=4):
    if isinstance(v, Term):
        if v.op == 'sym':
            return '<%s>' % v.args[0]
        if depth == 0:
            return '...'
        return '%s(%s)' % (v.op, ', '.join(show(a, depth - 1) for a in v.args))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(a, depth - 1) for a in v)
    if isinstance(v, Un):
        return '{%s}' % ' | '.join(show(x, depth - 1) for _, x in v.alts[:5])
    return repr(v)
