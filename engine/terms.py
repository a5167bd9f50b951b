"""Smart constructors (normal forms), evaluation and axioms of Herbrand terms."""
from . import bdd
from .bdd import TRUE, FALSE, and_, or_
from .values import (Term, BV, SB, Un, mk, atom, atoms, akey, sb, is_int,
                     bits_of, add, sub, mul, eq_int, lt_int, bounds_int, cases_int,
                     Unsupported, bv, v_union)

_seq = {}


def order(t):
    n = _seq.get(id(t))
    if n is None:
        n = _seq[id(t)] = (len(_seq), t)
    return n[0]


def is_str(v):
    return isinstance(v, str) or (isinstance(v, Term) and v.ty == 'str')


def is_tint(v):
    return isinstance(v, Term) and v.ty == 'int'


# ------------------------------------------------------------ strings

def cat(*parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == 'cat':
            sub_ = p.args
        else:
            sub_ = (p,)
        for q in sub_:
            if q == '' and isinstance(q, str):
                continue
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif isinstance(q, Term) and out and q.op == 'slice' and \
                    isinstance(out[-1], Term) and out[-1].op == 'slice' and \
                    q.args[0] is out[-1].args[0] and \
                    0 <= out[-1].args[1] <= q.args[1] == out[-1].args[2] and \
                    (q.args[2] is None or q.args[2] >= q.args[1]):
                # adjacent pieces of one text
                out[-1] = t_slice(q.args[0], out[-1].args[1], q.args[2])
            else:
                out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def digits(v, base, w):
    """Digits of a non-negative int in a base, zero-padded to w."""
    if isinstance(v, int):
        return _digits(v, base, w)
    k = {2: 1, 8: 3, 16: 4}.get(base)
    if k is not None and isinstance(v, BV) and v.bits[-1] == FALSE and \
            len(v.bits) - 1 <= k * w:
        out = []
        b = list(v.bits[:-1]) + [FALSE] * (k * w - len(v.bits) + 1)
        for i in range(w - 1, -1, -1):
            out.append(digit(bv(b[i * k:i * k + k] + [FALSE])))
        return cat(*out)
    return mk('digits', v, base, w)


def digit(v):
    """One (hexadecimal) digit."""
    if isinstance(v, int):
        return '0123456789abcdef'[v]
    return mk('digit', v)


def istr(v):
    """Decimal text of an int."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, BV) and v.bits[-1] == FALSE and len(v.bits) <= 5 and \
            bounds_int(v, TRUE)[1] <= 9:
        return digit(v)
    return mk('istr', v)


def digit_union(v):
    """A union of one-digit texts as one term."""
    if not isinstance(v, Un):
        return v
    out = []
    for g, x in v.alts:
        if isinstance(x, str) and len(x) == 1 and x in '0123456789abcdef':
            out.append((g, int(x, 16)))
        elif isinstance(x, Term) and x.op == 'digit':
            out.append((g, x.args[0]))
        else:
            return v
    return digit(v_union(out))


def undigits(t, base):
    """The int a text of digit terms stands for, or None."""
    k = {2: 1, 8: 3, 16: 4}.get(base)
    parts = t.args if t.op == 'cat' else (t,)
    r = 0
    for p in parts:
        if isinstance(p, str):
            for c in p:
                if c not in '0123456789abcdef'[:base]:
                    return None
                r = add(mul(r, base), int(c, 16))
        elif p.op == 'digit' and k is not None and \
                len(p.args[0].bits) <= k + 1:
            r = add(mul(r, base), p.args[0])
        else:
            return None
    return r


def fixed_len(t):
    """Exact length if known."""
    if isinstance(t, str):
        return len(t)
    if t.op == 'digits':
        v, base, w = t.args
        n = bits_of(v)
        if n[-1] == FALSE:
            hi = bounds_int(v, TRUE)[1]
            if hi < base ** w:
                return w
        return None
    if t.op == 'idx' or t.op == 'digit':
        return 1
    if t.op == 'cat':
        n = 0
        for p in t.args:
            k = fixed_len(p)
            if k is None:
                return None
            n += k
        return n
    return None


def max_len(t):
    if isinstance(t, str):
        return len(t)
    if t.op == 'slice':
        x, a, b = t.args
        if b is not None and a >= 0 and b >= 0:
            return max(0, b - a)
        return max_len(x)
    if t.op == 'idx':
        return 1
    if t.op == 'scall' and t.args[0] in ('strip', 'lstrip', 'rstrip'):
        return max_len(t.args[1])
    if t.op == 'cat':
        n = 0
        for p in t.args:
            k = max_len(p)
            if k is None:
                return None
            n += k
        return n
    return fixed_len(t)


def t_slice(x, a, b):
    if isinstance(x, str):
        return x[a:b]
    if a is None:
        a = 0
    if a == 0 and b is None:
        return x
    if a >= 0 and b is not None and b >= 0 and b <= a:
        return ''
    if a >= 0 and (b is None or b >= 0):
        if x.op == 'slice' and x.args[1] >= 0 and (x.args[2] is None or
                                                   x.args[2] >= 0):
            y, c, d = x.args
            na = c + a
            nb = None if b is None else c + b
            if d is not None:
                nb = d if nb is None else min(nb, d)
            return t_slice(y, na, nb)
        if x.op == 'cat':
            parts, pos, out = list(x.args), 0, []
            ok = True
            for i, p in enumerate(parts):
                n = fixed_len(p)
                if n is None:
                    # unknown length: only the tail from here on can be kept
                    if a <= pos and b is None:
                        out.extend(parts[i:])
                    elif b is None and i == len(parts) - 1:
                        out.append(t_slice(p, a - pos, None))
                    elif i == len(parts) - 1:
                        out.append(t_slice(p, max(0, a - pos), b - pos))
                    else:
                        ok = False
                    break
                lo, hi = max(a - pos, 0), n if b is None else min(n, b - pos)
                if lo < hi:
                    if lo == 0 and hi == n:
                        out.append(p)
                    elif isinstance(p, str):
                        out.append(p[lo:hi])
                    else:
                        out.append(mk('slice', p, lo, hi))
                pos += n
                if b is not None and pos >= b:
                    break
            if ok:
                return cat(*out)
        if x.op == 'idx' and a >= 1:
            return ''
        m = max_len(x)
        if m is not None:
            if a >= m:
                return ''
            if b is not None and b >= m:
                if a == 0:
                    return x
                b = None if x.op not in ('slice',) else b
    return mk('slice', x, a, b)


BOOL_METHODS = {'startswith', 'endswith', 'isspace', 'isdigit', 'isalpha',
                'isupper', 'islower', 'isalnum', 'isdecimal', 'isnumeric',
                'isidentifier', 'istitle', 'isascii', 'isprintable'}
INT_METHODS = {'count', 'find', 'rfind', 'index', 'rindex'}
LIST_METHODS = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}


def t_call(name, x, *args):
    """A pure str method on a symbolic string (or symbolic arguments)."""
    if isinstance(x, str) and all(isinstance(a, (str, int, type(None), tuple))
                                  and not isinstance(a, Term) for a in args):
        return getattr(x, name)(*args)
    if name in ('strip', 'lstrip', 'rstrip') and args in ((), (None,)):
        if isinstance(x, Term):
            if x.op == 'scall' and x.args[0] == 'strip' and len(x.args) == 2:
                return x
            if x.op == 'scall' and len(x.args) == 2 and x.args[0] in (
                    'lstrip', 'rstrip'):
                if x.args[0] == name:
                    return x
                return t_call('strip', x.args[1])
            if x.op == 'cat':
                p = list(x.args)
                if isinstance(p[0], str) and name != 'rstrip':
                    q = p[0].lstrip()
                    if q != p[0]:
                        return t_call(name, cat(q, *p[1:]))
                if isinstance(p[-1], str) and name != 'lstrip':
                    q = p[-1].rstrip()
                    if q != p[-1]:
                        return t_call(name, cat(*(p[:-1] + [q])))
        return mk('scall', name, x)
    if name == 'startswith':
        if len(args) == 1 and isinstance(args[0], tuple):
            return sb(bdd.disj([bbits(t_call(name, x, a)) for a in args[0]]))
        if len(args) == 1 and isinstance(args[0], str):
            return sb(starts(x, args[0]))
    if name == 'endswith' and len(args) == 1 and isinstance(args[0], tuple):
        return sb(bdd.disj([bbits(t_call(name, x, a)) for a in args[0]]))
    if name == 'endswith' and len(args) == 1 and isinstance(args[0], str) \
            and isinstance(x, Term):
        p = args[0]
        if p == '':
            return True
        if x.op == 'cat' and isinstance(x.args[-1], str):
            q = x.args[-1]
            n = min(len(p), len(q))
            if q[len(q) - n:] != p[len(p) - n:]:
                return False
            if len(p) <= len(q):
                return True
            return t_call(name, cat(*x.args[:-1]), p[:len(p) - n])
    if name == 'isspace':
        return sb(and_(t_eq(x, '') ^ 1, t_eq(t_call('strip', x), '')))
    if name == '__contains__':
        return sb(t_in(args[0], x))
    if name == 'replace' and len(args) == 2 and isinstance(x, Term) and \
            isinstance(args[0], str) and len(args[0]) == 1:
        if args[0] == args[1]:
            return x
        if x.op == 'cat':
            return cat(*[t_call('replace', p, *args) for p in x.args])
        if x.op == 'scall' and x.args[0] == 'replace' and \
                x.args[2:] == args and args[0] not in args[1]:
            return x
    if name in ('ljust', 'rjust') and isinstance(x, Term) and args and \
            isinstance(args[0], int):
        n = fixed_len(x)
        if n is not None:
            f = (args[1] if len(args) > 1 else ' ') * max(0, args[0] - n)
            return cat(f, x) if name == 'rjust' else cat(x, f)
    if name == 'zfill' and isinstance(x, Term) and (
            x.op == 'digit' or x.op == 'cat' and all(
                isinstance(p, Term) and p.op == 'digit' for p in x.args)):
        return cat('0' * max(0, args[0] - fixed_len(x)), x)
    if name in ('rjust', 'zfill') and isinstance(x, Term) and \
            x.op == 'digits' and isinstance(args[0], int) and \
            (name == 'zfill' or args[1:] == ('0',)):
        v, base, w = x.args
        return digits(v, base, max(w, args[0]))
    if name == 'encode':
        raise Unsupported('encode')
    if name in BOOL_METHODS:
        return sb(atom(mk('scall', name, x, *args, ty='bool')))
    if name in INT_METHODS:
        return mk('scall', name, x, *args, ty='int')
    if name in LIST_METHODS:
        return mk('scall', name, x, *args, ty='list')
    if hasattr(str, name) and name in (
            'upper', 'lower', 'replace', 'strip', 'lstrip', 'rstrip', 'title',
            'capitalize', 'swapcase', 'casefold', 'ljust', 'rjust', 'center',
            'zfill', 'expandtabs', 'translate', 'removeprefix',
            'removesuffix'):
        if name in ('upper', 'lower') and isinstance(x, Term) and \
                x.op == 'scall' and x.args[0] == name:
            return x
        return mk('scall', name, x, *args)
    raise Unsupported('str.%s' % name)


def bbits(v):
    if isinstance(v, SB):
        return v.b
    return TRUE if v else FALSE


def starts(x, p):
    """A text starts with a constant."""
    if p == '':
        return TRUE
    if isinstance(x, str):
        return TRUE if x.startswith(p) else FALSE
    if x.op == 'cat':
        q, rest = x.args[0], cat(*x.args[1:])
        if isinstance(q, str):
            n = min(len(q), len(p))
            if q[:n] != p[:n]:
                return FALSE
            return starts(rest, p[n:])
        n = fixed_len(q)
        if n is not None and n <= len(p):
            return and_(t_eq(q, p[:n]), starts(rest, p[n:]))
        r = starts(q, p)
        if n is not None:
            return r
        for k in range(len(p)):
            e = starts(rest, p[k:])
            if e != FALSE:
                r = or_(r, and_(e, t_eq(q, p[:k])))
        return r
    if len(p) > 1:
        return and_(t_eq(t_slice(x, 0, 1), p[0]),
                    t_eq(t_slice(x, 0, len(p)), p))
    return t_eq(t_slice(x, 0, len(p)), p)


def t_eq(a, b):
    """Equality of two strings (constant or term) as a decision diagram."""
    if a is b:
        return TRUE
    if isinstance(a, str) and isinstance(b, str):
        return TRUE if a == b else FALSE
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        m = max_len(a)
        if m is not None and len(b) > m:
            return FALSE
        if a.op == 'cat':
            p = a.args
            if isinstance(p[0], str):
                if not b.startswith(p[0]):
                    return FALSE
                return t_eq(cat(*p[1:]), b[len(p[0]):])
            if isinstance(p[-1], str):
                if not b.endswith(p[-1]):
                    return FALSE
                return t_eq(cat(*p[:-1]), b[:len(b) - len(p[-1])])
            n = fixed_len(p[0])
            if n is not None:
                if n > len(b):
                    return FALSE
                return and_(t_eq(p[0], b[:n]), t_eq(cat(*p[1:]), b[n:]))
            if b == '':
                return bdd.conj([t_eq(q, '') for q in p])
        if a.op == 'slice' and a.args[1] == 0 and a.args[2] is not None and \
                a.args[2] >= 0:
            if len(b) < a.args[2]:
                return t_eq(a.args[0], b)
            if a.args[0].op == 'cat':
                return starts(a.args[0], b)
        if a.op == 'scall' and a.args[0] == 'strip' and len(a.args) == 2:
            if b != b.strip():
                return FALSE
            if b == '' and isinstance(a.args[1], Term) and \
                    a.args[1].op == 'cat':
                return bdd.conj([t_eq(t_call('strip', q), '')
                                 for q in a.args[1].args])
        if a.op == 'scall' and a.args[0] == 'replace' and \
                len(a.args) == 4 and isinstance(a.args[2], str):
            if a.args[2] and a.args[2] in b and a.args[2] not in str(
                    a.args[3]):
                return FALSE
        if a.op == 'scall' and a.args[0] in ('upper', 'lower') and b == '':
            return t_eq(a.args[1], '')
        if a.op == 'digit':
            if b not in tuple('0123456789abcdef'):
                return FALSE
            return eq_int(a.args[0], int(b, 16))
        if a.op == 'digits' and is_int(a.args[0]):
            v, base, w = a.args
            try:
                n = int(b, base)
            except ValueError:
                return FALSE
            return eq_int(v, n) if _digits(n, base, w) == b else FALSE
        if a.op == 'istr':
            try:
                n = int(b)
            except ValueError:
                return FALSE
            if str(n) != b:
                return FALSE
            return t_cmp_eq(a.args[0], n)
        return atom(mk('eq', a, b, ty='bool'))
    if a.op == 'cat' or b.op == 'cat':
        pa = list(a.args) if a.op == 'cat' else [a]
        pb = list(b.args) if b.op == 'cat' else [b]
        while pa and pb:
            if pa[0] is pb[0]:
                pa.pop(0)
                pb.pop(0)
                continue
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return FALSE
                for p in (pa, pb):
                    if len(p[0]) == n:
                        p.pop(0)
                    else:
                        p[0] = p[0][n:]
                continue
            fa, fb = fixed_len(pa[0]), fixed_len(pb[0])
            if fa is not None and fb is not None and fa and fb:
                if fa != fb and not (isinstance(pa[0], str) or
                                     isinstance(pb[0], str)):
                    break
                n = min(fa, fb)
                hd = []
                for p, f in ((pa, fa), (pb, fb)):
                    if f == n:
                        hd.append(p.pop(0))
                    else:
                        if not isinstance(p[0], str):
                            break
                        hd.append(p[0][:n])
                        p[0] = p[0][n:]
                if len(hd) < 2:
                    if hd:
                        (pa if fa == n else pb).insert(0, hd[0])
                    break
                e = t_eq(hd[0], hd[1])
                if e == FALSE:
                    return FALSE
                rest = t_eq(cat(*pa), cat(*pb))
                return and_(e, rest)
            break
        while pa and pb:
            if pa[-1] is pb[-1]:
                pa.pop()
                pb.pop()
                continue
            if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]:
                    return FALSE
                for p in (pa, pb):
                    if len(p[-1]) == n:
                        p.pop()
                    else:
                        p[-1] = p[-1][:-n]
                continue
            break
        a, b = cat(*pa), cat(*pb)
        if isinstance(a, str) or isinstance(b, str):
            return t_eq(a, b)
    if a.op == b.op == 'digit':
        return eq_int(a.args[0], b.args[0])
    if a.op == b.op == 'istr':
        return t_cmp_eq(a.args[0], b.args[0])
    if a.op == b.op == 'digits' and a.args[1:] == b.args[1:]:
        return eq_int(a.args[0], b.args[0])
    if a is b:
        return TRUE
    if order(a) > order(b):
        a, b = b, a
    return atom(mk('eq', a, b, ty='bool'))


def t_in(c, x):
    """c in x for strings."""
    if isinstance(c, str) and isinstance(x, str):
        return TRUE if c in x else FALSE
    if c == '' and isinstance(c, str):
        return TRUE
    if isinstance(c, str) and len(c) == 1:
        if x.op == 'cat':
            return bdd.disj([t_in(c, p) for p in x.args])
        if x.op == 'scall' and x.args[0] == 'replace' and \
                x.args[2:3] == (c,) and c not in x.args[3]:
            return FALSE
        return t_ge(t_call('count', x, c), 1)
    if isinstance(c, Term) and isinstance(x, str):
        m = max_len(c)
        m = len(x) if m is None else min(m, len(x))
        if len(x) <= 16 or m <= 1:
            return bdd.disj([t_eq(c, y) for y in sorted({
                x[i:i + n] for n in range(m + 1)
                for i in range(len(x) - n + 1)})])
    return atom(mk('in', c, x, ty='bool'))


def t_lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return TRUE if a < b else FALSE
    if a is b:
        return FALSE

    def rank(v):
        return (1, order(v)) if isinstance(v, Term) else (0, v)
    if rank(a) > rank(b):
        return and_(t_lt(b, a) ^ 1, t_eq(a, b) ^ 1)
    return atom(mk('lt', a, b, ty='bool'))


# ------------------------------------------------------------ ints

def lin_of(v):
    """(const, {key: (term, coef)})"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Term) and v.op == 'lin':
        return v.args[0], {akey(t): (t, c) for t, c in v.args[1]}
    return 0, {akey(v): (v, 1)}


def lin(const, parts):
    items = [(t, c) for t, c in parts.values() if c != 0]
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda tc: order(tc[0]))
    return mk('lin', const, tuple(items), ty='int')


def i_add(a, b, sign=1):
    ca, pa = lin_of(a)
    cb, pb = lin_of(b)
    r = dict(pa)
    for k, (t, c) in pb.items():
        r[k] = (t, r.get(k, (t, 0))[1] + sign * c)
    return lin(ca + sign * cb, r)


def i_scale(a, n):
    c, p = lin_of(a)
    return lin(c * n, {k: (t, x * n) for k, (t, x) in p.items()})


def t_len(x):
    if isinstance(x, str):
        return len(x)
    n = fixed_len(x)
    if n is not None:
        return n
    if x.op == 'cat':
        r = 0
        for p in x.args:
            r = i_add(r, t_len(p))
        return r
    if x.op == 'istr' and isinstance(x.args[0], BV):
        return decimal_len(x.args[0])
    return mk('len', x, ty='int')


def decimal_len(v):
    """Number of characters of the decimal text of a symbolic integer."""
    lo, hi = bounds_int(v, TRUE)
    cuts = [10 ** k for k in range(1, len(str(max(hi, 0))))]
    out = 1
    for c in cuts:
        out = add(out, bv((lt_int(v, c) ^ 1, FALSE)))
    if lo < 0:
        out = add(out, bv((lt_int(v, 0), FALSE)))
        k = 10
        while -k >= lo:
            out = add(out, bv((lt_int(-k, v) ^ 1, FALSE)))
            k *= 10
    return out


def t_ge(t, c):
    """t >= c for an int term and a constant."""
    if isinstance(t, int):
        return TRUE if t >= c else FALSE
    if not is_term(t):
        return lt_int(t, c) ^ 1
    if t.op == 'lin' and len(t.args[1]) == 1:
        k, (u, co) = t.args[0], t.args[1][0]
        if co == 1:
            return t_ge(u, c - k)
        if co == -1:                      # k - u >= c  <=>  u <= k - c
            return t_ge(u, k - c + 1) ^ 1
        if co > 0:
            return t_ge(u, -((k - c) // co)) if is_term(u) else _ge(t, c)
    if t.op == 'len' and c <= 0:
        return TRUE
    if t.op == 'len' and t.args[0].ty != 'list':
        x = t.args[0]
        m = max_len(x)
        if m is not None and c > m:
            return FALSE
        if x.op == 'slice' and x.args[1] >= 0 and (x.args[2] is None or
                                                   x.args[2] >= 0):
            if x.args[2] is not None and c > x.args[2] - x.args[1]:
                return FALSE
            return t_ge(t_len(x.args[0]), x.args[1] + c)
        if c == 1:
            return t_eq(x, '') ^ 1
        if x.op == 'sym' or x.op == 'slice' or x.op == 'scall':
            pass
    if t.op == 'scall':
        name = t.args[0]
        if name == 'count' and c <= 0:
            return TRUE
        if name == 'count' and c == 1 and len(t.args) == 3 and \
                isinstance(t.args[2], str) and len(t.args[2]) > 1:
            return t_in(t.args[2], t.args[1])
        if name in ('find', 'rfind') and c <= -1:
            return TRUE
        if name in ('index', 'rindex') and c <= 0:
            return TRUE
        if name == 'find' and c == 0 and len(t.args) == 3:
            return t_in(t.args[2], t.args[1])
    return _ge(t, c)


def is_term(u):
    return isinstance(u, Term)


def _ge(t, c):
    if isinstance(t, Term) and t.op == 'lin':
        k, items = t.args[0], t.args[1]
        if items[0][1] < 0:               # t>=c  <=>  not (-t >= -c+1)
            return _ge(i_scale(t, -1), -c + 1) ^ 1
        t = lin(0, {akey(u): (u, x) for u, x in items})
        c -= k
    return atom(mk('ge', t, c, ty='bool'))


def split_bv(f, a, b):
    """Compare a term with a bit vector by the values of the latter."""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(y, BV) and isinstance(x, Term):
            try:
                cs = cases_int(y, TRUE, 600)
            except Unsupported:
                return None
            return bdd.disj([and_(g, f(n, x) if sw else f(x, n))
                             for g, n in cs])
    return None


def t_cmp_ge(a, b):
    """a >= b, at least one an int term."""
    sp = split_bv(t_cmp_ge, a, b)
    if sp is not None:
        return sp
    d = i_add(a, b, -1)
    if isinstance(d, int):
        return TRUE if d >= 0 else FALSE
    if isinstance(d, BV):
        return lt_int(d, 0) ^ 1
    return t_ge(d, 0)


def t_cmp_eq(a, b):
    if is_int(a) and is_int(b):
        return eq_int(a, b)
    sp = split_bv(t_cmp_eq, a, b)
    if sp is not None:
        return sp
    d = i_add(a, b, -1)
    if isinstance(d, int):
        return TRUE if d == 0 else FALSE
    return and_(t_ge(d, 0), t_ge(d, 1) ^ 1)


def list_len(t):
    """Length of a list term, as an int term."""
    if t.op == 'scall' and t.args[0] in ('partition', 'rpartition'):
        return 3
    if t.op == 'scall' and t.args[0] in ('split', 'rsplit') and \
            len(t.args) == 3 and isinstance(t.args[2], str):
        return i_add(t_call('count', t.args[1], t.args[2]), 1)
    return mk('len', t, ty='int')


def list_ge(t, n):
    """len(t) >= n"""
    if n <= 0:
        return TRUE
    if t.op == 'scall' and t.args[0] in ('split', 'rsplit') and (
            len(t.args) == 2 or len(t.args) == 4 and t.args[2] is None):
        if n == 1:
            return t_eq(t_call('strip', t.args[1]), '') ^ 1
    if t.op == 'scall' and t.args[0] in ('split', 'rsplit') and \
            len(t.args) == 4 and \
            isinstance(t.args[3], int) and t.args[3] >= 0 and \
            isinstance(t.args[2], str):
        if n > t.args[3] + 1:
            return FALSE
        if n == 1:
            return TRUE
        return t_ge(t_call('count', t.args[1], t.args[2]), n - 1)
    n_ = list_len(t)
    return t_ge(n_, n)


def list_item(t, i):
    """Element of a list term at constant index (in bounds)."""
    if t.op == 'scall' and t.args[0] in ('split', 'partition') and \
            len(t.args) >= 3 and isinstance(t.args[2], str):
        if i == 0 and not (len(t.args) == 4 and t.args[3] == 0):
            return mk('before', t.args[1], t.args[2])
        if t.args[0] == 'partition' and i == 2:
            return mk('after', t.args[1], t.args[2])
        if t.args[0] == 'split' and len(t.args) == 4 and t.args[3] == 1 \
                and i in (1, -1):
            return mk('after', t.args[1], t.args[2])
        if t.args[0] == 'split' and len(t.args) == 4 and t.args[3] == 2 \
                and i == 1:
            return mk('getitem', mk('scall', 'split', t.args[1], t.args[2],
                                    ty='list'), 1)
    if t.op == 'scall' and t.args[0] == 'split' and i == 0 and (
            len(t.args) == 2 or len(t.args) == 4 and t.args[2] is None and
            isinstance(t.args[3], int) and t.args[3] > 0):
        # The first word does not depend on the limit, nor on white space
        # around the text.
        x = t.args[1]
        while isinstance(x, Term) and x.op == 'scall' and \
                x.args[0] in ('strip', 'lstrip', 'rstrip') and \
                len(x.args) == 2:
            x = x.args[1]
        if x is not t.args[1] or len(t.args) == 4:
            t = mk('scall', 'split', x, ty='list')
    if t.op == 'scall' and t.args[0] == 'split' and len(t.args) == 2 and \
            i == 0 and isinstance(t.args[1], Term) and \
            t.args[1].op == 'cat' and isinstance(t.args[1].args[0], str):
        q = t.args[1].args[0].lstrip()
        w = q.split()
        if len(w) > 1 or w and q != q.rstrip():
            return w[0]
    return mk('getitem', t, i)


# ------------------------------------------------------------ formatting

def _digits(n, base, w):
    s = ''
    if n == 0:
        s = '0'
    while n:
        s = '0123456789abcdef'[n % base] + s
        n //= base
    return s.rjust(w, '0')


# ------------------------------------------------------------ evaluation

class EvalError(Exception):
    pass


def int_value(bits, env):
    n = 0
    for k, b in enumerate(bits):
        if bdd.evaluate(b, lambda v: atom_value(v, env)):
            n |= 1 << k
    if n >> (len(bits) - 1):
        n -= 1 << len(bits)
    return n


def atom_value(v, env):
    c = env.setdefault('#cache', {})
    r = c.get(v)
    if r is None:
        a = atoms[v]
        if a[0] == 'bit':
            x = env.get(a[1], 0)
            r = bool((int(x) >> a[2]) & 1)
        else:
            try:
                r = bool(evalt(a[1], env))
            except (IndexError, ValueError, TypeError, KeyError,
                    AttributeError):
                r = False
        c[v] = r
    return r


def evalt(t, env):
    """Value of a term/value under an assignment of the inputs."""
    if isinstance(t, BV):
        return int_value(t.bits, env)
    if isinstance(t, SB):
        return bdd.evaluate(t.b, lambda v: atom_value(v, env))
    if isinstance(t, tuple):
        return tuple(evalt(x, env) for x in t)
    if isinstance(t, Un):
        for g, v in t.alts:
            if bdd.evaluate(g, lambda v: atom_value(v, env)):
                return evalt(v, env)
        raise EvalError('no alternative')
    if not isinstance(t, Term):
        return t
    cache = env.setdefault('#terms', {})
    if id(t) in cache:
        return cache[id(t)]
    r = _evalt(t, env)
    cache[id(t)] = r
    return r


wide_texts = []


def _evalt(t, env):
    op, a = t.op, t.args
    if op == 'wide':
        return ''.join(str(evalt(x, env)) for x in wide_texts[a[0]])
    if op == 'sym':
        return env[a[0]]
    if op == 'cat':
        return ''.join(str(evalt(x, env)) for x in a)
    if op == 'slice':
        return evalt(a[0], env)[a[1]:a[2]]
    if op == 'idx' or op == 'getitem':
        return evalt(a[0], env)[evalt(a[1], env)]
    if op == 'before':
        return evalt(a[0], env).split(a[1])[0]
    if op == 'after':
        return evalt(a[0], env).partition(a[1])[2]
    if op == 'scall':
        return getattr(evalt(a[1], env), a[0])(*[evalt(x, env)
                                                 for x in a[2:]])
    if op == 'len':
        return len(evalt(a[0], env))
    if op == 'lin':
        return a[0] + sum(evalt(x, env) * c for x, c in a[1])
    if op == 'eq':
        return evalt(a[0], env) == evalt(a[1], env)
    if op == 'ge':
        return evalt(a[0], env) >= a[1]
    if op == 'lt':
        return evalt(a[0], env) < evalt(a[1], env)
    if op == 'in':
        return evalt(a[0], env) in evalt(a[1], env)
    if op == 'istr':
        return str(evalt(a[0], env))
    if op == 'digit':
        return _digits(evalt(a[0], env), 16, 1)
    if op == 'digits':
        return _digits(evalt(a[0], env), a[1], a[2])
    if op == 'format':
        return format(evalt(a[0], env), evalt(a[1], env))
    if op == 'pct':
        return a[0] % evalt(a[1], env)
    if op == 'int':
        return int(evalt(a[0], env), *a[1:])
    if op == 'isint':
        try:
            int(evalt(a[0], env), *a[1:])
            return True
        except ValueError:
            return False
    if op == 'imul':
        return evalt(a[0], env) * evalt(a[1], env)
    if op == 'idiv':
        return evalt(a[0], env) // evalt(a[1], env)
    if op == 'imod':
        return evalt(a[0], env) % evalt(a[1], env)
    if op == 'repeat':
        return evalt(a[0], env) * evalt(a[1], env)
    if op == 'slice2':
        return evalt(a[0], env)[evalt(a[1], env):evalt(a[2], env)]
    if op == 'join':
        return evalt(a[0], env).join(evalt(a[1], env))
    if op == 'repr':
        return repr(evalt(a[0], env))
    if op == 'float':
        return float(evalt(a[0], env))
    if op == 'objstr':
        return '<object>'
    if op == 'opaque':
        return '<opaque %s>' % (a[0],)
    if op == 'ite':
        return evalt(a[1], env) if evalt(a[0], env) else evalt(a[2], env)
    raise EvalError(op)


# ------------------------------------------------------------ axioms

def subterms(t, acc=None):
    if acc is None:
        acc = {}
    if isinstance(t, Term):
        if id(t) not in acc:
            acc[id(t)] = t
            for a in t.args:
                subterms(a, acc)
    elif isinstance(t, tuple):
        for a in t:
            subterms(a, acc)
    return acc


def subst(t, old, new):
    if t is old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) for x in t)
    if not isinstance(t, Term):
        return t
    args = tuple(subst(a, old, new) for a in t.args)
    if all(x is y for x, y in zip(args, t.args)):
        return t
    return rebuild(t, args)


def rebuild(t, a):
    op = t.op
    if op == 'cat':
        return cat(*a)
    if op == 'slice':
        return t_slice(*a)
    if op == 'scall':
        return t_call(*a)
    if op == 'eq':
        if isinstance(a[0], list) or isinstance(a[1], list):
            raise TypeError
        return sb(t_eq(a[0], a[1]))
    if op == 'in':
        return sb(t_in(a[0], a[1]))
    if op == 'lt':
        return sb(t_lt(a[0], a[1]))
    if op == 'len':
        if isinstance(a[0], (list, tuple)):
            return len(a[0])
        return t_len(a[0])
    if op == 'ge':
        return sb(t_ge(a[0], a[1]))
    if op == 'lin':
        r = a[0]
        for x, c in a[1]:
            r = i_add(r, i_scale(x, c))
        return r
    if op in ('before', 'after') and isinstance(a[0], str):
        return a[0].split(a[1])[0] if op == 'before' else \
            a[0].partition(a[1])[2]
    if op == 'getitem' and isinstance(a[0], (list, tuple)):
        return a[0][a[1]]
    if op == 'idx' and isinstance(a[0], str):
        return a[0][a[1]]
    if op == 'before' or op == 'after' or op == 'getitem' or op == 'idx':
        return mk(op, *a, ty=t.ty)
    if op == 'istr' and isinstance(a[0], int):
        return str(a[0])
    if op == 'isint' and isinstance(a[0], str):
        try:
            int(a[0], *a[1:])
            return True
        except ValueError:
            return False
    if op == 'int' and isinstance(a[0], str):
        return int(a[0], *a[1:])
    return mk(op, *a, ty=t.ty)


def absent(t):
    """(the text is there, what t is otherwise) for terms that look for a
    text in another."""
    a = t.args
    if t.op in ('before', 'after') and isinstance(a[1], str) and \
            isinstance(a[0], Term):
        return t_in(a[1], a[0]), (a[0] if t.op == 'before' else '')
    if t.op == 'getitem' and isinstance(a[0], Term) and \
            a[0].op == 'scall' and len(a[0].args) >= 3 and \
            isinstance(a[0].args[2], str):
        name, x, sep = a[0].args[:3]
        if not isinstance(x, Term):
            return None
        if name in ('split', 'rsplit') and a[1] in (0, -1):
            return t_in(sep, x), x
        if name == 'partition':
            return t_in(sep, x), (x, '', '')[a[1]]
        if name == 'rpartition':
            return t_in(sep, x), ('', '', x)[a[1]]
    if t.op == 'scall' and a[0] == 'replace' and len(a) == 4 and \
            isinstance(a[2], str) and a[2] and isinstance(a[1], Term):
        return t_in(a[2], a[1]), a[1]
    return None


def refine(f, rounds=4):
    """f together with facts about its atoms, from the meaning of terms."""
    done = set()
    known = []
    for _ in range(rounds):
        if f == FALSE:
            return f
        before = f
        sup = sorted(bdd.support(f))
        ts = [(v, atoms[v][1]) for v in sup if atoms[v][0] == 'term']
        if len(ts) > 600:
            break
        facts = []
        by_ge, eqs = {}, []
        for v, t in ts:
            if t.op == 'ge':
                by_ge.setdefault(id(t.args[0]), []).append((t.args[1], v))
            if t.op == 'eq':
                eqs.append((v, t))
        for lst in by_ge.values():
            lst.sort()
            for (c1, v1), (c2, v2) in zip(lst, lst[1:]):
                if ('ge', v1, v2) not in done:
                    done.add(('ge', v1, v2))
                    facts.append(bdd.implies(bdd.literal(v2),
                                             bdd.literal(v1)))
        # one term has one constant value
        by_eq = {}
        for v, t in eqs:
            if isinstance(t.args[1], str):
                by_eq.setdefault(id(t.args[0]), []).append(v)
        for vs in by_eq.values():
            for i, v in enumerate(vs):
                for w in vs[:i]:
                    if ('ne', w, v) not in done:
                        done.add(('ne', w, v))
                        facts.append(and_(bdd.literal(v),
                                          bdd.literal(w)) ^ 1)
        for x in facts:
            f = and_(f, x)
            if f == FALSE:
                return f
        facts = []
        subs = {v: subterms(t) for v, t in ts}
        for v, t in eqs:
            x, c = t.args
            for (old, repl) in ((x, c),) + (
                    ((c, x),) if isinstance(c, Term) else ()):
                for w, u in ts:
                    if w == v or id(old) not in subs[w]:
                        continue
                    if ('eq', v, w, id(old)) in done:
                        continue
                    done.add(('eq', v, w, id(old)))
                    try:
                        r = subst(u, old, repl)
                    except (IndexError, ValueError, TypeError):
                        continue
                    if isinstance(r, bool):
                        r = TRUE if r else FALSE
                    elif isinstance(r, SB):
                        r = r.b
                    elif isinstance(r, Term):
                        r = atom(r)
                    else:
                        continue
                    x_ = bdd.implies(bdd.literal(v),
                                     bdd.iff(bdd.literal(w), r))
                    new = [y for y in bdd.support(x_) if y not in sup]
                    facts.append((len(new), len(facts), x_))
        # what a term is when the text it looks for is not there
        for w, u in ts:
            for x in list(subs[w].values()):
                d = absent(x)
                if d is None or ('absent', w, id(x)) in done:
                    continue
                done.add(('absent', w, id(x)))
                there, repl = d
                try:
                    r = subst(u, x, repl)
                except (IndexError, ValueError, TypeError):
                    continue
                if isinstance(r, bool):
                    r = TRUE if r else FALSE
                elif isinstance(r, SB):
                    r = r.b
                elif isinstance(r, Term):
                    r = atom(r)
                else:
                    continue
                x_ = or_(there, bdd.iff(bdd.literal(w), r))
                new = [y for y in bdd.support(x_) if y not in sup]
                facts.append((len(new), len(facts), x_))
        # lt is irreflexive and asymmetric with eq
        for v, t in ts:
            if t.op == 'lt' and ('lt', v) not in done:
                done.add(('lt', v))
                e = t_eq(t.args[0], t.args[1])
                facts.append((0, len(facts), and_(bdd.literal(v), e) ^ 1))
        facts.sort()
        for _, _, x in facts:
            f = and_(f, x)
            if f == FALSE:
                return f
        if not facts and f == before:
            break
    return f
