"""Transfer functions of the built-in types, functions and library modules."""
import ast
import builtins as _bi
import operator as _op
import posixpath
import re as _re
import string as _string
import sys as _sys

from . import bdd, values as V, terms as T
from .bdd import TRUE, FALSE, and_, or_, neg
from .values import (Term, BV, SB, Un, UNDEF, Unsupported, mk, atom, sb, is_int,
                     is_intlike, v_ite, v_union, same)
from . import interp as I
from .interp import (in_order, HObj, HList, HDict, Ent, SliceV, RangeV, Env, ModV, FuncV,
                     ClassV, NativeClass, BoundV, MethodV, BuiltinV, PropV,
                     StaticV, ClassMV, SuperV, PartialV, Lazy, HIter, HFile,
                     Stream, Frame, Dead, NATIVE_TYPES)


def native(v):
    """Is v a plain host value without symbolic parts?"""
    return V.is_native(v)


def spread(it, fn, *vals):
    """Apply fn to vals, distributing over unions."""
    for i, v in enumerate(vals):
        if isinstance(v, Un):
            return it.vmap(lambda x: spread(it, fn, *(
                vals[:i] + (x,) + vals[i + 1:])), v)
    return fn(*vals)


def by_cases(it, v, fn, limit=64):
    """fn on each value of a symbolic integer, if it has few values."""
    if isinstance(v, Un):
        return it.vmap(lambda x: by_cases(it, x, fn, limit), v)
    if not isinstance(v, (BV, V.SB)):
        return fn(v)
    try:
        cs = V.cases_int(v, it.pc, limit)
    except Unsupported:
        return fn(v)
    base, after, out = it.pc, [], []
    for g, n in cs:
        it.pc = g
        try:
            r = fn(n)
        except Dead:
            continue
        out.append((g, r))
        after.append(it.pc)
    it.pc = bdd.disj(after)
    if it.pc == FALSE:
        raise Dead()
    return v_union([(bdd.constrain(g, base), r) for g, r in out])


def with_text(it, t, fn):
    """fn on the values of a text made of constants and digits."""
    if isinstance(t, Un):
        return it.vmap(lambda x: with_text(it, x, fn), t)
    if not isinstance(t, Term):
        return fn(t)
    parts = list(t.args) if t.op == 'cat' else [t]
    for i, p in enumerate(parts):
        if isinstance(p, Term) and p.op in ('digit', 'istr') and \
                isinstance(p.args[0], BV):
            def one(n, i=i, p=p):
                if isinstance(n, BV):
                    it.unsupported('symbolic format')
                x = str(n) if p.op == 'istr' else '0123456789abcdef'[n]
                return with_text(it, T.cat(*(parts[:i] + [x] +
                                             parts[i + 1:])), fn)
            return by_cases(it, p.args[0], one)
    it.unsupported('symbolic format')


def lift(it, v):
    """Host value -> abstract value."""
    if isinstance(v, list):
        return it.new_list([lift(it, x) for x in v])
    if isinstance(v, tuple):
        return tuple(lift(it, x) for x in v)
    if isinstance(v, dict):
        d = it.new_dict()
        for k, x in v.items():
            it.dict_set(d, lift(it, k), lift(it, x))
        return d
    if isinstance(v, (set, frozenset)):
        d = it.new_dict('set')
        for x in sorted(v, key=repr):
            it.dict_set(d, x, None)
        return d
    return v


def host(it, fn, *args):
    """Constant folding with host semantics of exceptions."""
    try:
        return lift(it, fn(*args))
    except (ValueError, TypeError, IndexError, KeyError, ZeroDivisionError,
            OverflowError, AttributeError) as e:
        it.throw(type(e), str(e))
        raise Dead()


def bad(it, exc, msg=''):
    it.throw(exc, msg)
    raise Dead()


# ------------------------------------------------------------ to text

def to_str(it, v):
    if isinstance(v, Un):
        return it.vmap(lambda x: to_str(it, x), v)
    if T.is_str(v):
        return v
    if isinstance(v, BV):
        return T.istr(v)
    if isinstance(v, SB):
        return v_union([(v.b, 'True'), (neg(v.b), 'False')])
    if isinstance(v, Term):
        if v.ty == 'int':
            return T.istr(v)
        return mk('strof', v)
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__str__')
        if f is not None:
            return it.call(BoundV(v, f), [], {})
        if it.exc_matches(v, BaseException) if hasattr(v.cls, 'mro') else False:
            a = v.attrs.get('args', ())
            if isinstance(a, tuple):
                if len(a) == 0:
                    return ''
                if len(a) == 1:
                    if it.exc_matches(v, KeyError):
                        return to_repr(it, a[0])
                    return to_str(it, a[0])
            if it.exc_matches(v, (OSError, UnicodeError, SyntaxError)):
                it.unsupported('text of an OSError')
            return to_repr(it, a)
    return to_repr(it, v)


def to_repr(it, v):
    if isinstance(v, Un):
        return it.vmap(lambda x: to_repr(it, x), v)
    if isinstance(v, Term) and v.ty == 'str':
        return mk('repr', v)
    if isinstance(v, (BV, SB)) or (isinstance(v, Term) and v.ty == 'int'):
        return to_str(it, v)
    if isinstance(v, Term):
        return mk('repr', v)
    if isinstance(v, tuple):
        if native(v):
            return repr(v)
        parts = [to_repr(it, x) for x in v]
        return cat_values(it, ['('] + sep_list(parts) +
                          [',)' if len(v) == 1 else ')'])
    if isinstance(v, HList):
        op, cl = {'tuple': '()', 'deque': ('deque([', '])')}.get(v.kind, '[]')
        try:
            items = it.static_items(v)
        except Unsupported:
            ents = [(g, x) for g, x in v.ents if and_(g, it.pc) != FALSE]
            if len(ents) <= 8 and v.kind != 'tuple':
                return cat_values(it, [op, join_parts(it, ', ', [
                    (g, to_repr(it, x)) for g, x in ents]), cl])
            return T.cat(op, mk('objstr', v), cl)
        if v.kind == 'tuple' and len(items) == 1:
            cl = ',)'
        return cat_values(it, [op] + sep_list(
            [to_repr(it, x) for x in items]) + [cl])
    if isinstance(v, HDict) and v.kind == 'counter':
        return T.cat('Counter(', mk('objstr', v), ')')
    if isinstance(v, HDict) and v.factory is not None:
        return T.cat('defaultdict(', mk('objstr', v), ')')
    if isinstance(v, HDict):
        if not v.ents and v.kind in ('set', 'frozenset'):
            return v.kind + '()'
        parts = []
        for e in v.ents:
            if and_(it.pc, neg(e.g)) != FALSE:
                if v.kind in ('set', 'frozenset'):
                    return mk('objstr', v)
                return T.cat('{', mk('objstr', v), '}')
            if v.kind in ('set', 'frozenset'):
                parts.append(to_repr(it, e.k))
            else:
                parts.append(cat_values(it, [to_repr(it, e.k), ': ',
                                             to_repr(it, e.v)]))
        return cat_values(it, ['{'] + sep_list(parts) + ['}'])
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__repr__')
        if f is not None:
            return it.call(BoundV(v, f), [], {})
        if getattr(v.cls, 'fields', None) is not None:
            parts = [cat_values(it, [n + '=', to_repr(it, v.attrs[n])])
                     for n in v.cls.fields]
            return cat_values(it, [v.cls.name + '('] + sep_list(parts) + [')'])
        if it.exc_matches(v, BaseException):
            a = v.attrs.get('args', ())
            if isinstance(a, tuple):
                return cat_values(it, [v.cls.name + '('] + sep_list(
                    [to_repr(it, x) for x in a]) + [')'])
        return mk('objstr', v)
    if isinstance(v, ClassV):
        return "<class '%s.%s'>" % (v.module.name, v.qualname)
    if isinstance(v, NativeClass):
        return "<class '%s'>" % v.name
    if isinstance(v, NATIVE_TYPES):
        return repr(v)
    return mk('objstr', v)


def sep_list(parts, sep=', '):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p)
    return out


def cat_values(it, parts):
    parts = [T.digit_union(p) for p in parts]
    if any(isinstance(p, Un) for p in parts):
        r = ''
        for p in parts:
            if isinstance(r, Un) or isinstance(p, Un):
                r = spread(it, lambda a, b: T.cat(a, b), r, p)
                if isinstance(r, Un) and len(r.alts) > 4000:
                    # equal only to itself; evaluated from its parts
                    T.wide_texts.append(tuple(parts))
                    return mk('wide', len(T.wide_texts) - 1)
            else:
                r = T.cat(r, p)
        return r
    return T.cat(*parts)


SPEC = _re.compile(r'^(?:(.)?([<>=^]))?([ +-])?(#)?(0)?(\d+)?([,_])?'
                   r'(?:\.(\d+))?([a-zA-Z%])?$', _re.S)


def pad(it, s, align, width, fill=' '):
    if width is None or width == 0:
        return s
    if align == '<':
        a = ('ljust',)
    elif align == '>':
        a = ('rjust',)
    else:
        a = ('center',)
    extra = (width,) if fill == ' ' else (width, fill)
    return spread(it, lambda x: T.t_call(a[0], x, *extra), s)


def nonneg(it, v):
    if isinstance(v, int):
        return v >= 0
    if isinstance(v, BV):
        return and_(it.pc, v.bits[-1]) == FALSE
    return False


def int_text(it, v, conv):
    """Digits of a symbolic int in base d, o, x, b (no padding)."""
    if conv in ('d', 'i', 'u', 'n', ''):
        if isinstance(v, BV):
            w = V.restrict_int(v, it.pc)
            if isinstance(w, int):
                return str(w)
        return T.istr(v)
    base = {'o': 8, 'x': 16, 'b': 2, 'X': 16}[conv]
    if isinstance(v, BV):
        if nonneg(it, v):
            w = restrict_nonneg(it, v)
            if isinstance(w, int):
                r = T._digits(w, base, 1)
            else:
                r = T.digits(w, base, 1)
            return T.t_call('upper', r) if conv == 'X' else r
        ng = v.bits[-1]
        base_pc = it.pc
        out = []
        it.pc = and_(base_pc, neg(ng))
        if it.pc != FALSE:
            out.append((neg(ng), int_text(it, V.restrict_int(v, it.pc), conv)))
        it.pc = and_(base_pc, ng)
        if it.pc != FALSE:
            m = V.restrict_int(V.negate(v), it.pc)
            t = T._digits(m, base, 1) if isinstance(m, int) else \
                int_text(it, m, conv)
            out.append((ng, T.cat('-', t)))
        it.pc = base_pc
        return v_union(out)
    return mk('format', v, conv)


def restrict_nonneg(it, v):
    bits = list(v.bits)
    if bits[-1] != FALSE:
        v = V.restrict_int(v, it.pc)
    return v


def format_value(it, v, spec):
    if isinstance(v, Un) or isinstance(spec, Un):
        return spread(it, lambda x, s: format_value(it, x, s), v, spec)
    if isinstance(spec, Term):
        return with_text(it, spec, lambda x: format_value(it, v, x))
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__format__')
        if f is not None:
            return it.call(BoundV(v, f), [spec], {})
        if spec == '':
            return to_str(it, v)
        bad(it, TypeError, 'unsupported format string')
    if isinstance(v, NATIVE_TYPES):
        return host(it, format, v, spec)
    if spec == '':
        return to_str(it, v)
    m = SPEC.match(spec)
    if m is None:
        bad(it, ValueError, 'Invalid format specifier')
    fill, align, sign, alt, zero, width, group, prec, conv = m.groups()
    width = int(width) if width else None
    if isinstance(v, Term) and v.ty == 'str':
        if conv not in (None, 's'):
            bad(it, ValueError, 'Unknown format code for str')
        if zero and not align:
            fill, align = '0', '<'
        if align == '=':
            bad(it, ValueError, "'=' alignment not allowed")
        if prec is not None:
            v = T.t_slice(v, 0, int(prec))
        return pad(it, v, align or '<', width, fill or ' ')
    if isinstance(v, SB):
        v = V.bv((v.b, FALSE))
    if is_int(v) or T.is_tint(v):
        conv = conv or 'd'
        if conv not in 'dioxXbn' or group or sign in ('+', ' '):
            if conv in 'feEgG%':
                return mk('format', v, spec)
            if conv == 's':
                bad(it, ValueError, "Unknown format code 's' for int")
            return mk('format', v, spec)
        s = int_text(it, v, conv)
        if alt and conv in 'oxb':
            s = cat_values(it, ['0' + conv, s])
            if zero:
                return mk('format', v, spec)
        if zero and not align:
            fill, align = '0', '='
        if align == '=':
            if (fill or ' ') != '0':
                return mk('format', v, spec)
            return spread(it, lambda x: T.t_call('zfill', x, width or 0), s)
        return pad(it, s, align or '>', width, fill or ' ')
    if isinstance(v, Term) and v.ty == 'float':
        return mk('format', v, spec)
    bad(it, TypeError, 'unsupported format string')


PCT = _re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?'
                  r'[hlL]?([diouxXeEfFgGcrsa%])')


class Cst:
    """A width that has been looked at."""
    def __init__(self, v):
        self.v = v


def percent(it, fmt, arg):
    if isinstance(fmt, Term):
        it.unsupported('symbolic % format')
    if isinstance(arg, Un) and any(isinstance(x, tuple) for _, x in arg.alts):
        return it.vmap(lambda x: percent(it, fmt, x), arg)
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if isinstance(arg, HObj) and getattr(arg.cls, 'fields', None) is not None:
        args = list(it.nt_tuple(arg))
    if isinstance(arg, tuple) and native(arg) or isinstance(
            arg, NATIVE_TYPES):
        return host(it, lambda: fmt % arg)
    parts, pos, n = [], 0, 0
    used_key = False
    for m in PCT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if key is not None:
            used_key = True
            v = it.dict_get(arg, key)
        else:
            if width == '*':
                if n >= len(args):
                    bad(it, TypeError, 'not enough arguments')
                width = args[n]
                if isinstance(width, (Un, BV)):
                    return by_cases(it, width, lambda x: percent(
                        it, fmt, tuple(args[:n] + [Cst(x)] +
                                       args[n + 1:])))
                n += 1
                if isinstance(width, Cst):
                    width = width.v
                if not isinstance(width, int):
                    it.unsupported('symbolic width')
                if width < 0:
                    flags, width = flags + '-', -width
            if prec == '*':
                prec = args[n]
                n += 1
            if n >= len(args):
                bad(it, TypeError, 'not enough arguments for format string')
            v = args[n]
            n += 1
        w = int(width) if width is not None else None
        parts.append(pct_one(it, v, flags, w, prec, conv))
    parts.append(fmt[pos:])
    if '%' in ''.join(p for p in parts if isinstance(p, str)) and \
            len(PCT.findall(fmt)) != fmt.replace('%%', '').count('%') + \
            fmt.count('%%'):
        it.unsupported('% format')
    if n < len(args) and not used_key and not isinstance(arg, HDict):
        bad(it, TypeError, 'not all arguments converted')
    return cat_values(it, parts)


def pct_one(it, v, flags, width, prec, conv):
    if isinstance(v, Un):
        return it.vmap(lambda x: pct_one(it, x, flags, width, prec, conv), v)
    left = '-' in flags
    if conv in 'sra':
        s = to_str(it, v) if conv == 's' else to_repr(it, v)
        if prec is not None:
            s = spread(it, lambda x: T.t_slice(x, 0, int(prec)), s)
        return pad(it, s, '<' if left else '>', width)
    if conv in 'diuoxX':
        if isinstance(v, HObj):
            for m in ('__index__',) if conv in 'oxX' else ('__int__',
                                                           '__index__'):
                f, _ = v.cls.lookup(m)
                if f is not None:
                    v = it.call(BoundV(v, f), [], {})
                    return pct_one(it, v, flags, width, prec, conv)
        if isinstance(v, (bool, int)) or (isinstance(v, float) and
                                          conv in 'diu'):
            spec = '%' + flags + ('' if width is None else str(width)) + \
                ('' if prec is None else '.%s' % prec) + conv
            return spec % v
        if isinstance(v, SB):
            v = V.bv((v.b, FALSE))
        if not (is_int(v) or T.is_tint(v)):
            bad(it, TypeError, '%%%s format: a number is required' % conv)
        if '+' in flags or ' ' in flags or prec is not None:
            return mk('pct', '%' + flags + str(width or '') +
                      ('' if prec is None else '.%s' % prec) + conv, v)
        s = int_text(it, v, conv)
        if '#' in flags:
            s = cat_values(it, ['0' + conv, s])
        if '0' in flags and not left and width:
            return spread(it, lambda x: T.t_call('zfill', x, width), s)
        return pad(it, s, '<' if left else '>', width)
    if conv == 'c' and isinstance(v, (int, str)):
        return pad(it, '%c' % v, '<' if left else '>', width)
    spec = '%' + flags + ('' if width is None else str(width)) + \
        ('' if prec is None else '.%s' % prec) + conv
    if isinstance(v, (int, float)):
        return spec % v
    if is_intlike(v) or (isinstance(v, Term) and v.ty in ('int', 'float')):
        return mk('pct', spec, v)
    bad(it, TypeError, 'a number is required')


def str_format(it, fmt, args, kw):
    if isinstance(fmt, Term):
        it.unsupported('symbolic format string')
    parts = []
    auto = [0]
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        v = fmt_field(it, field, args, kw, auto)
        if spec and '{' in spec:
            spec = str_format_nested(it, spec, args, kw, auto)
        if conv == 'r':
            v = to_repr(it, v)
        elif conv == 's':
            v = to_str(it, v)
        parts.append(format_value(it, v, spec or ''))
    return cat_values(it, parts)


def str_format_nested(it, fmt, args, kw, auto):
    parts = []
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        v = fmt_field(it, field, args, kw, auto)
        parts.append(by_cases(it, v, lambda x: format_value(
            it, x, spec or '')))
    return cat_values(it, parts)


def fmt_field(it, field, args, kw, auto):
    import _string as _s
    first, rest = _s.formatter_field_name_split(field)
    if first == '':
        first = auto[0]
        auto[0] += 1
    if isinstance(first, int):
        if first >= len(args):
            bad(it, IndexError, 'Replacement index out of range')
        v = args[first]
    else:
        if first not in kw:
            bad(it, KeyError, first)
        v = kw[first]
    for is_attr, name in rest:
        v = it.get_attr(v, name) if is_attr else it.get_item(v, name)
    return v


# ------------------------------------------------------------ attributes

STR_METHODS = set(n for n in dir(str) if not n.startswith('__')) | {
    '__contains__', '__len__', '__eq__', '__getitem__', '__str__'}


def pytype(v):
    if isinstance(v, bool) or isinstance(v, SB):
        return bool
    if isinstance(v, (int, BV)) or T.is_tint(v):
        return int
    if T.is_str(v):
        return str
    if isinstance(v, Term):
        return {'list': list, 'float': float}.get(v.ty, object)
    if isinstance(v, HList):
        return {'list': list, 'tuple': tuple}.get(v.kind, list)
    if isinstance(v, HDict):
        return {'set': set, 'frozenset': frozenset}.get(v.kind, dict)
    if isinstance(v, SliceV):
        return slice
    if isinstance(v, RangeV):
        return range
    if isinstance(v, Lazy):
        return {'keys': type({}.keys()), 'values': type({}.values()),
                'items': type({}.items())}.get(v.kind, map)
    if isinstance(v, HIter):
        return map
    if isinstance(v, (FuncV, BoundV, BuiltinV, MethodV, PartialV)):
        return type(lambda: 0)
    if isinstance(v, (NativeClass, ClassV)):
        return type
    return type(v)


def value_attr(it, o, name):
    if name == '__class__':
        return it.native_class(pytype(o))
    if isinstance(o, (int, BV, SB)) or T.is_tint(o):
        if name in ('real', 'numerator'):
            return o
        if name == 'imag':
            return 0
    if isinstance(o, (range, RangeV)) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if name == '__doc__':
        return None
    if isinstance(o, (MethodV, BuiltinV)) and name in ('__name__',
                                                       '__qualname__'):
        return o.name
    if isinstance(o, PartialV) and name in ('func', 'args', 'keywords'):
        return {'func': o.f, 'args': tuple(o.args)}.get(name)
    t = pytype(o)
    if isinstance(o, HList) and o.kind == 'deque':
        import collections
        t = collections.deque
    if isinstance(o, HDict) and o.kind == 'counter':
        import collections
        t = collections.Counter
    if isinstance(o, HDict) and name in ('move_to_end', 'popitem'):
        return MethodV(o, name)
    if hasattr(t, name):
        return MethodV(o, name)
    if name in ('name', 'value', '_name_', '_value_') and \
            getattr(it, 'int_enums', False):
        it.unsupported('member of an integer enumeration')
    it.throw(AttributeError, "'%s' object has no attribute '%s'" %
             (t.__name__, name))
    raise Dead()


# ------------------------------------------------------------ methods

def call_method(it, o, name, args, kw):
    if isinstance(o, Un):
        return it.vmap(lambda x: it.call(it.get_attr(x, name), args, kw), o)
    if T.is_str(o):
        return str_method(it, o, name, args, kw)
    if isinstance(o, HList):
        return list_method(it, o, name, args, kw)
    if isinstance(o, HDict):
        if o.kind in ('set', 'frozenset'):
            return set_method(it, o, name, args, kw)
        return dict_method(it, o, name, args, kw)
    if isinstance(o, HFile):
        return file_method(it, o, name, args, kw)
    if isinstance(o, Stream):
        if name == 'write':
            out_text(it, o, args[0])
            return None
        if name == 'writelines':
            it.for_each(args[0], lambda x: out_text(it, o, x))
            return None
        if name in ('flush', 'close'):
            return None
        if name == 'isatty':
            return False
        it.unsupported('stream.%s' % name)
    if isinstance(o, tuple):
        return tuple_method(it, o, name, args, kw)
    if is_intlike(o) or T.is_tint(o) or isinstance(o, float):
        return num_method(it, o, name, args, kw)
    if isinstance(o, SliceV):
        if name == 'indices' and isinstance(args[0], int) and all(
                x is None or isinstance(x, int)
                for x in (o.start, o.stop, o.step)):
            return slice(o.start, o.stop, o.step).indices(args[0])
        it.unsupported('slice.%s' % name)
    if isinstance(o, HIter):
        if name == '__next__':
            return next_(it, o, UNDEF)
        if name == '__iter__':
            return o
    if isinstance(o, Lazy):
        if name in ('__iter__',):
            return o if o.kind not in ('keys', 'values', 'items') else \
                iter_(it, o)
        if name == '__next__':
            return next_(it, o, UNDEF)
        if name == '__len__':
            return len_(it, o)
        if name == '__contains__':
            return sb(it.contains(o, args[0]))
        if o.kind == 'keys':
            return set_method(it, make_set(it, o), name, args, kw)
        if name == 'close':
            return None
        it.unsupported('%s.%s' % (o.kind, name))
    if isinstance(o, (range, RangeV)):
        if name == '__len__':
            return len_(it, o)
        if name == '__iter__':
            return iter_(it, o)
        if name == '__contains__':
            return sb(it.contains(o, args[0]))
        if name in ('index', 'count') and isinstance(o, range) and \
                isinstance(args[0], int):
            return host(it, getattr(o, name), args[0])
        it.unsupported('range.%s' % name)
    if isinstance(o, HObj):
        if name == '__init__':
            return it.native_init([o] + args, kw)
        if name == '__repr__':
            return to_repr(it, o)
        if name == '__str__':
            return to_str(it, o)
        if name == '__eq__':
            return sb(it.is_(o, args[0]))
        if name == '__ne__':
            return sb(neg(it.is_(o, args[0])))
        if name == '__hash__':
            return o.uid
        if name == '__setattr__':
            it.raw_set(o, args[0], args[1])
            return None
        if name == '__getattribute__':
            return it.get_obj_attr(o, args[0])
        if name == '__format__':
            return format_value(it, o, args[0])
        base = o.attrs.get('#base')
        if base is not None:
            return call_method(it, base, name, args, kw)
    if isinstance(o, bytes) and all(native(a) for a in args):
        return host(it, getattr(o, name), *args)
    if o is None or isinstance(o, (FuncV, BoundV, ClassV)):
        bad(it, AttributeError, name)
    it.unsupported('method %s of %s' % (name, type(o).__name__))


def num_method(it, o, name, args, kw):
    if isinstance(o, (int, float)) and all(native(a) for a in args):
        return host(it, lambda: getattr(o, name)(*args, **kw))
    if name == 'bit_length' and is_intlike(o):
        if nonneg(it, o):
            bits = V.bits_of(o)
            r = 0
            for k, b in enumerate(bits[:-1]):
                r = V.ite_int(b, k + 1, r)
            return r
    if name == '__index__' or name == '__int__':
        return V.bv(V.bits_of(o)) if is_intlike(o) else o
    if name in ('conjugate',):
        return o
    if name == 'bit_count' and is_intlike(o):
        r = 0
        for b in V.bits_of(o)[:-1]:
            r = V.add(r, V.bv((b, FALSE)))
        return r
    ops = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__and__': '&',
           '__or__': '|', '__xor__': '^', '__lshift__': '<<',
           '__rshift__': '>>', '__floordiv__': '//', '__mod__': '%'}
    if name in ops:
        return it.binop(ops[name], o, args[0])
    if name == '__eq__':
        return sb(it.eq(o, args[0]))
    if name == '__format__':
        return format_value(it, o, args[0])
    if name in ('__str__', '__repr__'):
        return to_str(it, o)
    it.unsupported('int.%s' % name)


def str_method(it, o, name, args, kw):
    if name == 'format':
        return str_format(it, o, args, kw)
    if name == 'format_map':
        d = {e.k: e.v for e in args[0].ents}
        return str_format(it, o, [], d)
    if name == 'join':
        return str_join(it, o, args[0])
    if kw:
        names = {'split': ('sep', 'maxsplit'), 'rsplit': ('sep', 'maxsplit'),
                 'splitlines': ('keepends',), 'encode': ('encoding', 'errors'),
                 'expandtabs': ('tabsize',)}.get(name)
        if names is None:
            bad(it, TypeError, '%s() takes no keyword arguments' % name)
        args = list(args)
        dflt = {'sep': None, 'maxsplit': -1, 'keepends': False}
        for n in names[len(args):]:
            args.append(kw.get(n, dflt.get(n)))
        if name in ('split', 'rsplit') and args[-1] == -1 and len(args) == 2:
            args.pop()
        if name in ('split', 'rsplit') and args == [None]:
            args = []
    if name in ('split', 'rsplit') and len(args) == 2 and args[1] == -1:
        args = args[:1]
    if name in ('split', 'rsplit') and len(args) == 1 and args[0] is None:
        args = []
    args = [tuple(it.static_items(a)) if isinstance(a, HList) and
            a.kind == 'tuple' else a for a in args]

    def go(o, *args):
        if isinstance(o, str) and all(native(a) for a in args):
            if name == '__len__':
                return len(o)
            return host(it, lambda: getattr(o, name)(*args))
        if name == '__len__':
            return T.t_len(o)
        if name == '__eq__':
            return sb(it.eq(o, args[0]))
        if name == '__contains__':
            return sb(it.contains(o, args[0]))
        if name == '__getitem__':
            return it.get_item(o, args[0])
        if name == '__str__':
            return o
        if name in ('index', 'rindex') and len(args) == 1 and \
                T.is_str(args[0]):
            c = T.t_in(args[0], o)
            it.throw(ValueError, 'substring not found', neg(c))
            return T.t_call('find' if name == 'index' else 'rfind', o,
                            args[0])
        for a in args:
            if isinstance(a, (BV, SB)) or T.is_tint(a):
                if name in ('ljust', 'rjust', 'center', 'zfill'):
                    if a is args[0] and isinstance(a, (BV, SB)) and all(
                            isinstance(x, str) for x in args[1:]):
                        return by_cases(it, a, lambda n: T.t_call(
                            name, o, n, *args[1:])
                            if isinstance(n, int) else
                            mk('scall', name, o, n, *args[1:]))
                    return mk('scall', name, o, *args)
                it.unsupported('str.%s with symbolic number' % name)
            if not (a is None or isinstance(a, (str, int, tuple, Term))):
                if name == 'translate' and isinstance(a, HDict):
                    if isinstance(o, str) and all(
                            e.g == TRUE and native(e.k) and native(e.v)
                            for e in a.ents):
                        return o.translate({e.k: e.v for e in a.ents})
                    it.unsupported('translate')
                bad(it, TypeError, 'str.%s: bad argument' % name)
            if isinstance(a, tuple) and not all(T.is_str(x) for x in a):
                bad(it, TypeError, 'str.%s: bad argument' % name)
        if name in ('startswith', 'endswith', 'count', 'find', 'replace',
                    'split', 'partition') and (
                not args or args[0] is None or isinstance(args[0], int)):
            if name in ('startswith', 'endswith', 'count', 'find', 'replace',
                        'partition'):
                bad(it, TypeError, 'str.%s: bad argument' % name)
        if name == 'partition' or name == 'rpartition':
            l = T.t_call(name, o, *args)
            if isinstance(l, Term):
                return tuple(T.list_item(l, i) for i in range(3))
            return l
        return lift(it, T.t_call(name, o, *args))
    return spread(it, go, o, *args)


def str_join(it, sep, x):
    if isinstance(x, Un):
        return it.vmap(lambda y: str_join(it, sep, y), x)
    if isinstance(x, Term) and x.ty == 'list':
        if x.op == 'scall' and x.args[0] == 'split' and len(x.args) == 3 and \
                isinstance(x.args[2], str) and x.args[2]:
            return T.t_call('replace', x.args[1], x.args[2], sep)
        return mk('join', sep, x)
    if T.is_str(x) and isinstance(x, Term):
        it.unsupported('join over characters')
    l = it.to_list(x)
    ents = [(g, v) for g, v in l.ents if and_(g, it.pc) != FALSE]
    for g, v in ents:
        for h, y in V.alts_of(v):
            if not T.is_str(y) and and_(and_(g, h), it.pc) != FALSE:
                it.throw(TypeError, 'sequence item: expected str', and_(g, h))
    return join_parts(it, sep, ents)


def join_parts(it, sep, ents):
    if all(and_(it.pc, neg(g)) == FALSE for g, _ in ents):
        parts = []
        for i, (g, v) in enumerate(ents):
            if i:
                parts.append(sep)
            parts.append(it.live(v))
        return cat_values(it, parts)
    acc, has = '', FALSE
    for g, v in ents:
        first = cat_values(it, [v])
        more = cat_values(it, [acc, sep, v])
        if has == FALSE:
            new = first
        elif has == TRUE:
            new = more
        else:
            new = v_union([(has, more), (neg(has), first)])
        acc = v_ite(g, new, acc)
        has = or_(has, g)
        if isinstance(acc, Un) and len(acc.alts) > 3000:
            it.unsupported('join of many conditional items')
    return acc


def tuple_method(it, o, name, args, kw):
    if name == 'index':
        l = it.new_list(o)
        return list_method(it, l, 'index', args, kw)
    if name == 'count':
        return list_method(it, it.new_list(o), 'count', args, kw)
    if name == '__len__':
        return len(o)
    if name == '__getitem__':
        return it.get_item(o, args[0])
    if name == '__contains__':
        return sb(it.contains(o, args[0]))
    if name == '__iter__':
        return iter_(it, o)
    if name == '__eq__':
        return sb(it.eq(o, args[0]))
    if name == '__add__':
        return it.binop('+', o, args[0])
    it.unsupported('tuple.%s' % name)


def list_method(it, l, name, args, kw):
    if name == 'append':
        it.list_append(l, args[0])
        return None
    if name in ('extend', '__iadd__'):
        src = it.to_list(args[0])
        g = it.grel(l)
        for e in src.ents:
            h = and_(g, e[0])
            if h != FALSE:
                l.ents.append([h, e[1]])
        l.version += 1
        return None if name == 'extend' else l
    if name == 'appendleft':
        l.ents.insert(0, [it.grel(l), args[0]])
        l.version += 1
        return None
    if name == 'insert':
        i, v = args
        if isinstance(i, int) and i == 0:
            l.ents.insert(0, [it.grel(l), v])
        elif isinstance(i, int) and all(and_(it.pc, neg(g)) == FALSE
                                        for g, _ in l.ents):
            l.ents.insert(i, [it.grel(l), v])
        else:
            it.unsupported('list.insert')
        l.version += 1
        return None
    if name == 'pop':
        i = args[0] if args else -1
        if bdd.disj([g for g, _ in l.ents]) == FALSE or not l.ents:
            bad(it, IndexError, 'pop from empty list')
        v = it.list_get([tuple(e) for e in l.ents], it.as_index(i))
        it.list_del(l, it.as_index(i))
        return v
    if name == 'popleft':
        return list_method(it, l, 'pop', [0], {})
    if name == 'clear':
        g = it.grel(l)
        for e in l.ents:
            e[0] = and_(e[0], neg(g))
        l.ents[:] = [e for e in l.ents if e[0] != FALSE]
        l.version += 1
        return None
    if name in ('remove', 'index', 'count'):
        found, pos, res = FALSE, 0, None
        n = 0
        hits = []
        for e in l.ents:
            h = and_(e[0], it.eq_under(e[0], args[0], e[1]))
            if name == 'count':
                n = V.add(n, V.bv((h, FALSE)))
                continue
            first = and_(h, neg(found))
            if and_(first, it.pc) != FALSE:
                hits.append((first, pos, e))
            found = or_(found, h)
            pos = V.add(pos, V.bv((e[0], FALSE)))
        if name == 'count':
            return n
        it.throw(ValueError, 'list.%s(x): x not in list' % name, neg(found))
        if name == 'index':
            return v_union([(g, p) for g, p, _ in hits])
        g0 = it.grel(l)
        for g, _, e in hits:
            e[0] = and_(e[0], neg(and_(g0, g)))
        l.ents[:] = [e for e in l.ents if e[0] != FALSE]
        l.version += 1
        return None
    if name == 'sort':
        r = sorted_(it, l, kw.get('key'), kw.get('reverse', False))
        if it.grel(l) != TRUE:
            it.unsupported('conditional sort')
        l.ents = r.ents
        return None
    if name == 'reverse':
        if it.grel(l) != TRUE:
            it.unsupported('conditional reverse')
        l.ents.reverse()
        l.version += 1
        return None
    if name in ('copy', '__copy__'):
        r = it.new_list((), l.kind)
        r.ents = [list(e) for e in l.ents if and_(e[0], it.pc) != FALSE]
        return r
    if name == '__len__':
        return it.list_len(l)
    if name == '__getitem__':
        return it.get_item(l, args[0])
    if name == '__setitem__':
        return it.set_item(l, args[0], args[1])
    if name == '__delitem__':
        return it.del_item(l, args[0])
    if name == '__contains__':
        return sb(it.contains(l, args[0]))
    if name == '__iter__':
        return iter_(it, l)
    if name == '__eq__':
        return sb(it.eq(l, args[0]))
    if name == '__add__':
        return it.binop('+', l, args[0])
    it.unsupported('list.%s' % name)


def dict_method(it, d, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return Lazy(name, d)
    if name == 'get':
        dflt = args[1] if len(args) > 1 else None
        if isinstance(args[0], (HList, HDict)):
            bad(it, TypeError, 'unhashable type')
        has, v = it.dict_find(d, args[0])
        if has == TRUE:
            return v
        if has == FALSE:
            return dflt
        return it.live(v_union([(has, v), (neg(has), dflt)]))
    if name == 'setdefault':
        dflt = args[1] if len(args) > 1 else None
        has, v = it.dict_find(d, args[0])
        base = it.pc
        it.pc = and_(base, neg(has))
        if it.pc != FALSE:
            it.dict_set(d, args[0], dflt)
        it.pc = base
        if has == FALSE:
            return dflt
        return it.live(v_union([(has, v), (neg(has), dflt)]))
    if name == 'pop':
        has, v = it.dict_find(d, args[0])
        if len(args) > 1:
            it.dict_del(d, args[0], True)
            if has == FALSE:
                return args[1]
            return it.live(v_union([(has, v), (neg(has), args[1])]))
        it.dict_del(d, args[0])
        return it.live(v)
    if name == 'popitem':
        last = kw.get('last', args[0] if args else True)
        if not d.ents or len(d.ents) and any(
                and_(it.pc, neg(e.g)) != FALSE for e in d.ents):
            if not d.ents:
                bad(it, KeyError, 'popitem(): dictionary is empty')
            it.unsupported('popitem')
        if any(x.segs for x in d.ents):
            it.unsupported('popitem')
        e = d.ents[-1 if last else 0]
        it.dict_del(d, e.k)
        return (e.k, e.v)
    if d.kind == 'counter':
        if name in ('update', 'subtract'):
            for a in args:
                count_into(it, d, a, '+' if name == 'update' else '-')
            for k, v in kw.items():
                it.dict_set(d, k, it.binop(
                    '+' if name == 'update' else '-', it.dict_get(d, k), v))
            return None
        if name == 'total':
            n = 0
            for v in it.to_list(Lazy('values', d)).ents:
                n = it.binop('+', n, v_ite(v[0], v[1], 0))
            return n
        if name in ('elements', '__ior__', 'fromkeys', '__or__', '__add__'):
            it.unsupported('Counter.%s' % name)
    if name in ('update', '__ior__'):
        for a in args:
            dict_update(it, d, a)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return None if name == 'update' else d
    if name in ('copy', '__copy__'):
        r = it.new_dict(d.kind)
        r.factory = d.factory
        copy_into(it, r, d)
        return r
    if name == 'clear':
        g = it.grel(d)
        if g == TRUE:
            d.ents, d.index, d.syms = [], {}, []
        else:
            for e in d.ents:
                e.g = and_(e.g, neg(g))
        d.version += 1
        return None
    if name == '__len__':
        return len_(it, d)
    if name == '__getitem__':
        return it.dict_get(d, args[0])
    if name == '__setitem__':
        it.dict_set(d, args[0], args[1])
        return None
    if name == '__delitem__':
        it.dict_del(d, args[0])
        return None
    if name == '__contains__':
        return sb(it.contains(d, args[0]))
    if name == '__iter__':
        return iter_(it, d)
    if name == '__eq__':
        return sb(it.eq(d, args[0]))
    if name == 'most_common':
        l = it.to_list(Lazy('items', d))
        l = sorted_(it, l, BuiltinV('k', lambda t, a, k: it.get_item(
            a[0], 1)), True)
        n = args[0] if args else kw.get('n')
        return l if n is None else it.get_item(l, SliceV(None, n, None))
    if name == 'move_to_end':
        it.unsupported('move_to_end')
    it.unsupported('dict.%s' % name)


def copy_into(it, r, d):
    for e in d.ents:
        if and_(e.g, it.pc) == FALSE:
            continue
        n = Ent(e.g, e.k, e.v)
        n.seq, n.segs = e.seq, e.segs
        r.ents.append(n)
        h = it.hkey(e.k)
        if h is None and e.k is not None:
            r.syms.append(n)
        else:
            r.index[h] = n


def count_into(it, d, x, op):
    """Add to (or subtract from) a Counter the counts of a mapping, or one
    for each item of an iterable."""
    if isinstance(x, Un):
        it.vmap(lambda y: count_into(it, d, y, op), x)
        return None

    def add(k, n):
        it.dict_set(d, k, it.binop(op, it.dict_get(d, k), n))
    if isinstance(x, HDict):
        for g, e in list(in_order(x)):
            base = it.pc
            it.pc = and_(base, g)
            if it.pc != FALSE:
                add(e.k, e.v)
            it.pc = base
        return None
    it.for_each(x, lambda v: add(v, 1))
    return None


def dict_update(it, d, a):
    if isinstance(a, Un):
        it.vmap(lambda x: dict_update(it, d, x), a)
        return None
    if isinstance(a, HDict):
        for g, e in in_order(a):
            base = it.pc
            it.pc = and_(base, g)
            if it.pc != FALSE:
                it.dict_set(d, e.k, e.v)
            it.pc = base
        return None

    def one(x):
        k, v = it.unpack_items(x, 2)
        it.dict_set(d, k, v)
    it.for_each(a, one)
    if it.pc == FALSE:
        raise Dead()


def make_set(it, x, kind='set'):
    d = it.new_dict(kind)
    if x is not None:
        it.for_each(x, lambda v: it.dict_set(d, v, None))
        if it.pc == FALSE:
            raise Dead()
    return d


def set_method(it, d, name, args, kw):
    if name == 'add':
        it.dict_set(d, args[0], None)
        return None
    if name == 'discard':
        it.dict_del(d, args[0], True)
        return None
    if name == 'remove':
        it.dict_del(d, args[0])
        return None
    if name in ('union', 'intersection', 'difference',
                'symmetric_difference', 'update', 'intersection_update',
                'difference_update'):
        r = d
        op = {'union': '|', 'update': '|', 'intersection': '&',
              'intersection_update': '&', 'difference': '-',
              'difference_update': '-', 'symmetric_difference': '^'}[name]
        for a in args:
            if name == 'update':
                it.for_each(a, lambda v: it.dict_set(d, v, None))
                continue
            r = dict_op(it, op, r, make_set(it, a))
        if name in ('intersection_update', 'difference_update'):
            if it.grel(d) != TRUE:
                it.unsupported('conditional set update')
            d.ents, d.index, d.syms = r.ents, r.index, r.syms
        if name.endswith('update'):
            return None
        return r if args else set_method(it, d, 'copy', [], {})
    if name in ('copy',):
        r = it.new_dict(d.kind)
        copy_into(it, r, d)
        return r
    if name == 'issubset':
        return sb(it.subset(d, make_set(it, args[0])))
    if name == 'issuperset':
        return sb(it.subset(make_set(it, args[0]), d))
    if name == 'isdisjoint':
        r = dict_op(it, '&', d, make_set(it, args[0]))
        return sb(neg(it.truth(r)))
    if name == 'pop':
        it.unsupported('set.pop')
    if name == '__len__':
        return len_(it, d)
    if name == '__contains__':
        return sb(it.contains(d, args[0]))
    if name == '__iter__':
        return iter_(it, d)
    if name == 'clear':
        return dict_method(it, d, 'clear', args, kw)
    it.unsupported('set.%s' % name)


def dict_op(it, op, a, b):
    if 'counter' in (a.kind, b.kind):
        it.unsupported('operation on Counters')
    isset = a.kind in ('set', 'frozenset')
    if op == '|':
        r = it.new_dict(a.kind)
        copy_into(it, r, a)
        dict_update(it, r, b)
        return r
    if not isset:
        bad(it, TypeError, 'unsupported operand type(s)')
    r = it.new_dict(a.kind)
    if op in ('&', '-'):
        for e in a.ents:
            base = it.pc
            it.pc = and_(base, e.g)
            if it.pc != FALSE:
                has = it.dict_find(b, e.k)[0]
                it.pc = and_(it.pc, has if op == '&' else neg(has))
                if it.pc != FALSE:
                    it.dict_set(r, e.k, None)
            it.pc = base
        return r
    if op == '^':
        return dict_op(it, '|', dict_op(it, '-', a, b),
                       dict_op(it, '-', b, a))
    it.unsupported('set op %s' % op)


# ------------------------------------------------------------ output, files

def out_text(it, dest, text):
    if isinstance(dest, Un):
        it.vmap(lambda d: out_text(it, d, text), dest)
        return
    if isinstance(dest, Stream):
        it.event('out', dest.name, text)
    elif isinstance(dest, HFile):
        if dest.mode is None or not any(c in dest.mode for c in 'wax+'):
            bad(it, ValueError, 'not writable')
        it.event('write', dest.name, text)
    elif isinstance(dest, HObj):
        it.call(it.get_attr(dest, 'write'), [text], {})
    else:
        bad(it, AttributeError, 'no write')


def print_(it, args, kw):
    sep = kw.get('sep', ' ')
    end = kw.get('end', '\n')
    dest = kw.get('file')
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(sep)
        parts.append(to_str(it, a))
    parts.append(end)
    text = cat_values(it, parts)
    if dest is None:
        dest = it.stdout
    out_text(it, dest, text)
    return None


def open_(it, args, kw):
    name = args[0]
    mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
    if isinstance(name, Un):
        return it.vmap(lambda n: open_(it, [n, mode], {}), name)
    if not isinstance(mode, str):
        it.unsupported('symbolic file mode')
    if not T.is_str(name):
        if isinstance(name, HObj):
            it.unsupported('open of an object')
        bad(it, TypeError, 'expected str path')
    f = it._new(HFile())
    f.name, f.mode, f.pos, f.closed = name, mode, 0, FALSE
    f.lines = it.new_list()
    if 'b' in mode:
        it.unsupported('binary file')
    if not any(c in mode for c in 'wax'):
        found = FALSE
        for n, lines in it.files.items():
            e = T.t_eq(name, n)
            if and_(e, it.pc) == FALSE:
                continue
            found = or_(found, e)
            for g, v in (lines.ents if isinstance(lines, HList) else
                         [[TRUE, x] for x in lines]):
                f.lines.ents.append([and_(e, g), v])
        it.throw(FileNotFoundError, name, neg(found))
    it.event('open', name, mode)
    return f


def exists_(it, name):
    if isinstance(name, Un):
        return V.bool_bits(it.vmap(lambda n: sb(exists_(it, n)), name))
    r = FALSE
    for n in it.files:
        r = or_(r, T.t_eq(name, n))
    return r


def file_method(it, f, name, args, kw):
    if name == 'readlines':
        l = it.file_rest(f)
        return l
    if name == 'read':
        if args:
            it.unsupported('read(n)')
        return str_join(it, '', it.file_rest(f))
    if name == 'write':
        v = args[0]
        if isinstance(v, Un) or T.is_str(v):
            out_text(it, f, v)
            return spread(it, T.t_len, v)
        bad(it, TypeError, 'write() argument must be str')
    if name == 'writelines':
        it.for_each(args[0], lambda x: out_text(it, f, x))
        if it.pc == FALSE:
            raise Dead()
        return None
    if name == 'close':
        it.event('close', f.name)
        return None
    if name in ('flush', 'seek', 'truncate'):
        if name == 'truncate':
            it.event('write', f.name, '')
        return None
    if name == 'name':
        return f.name
    if name == '__enter__':
        return f
    if name == '__iter__':
        return f
    if name == '__exit__':
        it.event('close', f.name)
        return None
    it.unsupported('file.%s' % name)


# ------------------------------------------------------------ functions

def len_(it, v):
    if isinstance(v, Un):
        return it.vmap(lambda x: len_(it, x), v)
    if isinstance(v, (str, tuple, range, bytes)):
        return len(v)
    if isinstance(v, Term):
        if v.ty == 'str':
            return T.t_len(v)
        if v.ty == 'list':
            return T.list_len(v)
    if isinstance(v, HList):
        return it.count([e for e in v.ents if and_(e[0], it.pc) != FALSE])
    if isinstance(v, HDict):
        return it.count([(e.g, None) for e in v.ents])
    if isinstance(v, Lazy) and v.kind in ('keys', 'values', 'items'):
        return len_(it, v.a[0])
    if isinstance(v, RangeV):
        if v.step == 1:
            n = it.binop('-', v.stop, v.start)
            return v_ite(it.lt(n, 0), 0, n)
        return len_(it, it.to_list(v))
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__len__')
        if f is not None:
            return it.call(BoundV(v, f), [], {})
        if getattr(v.cls, 'fields', None) is not None:
            return len(v.cls.fields)
    if isinstance(v, ClassV) and v.is_enum:
        return len(v.members)
    bad(it, TypeError, 'object has no len()')


def iter_(it, v):
    if isinstance(v, HIter):
        return v
    if isinstance(v, Lazy) and v.kind not in ('keys', 'values', 'items'):
        return v
    if isinstance(v, HFile):
        return v
    if isinstance(v, HObj) and getattr(v.cls, 'fields', None) is None:
        f, _ = v.cls.lookup('__iter__')
        if f is not None:
            return it.call(BoundV(v, f), [], {})
        if v.cls.lookup('__next__')[0] is not None:
            bad(it, TypeError, 'not iterable')
    if isinstance(v, Un):
        return it.vmap(lambda x: iter_(it, x), v)
    if v is None or is_intlike(v):
        bad(it, TypeError, 'object is not iterable')
    h = it._new(HIter())
    h.src = v if isinstance(v, HList) else it.to_list(v)
    h.pos = 0
    return h


def next_(it, v, dflt):
    if isinstance(v, Un):
        return it.vmap(lambda x: next_(it, x, dflt), v)
    if isinstance(v, HIter):
        pos = v.pos
        if not isinstance(pos, int):
            pos = V.restrict_int(pos, it.pc)
        if not isinstance(pos, int):
            it.unsupported('iterator position')
        ents = v.src.ents
        g0 = it.grel(v)
        if all(and_(it.pc, neg(g)) == FALSE for g, _ in ents):
            if pos >= len(ents):
                if dflt is not UNDEF:
                    return dflt
                bad(it, StopIteration)
            v.pos = v_ite(g0, pos + 1, v.pos)
            return ents[pos][1]
        it.unsupported('next() of a conditional sequence')
    if isinstance(v, Lazy):
        if v.kind in ('keys', 'values', 'items'):
            bad(it, TypeError, 'not an iterator')
        if v.kind == 'count':
            it.unsupported('next(count)')
        out, got = [], [FALSE]

        def fn(x):
            out.append((it.pc, x))
            got[0] = or_(got[0], it.pc)
            it.pc = FALSE
            raise Dead()
        base = it.pc
        it.for_each(v, fn)
        rest = it.pc
        v.partial = True
        if rest != FALSE:
            it.pc = rest
            if dflt is UNDEF:
                try:
                    it.throw(StopIteration)
                except Dead:
                    pass
            else:
                out.append((rest, dflt))
                got[0] = or_(got[0], rest)
        it.pc = got[0]
        if got[0] == FALSE:
            raise Dead()
        return v_union(out)
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__next__')
        if f is None:
            bad(it, TypeError, 'not an iterator')
        if dflt is UNDEF:
            return it.call(BoundV(v, f), [], {})
        it.handlers.append([])
        try:
            r = it.call(BoundV(v, f), [], {})
            ok = it.pc
        except Dead:
            r, ok = UNDEF, FALSE
        out = [(ok, r)] if ok != FALSE else []
        for g, e in it.handlers.pop():
            if it.exc_matches(e, StopIteration):
                out.append((g, dflt))
                ok = or_(ok, g)
            else:
                it.handlers[-1].append((g, e))
        it.pc = ok
        if ok == FALSE:
            raise Dead()
        return v_union(out)
    if isinstance(v, HFile):
        it.unsupported('next(file)')
    bad(it, TypeError, 'not an iterator')


def sorted_(it, x, key=None, reverse=False):
    l = it.to_list(x)
    ents = [(g, v) for g, v in l.ents if and_(g, it.pc) != FALSE]
    keys = [v if key is None else it.call(key, [v], {}) for _, v in ents]
    if isinstance(reverse, (SB, Un)):
        c = it.truth(reverse)
        a = sorted_(it, x, key, False)
        b = sorted_(it, x, key, True)
        r = it.new_list()
        r.ents = [[and_(g, neg(c)), v] for g, v in a.ents] + \
            [[and_(g, c), v] for g, v in b.ents]
        return r
    reverse = bool(reverse)
    r = it.new_list()
    if all(native(k) for k in keys):
        try:
            order = sorted(range(len(ents)), key=lambda i: keys[i],
                           reverse=reverse)
        except TypeError as e:
            if len(ents) > 1:
                bad(it, TypeError, str(e))
            order = list(range(len(ents)))
        r.ents = [[ents[i][0], ents[i][1]] for i in order]
        return r
    if len(ents) <= 1:
        r.ents = [list(e) for e in ents]
        return r
    if all(isinstance(k, tuple) and k and native(k[0]) for k in keys) and \
            len({k[0] for k in keys}) == len(keys) and \
            len({type(k[0]) for k in keys}) == 1:
        # the first components decide
        order = sorted(range(len(ents)), key=lambda i: keys[i][0],
                       reverse=reverse)
        r.ents = [[ents[i][0], ents[i][1]] for i in order]
        return r
    if len(ents) > 10:
        return counting_sort(it, ents, keys, reverse)
    # rank of each element among the present ones
    n = len(ents)
    less = {}
    for i in range(n):
        for j in range(i + 1, n):
            both = and_(ents[i][0], ents[j][0])
            if reverse:
                less[i, j] = neg(it.lt_under(both, keys[i], keys[j]))
            else:
                less[i, j] = neg(it.lt_under(both, keys[j], keys[i]))
            less[j, i] = neg(less[i, j])
    ranks = []
    for i in range(n):
        rk = 0
        for j in range(n):
            if j != i:
                b = and_(ents[j][0], less[j, i])
                if b == TRUE:
                    rk = V.add(rk, 1)
                elif b != FALSE:
                    rk = V.add(rk, V.bv((b, FALSE)))
        ranks.append(rk)
    for p in range(n):
        alts = []
        for i in range(n):
            g = and_(ents[i][0], V.eq_int(ranks[i], p))
            if and_(g, it.pc) != FALSE:
                alts.append((g, ents[i][1]))
        if alts:
            r.ents.append([bdd.disj([g for g, _ in alts]), v_union(alts)])
    return r


def counting_sort(it, ents, keys, reverse):
    """Stable sort of many items whose keys have few possible values."""
    cases, values = [], set()
    for (g, _), k in zip(ents, keys):
        alts = []
        for h, x in V.alts_of(k):
            h = bdd.conj([it.pc, g, h])
            if h == FALSE:
                continue
            if isinstance(x, BV):
                alts += V.cases_int(x, h, 64)
            elif native(x):
                alts.append((h, x))
            else:
                it.unsupported('sort of many symbolic items')
        cases.append(alts)
        values.update(x for _, x in alts)
    if len(values) > 64:
        it.unsupported('sort of many symbolic items')
    try:
        order = sorted(values, reverse=reverse)
    except TypeError:
        it.unsupported('sort of many symbolic items')
    r = it.new_list()
    for x in order:
        for (g, v), alts in zip(ents, cases):
            h = bdd.disj([c for c, y in alts if y == x])
            if h != FALSE:
                r.ents.append([and_(g, h), v])
    return r


def minmax(it, args, kw, want_max):
    key = kw.get('key')
    if len(args) == 1:
        l = it.to_list(args[0])
        items = [(g, v) for g, v in l.ents if and_(g, it.pc) != FALSE]
    else:
        items = [(TRUE, v) for v in args]
    has = bdd.disj([g for g, _ in items])
    if and_(it.pc, neg(has)) != FALSE:
        if 'default' in kw:
            if has == FALSE:
                return kw['default']
        else:
            it.throw(ValueError, 'arg is an empty sequence', neg(has))
    best, bk, bg = None, None, FALSE
    for g, v in items:
        k = v if key is None else it.call(key, [v], {})
        if bg == FALSE:
            best, bk, bg = v, k, g
            continue
        both = and_(bg, g)
        c = it.lt_under(both, bk, k) if want_max else \
            it.lt_under(both, k, bk)
        take = or_(and_(g, neg(bg)), and_(both, c))
        best = v_ite(take, v, best)
        bk = best if key is None else v_ite(take, k, bk)
        bg = or_(bg, g)
    if 'default' in kw and and_(it.pc, neg(has)) != FALSE:
        best = v_ite(has, best, kw['default'])
    return best


def sum_(it, x, start=0):
    acc = [start]
    base = it.pc

    def fn(v):
        new = it.binop('+', acc[0], v)
        acc[0] = v_ite(bdd.constrain(it.pc, base), new, acc[0])
    it.for_each(x, fn)
    if it.pc == FALSE:
        raise Dead()
    return acc[0]


def anyall(it, x, want):
    hit = [FALSE]

    def fn(v):
        t = it.truth(v)
        c = and_(it.pc, t if want else neg(t))
        hit[0] = or_(hit[0], c)
        it.pc = and_(it.pc, neg(c))
        if it.pc == FALSE:
            raise Dead()
    it.for_each(x, fn)
    rest = it.pc
    it.pc = or_(hit[0], rest)
    if it.pc == FALSE:
        raise Dead()
    r = bdd.constrain(hit[0], it.pc)
    return sb(r if want else neg(r))


def int_(it, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, Un):
        return it.vmap(lambda x: int_(it, [x] + list(args[1:]), kw), v)
    base = args[1] if len(args) > 1 else kw.get('base')
    if isinstance(v, (int, float)) and base is None:
        return host(it, int, v)
    if isinstance(v, str):
        return host(it, int, v, *([base] if base is not None else []))
    if is_intlike(v):
        if base is not None:
            bad(it, TypeError, "int() can't convert non-string with base")
        return V.bv(V.bits_of(v))
    if T.is_tint(v):
        return v
    if isinstance(v, Term) and v.ty == 'str':
        extra = () if base is None else (base,)
        if v.op == 'istr' and base in (None, 10):
            return v.args[0]
        if v.op == 'digits' and base == v.args[1]:
            return v.args[0]
        if v.op in ('cat', 'digit'):
            n = T.undigits(v, base or 10)
            if n is not None:
                return n
        ok = atom(mk('isint', v, *extra, ty='bool'))
        it.throw(ValueError, 'invalid literal for int()', neg(ok))
        return mk('int', v, *extra, ty='int')
    if isinstance(v, Term) and v.ty == 'float':
        return mk('intf', v, ty='int')
    if isinstance(v, HObj):
        for m in ('__int__', '__index__', '__trunc__'):
            f, _ = v.cls.lookup(m)
            if f is not None:
                return it.call(BoundV(v, f), [], {})
    bad(it, TypeError, 'int() argument must be a string or a number')


def isinstance_(it, v, c):
    if isinstance(v, Un):
        return V.bool_bits(it.vmap(lambda x: sb(isinstance_(it, x, c)), v))
    if isinstance(c, tuple):
        return bdd.disj([isinstance_(it, v, x) for x in c])
    if isinstance(c, HList) and c.kind == 'tuple':
        return bdd.disj([isinstance_(it, v, x) for x in it.static_items(c)])
    if isinstance(c, NativeClass):
        if isinstance(v, HObj):
            if c.py is tuple and getattr(v.cls, 'fields', None) is not None:
                return TRUE
            return TRUE if c in v.cls.mro or c.py is object else FALSE
        if isinstance(v, Term) and v.ty == 'obj':
            return atom(mk('isinstance', v, c.name, ty='bool'))
        t = pytype(v)
        if c.py is type(None):
            return TRUE if v is None else FALSE
        try:
            return TRUE if issubclass(t, c.py) else FALSE
        except TypeError:
            it.unsupported('isinstance')
    if isinstance(c, ClassV):
        if isinstance(v, HObj):
            return TRUE if c in v.cls.mro else FALSE
        if c.is_enum and c.enum_kind in ('IntEnum', 'IntFlag', 'StrEnum'):
            it.unsupported('member of an integer enumeration')
        return FALSE
    if isinstance(c, BuiltinV):
        py = c.attrs.get('#py')
        if py is not None:
            t = pytype(v)
            if isinstance(v, HObj):
                return FALSE
            return TRUE if issubclass(t, py) else FALSE
    it.unsupported('isinstance against %r' % (c,))


def type_(it, v):
    if isinstance(v, Un):
        return it.vmap(lambda x: type_(it, x), v)
    if isinstance(v, HObj):
        return v.cls
    return it.native_class(pytype(v))


def hasattr_(it, o, name):
    base = it.pc
    it.handlers.append([])
    try:
        it.get_attr(o, name)
        ok = it.pc
    except Dead:
        ok = FALSE
    raised = it.handlers.pop()
    miss = FALSE
    for g, e in raised:
        if it.exc_matches(e, AttributeError):
            miss = or_(miss, g)
        else:
            it.handlers[-1].append((g, e))
    it.pc = or_(ok, miss)
    if it.pc == FALSE:
        raise Dead()
    return sb(bdd.constrain(ok, it.pc))


def getattr_(it, args):
    o, name = args[0], args[1]
    if isinstance(name, Un):
        return it.vmap(lambda n: getattr_(it, [o, n] + args[2:]), name)
    if not isinstance(name, str):
        if isinstance(name, Term):
            it.unsupported('getattr with symbolic name')
        bad(it, TypeError, 'attribute name must be string')
    if len(args) < 3:
        return it.get_attr(o, name)
    it.handlers.append([])
    try:
        v = it.get_attr(o, name)
        ok = it.pc
    except Dead:
        v, ok = UNDEF, FALSE
    raised = it.handlers.pop()
    out = [(ok, v)] if ok != FALSE else []
    for g, e in raised:
        if it.exc_matches(e, AttributeError):
            out.append((g, args[2]))
            ok = or_(ok, g)
        else:
            it.handlers[-1].append((g, e))
    it.pc = ok
    if ok == FALSE:
        raise Dead()
    return v_union(out)


def bin_(it, v, pre, conv):
    if isinstance(v, Un):
        return it.vmap(lambda x: bin_(it, x, pre, conv), v)
    v = it.as_index(v)
    if isinstance(v, int):
        return {'b': bin, 'o': oct, 'x': hex}[conv](v)
    if isinstance(v, BV):
        if nonneg(it, v):
            return cat_values(it, [pre, int_text(it, v, conv)])
        return mk('format', v, '#' + conv)
    if T.is_tint(v):
        return mk('format', v, '#' + conv)
    bad(it, TypeError, 'object cannot be interpreted as an integer')


def call_native_class(it, c, args, kw):
    py = c.py
    if py is int:
        return int_(it, args, kw)
    if py is str:
        if not args:
            return ''
        return to_str(it, args[0])
    if py is bool:
        return sb(it.truth(args[0])) if args else False
    if py is float:
        v = args[0] if args else 0.0
        if isinstance(v, (int, float, str)):
            return host(it, float, v)
        if is_intlike(v) or T.is_tint(v):
            return mk('float', v, ty='float')
        it.unsupported('float()')
    if py is list:
        if not args:
            return it.new_list()
        a = args[0]
        if isinstance(a, Term) and a.ty == 'list':
            return a
        return it.to_list(a)
    if py is tuple:
        if not args:
            return ()
        a = args[0]
        if isinstance(a, tuple):
            return a
        if isinstance(a, Term) and a.ty == 'list':
            return a
        l = it.to_list(a)
        if all(and_(it.pc, neg(g)) == FALSE for g, _ in l.ents):
            return tuple(v for _, v in l.ents)
        l.kind = 'tuple'
        return l
    if py is dict:
        d = it.new_dict()
        for a in args:
            dict_update(it, d, a)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        d.version = 0
        return d
    if py in (set, frozenset):
        return make_set(it, args[0] if args else None, py.__name__)
    if py is range:
        a = [it.as_index(x) for x in args]
        return spread(it, lambda *b: range_(it, b), *a)
    if py is slice:
        a = list(args)
        if len(a) == 1:
            a = [None] + a
        a += [None] * (3 - len(a))
        return SliceV(*a)
    if py is object:
        return it.new_obj(it.native_class(object))
    if py is type:
        if len(args) == 1:
            return type_(it, args[0])
        it.unsupported('type() with three arguments')
    if py is property:
        f = (list(args) + [None] * 4)[:3]
        for i, n in enumerate(('fget', 'fset', 'fdel')):
            f[i] = kw.get(n, f[i])
        return PropV(*f)
    if py is staticmethod:
        return StaticV(args[0])
    if py is classmethod:
        return ClassMV(args[0])
    if py is super:
        return SuperV(args[0], args[1])
    if py is enumerate:
        return Lazy('enumerate', args[0],
                    args[1] if len(args) > 1 else kw.get('start', 0))
    if py is zip:
        if kw.get('strict', False) is not False:
            it.unsupported('strict zip')
        return Lazy('zip', tuple(args))
    if py is map:
        if len(args) == 2:
            return Lazy('map', args[0], args[1])
        f = args[0]
        return Lazy('map', BuiltinV('star', lambda t, a, k: t.call(
            f, list(a[0]), {})), Lazy('zip', tuple(args[1:])))
    if py is filter:
        return Lazy('filter', args[0], args[1])
    if py is reversed:
        a = args[0]
        if isinstance(a, range):
            return Lazy('reversed', a)
        if isinstance(a, HObj):
            f, _ = a.cls.lookup('__reversed__')
            if f is not None:
                return it.call(BoundV(a, f), [], {})
        return Lazy('reversed', a)
    if py is bytes or py is bytearray or py is complex or py is memoryview:
        if all(native(a) for a in args):
            return host(it, py, *args)
        it.unsupported(py.__name__)
    if issubclass(py, BaseException):
        o = it.new_obj(c)
        o.attrs['args'] = tuple(args)
        return o
    it.unsupported('call of %s' % c.name)


def range_(it, a):
    for x in a:
        if not (is_intlike(x) or T.is_tint(x)):
            bad(it, TypeError, 'range() needs integers')
    a = [V.bv(V.bits_of(x)) if isinstance(x, (SB, bool)) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return host(it, range, *a)
    if len(a) == 3 and a[2] != 1:
        it.throw(ValueError, 'range() arg 3 must not be zero',
                 it.eq(a[2], 0))
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def subclass_native(it, c, nat, o, args, kw):
    if nat.py in (dict, list):
        base = call_native_class(it, nat, args, kw)
        it.unsupported('subclass of %s' % nat.py.__name__)
    if nat.py is object:
        return o
    it.unsupported('subclass of %s' % nat.py.__name__)


# ------------------------------------------------------------ namedtuples

def make_namedtuple(it, name, fields, defaults=()):
    if T.is_str(fields):
        fields = fields.replace(',', ' ').split()
    c = ClassV(name, (it.native_class(tuple),), it.frame.env.module
               if it.frame else None)
    c.fields = tuple(fields)
    c.ntdefaults = tuple(defaults)
    new = BuiltinV('__new__', lambda t, a, k: nt_new(t, a[0], a[1:], k))

    def setd(v):
        c.ntdefaults = tuple(v) if isinstance(v, tuple) else () \
            if v is None else tuple(it.static_items(it.to_list(v)))
    new.attrs['set:__defaults__'] = setd
    c.attrs['__new__'] = new
    return c


def nt_new(it, c, args, kw):
    fields = c.fields
    vals = {}
    if len(args) > len(fields):
        bad(it, TypeError, '__new__() takes %d arguments' % len(fields))
    for f, v in zip(fields, args):
        vals[f] = v
    for k, v in kw.items():
        if k not in fields or k in vals:
            bad(it, TypeError, 'unexpected argument %r' % k)
        vals[k] = v
    d = base_nt(c).ntdefaults
    first = len(fields) - len(d)
    for i, f in enumerate(fields):
        if f not in vals:
            if i < first:
                bad(it, TypeError, 'missing argument %r' % f)
            vals[f] = d[i - first]
    o = it.new_obj(c)
    for f in fields:
        o.attrs[f] = vals[f]
    return o


def base_nt(c):
    for b in c.mro:
        if isinstance(b, ClassV) and hasattr(b, 'ntdefaults'):
            return b
    return c


def nt_attr(it, o, name):
    if name == '_fields':
        return o.cls.fields
    if name == '_asdict':
        def f(t, a, k):
            d = t.new_dict()
            for n in o.cls.fields:
                t.dict_set(d, n, o.attrs[n])
            return d
        return BuiltinV(name, f)
    if name == '_replace':
        def g(t, a, k):
            for n in k:
                if n not in o.cls.fields:
                    bad(t, ValueError, 'unexpected field name')
            n = t.new_obj(o.cls)
            n.attrs.update(o.attrs)
            n.attrs.update(k)
            return n
        return BuiltinV(name, g)
    if name in ('index', 'count', '__len__', '__getitem__', '__iter__',
                '__contains__'):
        return MethodV(it.nt_tuple(o), name)
    return None


def nt_class_attr(it, c, name):
    if name == '_fields':
        return c.fields
    if name == '_make':
        return BuiltinV(name, lambda t, a, k: nt_new(
            t, c, t.static_items(t.to_list(a[0])), {}))
    if name == '_field_defaults':
        d = it.new_dict()
        df = base_nt(c).ntdefaults
        for n, v in zip(c.fields[len(c.fields) - len(df):], df):
            it.dict_set(d, n, v)
        return d
    return None


# ------------------------------------------------------------ classes

def build_class(it, node, bases, kws):
    fr = it.frame
    env = Env(fr.env.module, fr.env, None, True)
    if fr.env.is_class:
        env.parent = fr.env.parent
    q = fr.func.qualname if fr.func is not None and fr.func.qualname else ''
    f = FuncV()
    f.module, f.name, f.node, f.owner = fr.env.module, node.name, None, None
    f.qualname = '%s.%s' % (q, node.name) if q else node.name
    nf = Frame(f, env, it.pc)
    real = [b for b in bases if isinstance(b, (ClassV, NativeClass))]
    for b in bases:
        if isinstance(b, Un):
            it.unsupported('base class is a union')
    env.vars['__qualname__'] = f.qualname
    it.frame = nf
    try:
        p = it.run(node.body, it.pc)
    finally:
        it.frame = fr
    if p == FALSE:
        it.pc = FALSE
        raise Dead()
    it.pc = p
    env.vars.pop('__qualname__', None)
    if not real:
        real = [it.native_class(object)]
    c = ClassV(node.name, tuple(real), fr.env.module)
    c.node = node
    c.qualname = f.qualname
    c.attrs = dict(env.vars)
    own(c)
    marks = [b.attrs.get('#mark') for b in bases if isinstance(b, BuiltinV)]
    ann = [(s.target.id, s.value) for s in node.body
           if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    c.annotations = ann
    if 'NamedTuple' in marks:
        c.fields = tuple(n for n, _ in ann)
        c.ntdefaults = tuple(c.attrs.pop(n) for n, v in ann if v is not None)
        c.bases = (it.native_class(tuple),)
        c.mro = c._mro()
    for b in real:
        if isinstance(b, ClassV):
            if b.fields is not None:
                c.fields = b.fields
            if b.is_enum and not marks:
                marks.append(b.enum_kind)
    if any(m in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum')
           for m in marks):
        kind = [m for m in marks if m][0]
        c.is_enum = True
        c.enum_kind = kind
        c.members = {}
        n = 0
        for k, v in list(c.attrs.items()):
            if k.startswith('_') or isinstance(v, (FuncV, PropV, StaticV)):
                continue
            if isinstance(v, (ClassMV, ClassV, BuiltinV)):
                continue
            if v is AUTO:
                if kind == 'StrEnum':
                    v = k.lower()
                else:
                    n = n + 1 if 'Flag' not in kind else \
                        1 << int(n).bit_length()
                    v = n
            elif isinstance(v, int):
                n = v
            same = [x for x in c.members.values() if v is not None and
                    it.eq(x.attrs['value'] if isinstance(x, HObj) else x,
                          v) == TRUE]
            if same:
                c.attrs[k] = same[0]
                continue
            if kind in ('IntEnum', 'IntFlag', 'StrEnum'):
                it.int_enums = True
                m = v
            else:
                m = it.new_obj(c)
                m.attrs['name'], m.attrs['value'] = k, v
                m.attrs['_name_'], m.attrs['_value_'] = k, v
            c.attrs[k] = m
            c.members[k] = m
    # __init_subclass__ and __set_name__
    for k, v in list(c.attrs.items()):
        if isinstance(v, HObj):
            g, _ = v.cls.lookup('__set_name__')
            if g is not None:
                it.call(BoundV(v, g), [c, k], {})
    for b in c.mro[1:]:
        if isinstance(b, ClassV) and '__init_subclass__' in b.attrs:
            g = b.attrs['__init_subclass__']
            g = g.f if isinstance(g, StaticV) else g
            it.call(g, [c], kws)
            break
    return c


class _Auto:
    pass


AUTO = _Auto()


def own(c):
    for v in c.attrs.values():
        for f in ((v.fget, v.fset, v.fdel) if isinstance(v, PropV) else
                  (v.f,) if isinstance(v, StaticV) else (v,)):
            if isinstance(f, FuncV) and f.owner is None:
                f.owner = c


def dataclass_(it, c, opts):
    fields = []
    seen = {}
    for b in reversed(c.mro):
        if isinstance(b, ClassV):
            for s in b.node.body if b.node is not None else ():
                if isinstance(s, ast.AnnAssign) and (
                        'ClassVar' in ast.unparse(s.annotation) or
                        'InitVar' in ast.unparse(s.annotation) or
                        'KW_ONLY' in ast.unparse(s.annotation)):
                    it.unsupported('dataclass with ' +
                                   ast.unparse(s.annotation))
            if b is not c and b.dcfields is None and b.annotations:
                it.unsupported('dataclass of a plain annotated class')
            for n, v in getattr(b, 'annotations', []):
                d = b.dcfields_raw.get(n, UNDEF) if b is not c else \
                    b.attrs.get(n, UNDEF)
                if n in seen:
                    fields = [(m, d if m == n else e) for m, e in fields]
                else:
                    fields.append((n, d))
                seen[n] = True
    c.dcfields = fields
    c.dcfields_raw = dict(fields)
    for n, v in opts.items():
        if n not in ('frozen', 'slots', 'eq', 'repr', 'init', 'unsafe_hash') \
                or n not in ('frozen', 'slots') and v is not (
                    n != 'unsafe_hash'):
            it.unsupported('dataclass option ' + n)
    for n, d in fields:
        if isinstance(d, HObj) and d.attrs.get('#field'):
            if d.attrs.get('default', UNDEF) is not UNDEF:
                c.attrs[n] = d.attrs['default']
            else:
                c.attrs.pop(n, None)

    def init(t, a, k):
        o = a[0]
        args = list(a[1:])
        k = dict(k)
        names = [n for n, _ in fields]
        vals = {}
        if len(args) > len(names):
            bad(t, TypeError, '__init__() takes too many arguments')
        for n, v in zip(names, args):
            vals[n] = v
        for n, v in k.items():
            if n not in names or n in vals:
                bad(t, TypeError, 'unexpected argument %r' % n)
            vals[n] = v
        for n, d in fields:
            if n in vals:
                continue
            if isinstance(d, HObj) and d.attrs.get('#field'):
                if d.attrs.get('default', UNDEF) is not UNDEF:
                    vals[n] = d.attrs['default']
                elif d.attrs.get('factory', UNDEF) is not UNDEF:
                    vals[n] = t.call(d.attrs['factory'], [], {})
                else:
                    bad(t, TypeError, 'missing argument %r' % n)
            elif d is not UNDEF:
                vals[n] = d
            else:
                bad(t, TypeError, 'missing argument %r' % n)
        for n in names:
            t.raw_set(o, n, vals[n])
        p, _ = c.lookup('__post_init__')
        if p is not None:
            t.call(BoundV(o, p), [], {})
        return None

    def eqf(t, a, k):
        x, y = a
        if isinstance(y, Un):
            return t.vmap(lambda z: eqf(t, [x, z], {}), y)
        if not isinstance(y, HObj) or y.cls is not c or x.cls is not c:
            return False
        return sb(bdd.conj([t.eq(t.get_attr(x, n), t.get_attr(y, n))
                            for n, _ in fields]))

    def reprf(t, a, k):
        parts = [cat_values(t, [n + '=', to_repr(t, t.get_attr(a[0], n))])
                 for n, _ in fields]
        return cat_values(t, [c.qualname + '('] + sep_list(parts) + [')'])
    for n, f in (('__init__', init), ('__eq__', eqf), ('__repr__', reprf)):
        if n not in c.attrs:
            b = BuiltinV(n, f)
            b.attrs['#method'] = True
            c.attrs[n] = b
    if opts.get('frozen'):
        c.frozen = True
    return c


# ------------------------------------------------------------ copy

def copy_(it, v, deep, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Un):
        return it.vmap(lambda x: copy_(it, x, deep, memo), v)
    if isinstance(v, tuple):
        return tuple(copy_(it, x, deep, memo) for x in v) if deep else v
    if id(v) in memo:
        return memo[id(v)]
    sub = (lambda x: copy_(it, x, True, memo)) if deep else (lambda x: x)
    if isinstance(v, HList):
        r = it.new_list((), v.kind)
        memo[id(v)] = r
        r.ents = [[g, sub(x)] for g, x in v.ents if and_(g, it.pc) != FALSE]
        return r
    if isinstance(v, HDict):
        r = it.new_dict(v.kind)
        memo[id(v)] = r
        r.factory = v.factory
        copy_into(it, r, v)
        for e in r.ents:
            e.v = sub(e.v)
        return r
    if isinstance(v, HObj):
        if not isinstance(v.cls, ClassV):
            return v
        for m in ('__deepcopy__',) if deep else ('__copy__',):
            f, _ = v.cls.lookup(m)
            if f is not None:
                return it.call(BoundV(v, f), [it.new_dict()] if deep else [],
                               {})
        r = it.new_obj(v.cls)
        memo[id(v)] = r
        for k, x in v.attrs.items():
            r.attrs[k] = sub(x)
        return r
    return v


# ------------------------------------------------------------ install

def B(name, n=None):
    def deco(f):
        return BuiltinV(name, f)
    return deco


def install(it):
    b = it.builtins
    for n in dir(_bi):
        v = getattr(_bi, n)
        if isinstance(v, type):
            b[n] = it.native_class(v)
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = ...
    b['__name__'] = '__main__'
    b['__debug__'] = True

    def fn(name, f):
        b[name] = BuiltinV(name, f)
    fn('print', lambda t, a, k: print_(t, a, k))
    fn('len', lambda t, a, k: len_(t, a[0]))
    fn('isinstance', lambda t, a, k: sb(isinstance_(t, a[0], a[1])))
    fn('issubclass', lambda t, a, k: issubclass_(t, a[0], a[1]))
    fn('sorted', lambda t, a, k: sorted_(t, a[0], k.get('key'),
                                         k.get('reverse', False)))
    fn('min', lambda t, a, k: minmax(t, a, k, False))
    fn('max', lambda t, a, k: minmax(t, a, k, True))
    fn('sum', lambda t, a, k: sum_(t, a[0], a[1] if len(a) > 1 else
                                   k.get('start', 0)))
    fn('any', lambda t, a, k: anyall(t, a[0], True))
    fn('all', lambda t, a, k: anyall(t, a[0], False))
    fn('iter', lambda t, a, k: iter_(t, a[0]) if len(a) == 1 else
       t.unsupported('iter(f, sentinel)'))
    fn('next', lambda t, a, k: next_(t, a[0], a[1] if len(a) > 1 else UNDEF))
    fn('repr', lambda t, a, k: to_repr(t, a[0]))
    fn('ascii', lambda t, a, k: to_repr(t, a[0]))
    fn('format', lambda t, a, k: format_value(
        t, a[0], a[1] if len(a) > 1 else ''))
    fn('open', lambda t, a, k: open_(t, a, k))
    fn('bin', lambda t, a, k: bin_(t, a[0], '0b', 'b'))
    fn('oct', lambda t, a, k: bin_(t, a[0], '0o', 'o'))
    fn('hex', lambda t, a, k: bin_(t, a[0], '0x', 'x'))
    fn('getattr', lambda t, a, k: getattr_(t, a))
    fn('hasattr', lambda t, a, k: hasattr_(t, a[0], a[1]))
    fn('setattr', lambda t, a, k: set_attr_(t, a))
    fn('delattr', lambda t, a, k: t.unsupported('delattr'))
    fn('callable', lambda t, a, k: isinstance(
        a[0], (FuncV, BoundV, BuiltinV, MethodV, ClassV, NativeClass,
               PartialV)) or (isinstance(a[0], HObj) and
                              a[0].cls.lookup('__call__')[0] is not None))
    fn('id', lambda t, a, k: id_(t, a[0]))
    fn('hash', lambda t, a, k: hash_(t, a[0]))
    fn('abs', lambda t, a, k: t.vmap(lambda x: abs_(t, x), a[0]))
    fn('divmod', lambda t, a, k: (t.binop('//', a[0], a[1]),
                                  t.binop('%', a[0], a[1])))
    fn('pow', lambda t, a, k: pow_(t, a))
    fn('round', lambda t, a, k: round_(t, a))
    fn('ord', lambda t, a, k: spread(t, lambda x: ord_(t, x), a[0]))
    fn('chr', lambda t, a, k: spread(t, lambda x: chr_(t, x), a[0]))
    fn('vars', lambda t, a, k: t.get_attr(a[0], '__dict__') if a else
       t.unsupported('vars()'))
    fn('globals', lambda t, a, k: globals_(t))
    fn('locals', lambda t, a, k: t.unsupported('locals()'))
    fn('dir', lambda t, a, k: t.unsupported('dir()'))
    fn('eval', lambda t, a, k: t.unsupported('eval'))
    fn('exec', lambda t, a, k: t.unsupported('exec'))
    fn('input', lambda t, a, k: t.unsupported('input'))
    fn('exit', lambda t, a, k: exit_(t, a))
    fn('quit', lambda t, a, k: exit_(t, a))
    fn('__import__', lambda t, a, k: t.load(a[0]))
    it.dict_fromkeys = lambda a: fromkeys(it, a)
    it.maketrans = lambda a: maketrans(it, a)


def set_attr_(it, a):
    if not isinstance(a[1], str):
        it.unsupported('setattr with symbolic name')
    it.set_attr(a[0], a[1], a[2])


def globals_(it):
    d = it.new_dict()
    for k, v in it.frame.env.module.env.vars.items():
        it.dict_set(d, k, v)
    d.snap = True
    return d


def issubclass_(it, a, c):
    if isinstance(c, tuple):
        return any(issubclass_(it, a, x) for x in c)
    return c in a.mro


def id_(it, v):
    if hasattr(v, 'uid'):
        return 1000000 + v.uid
    if isinstance(v, (int, str)):
        return mk('id', v, ty='int')
    return 7


def hash_(it, v):
    if native(v):
        return mk('hash', v, ty='int')
    if isinstance(v, HObj):
        f, _ = v.cls.lookup('__hash__')
        if f is not None:
            return it.call(BoundV(v, f), [], {})
        return 1000000 + v.uid
    return mk('hash', v, ty='int')


def abs_(it, x):
    if isinstance(x, (int, float)):
        return abs(x)
    if is_intlike(x):
        return v_ite(it.lt(x, 0), V.negate(x), x)
    if T.is_tint(x):
        return mk('iabs', x, ty='int')
    bad(it, TypeError, 'bad operand type for abs()')


def pow_(it, a):
    if len(a) == 2:
        return it.binop('**', a[0], a[1])
    if all(isinstance(x, int) for x in a):
        return host(it, pow, *a)
    return it.binop('%', it.binop('**', a[0], a[1]), a[2])


def round_(it, a):
    if all(native(x) for x in a):
        return host(it, round, *a)
    if is_intlike(a[0]) and len(a) == 1:
        return a[0]
    it.unsupported('round')


def ord_(it, x):
    if isinstance(x, str):
        return host(it, ord, x)
    if T.is_str(x):
        return mk('ord', x, ty='int')
    bad(it, TypeError, 'ord() expected string')


def chr_(it, x):
    if isinstance(x, int):
        return host(it, chr, x)
    it.unsupported('chr')


def exit_(it, a):
    e = it.make_exc(SystemExit, *a)
    it.throw_obj(e)
    raise Dead()


def fromkeys(it, a):
    d = it.new_dict()
    v = a[1] if len(a) > 1 else None
    it.for_each(a[0], lambda k: it.dict_set(d, k, v))
    if it.pc == FALSE:
        raise Dead()
    d.version = 0
    return d


def maketrans(it, a):
    if all(native(x) for x in a):
        return lift(it, str.maketrans(*a))
    it.unsupported('maketrans')


# ------------------------------------------------------------ modules

def mod(it, name_, **vars_):
    m = ModV(name_, None)
    m.is_pkg = True
    m.env.vars = StubVars(name_, vars_)
    m.env.vars['__name__'] = name_
    return m


class StubVars(dict):
    """Names of a modelled library module; a name that exists there but is
    not modelled is opaque (its use is unsupported), not missing."""
    def __init__(self, name, vars_):
        dict.__init__(self, vars_)
        self.name = name

    def get(self, k, d=None):
        if k in self:
            return self[k]
        if k.startswith('__') or \
                self.name.split('.')[0] not in _sys.stdlib_module_names:
            return d
        import importlib
        try:
            v = getattr(importlib.import_module(self.name), k)
        except (ImportError, AttributeError):
            return d
        if isinstance(v, int) and self.name == 're':
            return int(v)
        n = '%s.%s' % (self.name, k)
        r = BuiltinV(n, lambda t, a, kw: t.unsupported(n))
        r.attrs['#opaque'] = True
        self[k] = r
        return r


def F(name, f):
    return BuiltinV(name, lambda t, a, k: f(t, *a, **k))


def path_fn(name):
    def f(t, x, *rest):
        def go(y, *r):
            if isinstance(y, str) and all(isinstance(z, str) for z in r):
                if name in ('realpath', 'abspath'):
                    y = t.links.get(y, y) if hasattr(t, 'links') else y
                    return posixpath.normpath(posixpath.join('/cwd', y))
                return lift(t, getattr(posixpath, name)(y, *r))
            if not T.is_str(y):
                bad(t, TypeError, 'expected str, bytes or os.PathLike object')
            if name == 'splitext' or name == 'split':
                return (mk('pathfn', name + '0', y),
                        mk('pathfn', name + '1', y))
            if name == 'isabs':
                return sb(atom(mk('pathfn', name, y, ty='bool')))
            return mk('pathfn', name, y, *r)
        return spread(t, go, x, *rest)
    return f


def opt_error(t, self_, msg=''):
    t.event('usage', msg)
    e = t.make_exc(SystemExit, 2)
    t.throw_obj(e)
    raise Dead()


CONTEXTLIB = '''
class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions
    def __enter__(self):
        return None
    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self._exceptions)
class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *a):
        return None
class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *a):
        self.thing.close()
'''

OPTPARSE = '''
class OptionParser:
    def __init__(self, usage=None, option_list=None, option_class=None,
                 version=None, conflict_handler=None, description=None,
                 formatter=None, add_help_option=True, prog=None,
                 epilog=None):
        self.usage = usage
        self._opts = []
        self._defaults = {}
    def add_option(self, *flags, **kw):
        self._opts.append((flags, kw))
    def set_defaults(self, **kw):
        self._defaults.update(kw)
    def set_usage(self, usage):
        self.usage = usage
    def error(self, msg):
        _opt_error(self, msg)
    def print_help(self, file=None):
        pass
    def print_usage(self, file=None):
        pass
    def parse_args(self, args=None, values=None):
        opts = Values()
        for flags, kw in self._opts:
            dest = kw.get('dest')
            if dest is None:
                for f in flags:
                    if f.startswith('--'):
                        dest = f[2:].replace('-', '_')
                        break
                else:
                    dest = flags[0][1:]
            default = self._defaults.get(dest, kw.get('default'))
            setattr(opts, dest, _opt_value(flags, kw, default))
        return opts, _opt_args()
class Values:
    pass
'''


def load_text(it, name, text, **vars_):
    m = ModV(name, '<%s>' % name)
    m.is_pkg = True
    m.env.vars.update(vars_)
    m.env.vars['__name__'] = name
    it.modules[name] = m
    tree = ast.parse(text)
    fr = Frame(None, m.env, TRUE)
    f = FuncV()
    f.module, f.qualname, f.name, f.node = m, '', '<module>', None
    f.owner = None
    fr.func = f
    saved = it.frame, it.pc
    it.frame, it.pc = fr, TRUE
    it.handlers.append([])
    try:
        it.run(tree.body, TRUE)
    finally:
        it.frame, it.pc = saved
    if it.handlers.pop():
        raise Unsupported('stub %s' % name)
    m.path = None
    m.env.vars = StubVars(name, m.env.vars)
    return m


def opt_value(t, flags, kw, default):
    vals = t.opt_values or {}
    flags = flags if isinstance(flags, tuple) else tuple(
        t.static_items(flags))
    action = t.dict_find(kw, 'action')[1]
    for fl in flags:
        if fl in vals:
            v = vals[fl]
            if action == 'store_true':
                return v_ite(t.truth(v), True, default) \
                    if not isinstance(default, bool) or default else v
            if action == 'store_false':
                return v_ite(t.truth(v), False, default)
            return v
    return default


def stub_module(it, name):
    lam = F
    if name == 'sys':
        return mod(it, name, stdout=it.stdout, stderr=it.stderr,
                   stdin=Stream('stdin'),
                   exit=BuiltinV('exit', lambda t, a, k: exit_(t, a)),
                   argv=it.new_list(['prog']), maxsize=_sys.maxsize,
                   path=it.new_list([]), modules=it.new_dict(),
                   version_info=(3, 12, 3), platform='linux',
                   version='3.12.3', executable='python')
    if name in ('os.path', 'posixpath'):
        d = {n: F(n, path_fn(n)) for n in
             ('realpath', 'abspath', 'normpath', 'splitext', 'basename',
              'dirname', 'join', 'split', 'isabs', 'expanduser', 'relpath',
              'normcase')}
        d['isfile'] = F('isfile', lambda t, n: sb(exists_(t, n)))
        d['exists'] = F('exists', lambda t, n: sb(exists_(t, n)))
        d['lexists'] = d['exists']
        d['isdir'] = F('isdir', lambda t, n: False)
        d['getsize'] = F('getsize', lambda t, n: t.unsupported('getsize'))
        d['samefile'] = F('samefile', lambda t, a, b: sb(t.eq(
            path_fn('realpath')(t, a), path_fn('realpath')(t, b))))
        d['sep'] = '/'
        return mod(it, name, **d)
    if name == 'os':
        p = it.load('os.path')
        d = {}
        for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir',
                  'makedirs', 'rmdir', 'system', 'chmod', 'truncate',
                  'symlink', 'link', 'removedirs', 'utime', 'open'):
            d[n] = BuiltinV(n, lambda t, a, k, n=n: t.event(
                'fs', n, tuple(a)))
        return mod(it, name, path=p, sep='/', linesep='\n', name='posix',
                   getcwd=F('getcwd', lambda t: '/cwd'),
                   environ=it.new_dict(),
                   getenv=F('getenv', lambda t, n, d=None: d),
                   fspath=F('fspath', lambda t, x: x), **d)
    if name == 'optparse':
        return load_text(
            it, name, OPTPARSE,
            _opt_error=BuiltinV('error', lambda t, a, k: opt_error(t, *a)),
            _opt_value=BuiltinV('value', lambda t, a, k: opt_value(t, *a)),
            _opt_args=BuiltinV('args', lambda t, a, k: t.new_list(
                t.opt_args)))
    if name == 'collections':
        def nt(t, typename, field_names, rename=False, defaults=None,
               module=None):
            fn = field_names
            if not T.is_str(fn):
                fn = t.static_items(t.to_list(fn))
            df = () if defaults is None else tuple(
                t.static_items(t.to_list(defaults)))
            return make_namedtuple(t, typename, fn, df)

        def dd(t, factory=None, *a, **k):
            d = t.new_dict()
            d.factory = factory
            for x in a:
                dict_update(t, d, x)
            return d

        def counter(t, x=None, **k):
            d = t.new_dict('counter')
            d.factory = BuiltinV('zero', lambda *_: 0)
            if x is not None:
                count_into(t, d, x, '+')
            for n, v in k.items():
                t.dict_set(d, n, t.binop('+', t.dict_get(d, n), v))
            return d

        def deque(t, x=None, maxlen=None):
            if maxlen is not None:
                t.unsupported('deque with a limit')
            l = t.to_list(x) if x is not None else t.new_list()
            l.kind = 'deque'
            return l
        od = BuiltinV('OrderedDict', lambda t, a, k: call_native_class(
            t, t.native_class(dict), a, k))
        od.attrs['#py'] = dict
        od.attrs['fromkeys'] = BuiltinV('fromkeys', lambda t, a, k:
                                        fromkeys(t, a))
        return mod(it, name, namedtuple=F('namedtuple', nt), OrderedDict=od,
                   defaultdict=F('defaultdict', dd),
                   Counter=F('Counter', counter), deque=F('deque', deque),
                   abc=it.load('collections.abc'))
    if name == 'collections.abc':
        return mod(it, name, **{n: BuiltinV(n, lambda t, a, k: None)
                                for n in ('Iterable', 'Iterator', 'Mapping',
                                          'Sequence', 'Callable',
                                          'Generator', 'MutableMapping')})
    if name == 'functools':
        def reduce_(t, f, x, *init):
            acc = [init[0] if init else UNDEF]
            base = t.pc

            def one(v):
                if acc[0] is UNDEF:
                    acc[0] = v
                    return
                new = t.call(f, [acc[0], v], {})
                acc[0] = v_ite(bdd.constrain(t.pc, base), new, acc[0])
            t.for_each(x, one)
            if t.pc == FALSE:
                raise Dead()
            if acc[0] is UNDEF:
                bad(t, TypeError, 'reduce() of empty iterable')
            return acc[0]
        ident = BuiltinV('identity', lambda t, a, k: a[0])

        def wraps(t, a, k):
            f = a[0]

            def go(t2, b, k2):
                w = b[0]
                if isinstance(w, FuncV) and isinstance(f, FuncV):
                    for n in ('__name__', '__qualname__', '__doc__'):
                        w.attrs[n] = t2.get_attr(f, n)
                    for n, v in f.attrs.items():
                        w.attrs.setdefault(n, v)
                    w.attrs['__wrapped__'] = f
                return w
            return BuiltinV('wraps', go)

        def memo(t, a, k):
            if len(a) == 1 and isinstance(a[0], FuncV):
                if a[0].attrs is None:
                    a[0].attrs = {}
                a[0].attrs['#memo'] = {}
                return a[0]
            if a and not isinstance(a[0], (int, type(None))) or \
                    not isinstance(k.get('maxsize', None),
                                   (int, type(None))):
                t.unsupported('lru_cache')
            return BuiltinV('lru_cache', memo)

        def cached(t, a, k):
            f = a[0]
            if not isinstance(f, FuncV):
                t.unsupported('cached_property')

            def get(t, b, k):
                o, n = b[0], '#cached ' + f.name
                if n not in o.attrs:
                    t.set_attr(o, n, t.call(f, [o], {}))
                for _, v in V.alts_of(o.attrs[n]):
                    if v is UNDEF:
                        t.unsupported('cached_property')
                return o.attrs[n]
            return PropV(BuiltinV('cached_property', get))
        return mod(it, name, reduce=F('reduce', reduce_),
                   partial=BuiltinV('partial', lambda t, a, k: PartialV(
                       a[0], a[1:], k)),
                   partialmethod=BuiltinV('pm', lambda t, a, k:
                                          t.unsupported('partialmethod')),
                   wraps=BuiltinV('wraps', wraps),
                   lru_cache=BuiltinV('lru_cache', memo),
                   cache=BuiltinV('cache', memo),
                   cached_property=BuiltinV('cached_property', cached),
                   total_ordering=ident,
                   cmp_to_key=BuiltinV('cmp', lambda t, a, k:
                                       t.unsupported('cmp_to_key')))
    if name == 'itertools':
        def islice(t, x, *a):
            a = list(a)
            if len(a) == 1:
                a = [0] + a
            if isinstance(x, Lazy) and x.kind == 'count':
                n = [t.binop('+', x.a[0], t.binop('*', i, x.a[1]))
                     for i in range(a[0] or 0, a[1], *a[2:])]
                return iter_(t, t.new_list(n))
            l = t.to_list(x)
            r = t.new_list()
            r.ents = t.slice_ents([tuple(e) for e in l.ents], SliceV(
                a[0], a[1], a[2] if len(a) > 2 else None))
            return iter_(t, r)

        def product(t, *its, repeat=1):
            ls = [t.to_list(x).ents for x in its] * repeat
            out = [(TRUE, ())]
            for l in ls:
                out = [(and_(g, h), v + (x,)) for g, v in out for h, x in l]
            r = t.new_list()
            r.ents = [[g, v] for g, v in out]
            return iter_(t, r)

        def repeat(t, x, times=None):
            if times is None:
                t.unsupported('endless repeat')
            return t.new_list([x] * times)

        def takewhile(t, f, x):
            out = t.new_list()
            base = t.pc
            alive = [TRUE]

            def one(v):
                c = t.truth(t.call(f, [v], {}))
                stop = and_(t.pc, neg(c))
                out.ents.append([and_(alive[0], c), v])
                alive[0] = and_(alive[0], c)
            for g, v in t.to_list(x).ents:
                c = t.truth(t.call(f, [v], {}))
                out.ents.append([and_(g, and_(alive[0], c)), v])
                alive[0] = and_(alive[0], or_(neg(g), c))
            return iter_(t, out)

        def dropwhile(t, f, x):
            out = t.new_list()
            dropping = TRUE
            for g, v in t.to_list(x).ents:
                c = t.truth(t.call(f, [v], {}))
                dropping = and_(dropping, or_(neg(g), c))
                out.ents.append([and_(g, neg(dropping)), v])
            return iter_(t, out)

        def zip_longest(t, *its, fillvalue=None):
            ls = [t.static_items(t.to_list(x)) for x in its]
            n = max(len(x) for x in ls)
            return t.new_list([tuple(x[i] if i < len(x) else fillvalue
                                     for x in ls) for i in range(n)])

        def accumulate(t, x, func=None, initial=None):
            out = []
            items = t.static_items(t.to_list(x))
            if initial is not None:
                items = [initial] + items
            acc = UNDEF
            for v in items:
                acc = v if acc is UNDEF else (
                    t.binop('+', acc, v) if func is None else
                    t.call(func, [acc, v], {}))
                out.append(acc)
            return t.new_list(out)

        def groupby(t, x, key=None):
            t.unsupported('groupby')

        def pairwise(t, x):
            v = t.static_items(t.to_list(x))
            return t.new_list(list(zip(v, v[1:])))
        chain = BuiltinV('chain', lambda t, a, k: Lazy('chain', tuple(a)))
        chain.attrs['from_iterable'] = BuiltinV(
            'from_iterable', lambda t, a, k: Lazy('chain', tuple(
                t.static_items(t.to_list(a[0])))))
        starmap = BuiltinV('starmap', lambda t, a, k: Lazy(
            'map', BuiltinV('star', lambda t2, b, k2: t2.call(
                a[0], t2.static_items(t2.to_list(b[0])), {})), a[1]))
        return mod(it, name, chain=chain, islice=F('islice', islice),
                   product=F('product', product), repeat=F('repeat', repeat),
                   takewhile=F('takewhile', takewhile),
                   dropwhile=F('dropwhile', dropwhile),
                   zip_longest=F('zip_longest', zip_longest),
                   accumulate=F('accumulate', accumulate),
                   groupby=F('groupby', groupby), starmap=starmap,
                   pairwise=F('pairwise', pairwise),
                   count=F('count', lambda t, start=0, step=1: Lazy(
                       'count', start, step)))
    if name == 'operator':
        d = {}
        for n, o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('and_', '&'),
                     ('or_', '|'), ('xor', '^'), ('lshift', '<<'),
                     ('rshift', '>>'), ('floordiv', '//'), ('mod', '%'),
                     ('pow', '**')):
            d[n] = BuiltinV(n, lambda t, a, k, o=o: t.binop(o, a[0], a[1]))
        for n, o in (('eq', ast.Eq), ('ne', ast.NotEq), ('lt', ast.Lt),
                     ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE),
                     ('is_', ast.Is), ('is_not', ast.IsNot)):
            d[n] = BuiltinV(n, lambda t, a, k, o=o: t.compare2(
                o(), a[0], a[1]))
        d['index'] = F('index', lambda t, v: index_(t, v))
        d['not_'] = F('not_', lambda t, v: sb(neg(t.truth(v))))
        d['truth'] = F('truth', lambda t, v: sb(t.truth(v)))
        d['neg'] = F('neg', lambda t, v: t.unary(ast.USub(), v))
        d['invert'] = F('invert', lambda t, v: t.unary(ast.Invert(), v))
        d['getitem'] = F('getitem', lambda t, a, b: t.get_item(a, b))
        d['setitem'] = F('setitem', lambda t, a, b, c: t.set_item(a, b, c))
        d['contains'] = F('contains', lambda t, a, b: sb(t.contains(a, b)))

        def itemgetter(t, *ks):
            def g(t2, a, k):
                r = tuple(t2.get_item(a[0], x) for x in ks)
                return r[0] if len(r) == 1 else r
            return BuiltinV('itemgetter', g)

        def attrgetter(t, *ns):
            def one(t2, o, n):
                for p in n.split('.'):
                    o = t2.get_attr(o, p)
                return o

            def g(t2, a, k):
                r = tuple(one(t2, a[0], n) for n in ns)
                return r[0] if len(r) == 1 else r
            return BuiltinV('attrgetter', g)

        def methodcaller(t, n, *a, **k):
            return BuiltinV('methodcaller', lambda t2, b, k2: t2.call(
                t2.get_attr(b[0], n), list(a), k))
        d['itemgetter'] = F('itemgetter', itemgetter)
        d['attrgetter'] = F('attrgetter', attrgetter)
        d['methodcaller'] = F('methodcaller', methodcaller)
        return mod(it, name, **d)
    if name in ('typing', 'typing_extensions'):
        d = {}
        import typing
        for n in typing.__all__:
            d[n] = BuiltinV(n, lambda t, a, k: a[-1] if a else None)
        d['NamedTuple'].attrs['#mark'] = 'NamedTuple'
        d['TYPE_CHECKING'] = False
        d['cast'] = F('cast', lambda t, ty, v: v)
        d['TypeVar'] = BuiltinV('TypeVar', lambda t, a, k: None)
        d['List'] = it.native_class(list)
        d['Dict'] = it.native_class(dict)
        d['Tuple'] = it.native_class(tuple)
        d['Set'] = it.native_class(set)
        for n in ('Optional', 'Union', 'Any', 'Iterable', 'Iterator',
                  'Generic', 'Protocol', 'TextIO', 'Callable', 'Final'):
            d[n] = BuiltinV(n, lambda t, a, k: None)
        return mod(it, name, **d)
    if name == 'enum':
        d = {}
        for n in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
            e = BuiltinV(n, lambda t, a, k: t.unsupported('functional enum'))
            e.attrs['#mark'] = n
            d[n] = e
        d['auto'] = BuiltinV('auto', lambda t, a, k: AUTO)
        d['unique'] = BuiltinV('unique', lambda t, a, k: a[0])
        return mod(it, name, **d)
    if name == 'dataclasses':
        def dc(t, a, k):
            if a:
                return dataclass_(t, a[0], {})
            return BuiltinV('dataclass', lambda t2, b, k2: dataclass_(
                t2, b[0], k))

        def field(t, a, k):
            o = t.new_obj(t.native_class(object))
            o.attrs['#field'] = True
            for n, v in k.items():
                if n not in ('default', 'default_factory', 'metadata') and \
                        not (n in ('init', 'repr', 'compare') and v is True):
                    t.unsupported('field option ' + n)
            o.attrs['default'] = k.get('default', UNDEF)
            o.attrs['factory'] = k.get('default_factory', UNDEF)
            return o
        return mod(it, name, dataclass=BuiltinV('dataclass', dc),
                   field=BuiltinV('field', field),
                   replace=BuiltinV('replace', lambda t, a, k:
                                    t.unsupported('dataclasses.replace')))
    if name == 'contextlib':
        def cm(t, a, k):
            a[0].attrs['contextmanager'] = True
            return a[0]
        return load_text(it, name, CONTEXTLIB,
                         contextmanager=BuiltinV('contextmanager', cm))
    if name == 'abc':
        def abstract(t, a, k):
            if isinstance(a[0], FuncV):
                a[0].attrs['#abstract'] = True
            return a[0]
        return mod(it, name, ABC=it.native_class(object),
                   abstractmethod=BuiltinV('am', abstract),
                   ABCMeta=it.native_class(type))
    if name == 'copy':
        return mod(it, name, copy=F('copy', lambda t, v: copy_(t, v, False)),
                   deepcopy=F('deepcopy', lambda t, v, m=None:
                              copy_(t, v, True)))
    if name == 'string':
        return mod(it, name, **{n: getattr(_string, n) for n in (
            'ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits',
            'hexdigits', 'octdigits', 'punctuation', 'whitespace',
            'printable')})
    if name == 'math':
        import math
        d = {}
        for n in ('floor', 'ceil', 'log2', 'log10', 'sqrt', 'log', 'trunc',
                  'isqrt', 'gcd'):
            d[n] = BuiltinV(n, lambda t, a, k, n=n: host(
                t, getattr(math, n), *a) if all(native(x) for x in a)
                else t.unsupported('math.' + n))
        return mod(it, name, inf=math.inf, pi=math.pi, **d)
    if name == 'time':
        return mod(it, name, time=F('time', lambda t: mk(
            'time', ty='float')), strftime=F('strftime', lambda t, *a:
                                             t.opaque('strftime')),
                   perf_counter=F('perf_counter', lambda t: mk(
                       'time', ty='float')),
                   sleep=F('sleep', lambda t, x: None))
    if name == 're':
        d = {}
        for n in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall',
                  'compile', 'finditer'):
            d[n] = BuiltinV(n, lambda t, a, k, n=n: re_call(t, n, a, k))
        return mod(it, name, escape=F('escape', lambda t, x: host(
            t, _re.escape, x)), I=2, IGNORECASE=2, M=8, S=16, **d)
    if name == 'fuzzywuzzy':
        return mod(it, name, fuzz=it.load('fuzzywuzzy.fuzz'),
                   process=it.load('fuzzywuzzy.process'))
    if name == 'fuzzywuzzy.fuzz':
        return mod(it, name, **{n: F(n, lambda t, *a: 50) for n in (
            'ratio', 'partial_ratio', 'token_sort_ratio', 'token_set_ratio',
            'WRatio', 'QRatio')})
    if name == 'fuzzywuzzy.process':
        def extract(t, query, choices, processor=None, scorer=None,
                    limit=5):
            l = t.to_list(choices)
            r = t.new_list()
            r.ents = [[g, (v, 90)] for g, v in l.ents]
            if isinstance(limit, int):
                r.ents = t.slice_ents([tuple(e) for e in r.ents],
                                      SliceV(0, limit, None))
            t.event('fuzzy', query)
            return r
        return mod(it, name, extract=F('extract', extract),
                   extractOne=F('extractOne', lambda t, *a, **k:
                                t.unsupported('extractOne')))
    if name == '__future__':
        return mod(it, name, print_function=True, annotations=True)
    if name == 'warnings':
        return mod(it, name, warn=BuiltinV('warn', lambda t, a, k: None))
    if name == 'io':
        return mod(it, name, StringIO=BuiltinV('StringIO', lambda t, a, k:
                                               t.unsupported('StringIO')))
    top = name.split('.')[0]
    if top in _sys.stdlib_module_names:
        return OpaqueMod(it, name)
    return None


class OpaqueVars(dict):
    def __init__(self, name):
        self.name = name

    def get(self, k, d=None):
        if k.startswith('__'):
            return d
        n = '%s.%s' % (self.name, k)
        r = BuiltinV(n, lambda t, a, kw: t.unsupported(n))
        r.attrs['#opaque'] = True
        return r

    def items(self):
        return []


def OpaqueMod(it, name):
    m = ModV(name, None)
    m.is_pkg = True
    m.env.vars = OpaqueVars(name)
    return m


def index_(it, v):
    if isinstance(v, Un):
        return it.vmap(lambda x: index_(it, x), v)
    r = it.as_index(v)
    if is_intlike(r) or T.is_tint(r):
        return r
    bad(it, TypeError, 'object cannot be interpreted as an integer')


def re_call(it, n, a, k):
    if n == 'compile':
        pat = a[0]
        o = it.new_obj(it.native_class(object))
        for m in ('match', 'search', 'fullmatch', 'split', 'sub', 'findall',
                  'finditer'):
            o.attrs[m] = BuiltinV(m, lambda t, b, kw, m=m: re_call(
                t, m, [pat] + list(b), kw))
        return o
    if any(isinstance(x, Un) for x in a):
        return spread(it, lambda *b: re_call(it, n, list(b), k), *a)
    if not all(native(x) for x in a):
        it.unsupported('re.%s on symbolic text' % n)
    r = getattr(_re, n)(*a, **k)
    if n in ('match', 'search', 'fullmatch'):
        return re_match(it, r)
    if n == 'finditer':
        return it.new_list([re_match(it, x) for x in r])
    return lift(it, r)


def re_match(it, r):
    if r is None:
        return None
    o = it.new_obj(it.native_class(object))
    o.attrs['group'] = BuiltinV('group', lambda t, b, kw: lift(
        t, r.group(*b)))
    o.attrs['groups'] = BuiltinV('groups', lambda t, b, kw: r.groups())
    o.attrs['start'] = BuiltinV('start', lambda t, b, kw: r.start(*b))
    o.attrs['end'] = BuiltinV('end', lambda t, b, kw: r.end(*b))
    return o
