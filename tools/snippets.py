"""Programs for tools/selftest.py: parameters s*, t* are texts, b* flags, the
others small integers."""
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import heapq
import io
import itertools
import math
import operator
import os.path
import re
import string
import sys
import textwrap
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque
from collections import namedtuple


def t_counter_map():
    c = Counter({'a': 0, 'b': 2})
    c['a'] += 1
    c['c'] += 5
    return dict(c), c['zz'], len(c), c.most_common(2), sum(c.values())


def t_counter_iter(s):
    c = Counter(s)
    c.update('ab')
    c.subtract('a')
    return c['a'], c['b'], c['q'], len(c)


def t_counter_del():
    c = Counter('aab')
    del c['zz']
    del c['a']
    return dict(c), c.total(), 'a' in c, c.get('a'), c.get('a', 7)


def t_defaultdict(n):
    d = defaultdict(list)
    d[n].append(1)
    d[3].append(2)
    e = defaultdict(int, {1: 2})
    e[n] += 1
    x = d[77]
    return dict(d), dict(e), x, 77 in d, d.get(99), 99 in d


def t_nested_default(s, t):
    d = defaultdict(lambda: defaultdict(dict))
    d[s][t]['k'] = 1
    d['a']['b']['c'] = 2
    return {k: {j: dict(w) for j, w in v.items()} for k, v in d.items()}


def t_deque(n):
    d = deque([1, 2, 3])
    d.append(n)
    d.appendleft(0)
    return d.popleft(), d.pop(), list(d), len(d), d[0], n in d


def t_ordered(n):
    d = OrderedDict(sorted([(3, 'c'), (1, 'a'), (2, 'b')],
                           key=lambda t: t[1], reverse=True))
    d[n] = 'n'
    return list(d.items())


def t_chainmap(n):
    c = ChainMap({1: 'a'}, {1: 'b', 2: 'c'})
    return c[1], c.get(n, 'none'), n in c, sorted(c)


def t_namedtuple(n):
    P = namedtuple('P', 'x y z')
    p = P(1, n, z=3)
    q = p._replace(x=9)
    a, b, c = q
    return p.x, p[1], p == (1, n, 3), q._asdict(), a + b + c, P._fields, len(p)


def t_namedtuple_defaults():
    P = namedtuple('P', ['a', 'b'], defaults=(5,))
    return P(1), P(1).b, P(b=2, a=0), tuple(P._make([7, 8]))


def t_split(s):
    return (s.split(), s.split(','), s.split(',', 1), s.rsplit(',', 1),
            s.split(None, 1), s.splitlines(), s.splitlines(True))


def t_partition(s):
    return s.partition(','), s.rpartition(','), s.partition('zz')


def t_strip(s):
    return s.strip(), s.lstrip(), s.rstrip(), s.strip('a '), s.rstrip('\n')


def t_prefix(s):
    return (s.removeprefix('a'), s.removesuffix('c'), s.startswith(('a', '$')),
            s.endswith(('c', '\n')), s.startswith('b', 1), s.find('b'),
            s.rfind('b'), s.count('a'), s.index('') if s else None)


def t_case(s):
    return (s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(),
            s.isupper(), s.islower(), s.casefold())


def t_isx(s):
    return (s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isnumeric(),
            s.isdecimal(), s.isidentifier(), s.isprintable(), s.isascii())


def t_just(s, n):
    return (s.ljust(8), s.rjust(8, '.'), s.center(9, '*'), s.zfill(6),
            s.expandtabs(), ('%-8s|%8s' % (s, s)), '{:<8}|{:>8}|{:^8}'.format(
                s, s, s), f'{s:8}|{s!r:>8}|{s:*^10}')


def t_replace(s):
    return (s.replace('a', 'xx'), s.replace(' ', '', 1), s.replace('', '-'),
            s.translate({97: 'q', 98: None}),
            s.translate(str.maketrans('ab', 'cd', ' ')))


def t_slices(s, n):
    return (s[n:], s[:n], s[::-1], s[1:-1], s[-3:], s[::2], s[n:n + 2],
            s[:1], s[8:])


def t_index(s, n):
    return s[n]


def t_first(s):
    return s[0], s[-1]


def t_join(s, t):
    return (','.join([s, t]), ''.join(reversed(s)), '-'.join(s),
            ' '.join(sorted([s, t])), ' '.join(s.split()), s + t, s * 2,
            s in t, t in s, s < t, s == t, max(s, t), min([s, t]))


def t_strcmp(s, t):
    return s < t, s <= t, s > t, s != t, sorted([s, t, 'b']), [s, 1] < [t, 0]


def t_chars(s):
    out = []
    for i, c in enumerate(s):
        if c == ',':
            continue
        if c == '\n':
            break
        out.append((i, c))
    else:
        out.append('done')
    return out


def t_ord():
    return (ord('a'), chr(98), [chr(ord('A') + i) for i in range(5)],
            'abc'.encode(), b'xyz'.decode(), bytes([65, 66]).decode('ascii'))


def t_pct(n, s):
    return ('%d' % n, '%5d|%-5d|%05d|%+d' % (n, n, n, n), '%x %o %X' % (
        n & 31, n & 31, n & 31), '%s %r' % (s, s), '%%', '%c' % 'x',
        '%(a)s-%(b)d' % {'a': s, 'b': n}, '%*d' % (6, n), '%.2f' % 2.5,
        '%6.2f%%' % (100 * 1.0 / 3), '%0*d' % (4, n))


def t_format(n, s):
    return ('{}'.format(n), '{0}{1}{0}'.format(n, s), '{a:>5}{b!r}'.format(
        a=n, b=s), '{:04d}'.format(n), '{:+}'.format(n), '{:,}'.format(12345),
        '{:b} {:o} {:x} {:#x} {:08b}'.format(*[n & 15] * 5),
        '{num:{fill}{width}}'.format(num=n, fill='0', width=6),
        format(n, '6d'), format(s, '>6'), '{{}}'.format())


def t_fstring(n, s):
    w = 7
    return (f'{n}', f'{n:5}', f'{n:<5}|', f'{n:0{w}d}', f'{s!r}', f'{s:>{w}}',
            f'{n + 1 = }', f"{'x' if n > 0 else 'y'}", f'{n & 15:04b}',
            f'{ {1: 2}[1] }')


def t_int_ops(n, m):
    return (n + m, n - m, n * m, n & m, n | m, n ^ m, ~n, -n, +n, abs(n),
            n << 3, n >> 2, n // 4, n % 4, divmod(n, 5), n ** 2, n == m,
            n < m, n <= m, n != m, n > m, n >= m)


def t_int_div(n, m):
    return n // m, n % m


def t_shift(n, m):
    return n << m, n >> m


def t_bits(n):
    return (n.bit_length(), bin(n), hex(n), oct(n), bin(n & 31).count('1'),
            (n & 63).bit_count(), int(bin(n & 7)[2:], 2), bool(n), not n,
            int(n > 3), (n & 31).to_bytes(2, 'big'),
            int.from_bytes(b'\x01\x02', 'big'))


def t_int_parse(s):
    return int(s)


def t_int_base(s):
    return int(s, 16)


def t_numbers(n):
    return (max(n, 3), min(n, 3, 1), max([n, 2], key=lambda x: -x),
            max([], default=n), sum([n, 1, 2]), sum([[n], [1]], []),
            round(n), pow(2, 3), pow(3, 4, 5), math.ceil(n / 2),
            math.floor(2.5), float(3), int(3.9), round(2.567, 1), 7 / 2)


def t_range(n):
    r = range(2, 20, 3)
    return (list(r), n in r, len(r), r[1], r[-1], list(reversed(r)),
            list(range(5, 0, -2)), r.index(5), list(range(n & 3)),
            list(r[1:3]), r.start, r.stop, r.step)


def t_range_bad(n):
    return list(range(0, 5, n & 1))


def t_list(n):
    l = [3, 1, 2]
    l.append(n)
    l.extend([7, 8])
    l.insert(1, 'i')
    l += [9]
    m = l[:]
    m.remove('i')
    m.sort()
    k = list(m)
    k.reverse()
    x = k.pop()
    y = k.pop(0)
    return l, m, k, x, y, l.index('i'), l.count(n), m[1:3], m[-1], len(l)


def t_list_slices():
    l = list(range(8))
    l[1:3] = ['a', 'b', 'c']
    del l[0]
    del l[-2:]
    l[0], l[1] = l[1], l[0]
    m = [0] * 3 + [1]
    m[::2] = [5, 6]
    return l, m, l[::-1], l[5:1:-2], l[:], [*l, *m]


def t_list_bad(n):
    l = [1, 2, 3]
    return l[n], l[:n]


def t_list_remove(n):
    l = [1, 2, 3, 1]
    l.remove(n)
    return l


def t_unpack(n):
    a, *b, c = [n, 1, 2, 3]
    (d, e), f = (1, n), 5
    g = h = [n]
    h.append(1)
    return a, b, c, d, e, f, g, [*range(3), *b]


def t_unpack_bad(s):
    a, b = s.split(',')
    return b + a


def t_dict(n, s):
    d = {1: 'a', 'k': s}
    d[n] = 'n'
    d.update({5: 6}, z=1)
    d.setdefault(n, 'no')
    d.setdefault('new', []).append(n)
    e = dict(d)
    p = e.pop('k')
    q = e.pop('none', 'dflt')
    del e[5]
    return (d, e, p, q, list(d), list(d.values())[0], d.get('x'), 'k' in d,
            len(e), {v: k for k, v in {1: 2}.items()}, d | {9: 9}, {**e, 1: 0})


def t_dict_bad(n):
    d = {1: 'a', 2: 'b'}
    return d[n]


def t_dict_del(n):
    d = {1: 'a', 2: 'b'}
    del d[n]
    return d


def t_dict_misc():
    d = dict(a=1, b=2)
    d2 = dict([('x', 1)], y=2)
    d3 = dict(zip('ab', (1, 2)))
    d4 = dict.fromkeys('ab', 0)
    it = iter(d.items())
    first = next(it)
    return (d == d3, d2, d4, first, d.popitem(), list(reversed(d2)),
            sorted(d2.items(), key=lambda kv: -kv[1]), d.keys() & {'a'},
            list(enumerate(d2)), min(d2), max(d2, key=d2.get),
            [k for k in sorted(d2, reverse=True)])


def t_set(n):
    s = {1, 2, 3}
    s.add(n)
    t = set([2, 3, 4])
    u = s | t
    s.discard(99)
    f = frozenset('ab')
    return (s, s & t, s - t, s ^ t, u, n in t, len(u), s <= u, s.isdisjoint(
        {77}), sorted(f), {x % 3 for x in range(9)}, t.issubset(u),
        s.union([5]), s == {1, 2, 3})


def t_set_remove(n):
    s = {1, 2}
    s.remove(n)
    return s


def t_comp(n):
    return ([x * n for x in range(4) if x % 2], {x: n for x in 'ab'},
            [(x, y) for x in range(3) for y in range(x)],
            [[y for y in range(x)] for x in range(3)],
            sum(x for x in range(5)), any(x == n for x in range(5)),
            all(x < n for x in range(3)), [y := n, y + 1],
            [z for x in range(5) if (z := x * 2) > 4])


def t_gen(n):
    def g(k):
        got = 0
        while got < k:
            got += 1
            if got == n:
                return
            yield got
        yield 'end'

    def h():
        yield 0
        yield from g(3)
        yield from [7, 8]
    it = h()
    a = next(it)
    return a, list(it), list(g(2)), next(g(1), 'none'), next(iter([]), None)


def t_gen_stop():
    it = iter([1])
    next(it)
    return next(it)


def t_iter_protocol(n):
    class It:
        def __init__(self, k):
            self.k = k

        def __iter__(self):
            return self

        def __next__(self):
            if self.k <= 0:
                raise StopIteration
            self.k -= 1
            return self.k

    class Seq:
        def __getitem__(self, i):
            if i > 3:
                raise IndexError(i)
            return i * n

        def __len__(self):
            return 4

        def __contains__(self, x):
            return x == n
    s = Seq()
    return (list(It(3)), list(zip(It(2), s)), list(s), 5 in s, n in s, len(s),
            bool(s), [x for x in It(n & 3)], list(reversed(s)))


def t_itertools(n):
    return (list(itertools.chain([1], (2, n), 'ab')),
            list(itertools.chain.from_iterable([[1], [n]])),
            list(itertools.islice(itertools.count(n), 3)),
            list(itertools.islice('abcdef', 1, 5, 2)),
            list(itertools.accumulate([1, 2, n])),
            list(itertools.zip_longest('abc', [1], fillvalue=0)),
            list(itertools.product([0, 1], repeat=2)),
            list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.starmap(operator.add, [(1, 2), (n, 4)])),
            list(itertools.repeat('x', 2)),
            list(itertools.pairwise([1, 2, 3])),
            list(itertools.combinations('abc', 2)),
            list(itertools.permutations([1, 2])),
            list(itertools.compress('abc', [1, 0, 1])),
            list(itertools.filterfalse(lambda x: x % 2, range(5))),
            [(k, list(g)) for k, g in itertools.groupby('aabbc')],
            list(itertools.islice(itertools.cycle([1, 2]), 5)))


def t_tee():
    a, b = itertools.tee([1, 2, 3])
    next(a)
    return list(a), list(b)


def t_functools(n):
    add = functools.partial(lambda a, b, c=0: a + b + c, 1, c=n)
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x * 2

    @functools.cache
    def g(x):
        calls.append('g')
        return [x]
    g(1).append(5)

    @functools.wraps(f)
    def w(*a):
        return f(*a)
    return (add(2), f(1), f(1), f(2), calls, g(1),
            functools.reduce(operator.mul, [1, 2, n], 1), w(3))


def t_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def p(self):
            self.n += 1
            return self.n
    a = A()
    return a.p, a.p, a.n


def t_total_ordering(n):
    @functools.total_ordering
    class A:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return self.v == o.v

        def __lt__(self, o):
            return self.v < o.v
    return A(n) >= A(3), A(n) > A(3), A(n) <= A(3), A(1) != A(n)


def t_singledispatch(n):
    @functools.singledispatch
    def f(x):
        return 'other'

    @f.register(int)
    def _(x):
        return 'int'

    @f.register(str)
    def _(x):
        return 'str'
    return f(n), f('a'), f([])


def t_operator(n):
    class A:
        x = 5
    return (operator.itemgetter(1)([1, n]), operator.attrgetter('x')(A()),
            operator.itemgetter(0, 1)('ab'), operator.index(n),
            operator.methodcaller('upper')('a'), operator.or_(n, 1),
            operator.lt(n, 2), operator.contains([1], n), operator.neg(n),
            operator.getitem([1, 2], 0), operator.not_(n), operator.xor(n, 1))


def t_re(s):
    m = re.match(r'(\w)(?:,(\w))?', s)
    return (m.groups() if m else None, bool(re.search('b', s)),
            re.sub(r'\s+', '', s), re.split(',', s), re.findall('[a-c]', s),
            re.fullmatch('[a-z]+', s) is not None,
            m.group(0) if m else '', m.start() if m else -1)


def t_re_compile(s):
    p = re.compile(r'^(?P<a>\d+)-(?P<b>\d+)$')
    m = p.match(s.strip())
    if m is None:
        return None
    return m.group('a'), int(m['b']), m.groupdict(), m.span()


def t_text(s):
    return (textwrap.dedent('  a\n  b'), string.ascii_uppercase,
            string.digits, s.strip(string.whitespace),
            string.Template('$a').substitute(a=s))


def t_dataclass(n):
    @dataclasses.dataclass
    class P:
        x: int
        y: int = 3
        z: list = dataclasses.field(default_factory=list)

        def total(self):
            return self.x + self.y

    @dataclasses.dataclass(frozen=True)
    class Q:
        a: int
    p = P(n)
    p.z.append(1)
    q = P(n, 4)
    try:
        Q(1).a = 2
        fr = 'set'
    except dataclasses.FrozenInstanceError:
        fr = 'frozen'
    return (p.total(), q.z, p == q, P(1) == P(1), str(Q(n))[-5:], fr,
            Q(1) == Q(1), {Q(1): 2}[Q(1)], dataclasses.asdict(Q(n)),
            dataclasses.replace(Q(1), a=n).a)


def t_enum(n):
    class C(enum.Enum):
        A = 1
        B = 2

    class I(enum.IntEnum):
        X = 0
        Y = 1
    return (C.A.name, C.B.value, C(1) is C.A, [c.name for c in C], C['B'].value,
            I.Y == 1, I.X + 2, n == I.Y, C.A == C.B, len(C), C.A in C)


def t_enum_bad(n):
    class C(enum.Enum):
        A = 1
        B = 2
    return C(n).name


def t_contextlib(n):
    log = []

    @contextlib.contextmanager
    def cm(x):
        log.append('in')
        try:
            yield x
        finally:
            log.append('out')

    class M:
        def __enter__(self):
            log.append('E')
            return self

        def __exit__(self, t, v, tb):
            log.append(t is None)
            return t is KeyError
    with cm(n) as v, M():
        log.append(v)
    with M():
        {}[1]
    with contextlib.suppress(ZeroDivisionError):
        1 // 0
    try:
        with cm(1):
            raise ValueError('x')
    except ValueError:
        log.append('caught')
    return log


def t_exceptions(n):
    log = []

    class E(Exception):
        def __init__(self, a, b):
            super().__init__(a, b)
            self.b = b
    for k in (0, 1, 2, 3, 4):
        try:
            try:
                if k == 0:
                    raise E(1, n)
                if k == 1:
                    [][5]
                if k == 2:
                    {}['x']
                if k == 3:
                    int('zz')
            except E as e:
                log.append(('E', e.b, e.args))
                raise
            except (IndexError, KeyError) as e:
                log.append(type(e).__name__)
                raise RuntimeError('r') from e
            else:
                log.append('else')
            finally:
                log.append('fin')
        except E:
            log.append('outer E')
        except RuntimeError as r:
            log.append((str(r), type(r.__cause__).__name__))
        except ValueError as v:
            log.append('value')
    return log


def t_finally(n):
    def f():
        for i in range(3):
            try:
                if i == n:
                    return 'ret'
                if i == 1:
                    continue
            finally:
                log.append(i)
        return 'end'
    log = []
    return f(), log


def t_raise(n):
    if n > 3:
        raise ValueError('bad %d' % n)
    if n < -3:
        raise KeyError(n)
    assert n != 2, 'two'
    return n


def t_exc_str(n):
    try:
        raise ValueError('Invalid %d!' % n)
    except ValueError as e:
        return str(e), e.args, repr(e)


def t_match(n):
    def f(x):
        match x:
            case 0:
                return 'zero'
            case 1 | 2:
                return 'few'
            case [a, b]:
                return ('pair', a, b)
            case [a, *rest]:
                return ('list', a, rest)
            case {'k': v}:
                return ('map', v)
            case str() as s:
                return ('str', s)
            case int(i) if i > 10:
                return ('big', i)
            case None:
                return 'none'
            case _:
                return 'other'
    return f(n), f([1, n]), f([1, 2, 3]), f({'k': n}), f('a'), f(None), f(1.5)


def t_match_text(s):
    match s.strip():
        case 'a' | 'abc':
            return 1
        case '':
            return 2
        case x if x.startswith('$'):
            return x
        case _:
            return 3


def t_args(n):
    def f(a, b=2, *args, c, d=4, **kw):
        return a, b, args, c, d, kw

    def g(a, /, b, *, c=1):
        return a, b, c
    return (f(1, c=3), f(1, n, 3, 4, c=5, e=6), f(*[1, 2], **{'c': n}),
            g(1, b=2), g(*(1, 2), c=n))


def t_args_bad(n):
    def f(a, b=1):
        return a
    if n > 0:
        return f()
    if n < 0:
        return f(1, c=2)
    return f(1, 2, 3)


def t_closure(n):
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    total = 0

    def add(k):
        nonlocal total
        total += k
        return total
    add(n)
    add(2)

    def deflt(x, acc=[]):
        acc.append(x)
        return len(acc)
    return [f() for f in fs], [g() for g in gs], total, deflt(1), deflt(1)


def t_class(n):
    class A:
        count = 0
        names = []

        def __init__(self, v=0):
            self._v = v
            A.count += 1
            self.names.append(v)

        @property
        def v(self):
            return self._v

        @v.setter
        def v(self, x):
            if x < 0:
                raise ValueError(x)
            self._v = x

        @classmethod
        def make(cls, x):
            return cls(x)

        @staticmethod
        def twice(x):
            return 2 * x

        def __repr__(self):
            return 'A(%d)' % self._v

        def __str__(self):
            return 'a%d' % self._v

        def __eq__(self, o):
            return isinstance(o, A) and self._v == o._v

        def __hash__(self):
            return hash(self._v)

        def __add__(self, o):
            return A(self._v + o._v)

        def __iadd__(self, k):
            self._v += k
            return self

        def __call__(self, x):
            return x + self._v

        def __bool__(self):
            return self._v > 0

        def __int__(self):
            return self._v

        def __lt__(self, o):
            return self._v < o._v

    class B(A):
        def __init__(self, v):
            super().__init__(v)
            self.extra = v

        def __str__(self):
            return 'B' + super().__str__()
    a = A(1)
    b = B.make(n)
    a += 5
    try:
        a.v = n
        ok = True
    except ValueError:
        ok = False
    return (str(a), repr(b), '%s %r' % (b, b), A.count, A.names, ok, a == A(1),
            A.twice(n), a(1), bool(b), int(b), isinstance(b, A),
            type(b).__name__, b.extra, issubclass(B, A), (a + b).v,
            {a: 1}.get(a), sorted([A(3), A(1)])[0].v, hasattr(a, 'extra'),
            getattr(a, 'zzz', 'dflt'), a != b, b.__class__ is B)


def t_class_more(n):
    class Desc:
        def __set_name__(self, owner, name):
            self.name = '_' + name

        def __get__(self, o, t=None):
            if o is None:
                return self
            return getattr(o, self.name, 'unset')

        def __set__(self, o, v):
            setattr(o, self.name, v * 2)

    class Base:
        def hook(self):
            return 'base'

        def run(self):
            return self.hook()

        def __getattr__(self, k):
            if k.startswith('dyn_'):
                return k[4:]
            raise AttributeError(k)

    class M1:
        def hook(self):
            return 'm1' + super().hook()

    class C(M1, Base):
        d = Desc()
        __slots__ = ('_d', 'q')

    class D(dict):
        def __missing__(self, k):
            return k * 2

    class L(list):
        def top(self):
            return self[-1]
    c = C()
    before = c.d
    c.d = n
    x = D(a=1)
    l = L([1, 2])
    l.append(n)
    try:
        c.nothing
        e = 'no'
    except AttributeError:
        e = 'attr'
    setattr(c, 'q', 3)
    delattr(c, 'q')
    return (before, c.d, c.run(), c.dyn_foo, e, x['a'], x['b'], l.top(),
            len(l), [k.__name__ for k in C.__mro__][:3], hasattr(c, 'q'))


def t_subclass_builtin(n, s):
    class T(tuple):
        def first(self):
            return self[0]

    class S(str):
        def shout(self):
            return self.upper()

    class I(int):
        def half(self):
            return self // 2
    return (T((n, 2)).first(), S(s).shout(), S(s) == s, I(n).half(), I(n) + 1)


def t_abc(n):
    import abc

    class A(abc.ABC):
        @abc.abstractmethod
        def f(self):
            """."""

    class B(A):
        def f(self):
            return n
    try:
        A()
        r = 'made'
    except TypeError:
        r = 'abstract'
    return r, B().f()


def t_copy(n):
    a = [[1], {'k': [n]}]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[0].append(2)
    a[1]['k'].append(3)
    return a, b, c, a[:] == b, a is not b


def t_bisect(n):
    l = [1, 3, 5]
    bisect.insort(l, 4)
    return (bisect.bisect_left(l, 3), bisect.bisect_right(l, 3), l,
            bisect.bisect(l, 10))


def t_heapq():
    h = [5, 1, 3]
    heapq.heapify(h)
    heapq.heappush(h, 0)
    return heapq.heappop(h), heapq.heappop(h), heapq.nsmallest(2, [3, 1, 2])


def t_sort(n):
    l = [('b', 2), ('a', 2), ('c', 1), ('d', n)]
    return (sorted(l), sorted(l, key=lambda x: x[1]),
            sorted(l, key=lambda x: (-x[1], x[0])),
            sorted(l, key=operator.itemgetter(0), reverse=True),
            sorted([3, 1, 2], reverse=True), sorted('bca'),
            list(reversed(sorted([n, 3]))), sorted([True, False, 3]))


def t_builtins(n, s):
    return (list(map(lambda a, b: a + b, [1, n], [3, 4])),
            list(filter(None, [0, 1, '', s])), list(zip('ab', [1, 2, 3])),
            list(enumerate('ab', n)), isinstance(n, (int, str)),
            isinstance(True, int), callable(len), type(n) is int,
            list(iter([1, 2])), str(n), repr(s), str([1, 'a', None]),
            str((1,)), str({'a': 1}), bool([]), bool('a'), tuple([1, n]),
            list('ab'), divmod(7, 2), id(n) == id(n), hash('a') == hash('a'),
            all([]), any([]), len({1, 1}), sum((1, 2), 5), abs(-3),
            list(zip(*[(1, 2), (3, 4)])), vars, slice(1, 2).stop)[:-2]


def t_zip_strict(n):
    return list(zip([1, 2], range(n & 3), strict=True))


def t_control(n):
    out = []
    i = 0
    while True:
        i += 1
        if i == n:
            out.append('hit')
            break
        if i > 6:
            break
        if i % 2:
            continue
        out.append(i)
    while i < 3:
        i += 1
    else:
        out.append('else')
    for k in range(3):
        for j in range(3):
            if j == k:
                break
        else:
            out.append('never')
            continue
        out.append((k, j))
    x = 1 if n > 2 else 2 if n > 0 else 3
    y = n and 5 or 7
    z = 1 < n < 5 <= 9
    return out, i, x, y, z, None or n, n is None, not (n and 1)


def t_bool(b, c):
    return (b and c, b or c, not b, b & True, b | False, b ^ True, b + 1,
            int(b), str(b), [10, 20][b], 'x' * b, b == 1, sum([b, True]),
            b is True, {True: 'y', False: 'n'}[b])


def t_global():
    global _G
    _G = 1

    def inc():
        global _G
        _G += 1
    inc()
    return _G


def t_io():
    f = io.StringIO()
    print('a', 1, sep='-', end='!', file=f)
    f.write('z\n')
    with contextlib.redirect_stdout(f):
        print('in')
    return f.getvalue()


def t_path(s):
    return (os.path.join('a', 'b'), os.path.basename('a/b.c'),
            os.path.splitext('x.y.z'), os.path.dirname('a/b'),
            os.path.splitext('name')[0])


def t_walrus(s):
    if (k := len(s)) > 3:
        return k, s
    out = []
    parts = s.split(',')
    while parts and (p := parts.pop(0)) != 'y':
        out.append(p)
    return k, out


def t_star_expr(n):
    d = {'a': 1}
    e = {**d, 'b': n, **{'a': 2}}
    l = [*'ab', n]
    t = (*l, 1)
    return e, l, t, max(*[1, n]), print is not None


def t_text_loop(s):
    words = []
    cur = ''
    for c in s + ' ':
        if c.isspace():
            if cur:
                words.append(cur)
            cur = ''
        else:
            cur += c
    return words


def t_lookup(n):
    table = ((0, 'zero'), (1, 'one'), (2, 'two'))
    name = next((x for k, x in table if k == n), None)
    inv = {v: k for k, v in table}
    return name, dict(table).get(n, 'none'), inv, [k for k, _ in table]


def t_bitwork(n):
    x = n & 31
    bits = [(x >> i) & 1 for i in range(5)]
    back = sum(b << i for i, b in enumerate(bits))
    rev = int(''.join(str(b) for b in bits), 2)
    mask = (1 << 3) - 1
    return bits, back == x, rev, x & mask, x & ~mask, x | 1 << 4, x ^ mask


def t_string_build(s, n):
    acc = ''
    for i in range(3):
        acc += '%s%d;' % (s, i + n)
    return acc, acc.split(';')[1], len(acc)


def t_none(n):
    x = None
    d = {None: 1}
    return (x is None, x == None, d[None], [None, n], str(None), n != None,
            x or n, [x for x in (None, 0, 1) if x is not None])


def t_type_errors(n):
    if n == 0:
        return 'a' + 1
    if n == 1:
        return len(5)
    if n == 2:
        return None.x
    if n == 3:
        return [] < 1
    if n == 4:
        return undefined_name
    if n == 5:
        return (1)(2)
    if n == 7:
        return 'a' % 1
    if n == 8:
        return '%d' % 'a'
    if n == 12:
        return {}[[]]
    if n == 15:
        return '%s %s' % (1,)
    if n < -3:
        return 1 // 0
    return 'ok'


def t_unbound(n):
    if n > 0:
        x = 1
    return x


def t_chain_methods(s):
    return (s.strip().upper().split(',')[0].replace(' ', ''),
            ' '.join(w.capitalize() for w in s.split()),
            [p.strip() or None for p in s.split(',')])


def t_del(n):
    x = [1, 2, 3]
    y = x
    del x[0]
    del x
    d = {'a': 1, 'b': 2}
    for k in list(d):
        if d[k] == n:
            del d[k]
    return y, d


def t_mutate_iter():
    d = {'a': 1}
    for k in d:
        d[k + 'x'] = 1
    return d


def t_list_while_iter():
    l = [1, 2, 3]
    out = []
    for x in l:
        out.append(x)
        if x == 1:
            l.remove(1)
    return out, l


def t_tuple(n):
    t = (1, n, 'a')
    return (t + (2,), t * 2, t[1:], t[-1], n in t, t.index('a'), t.count(1),
            len(t), t == (1, n, 'a'), t < (1, n, 'b'), hash(t) == hash(t),
            {t: 1}[(1, n, 'a')], tuple(x for x in t), sorted((3, 1)))


def t_text_find(s):
    i = s.find(',')
    if i < 0:
        return s, None
    return s[:i], s[i + 1:]


def t_text_index(s):
    return s[:s.index('.')]


def t_typing(n):
    from typing import Dict, List, Optional, NamedTuple

    class P(NamedTuple):
        x: int
        y: Optional[int] = None

    def f(a: List[int], b: 'Dict[str, int]' = None) -> Optional[int]:
        r: int = a[0]
        return r
    return f([n]), P(n), P(n).y, P(1, 2)._replace(y=n)


def t_decorator(n):
    def check(lo, hi):
        def deco(f):
            @functools.wraps(f)
            def w(x):
                if not lo <= x <= hi:
                    raise ValueError(x)
                return f(x)
            return w
        return deco

    @check(0, 7)
    def f(x):
        return x + 1
    return f(n), f.__name__


def t_property_factory(n):
    def field(name):
        def get(self):
            return self._d[name]

        def put(self, v):
            self._d[name] = v
        return property(get, put, doc=name)

    class A:
        x = field('x')
        y = z = field('y')

        def __init__(self):
            self._d = {'x': 1, 'y': 2}
    a = A()
    a.x = n
    a.z = 7
    return a.x, a.y, a.z, a._d


def t_class_loop(n):
    class A:
        pass
    for k in ('p', 'q'):
        setattr(A, k, lambda self, k=k: (k, n))
    B = type('B', (A,), {'r': 5})
    return A().p(), A().q(), B().r, B().p(), B.__name__


def t_print(n, s):
    print(s, n, sep='|', end='!\n')
    print()
    print('a', 'b', n == 3, None, [n, s], (n,), {s: n})
    print('%s=%d' % (s, n), end='')
    print(*[1, 2], sep='')
    sys.stdout.write('x%s\n' % s)
    print('%-6s|%6s|%04o|%+d|%x' % (s[:3], s[:2], n & 7, n, n & 15))
    print(f'{n:>5}|{n:<5}|{n & 63:05o}|{s!r}|{s:>8}|{n:+}')
    print('to err', file=sys.stderr)


def t_print_loop(n):
    for i in range(n & 3):
        print(i, end=',' if i else '\n')
    else:
        print('done')
    return n


def t_kw_builtins(n, s):
    return (sorted([3, n, 1], reverse=True), sorted([s, 'b'], key=len),
            max([1, n], default=0), max([], default=n),
            min(['aa', 'b'], key=len), sum([1, n], 10),
            sum([[1], [n]], []), list(enumerate([s], start=4)),
            list(enumerate('ab', 1)), round(2.6), pow(2, 5, 7),
            divmod(n, 4), int('12', base=8), dict(a=n, b=s),
            dict([('x', n)], y=2), abs(n), any([n > 30, s == 'a']),
            all([n < 32, True]), list(reversed([1, n])), bool([]),
            list(map(lambda a, b: a + b, [1, 2], [n, 3])),
            list(filter(None, [0, n, 3])), isinstance(n, (str, int)),
            callable(len), str(n) + repr(s), hash(3) == 3)


def t_minmax(n, m):
    return (max(n, m), min(n, m), max(n, m, 3), max([n, m]), min(n, m, key=abs),
            sorted((n, m, 0)), max(n - m, m - n))


def t_kw_str(s):
    return (s.split(sep=','), s.split(',', maxsplit=1), s.split(maxsplit=1),
            s.rsplit(',', 1), s.splitlines(), s.splitlines(True),
            s.strip(' a'), s.lstrip('-'), s.rstrip('\n'), s.strip(None))


def t_str_misc(s):
    return (s.zfill(6), s.center(9, '*'), s.expandtabs(4), s.casefold(),
            s.title(), s.capitalize(), s.swapcase(), s.count('a'),
            s.endswith(('c', ' ')), s.startswith('a', 1),
            s.removeprefix('a'), s.removesuffix('c'), s * 2, s[::-1],
            s.encode() == b'', len(s), 'b' in s, s.find('b', 1))


def t_pct_more(n, s):
    return ('%(a)s-%(b)03d' % {'a': s, 'b': n}, '%-*s|' % (6, 'ab'),
            '%c%c' % ('a', 66), '%+d % d' % (n, n), '%#x %#o' % (12, 8),
            '%5.2f' % 1.5, '%%', '%r' % (s,), '%s' % ((1, 2),), '%i' % n,
            '%.2s' % s, '%5s|%-5s|' % (n, n), '%s %s' % (None, True))


def t_format_more(n, s):
    return ('{:>4}|{:<4}|{:^4}'.format(n, n, n), '{0}{1}{0}'.format(s, n),
            '{a:05d}'.format(a=n), '{:,}'.format(12345), '{:b}'.format(5),
            '{:x}{:X}{:o}'.format(255, 255, 8), '{!r}'.format(s),
            '{:{w}}|'.format('a', w=3), format(n & 7, '03b'),
            f'{n & 7:03b}{s:.1}{{}}', '{:*>5}'.format(n & 7),
            '{0[0]} {1.real}'.format([n], n), f'{n=}', f'{n:d}')


def t_list_more(n):
    a = [1, 2, 3, 4, 5]
    a[1:3] = [n]
    b = a[:]
    del b[0]
    b.insert(-1, 9)
    b.insert(0, n)
    c = [0] * 3
    c[-1] = n
    c += (7,)
    d = c
    d += [8]
    e = [[0] * 2 for _ in range(2)]
    e[0][1] = n
    return (a, b, c, c is d, e, a.index(n), a.count(n), b.pop(), b.pop(0), b,
            [1, 2] + [n], [1, 2] == [1, n], (1, 2) < (1, n), a[-2:], a[::2],
            [x for x in a if x != n], list(zip(a, b)), a * 0, 3 in a)


def t_slice_assign(n):
    a = list(range(6))
    a[::2] = [n, n, n]
    b = list(range(6))
    del b[1:3]
    c = list(range(6))
    c[2:2] = [n]
    d = list(range(4))
    d[:] = [n]
    return a, b, c, d


def t_list_ix(n):
    a = [10, 11, 12, 13]
    return a[n]


def t_list_set(n):
    a = [10, 11, 12, 13]
    a[n] = 5
    return a


def t_list_slice_n(n):
    a = [10, 11, 12, 13]
    return a[n:], a[:n], a[-2:n]


def t_str_slice_n(n):
    a = 'abcdef'
    return a[n:], a[:n], a[1:n]


def t_dict_more(n, s):
    d = {'a': 1, 'b': n}
    e = d | {'c': s}
    d.update(b=2, z=3)
    f = dict(zip('xy', [n, 2]))
    g = {v: k for k, v in f.items()}
    h = d.copy()
    h.setdefault('q', []).append(n)
    return (d, e, f, h, list(d), list(d.items()), d.pop('a'),
            d.pop('nope', n), d.get('zz', s), 'b' in d, d.keys() & {'b', 'k'},
            sorted(d), len(e), list(reversed(d)), d.popitem(),
            {**f, 'x': 0}, f == {'y': 2, 'x': n}, min(h, key=len))


def t_dict_get(n):
    return {1: 'a', 2: 'b', 3: 'c'}.get(n, 'other')


def t_dict_ix(n):
    return {1: 'a', 2: 'b', 3: 'c'}[n]


def t_dict_text(s):
    return {'a': 1, 'abc': 2, '': 3}[s]


def t_dict_try(s):
    d = {'a': 1, ',': 2}
    try:
        v = d[s]
    except KeyError as e:
        return 'none', e.args
    else:
        v += 1
    finally:
        d['a'] = 9
    return v, d['a']


def t_set_more(n):
    a = {1, 2, n}
    b = frozenset([2, 3])
    a.discard(55)
    a.add(2)
    return (a | b, a & b, a - b, a ^ b, a <= b, b >= {2}, b.isdisjoint({9}),
            len(b), 2 in a, sorted(a), a.union([7], [8]), {x for x in b},
            a.issubset({1, 2, n, 4}), set() == set('') , b == {3, 2})


def t_gen_more(n):
    def g(k):
        try:
            for i in range(k):
                if i == 2:
                    return 'end'
                yield i
        finally:
            log.append('fin')
        return 'full'

    def h(k):
        r = yield from g(k)
        yield r
    log = []
    return list(h(n & 3)), list(h(2)), sum(x for x in g(2)), \
        next(g(1)), next(iter([]), n), dict((x, n) for x in g(2))


def t_gen_state(n):
    def g():
        k = 0
        while True:
            yield k
            k += n & 3
    it = g()
    a = next(it)
    b = next(it)
    return a, b, [x for _, x in zip(range(2), it)]


def t_closure_more(n):
    fs = [lambda k=i: k + n for i in range(3)]
    gs = [lambda: i for i in range(3)]
    count = 0

    def bump(by=1):
        nonlocal count
        count += by
        return count
    bump()
    bump(by=n)
    return [f() for f in fs], [g() for g in gs], count, bump(1)


def t_default_mutable(n):
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return f(1), f(n), f(2, [])


def t_flow(n):
    out = []
    for i in range(5):
        try:
            if i == n:
                continue
            if i == 3:
                break
            out.append(i)
        finally:
            out.append('f')
    else:
        out.append('else')
    while n > 0:
        n -= 8
        if n == 4:
            break
    else:
        out.append('we')
    return out, n


def t_return_finally(n):
    def f():
        try:
            if n > 3:
                return 'try'
            raise KeyError('k')
        except KeyError:
            return 'exc'
        finally:
            log.append(n)

    def g():
        for i in range(3):
            try:
                return i
            finally:
                if i == 0 and n > 5:
                    continue
    log = []
    return f(), log, g()


def t_nested_exc(n):
    class A(Exception):
        pass

    class B(A, ValueError):
        def __str__(self):
            return 'B!'
    try:
        try:
            if n == 1:
                raise B(n)
            if n == 2:
                raise A
            if n == 3:
                raise ValueError('v', n)
        except ValueError as e:
            return str(e), type(e).__name__, isinstance(e, A)
    except A as e:
        return 'A', e.args, repr(e)
    return None


def t_reraise(n):
    try:
        [1, 2][n]
    except IndexError as e:
        if n > 4:
            raise ValueError('big') from e
        if n < -4:
            raise
        return 'small'
    return 'ok'


def t_assert(n):
    assert n < 16, 'too big'
    assert isinstance(n, int)
    return n


def t_chain_cmp(n, m):
    return (0 <= n < 8, n < m < 5, n == m == 3, 1 < n != m, not n < m,
            n if n > m else m, n and m, n or m, n and 'x' or 'y',
            (n > 3) + (m > 3), -n, ~n, +n, n ^ m, n & -n)


def t_class_dunder(n):
    class V:
        total = 0

        def __init__(self, v):
            self.v = v
            V.total += 1

        def __len__(self):
            return 3

        def __getitem__(self, i):
            if i >= 3:
                raise IndexError(i)
            return self.v + i

        def __setitem__(self, i, x):
            self.v = x * i

        def __contains__(self, x):
            return x == self.v

        def __call__(self, *a, **k):
            return len(a), sorted(k)

        def __bool__(self):
            return self.v > 3

        def __add__(self, o):
            return V(self.v + (o.v if isinstance(o, V) else o))
        __radd__ = __add__

        def __iadd__(self, o):
            self.v += o
            return self

        def __neg__(self):
            return -self.v

        def __int__(self):
            return self.v

        def __index__(self):
            return 2

        def __str__(self):
            return 'V%d' % self.v

        def __repr__(self):
            return 'V(%r)' % self.v

        def __format__(self, spec):
            return 'F' + spec

        def __lt__(self, o):
            return self.v < o.v

        def __enter__(self):
            return self.v

        def __exit__(self, *a):
            self.v = 0
            return a[0] is KeyError
    a = V(n)
    b = a
    b += 2
    with V(7) as w:
        pass
    with V(1) as z:
        raise KeyError
    a[2] = 5
    return (list(a), a[1], n in a, a(1, x=2), bool(a), (a + 1).v, (1 + a).v,
            -a, int(a), [10, 11, 12][a], str(a), repr(a), '%s %r' % (a, a),
            f'{a:zz}', V(1) < V(2), sorted([V(3), V(1)])[0].v, w, z,
            V.total, a.v, len(a), [str(x) for x in (a, 1)], a is b, max(V(1), V(9)).v)


def t_attrs(n):
    class A:
        __slots__ = ('x', 'y')

        def __init__(self):
            self.x = n

    class B:
        d = 1

        def __getattr__(self, k):
            if k.startswith('q'):
                return k * 2
            raise AttributeError(k)

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v + 1)
    a, b = A(), B()
    b.w = n
    r = [a.x, b.w, b.qq, getattr(b, 'nope', 'dflt'), hasattr(a, 'y'), b.d]
    try:
        a.z = 1
    except AttributeError:
        r.append('slots')
    setattr(a, 'y', 4)
    r.append(a.y)
    del a.y
    r.append(hasattr(a, 'y'))
    B.d = n
    r.append((b.d, vars(b), 'w' in b.__dict__, type(b).__name__))
    return r


def t_inherit(n):
    class A:
        k = 1

        def __init__(self, v):
            self.v = v
            self.setup()

        def setup(self):
            self.s = 'A'

        @classmethod
        def make(cls, v):
            return cls(v + cls.k)

        @staticmethod
        def st(v):
            return v * 2

        @property
        def p(self):
            return self.v

        @p.setter
        def p(self, v):
            if v > 8:
                raise ValueError(v)
            self.v = v

    class M:
        def setup(self):
            super().setup()
            self.m = 'M'

    class B(M, A):
        k = 5

        def __init__(self, v):
            super().__init__(v)
            self.w = v

        @property
        def p(self):
            return super().p + 1

        @p.setter
        def p(self, v):
            A.p.fset(self, v)
    b = B.make(n)
    a = A.make(n)
    b.p = 3
    try:
        a.p = n
        r = 'ok'
    except ValueError:
        r = 'no'
    return (b.v, b.w, b.s, b.m, b.p, a.p, a.st(4), B.st(n), r,
            isinstance(b, A), issubclass(B, M), [c.__name__ for c in B.__mro__],
            B.k, type(b) is B, type(a) == A)


def t_descriptor(n):
    class D:
        def __set_name__(self, owner, name):
            self.name = '_' + name

        def __get__(self, o, t=None):
            if o is None:
                return self
            return getattr(o, self.name, 0)

        def __set__(self, o, v):
            setattr(o, self.name, v & 7)

    class A:
        x = D()
        y = D()
    a = A()
    a.x = n
    a.y = a.x + 1
    return a.x, a.y, a._x, A().x


def t_eq_obj(n):
    class A:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            if not isinstance(o, A):
                return NotImplemented
            return self.v == o.v
    a, b = A(n), A(3)
    return a == b, a != b, a == 3, a in [b], [a] == [b], a is a, (a, 1) == (b, 1)


def t_iter_obj(n):
    class It:
        def __init__(self, k):
            self.k = k

        def __iter__(self):
            self.i = 0
            return self

        def __next__(self):
            if self.i >= self.k:
                raise StopIteration
            self.i += 1
            return self.i
    return (list(It(n & 3)), sum(It(4)), [x for x in It(2)], 2 in It(3),
            max(It(3)), dict.fromkeys(It(2), n), tuple(It(1)), [*It(2), n])


def t_unpack_more(n):
    a, (b, *c), d = 1, (2, 3, n), 4
    [x, y] = n, 5
    first, *rest = 'abc'
    i = j = n
    i += 1
    e = [0, 0]
    k, e[k] = 1, n
    for p, (q, r) in [(1, (2, n))]:
        pass
    return a, b, c, d, x, y, first, rest, i, j, e, k, p, q, r


def t_star_args(n):
    def f(a, b=2, *c, d, e=5, **g):
        return a, b, c, d, e, sorted(g.items())

    def h(a, /, b, *, c=1):
        return a + b + c
    args = [1, n]
    kw = {'d': 4, 'z': n}
    return f(*args, 7, **kw), f(1, d=n), h(1, b=2), h(n, 2, c=3), \
        (lambda *a: len(a))(*range(3)), f(*'ab', *[n], d=0)


def t_global_state(n):
    global STATE
    STATE = n
    STATE += 1
    bump_state()
    return STATE


STATE = 0


def bump_state():
    global STATE
    STATE *= 2


def t_comp_more(n):
    m = [[i * j for j in range(3)] for i in range(3) if i != n]
    return (m, [y for x in m for y in x if y], {i: [i] * 2 for i in range(2)},
            {i % 2 for i in range(4)}, [a or b for a, b in zip([0, n], 'xy')],
            sum(1 for x in m if x), [i for i in range(10) if i & n == 0],
            any(x > n for x in range(4)), all(x <= n for x in range(4)),
            next((x for x in range(9) if x > n), None),
            [(i, j) for i in range(2) for j in range(i, 2)])


def t_bits_more(n, m):
    w = 0
    for i in range(5):
        w |= (n >> i & 1) << (4 - i)
    mask = ~(7 << 2) & 63
    return (w, n & mask | (m & 7) << 2, n % 16, n // 4, n % -3, n // -3,
            (n & 63) >> 2, n << 3, -n >> 1, n ** 2, 2 ** (m & 3), n * m,
            n - m, (n & 15) * (m & 15), 1 << (m & 7), bool(n & 1 << 2),
            int.bit_length(n & 31), (n + m) & 31, n ^ (n >> 1))


def t_neg_shift(n):
    return 1 << n


def t_divzero(n):
    return 8 // n, 9 % n


def t_text_more(s):
    words = s.split()
    if not words:
        return None
    head, *tail = words
    return head, tail, ' '.join(words), len(words), words[-1], head[0]


def t_text_num(s):
    try:
        return int(s)
    except ValueError:
        return s.strip() or 'empty'


def t_text_oct(s):
    t = s.strip()
    if t and all(c in '01234567' for c in t):
        return int(t, 8)
    return None


def t_text_enum(s):
    return [i for i, c in enumerate(s) if c == ','], s.index('a') if 'a' in s \
        else -1


def t_text_cmp(s):
    return (s == s.upper(), s.isdigit(), s[:1] == '-', s.lower() == 'abc',
            s in ('a', 'abc'), s in 'xabcx', s.startswith(('a', '-')),
            not s.strip(), s > 'b', s[0:1].isalpha(), s.isspace())


def t_text_part(s):
    a, sep, b = s.partition(',')
    c, sep2, d = s.rpartition(',')
    return a.strip(), bool(sep), b, c, d, sep2 == ',', s.partition(' ')[2]


def t_text_const(n):
    t = 'AB,CD, EF'
    parts = [p.strip() for p in t.split(',')]
    return (parts, parts[n & 1], ','.join(parts).lower(), t.replace(',', '', 1),
            t.translate(str.maketrans('AB', 'xy')), t.find('CD'), len(t),
            t.index(','), t.rfind(','), [c for c in t if c.isalpha()][n & 3])


def t_object_graph(n):
    class Node:
        def __init__(self, v, kids=None):
            self.v = v
            self.kids = kids if kids is not None else []

        def walk(self):
            yield self.v
            for k in self.kids:
                yield from k.walk()
    t = Node(1, [Node(n), Node(3, [Node(4)])])
    t.kids.append(Node(5))
    return list(t.walk()), sum(t.walk()), len(Node(1).kids)


def t_dispatch(n):
    class Op:
        def op_0(self, x):
            return x

        def op_1(self, x):
            return x + 1

        def run(self, k, x):
            f = getattr(self, 'op_%d' % k, None)
            return f(x) if f is not None else 'none'
    o = Op()
    table = {0: o.op_0, 1: o.op_1, 2: lambda x: -x}
    return o.run(0, n), o.run(1, n), o.run(2, n), table[n & 1](5), \
        table.get(n, str)(n), (o.op_0 if n > 2 else o.op_1)(7)


def t_while_more(n):
    steps = []
    n &= 31
    while n:
        n, bit = divmod(n, 2)
        steps.append(bit)
    return steps


def t_alias(n):
    a = [1, 2]
    b = [a, a]
    b[0].append(n)
    c = copy.deepcopy(b)
    c[0].append(9)
    d = copy.copy(b)
    d.append(1)
    e = dict(k=a)
    f = e.copy()
    f['k'].append(0)
    t = (a, 1)
    return a, b, c, c[0] is c[1], d, e, f is e, t


def t_is(n):
    a = None if n > 3 else n
    return a is None, a is not None, a == None, [] is [], () == (), \
        n is n, True is not False, type(n) is int  # noqa


def t_bool_arith(n, b):
    return (b + 1, b & (n > 2), b | (n > 2), b ^ True, not b, int(b), str(b),
            b == 1, '%d' % b, [4, 5][b], -b, ~b, b and n, b or n, b < 2,
            isinstance(b, int), type(b) is bool, {True: 'y', False: 'n'}[b])


def t_with_more(n):
    @contextlib.contextmanager
    def cm(x):
        log.append('in')
        try:
            yield x + 1
        finally:
            log.append('out')
    log = []
    with cm(n) as a, cm(a) as b:
        log.append(b)
    try:
        with cm(0):
            raise ValueError
    except ValueError:
        log.append('caught')
    return log


def t_sort_more(n):
    a = [('b', 2), ('a', n), ('c', 1)]
    a.sort()
    b = sorted(a, key=lambda p: p[1] if n < 0 else -p[1])
    c = sorted(['B', 'a', 'C'], key=str.lower)
    d = sorted({'z': 1, 'y': n}.items(), key=operator.itemgetter(0))
    e = sorted([3, 1, 2], key=lambda v: (v % 2, v), reverse=True)
    return a, b, c, d, e, a[0] == min(a)


def t_numeric_text(n):
    return (str(n), repr(n), '%o' % (n & 63), oct(n & 63)[2:],
            format(n & 63, 'o').zfill(4), str(n).rjust(5, '0'), int(str(n)),
            int('%o' % (n & 63), 8), f'{n & 63:#o}', len(str(n & 63)),
            '-' in str(n), str(n)[0], '%03d' % n, '{:+d}'.format(n))


def t_reduce(n):
    return (functools.reduce(operator.or_, [1, n & 7, 8], 0),
            functools.reduce(lambda a, b: a * 8 + b, [1, n & 7, 3]),
            functools.partial(pow, 2)(n & 3),
            sum(map(operator.mul, [1, 2], [n, 4])),
            list(itertools.accumulate([1, n, 3])),
            list(itertools.chain([1], (n,))), list(itertools.islice([1, n, 3], 2)),
            list(itertools.repeat(n, 2)), list(zip(itertools.count(n), 'ab')))


def t_namedtuple_more(n):
    P = namedtuple('P', 'x y')
    p = P(n, y=2)
    q = p._replace(x=5)
    x, y = p
    return (x, y, p.x, p[1], q.x, tuple(q), p == (n, 2), p._asdict(), len(p),
            P._fields, str(P(1, 2)), list(p), p < q, P._make([1, n]).y,
            isinstance(p, tuple), p + (3,))


def t_del_more(n):
    d = {'a': 1, 'b': 2}
    del d['a']
    x = n
    del x
    class A:
        pass
    a = A()
    a.q = n
    del a.q
    l = [1, n, 3]
    del l[1], l[-1]
    try:
        x
    except UnboundLocalError:
        e = 'u'
    return d, hasattr(a, 'q'), l, e


def t_match_more(n):
    match n:
        case 0 | 1:
            return 'low'
        case int() if n > 20:
            return 'high'
        case -1:
            return 'neg'
        case _:
            return 'mid'


def t_ternary_objs(n):
    class A:
        def __init__(self, k):
            self.k = k
    a, b = A(1), A(2)
    c = a if n > 3 else b
    c.k += 10
    d = [a, b][n & 1]
    d.k *= 2
    return a.k, b.k, c.k, c is a, d is c


def t_cond_list(n, b):
    a = []
    if b:
        a.append(n)
    if n > 3:
        a.append(3)
    a.extend([1, 2] if b else [9])
    return a, len(a), a[0], a[-1], sorted(a), a.index(a[-1]), a[1:], \
        sum(a), n in a, a + [5], a == [n, 3, 1, 2]


def t_cond_dict(n, b):
    d = {}
    if b:
        d['x'] = n
    if n > 3:
        d['y'] = 1
    d['z'] = 2
    return d, len(d), list(d), 'x' in d, d.get('y', 0), sorted(d.values()), \
        [k + str(v) for k, v in d.items()], dict(d, x=7)


def t_cond_pop(n, b):
    a = [1, 2, 3]
    if b:
        a.pop(0)
    if n > 3:
        a.remove(3)
    x = a.pop()
    a.insert(0, n)
    return a, x


def t_cond_exc(n, b):
    try:
        if b:
            raise ValueError(n)
        r = 10 // n
    except ZeroDivisionError:
        r = 'zero'
    except ValueError as e:
        r = e.args[0]
    return r


def t_cond_obj(n, b):
    x = None
    if b:
        x = [n]
    if x is None:
        x = []
    x.append(1)
    return x, x or 'none', len(x)


class DictGroup:
    def __init__(self, k):
        self.k = k

    def __set_name__(self, owner, name):
        self.shadow = '_' + name

    def __get__(self, o, owner=None):
        if o is None:
            return self
        return o.data[self.k]

    def __set__(self, o, v):
        o.data[self.k] = v
        o.__dict__[self.shadow] = v


class WithDictGroup:
    a = DictGroup(0)
    b = DictGroup(1)

    def __init__(self, a, b):
        self.data = [0, 0]
        self.a = a
        self.b = b


def t_desc_dict(n, m, b):
    w = WithDictGroup(n, m)
    d = w.__dict__
    if b:
        w.a = 7
    return w.a, w.b, w._a, w._b, d['_a'], sorted(d), sorted(w.__dict__)


def t_dict_update(n, b):
    w = WithDictGroup(n, 2)
    if b:
        w.__dict__.update(x=1, _a=9)
    return w._a, getattr(w, 'x', None), w.a, len(w.__dict__)


def t_range_item(n, m, k):
    r = range(n, m)
    if r:
        return r[0], r[-1], r[k]
    return r[k] if k else None
