"""C01-C04: bit-fields."""
import operator

from verif import *
from harness_common import *
from h800.bitfield import BitField

NUMBERINGS = (BitField.BIT_SCHEME_LSB_0, BitField.BIT_SCHEME_LSB_1,
              BitField.BIT_SCHEME_MSB_0, BitField.BIT_SCHEME_MSB_1)
MSB_LEFT, LSB_LEFT = BitField.BIT_ORDER_MSB_LEFT, BitField.BIT_ORDER_LSB_LEFT
ORDERS = (MSB_LEFT, LSB_LEFT)


def bit_of(num, w, i):
    """Significance of position i, as the manual numbers bits."""
    if num == 0:
        return i
    if num == 1:
        return i - 1
    if num == 2:
        return w - 1 - i
    return w - i


def position(num, w, s):
    """Position number of the bit of significance s."""
    if num == 0:
        return s
    if num == 1:
        return s + 1
    if num == 2:
        return w - 1 - s
    return w - s


def legal(num, w, i):
    b = bit_of(num, w, i)
    return 0 <= b and b < w


def legal_range(num, order, w, s, e):
    if not legal(num, w, s) or not legal(num, w, e):
        return False
    if order == 0:
        return bit_of(num, w, s) >= bit_of(num, w, e)
    return bit_of(num, w, s) <= bit_of(num, w, e)


def low(num, w, s, e):
    return min(bit_of(num, w, s), bit_of(num, w, e))


def size(num, w, s, e):
    return max(bit_of(num, w, s), bit_of(num, w, e)) - low(num, w, s, e) + 1


def field(v, w, num, order):
    return BitField(v, w, NUMBERINGS[num], ORDERS[order])


def isbits(w, *what):
    return tuple([(n, k, True) for n, k in what])


# ---------------------------------------------------------------- reads

def read_bit(w, num, order):
    i, = integers(('i', 9, True))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    assume(legal(num, w, i))
    r = f[i]
    equal(r, (v >> bit_of(num, w, i)) & 1, 'a read position is its bit')
    equal(f.value, v, 'reading a position changes nothing')
    equal(f[i], r, 'reading twice gives the same')


def read_range(w, num, order):
    s, e = integers(('s', 9, True), ('e', 9, True))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    assume(legal_range(num, order, w, s, e))
    r = f[s:e]
    want = (v >> low(num, w, s, e)) & ((1 << size(num, w, s, e)) - 1)
    equal(r, want, 'a read range is its bits')
    equal(f.value, v, 'reading a range changes nothing')


def read_all(w, num, order):
    v, = integers(('v', w))
    f = field(v, w, num, order)
    equal(f.value, v, 'value is the contents')
    equal(int(f), v, 'int() is the contents')
    equal(operator.index(f), v, 'index is the contents')
    equal(f.value, v, 'reading the contents changes nothing')


def read_again(w, num, order, op):
    """Reads before and after an operation."""
    s, e, i = integers(('s', 5, True), ('e', 5, True), ('i', 5, True))
    v, x = integers(('v', w), ('x', w))
    f = field(v, w, num, order)
    assume(legal_range(num, order, w, s, e))
    assume(legal(num, w, i))
    lo, m = low(num, w, s, e), (1 << size(num, w, s, e)) - 1
    equal(f[s:e], (v >> lo) & m, 'a read range is its bits')
    equal(f[i], (v >> bit_of(num, w, i)) & 1, 'a read position is its bit')
    equal(int(f), v, 'int() is the contents')
    f.isRangeSet(s, e)
    f.isRangeClr(s, e)
    repr(f)
    apply(f, op, i, e, x, num, w)
    v = model(v, op, i, e, x, num, order, w)
    equal(f[s:e], (v >> lo) & m, 'a range read again is its present bits')
    equal(f[i], (v >> bit_of(num, w, i)) & 1,
          'a position read again is its present bit')
    equal(int(f), v, 'int() again is the present contents')
    equal(operator.index(f), v, 'index again is the present contents')
    equal(f.isRangeSet(s, e), (v >> lo) & m == m, 'isRangeSet again')
    equal(f.isRangeClr(s, e), (v >> lo) & m == 0, 'isRangeClr again')
    equal(f.isBitSet(i), (v >> bit_of(num, w, i)) & 1 == 1,
          'isBitSet again')
    equal(f.value, v, 'value again is the present contents')


# ---------------------------------------------------------------- writes

def write_bit(w, num, order):
    i, x = integers(('i', 9, True), ('x', 1))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    other = field(v, w, num, order)
    assume(legal(num, w, i))
    f[i] = x
    m = 1 << bit_of(num, w, i)
    want = (v & ~m) | (x << bit_of(num, w, i))
    equal(f.value, want, 'writing a position changes exactly its bit')
    equal(f[i], x, 'a written position reads back')
    equal(other.value, v, 'another field is not affected')


def write_range(w, num, order):
    s, e = integers(('s', 9, True), ('e', 9, True))
    v, x = integers(('v', w), ('x', w))
    f = field(v, w, num, order)
    other = field(v, w, num, order)
    assume(legal_range(num, order, w, s, e))
    lo, n = low(num, w, s, e), size(num, w, s, e)
    assume(x >> n == 0)
    f[s:e] = x
    m = ((1 << n) - 1) << lo
    want = (v & ~m) | (x << lo)
    equal(f.value, want, 'writing a range changes exactly its bits')
    equal(other.value, v, 'another field is not affected')


def write_all(w, num, order):
    i, = integers(('i', 9, True))
    v, x = integers(('v', w), ('x', w))
    f = field(v, w, num, order)
    f.value = x
    equal(f.value, x, 'assigning the value stores it')
    f.set()
    equal(f.value, (1 << w) - 1, 'set() sets every bit')
    f.value = x
    f.clear()
    equal(f.value, 0, 'clear() clears every bit')
    assume(legal(num, w, i))
    m = 1 << bit_of(num, w, i)
    f.value = v
    f.set(i)
    equal(f.value, v | m, 'set(i) sets exactly bit i')
    f.value = v
    f.clear(i)
    equal(f.value, v & ~m, 'clear(i) clears exactly bit i')


OPS = ('bit', 'range', 'value', 'set', 'clear', 'setall', 'clearall')


def apply(f, op, s, e, x, num, w):
    """Do op on the field; return nothing (rejections are ignored)."""
    try:
        if op == 'bit':
            f[s] = x & 1
        elif op == 'range':
            f[s:e] = x
        elif op == 'value':
            f.value = x
        elif op == 'set':
            f.set(s)
        elif op == 'clear':
            f.clear(s)
        elif op == 'setall':
            f.set()
        else:
            f.clear()
    except ValueError:
        pass


def model(v, op, s, e, x, num, order, w):
    """The contents after op."""
    if op == 'value':
        return x if x >> w == 0 else v
    if op == 'setall':
        return (1 << w) - 1
    if op == 'clearall':
        return 0
    if op == 'range':
        if not legal_range(num, order, w, s, e):
            return v
        lo, n = low(num, w, s, e), size(num, w, s, e)
        if x >> n != 0:
            return v
        return (v & ~(((1 << n) - 1) << lo)) | (x << lo)
    if not legal(num, w, s):
        return v
    m = 1 << bit_of(num, w, s)
    one = op == 'set' or (op == 'bit' and (x & 1) == 1)
    return v | m if one else v & ~m


def sequence(w, num, order, op1, op2, op3):
    """Three operations in a row on one field, with another one watched."""
    s1, e1, s2, e2 = integers(('s1', 5, True), ('e1', 5, True),
                              ('s2', 5, True), ('e2', 5, True))
    v, x1, x2 = integers(('v', w), ('x1', w + 1), ('x2', w + 1))
    f = field(v, w, num, order)
    g = field(v, w, num, order)
    apply(f, op1, s1, e1, x1, num, w)
    v1 = model(v, op1, s1, e1, x1, num, order, w)
    equal(f.value, v1, 'contents after one operation')
    apply(f, op2, s2, e2, x2, num, w)
    v2 = model(v1, op2, s2, e2, x2, num, order, w)
    equal(f.value, v2, 'contents after two operations')
    apply(f, op3, s1, e1, x2, num, w)
    v3 = model(v2, op3, s1, e1, x2, num, order, w)
    equal(f.value, v3, 'contents after three operations')
    require(f.isRangeSet(position(num, w, w - 1 if order == 0 else 0),
                         position(num, w, 0 if order == 0 else w - 1)) ==
            (v3 == (1 << w) - 1), 'predicates see the current contents')
    equal(f[position(num, w, 0)], v3 & 1, 'reads see the current contents')
    equal(g.value, v, 'another field is not affected')


# ---------------------------------------------------------------- two fields

def use(f, s, e, i, x):
    """Everything with these positions, legal for the field or not."""
    for op in (getitem, f.isBitSet, f.isBitClr):
        if op is getitem:
            raises(getitem, f, i)
            raises(getslice, f, s, e)
        else:
            raises(op, i)
    raises(f.isRangeSet, s, e)
    raises(f.isRangeClr, s, e)
    raises(setitem, f, i, 1)
    raises(setslice, f, s, e, x)
    raises(f.set, i)
    raises(f.clear, i)
    f.indices
    repr(f)
    int(f)


def beside(w1, num1, order1, w, num, order, what):
    """A field is what it is whatever was done with one of another kind."""
    s, e, i = integers(('s', 4, True), ('e', 4, True), ('i', 4, True))
    v, x = integers(('v', w), ('x', w))
    g = field(0, w1, num1, order1)
    use(g, s, e, i, 1)
    f = field(v, w, num, order)
    ok = legal_range(num, order, w, s, e)
    lo, n = low(num, w, s, e), size(num, w, s, e)
    if what == 'read':
        if ok:
            equal(f[s:e], (v >> lo) & ((1 << n) - 1),
                  'a range of a field beside another')
        if legal(num, w, i):
            equal(f[i], (v >> bit_of(num, w, i)) & 1,
                  'a position of a field beside another')
        equal(int(f), v, 'a field beside another')
        use(g, s, e, i, 1)
        equal(f.value, v, 'a field beside another keeps its contents')
    elif what == 'write':
        k = raises(setslice, f, s, e, x)
        want = v
        if ok and x >> n == 0:
            want = (v & ~(((1 << n) - 1) << lo)) | (x << lo)
        equal(f.value, want, 'a range written in a field beside another')
        use(g, s, e, i, 1)
        equal(f.value, want, 'a field beside another keeps its contents')
        if legal(num, w, i):
            f.clear(i)
            equal(f.value, want & ~(1 << bit_of(num, w, i)),
                  'a position cleared in a field beside another')
    elif what == 'reject':
        want = 'ok' if ok else 'ValueError'
        equal(raises(getslice, f, s, e), want, 'reading a range')
        equal(raises(f.isRangeSet, s, e), want, 'isRangeSet')
        fits = 'ok' if ok and x >> n == 0 else 'ValueError'
        equal(raises(setslice, f, s, e, x), fits, 'writing a range')
        want = 'ok' if legal(num, w, i) else 'ValueError'
        equal(raises(getitem, f, i), want, 'reading a position')
        equal(raises(f.set, i), want, 'setting a position')
    else:
        if ok:
            m = (1 << n) - 1
            require(f.isRangeClr(s, e) == ((v >> lo) & m == 0), 'isRangeClr')
            require(f.isRangeSet(s, e) == ((v >> lo) & m == m), 'isRangeSet')
        if legal(num, w, i):
            require(f.isBitSet(i) == ((v >> bit_of(num, w, i)) & 1 == 1),
                    'isBitSet')
        use(g, s, e, i, 1)
        describe(w, num, order)
        equal(f.width, w, 'width of a field beside another')
        equal(f.numbering, NUMBERINGS[num], 'numbering')
        equal(f.order, ORDERS[order], 'order')
        equal(f.maxval, 2 ** w - 1, 'maxval')


# ---------------------------------------------------------------- rejection

def reject_construct(w, num, order):
    v, = integers(('v', w + 2, True))
    r = raises(BitField, v, w, NUMBERINGS[num], ORDERS[order])
    if 0 <= v and v <= (1 << w) - 1:
        equal(r, 'ok', 'a fitting value is accepted')
    else:
        equal(r, 'ValueError', 'a value that does not fit is rejected')


def reject_construct_any(w):
    v = number('v')
    if v < 0 or v >= 2 ** w:
        equal(raises(BitField, v, w), 'ValueError',
              'a value that does not fit is rejected')


def reject_width():
    w = number('w')
    if w > 64:
        equal(raises(BitField, 0, w), 'ValueError',
              'more than 64 bits are rejected')
    n = integer('n', 4, True)
    known = n == NUMBERINGS[0] or n == NUMBERINGS[1] or \
        n == NUMBERINGS[2] or n == NUMBERINGS[3]
    equal(raises(BitField, 0, 8, n), 'ok' if known else 'ValueError',
          'exactly the four numberings are accepted')
    known = n == MSB_LEFT or n == LSB_LEFT
    equal(raises(BitField, 0, 8, NUMBERINGS[0], n),
          'ok' if known else 'ValueError',
          'exactly the two orders are accepted')
    for w in range(1, 65):
        equal(raises(BitField, 0, w), 'ok', 'widths up to 64 are accepted')


def far(name):
    """Any integer not representable in nine signed bits."""
    k = number(name)
    assume(k < -200 or k > 200)
    return k


def reject_position(w, num, order, wide):
    if wide:
        i = far('i')
        ok = False
    else:
        i = integer('i', 9, True)
        ok = legal(num, w, i)
    v, = integers(('v', w))
    want = 'ok' if ok else 'ValueError'
    f = field(v, w, num, order)
    equal(raises(getitem, f, i), want, 'reading a position')
    equal(raises(f.isBitSet, i), want, 'isBitSet')
    equal(raises(f.isBitClr, i), want, 'isBitClr')
    equal(raises(f.isBit, i, 1), want, 'isBit')
    equal(f.value, v, 'contents unchanged by reads')
    for x in (0, 1):
        f = field(v, w, num, order)
        equal(raises(setitem, f, i, x), want, 'writing a position')
        if not ok:
            equal(f.value, v, 'contents unchanged by a rejected write')
    f = field(v, w, num, order)
    equal(raises(f.set, i), want, 'set(i)')
    if not ok:
        equal(f.value, v, 'contents unchanged by a rejected set')
    f = field(v, w, num, order)
    equal(raises(f.clear, i), want, 'clear(i)')
    if not ok:
        equal(f.value, v, 'contents unchanged by a rejected clear')


def reject_range(w, num, order, wide):
    if wide == 1:
        s = far('s')
        e = integer('e', 9, True)
        ok = False
    elif wide == 2:
        e = far('e')
        s = integer('s', 9, True)
        ok = False
    else:
        s, e = integers(('s', 9, True), ('e', 9, True))
        ok = legal_range(num, order, w, s, e)
    v, = integers(('v', w))
    want = 'ok' if ok else 'ValueError'
    f = field(v, w, num, order)
    equal(raises(getslice, f, s, e), want, 'reading a range')
    equal(raises(f.isRangeSet, s, e), want, 'isRangeSet')
    equal(raises(f.isRangeClr, s, e), want, 'isRangeClr')
    equal(raises(f.isRange, s, e, 0), want, 'isRange')
    equal(f.value, v, 'contents unchanged by reads')
    f = field(v, w, num, order)
    equal(raises(setslice, f, s, e, 0), want, 'writing a range')
    if not ok:
        equal(f.value, v, 'contents unchanged by a rejected range write')


def reject_value(w, num, order):
    s, e = integers(('s', 9, True), ('e', 9, True))
    v, x = integers(('v', w), ('x', w + 2, True))
    f = field(v, w, num, order)
    fits = 0 <= x and x <= (1 << w) - 1
    equal(raises(setvalue, f, x), 'ok' if fits else 'ValueError',
          'assigning the value accepts exactly what fits')
    if not fits:
        equal(f.value, v, 'contents unchanged by a rejected value')
    if legal(num, w, s):
        f = field(v, w, num, order)
        fits = x == 0 or x == 1
        equal(raises(setitem, f, s, x), 'ok' if fits else 'ValueError',
              'a position accepts exactly 0 and 1')
        if not fits:
            equal(f.value, v, 'contents unchanged by a rejected bit value')
    if legal_range(num, order, w, s, e):
        f = field(v, w, num, order)
        n = size(num, w, s, e)
        fits = 0 <= x and x >> n == 0
        equal(raises(setslice, f, s, e, x), 'ok' if fits else 'ValueError',
              'a range accepts exactly what fits')
        if not fits:
            equal(f.value, v, 'contents unchanged by a rejected range value')


def reject_value_any(w, num, order):
    x = number('x')
    for k in range(w + 1) if w <= 16 else (w,):
        assume(x < 0 or x >= 2 ** k)
        assume(not (x < 0 and x >= 2 ** k))
    s, e = integers(('s', 9, True), ('e', 9, True))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    equal(raises(setvalue, f, x), 'ValueError', 'a value too large')
    if legal(num, w, s) and w > 1:
        equal(raises(setitem, f, s, x), 'ValueError',
              'a bit value too large')
    if legal_range(num, order, w, s, e):
        equal(raises(setslice, f, s, e, x), 'ValueError',
              'a range value too large')
    equal(f.value, v, 'contents unchanged by rejected values')


# ---------------------------------------------------------------- predicates

def predicates_bit(w, num, order):
    i, x = integers(('i', 9, True), ('x', 1))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    assume(legal(num, w, i))
    bit = (v >> bit_of(num, w, i)) & 1
    require(f.isBit(i, x) == (bit == x), 'isBit tells the truth')
    require(f.isBitSet(i) == (bit == 1), 'isBitSet tells the truth')
    require(f.isBitClr(i) == (bit == 0), 'isBitClr tells the truth')
    equal(f.value, v, 'predicates change nothing')


def predicates_range(w, num, order):
    s, e = integers(('s', 9, True), ('e', 9, True))
    v, = integers(('v', w))
    f = field(v, w, num, order)
    assume(legal_range(num, order, w, s, e))
    m = (1 << size(num, w, s, e)) - 1
    part = (v >> low(num, w, s, e)) & m
    require(f.isRange(s, e, 0) == (part == 0), 'isRange(s,e,0)')
    require(f.isRange(s, e, 1) == (part == m), 'isRange(s,e,1)')
    require(f.isRangeClr(s, e) == (part == 0), 'isRangeClr')
    require(f.isRangeSet(s, e) == (part == m), 'isRangeSet')
    equal(f.value, v, 'predicates change nothing')


def predicates_value():
    x = integer('x', 6, True)
    f = field(5, 8, 0, 0)
    want = 'ok' if x == 0 or x == 1 else 'ValueError'
    equal(raises(f.isRange, 7, 0, x), want, 'isRange takes 0 and 1 only')


def describe(w, num, order):
    v, = integers(('v', w))
    f = field(v, w, num, order)
    equal(len(f), w, 'len is the width')
    equal(f.width, w, 'width')
    equal(f.maxval, 2 ** w - 1, 'maxval')
    equal(f.numbering, NUMBERINGS[num], 'numbering')
    equal(f.order, ORDERS[order], 'order')
    want = []
    for k in range(w):
        sig = w - 1 - k if order == 0 else k
        want.append(position(num, w, sig))
    equal(list(f.indices), want, 'indices run from left to right')
    equal(f.lsb, position(num, w, 0), 'lsb')
    equal(f.msb, position(num, w, w - 1), 'msb')
    text = ''
    for k in range(w):
        text = text + str((v >> (w - 1 - k)) & 1)
    equal(repr(f), text, 'repr shows all bits')
    equal(f.value, v, 'self-description changes nothing')
    equal(list(f.indices), want, 'indices are the same again')


def defaults():
    f = BitField()
    equal(f.width, 8, 'default width')
    equal(f.value, 0, 'default value')
    equal(f.numbering, BitField.BIT_SCHEME_LSB_0, 'default numbering')
    equal(f.order, LSB_LEFT, 'default order')
    equal(BitField.BIT_ORDER_MSB_RIGHT, LSB_LEFT, 'MSB right is LSB left')
    equal(BitField.BIT_ORDER_LSB_RIGHT, MSB_LEFT, 'LSB right is MSB left')
    require(MSB_LEFT != LSB_LEFT, 'the orders differ')
    for i in range(4):
        for j in range(4):
            require((NUMBERINGS[i] == NUMBERINGS[j]) == (i == j),
                    'the numberings differ')


# ------------------------------------------------- histories of wide fields

def wide_again(w, num, order, hi, lo):
    """Reads of a wide field, before and after each kind of write; the
    positions are fixed, the contents are not."""
    v, x = integers(('v', w), ('x', w))
    n = hi - lo + 1
    p, q = position(num, w, hi), position(num, w, lo)
    s, e = (p, q) if order == 0 else (q, p)
    m = (1 << n) - 1
    f = field(v, w, num, order)
    other = field(x, w, num, order)
    now = v
    for step in range(5):
        equal(f[s:e], (now >> lo) & m, 'a range is its present bits')
        equal(f[p], (now >> hi) & 1, 'a position is its present bit')
        equal(f[q], (now >> lo) & 1, 'a position is its present bit')
        equal(int(f), now, 'the contents are the present ones')
        equal(f.isRangeClr(s, e), (now >> lo) & m == 0, 'isRangeClr')
        equal(f.isRangeSet(s, e), (now >> lo) & m == m, 'isRangeSet')
        if step == 0:
            f[s:e] = (x >> lo) & m
            now = (now & ~(m << lo)) | (x & (m << lo))
        elif step == 1:
            f[p] = 1 - ((now >> hi) & 1)
            now = now ^ (1 << hi)
        elif step == 2:
            f.value = x
            now = x
        elif step == 3:
            f[q] = 1 - ((now >> lo) & 1)
            now = now ^ (1 << lo)
    equal(other.value, x, 'another field is not affected')
