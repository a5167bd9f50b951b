"""C08-C10: registers, their names, groups and sets."""
from verif import *
from harness_common import *
from h800 import registers as R
from h800.registers import (Register, RegisterGroup, Registers, registerName,
                            registerAlias, registerNumber)

# Honeywell 800 Programmers' Reference Manual: the special registers of a
# group in the order of their numbers, and the programmer's aliases.
NAMES = ('AU1', 'AU2', 'SC', 'CSC', 'SH', 'CSH', 'UTR', 'MXR',
         'X0', 'X1', 'X2', 'X3', 'X4', 'X5', 'X6', 'X7',
         'R0', 'R1', 'R2', 'R3', 'R4', 'R5', 'R6', 'R7',
         'S0', 'S1', 'S2', 'S3', 'S4', 'S5', 'S6', 'S7')
ALIAS = {'RAC': 28, 'DRAC': 29, 'WAC': 30, 'DWAC': 31}


# ---------------------------------------------------------------- C08

def construct(width):
    v, = integers(('v', width + 2, True))
    k, r = outcome(Register, v, None, width)
    fits = 0 <= v and v < 2 ** width
    equal(k, 'ok' if fits else 'ValueError', 'exactly fitting values')
    if fits:
        equal(r.value, v, 'the initial value is kept')
        equal(len(r), width, 'len is the width')
        equal(r.width, width, 'width')
        equal(repr(r), '0o%06o' % v, 'repr shows the value in octal')


def construct_any(width):
    v = number('v')
    assume(v < 0 or v >= 2 ** width)
    equal(raises(Register, v, None, width), 'ValueError', 'a value too large')
    r = Register(0, 'R3', width)
    r.value = 77
    equal(raises(setvalue, r, v), 'ValueError', 'a value too large')
    equal(r.value, 77, 'a rejected value changes nothing')


def construct_width():
    w = integer('w', 7)
    equal(raises(Register, 0, None, w),
          'ok' if w == 16 or w == 24 else 'ValueError',
          'exactly the widths 16 and 24')
    equal(len(Register()), 16, 'the default width is 16')
    equal(Register().value, 0, 'the default value is 0')
    equal(len(Register(5)), 16, 'the default width is 16')


def construct_name():
    n = text('n')
    assume(n != '')
    ok = n in NAMES or n in ALIAS
    k, r = outcome(Register, 3, n)
    equal(k, 'ok' if ok else 'ValueError', 'exactly the register names')
    if ok:
        equal(r.name, n, 'a register carries its name')
        equal(r.value, 3, 'and its value')
    for m in NAMES:
        equal(Register(name=m).name, m, 'every name is accepted')
    for m in ALIAS:
        equal(Register(name=m).name, m, 'every alias is accepted')


def store(width):
    v, = integers(('v', width))
    x, y = integers(('x', width + 2, True), ('y', width + 1))
    r, o = Register(v, None, width), Register(v, None, width)
    want = v
    for z in (x, y):
        k = raises(setvalue, r, z)
        if 0 <= z and z < 2 ** width:
            equal(k, 'ok', 'a fitting value is accepted')
            want = z
        else:
            equal(k, 'ValueError', 'a value that does not fit is rejected')
        equal(r.value, want, 'the value is what was last stored')
        equal(repr(r), '0o%06o' % want, 'repr shows the current value')
    r.clear()
    equal(r.value, 0, 'clear() makes it zero')
    equal(len(r), width, 'the width does not change')
    equal(o.value, v, 'another register is not affected')
    r.value = v
    equal(r.value, v, 'a cleared register can be used again')


def bits(width):
    i, b = integers(('i', 8, True), ('b', 3, True))
    v, = integers(('v', width))
    r = Register(v, None, width)
    ok = 1 <= i and i <= width
    equal(raises(getitem, r, i), 'ok' if ok else 'ValueError',
          'bits 1 to width exist')
    k = raises(setitem, r, i, b)
    if ok and 0 <= b and b <= 1:
        equal(k, 'ok', 'a bit is written')
        equal(r[i], b, 'and read back')
        m = 1 << (width - i)
        equal(r.value, (v & ~m) | (b << (width - i)),
              'exactly one bit changes')
    else:
        equal(k, 'ValueError', 'an illegal bit write is rejected')
        equal(r.value, v, 'and changes nothing')
    if ok:
        r = Register(v, None, width)
        equal(r[i], (v >> (width - i)) & 1, 'bit 1 is the most significant')


def ranges(width):
    s, e = integers(('s', 7, True), ('e', 7, True))
    v, x = integers(('v', width), ('x', width + 2, True))
    ok = 1 <= s and s <= e and e <= width
    r = Register(v, None, width)
    k, g = outcome(getslice, r, s, e)
    equal(k, 'ok' if ok else 'ValueError', 'legal ranges can be read')
    if ok:
        n = e - s + 1
        sh = width - e
        equal(g, (v >> sh) & ((1 << n) - 1), 'a range is exactly its bits')
        k = raises(setslice, r, s, e, x)
        if 0 <= x and x >> n == 0:
            equal(k, 'ok', 'a fitting range is written')
            equal(r.value, (v & ~(((1 << n) - 1) << sh)) | (x << sh),
                  'exactly the bits of the range change')
        else:
            equal(k, 'ValueError', 'a range that does not fit is rejected')
            equal(r.value, v, 'and changes nothing')
    else:
        equal(raises(setslice, r, s, e, 0), 'ValueError',
              'illegal ranges are rejected')
        equal(r.value, v, 'and change nothing')


def beside(width):
    """A register is what it is whatever was done with one of the other
    width."""
    s, e, i = integers(('s', 6), ('e', 6), ('i', 6, True))
    v, x = integers(('v', width), ('x', 16))
    other = 40 - width
    o = Register(3, 'R1', other)
    r = Register(v, 'R1', width)
    for k in range(2):
        raises(getitem, o, i)
        raises(getslice, o, s, e)
        raises(setitem, o, i, 1)
        raises(setslice, o, s, e, 1)
        raises(setvalue, o, x)
        repr(o)
        equal(r.value, v, 'another register is not affected')
        ok = 1 <= i and i <= width
        g, b = outcome(getitem, r, i)
        equal(g, 'ok' if ok else 'ValueError', 'bits 1 to width exist')
        if ok:
            equal(b, (v >> (width - i)) & 1, 'a bit beside another register')
        ok = 1 <= s and s <= e and e <= width
        g, b = outcome(getslice, r, s, e)
        equal(g, 'ok' if ok else 'ValueError', 'ranges inside exist')
        if ok:
            equal(b, (v >> (width - e)) & ((1 << (e - s + 1)) - 1),
                  'a range beside another register')
            r[s:e] = 1
            m = ((1 << (e - s + 1)) - 1) << (width - e)
            v = (v & ~m) | (1 << (width - e))
        equal(r.value, v, 'exactly the bits of the range change')
        equal(len(r), width, 'len is the width')
        equal(repr(r), '0o%06o' % v, 'repr shows the current value')
        x = 0
    o.clear()
    equal(r.value, v, 'another register is not affected')


def named(width, name):
    """A register of any name stores, ranges and clears the same way."""
    i, b = integers(('i', 5), ('b', 1))
    v, x, y = integers(('v', width), ('x', width), ('y', width))
    k, r = outcome(Register, v, name, width)
    equal(k, 'ok', 'every name is accepted')
    equal(r.value, v, 'the initial value is kept')
    equal(r.name, name, 'a register carries its name')
    r.value = x
    equal(r.value, x, 'the value is what was last stored')
    equal(repr(r), '0o%06o' % x, 'repr shows the current value')
    if 1 <= i and i <= width:
        equal(r[i], (x >> (width - i)) & 1, 'bit 1 is the most significant')
        r[i] = b
        x = (x & ~(1 << (width - i))) | (b << (width - i))
        equal(r.value, x, 'exactly one bit changes')
    r[3:width - 2] = (y >> 2) & ((1 << (width - 4)) - 1)
    m = ((1 << (width - 4)) - 1) << 2
    x = (x & ~m) | (y & m)
    equal(r[1:width], x, 'exactly the bits of a range change')
    equal(r[5:12], (x >> (width - 12)) & 0xff, 'a range is exactly its bits')
    equal(raises(setvalue, r, 2 ** width), 'ValueError', 'too large')
    equal(raises(setvalue, r, -1), 'ValueError', 'negative')
    equal(r.value, x, 'rejected values change nothing')
    r.clear()
    equal(r.value, 0, 'clear() makes it zero')
    equal(len(r), width, 'the width does not change')
    equal(r.name, name, 'nor does the name')


# ---------------------------------------------------------------- C09

def names():
    n = integer('n', 8, True)
    k, r = outcome(registerName, n)
    ok = 0 <= n and n <= 31
    equal(k, 'ok' if ok else 'ValueError', 'exactly 0 to 31 have a name')
    if ok:
        equal(registerNumber(r), n, 'name and number are inverse')
    for i in range(32):
        equal(registerName(i), NAMES[i], 'the name of each number')
        equal(registerNumber(NAMES[i]), i, 'the number of each name')
    k, a = outcome(registerAlias, n)
    equal(k, 'ok' if ok else 'ValueError', 'exactly 0 to 31 have an alias')
    for i in range(32):
        want = NAMES[i]
        for x in ALIAS:
            if ALIAS[x] == i:
                want = x
        equal(registerAlias(i), want, 'the alias is preferred')
    for x in ALIAS:
        equal(registerNumber(x), ALIAS[x], 'the number of each alias')


def names_any():
    n = number('n')
    assume(n < 0 or n > 31)
    equal(raises(registerName, n), 'ValueError', 'no other number')
    equal(raises(registerAlias, n), 'ValueError', 'no other number')
    t = text('t')
    k, r = outcome(registerNumber, t)
    ok = t in NAMES or t in ALIAS
    equal(k, 'ok' if ok else 'ValueError', 'exactly the names and aliases')


# ---------------------------------------------------------------- C10

def group_shape(width):
    g = RegisterGroup(width)
    equal(len(g), 32, 'a group has 32 registers')
    equal(g.width, width, 'of the requested width')
    for i in range(32):
        require(g[i] is g[NAMES[i]], 'by number and by name the same object')
        equal(g[i].name, NAMES[i], 'each register carries its name')
        equal(len(g[i]), width, 'each register has the width')
        equal(g[i].value, 0, 'each register starts as zero')
        for j in range(i):
            require(g[i] is not g[j], 'the registers are distinct')
    equal(RegisterGroup().width, 16, 'the default width is 16')


def group_keys():
    n = integer('n', 8, True)
    t = text('t')
    v, = integers(('v', 16))
    g = RegisterGroup()
    r = Register(v, 'X1')
    ok = 0 <= n and n <= 31
    equal(raises(getitem, g, n), 'ok' if ok else 'ValueError',
          'exactly the numbers 0 to 31')
    if not ok:
        equal(raises(setitem, g, n, r), 'ValueError', 'no other number')
        for i in range(32):
            require(g[i] is not r, 'a rejected assignment has no effect')
    k = t in NAMES
    equal(raises(getitem, g, t), 'ok' if k else 'ValueError',
          'exactly the names of the registers')
    if not k:
        equal(raises(setitem, g, t, r), 'ValueError', 'no other name')
        for i in range(32):
            require(g[i] is not r, 'a rejected assignment has no effect')
    equal(raises(getslice, g, 0, 3), 'ValueError', 'no slices')
    equal(raises(setslice, g, 0, 3, r), 'ValueError', 'no slices')
    for i in range(32):
        require(g[i] is not r, 'a rejected slice has no effect')


def group_far():
    n = number('n')
    assume(n < 0 or n > 31)
    g = RegisterGroup()
    s = Registers()
    equal(raises(getitem, g, n), 'ValueError', 'no other number')
    equal(raises(setitem, g, n, Register()), 'ValueError', 'no other number')
    equal(raises(getitem, s, n), 'ValueError', 'no other group')
    equal(raises(setitem, s, n, g), 'ValueError', 'no other group')


def group_write(width):
    """Writes to arbitrary registers of a group are independent."""
    a, b, d = integers(('a', 5), ('b', 5), ('d', 5))
    x, y = integers(('x', width), ('y', width))
    g, h = RegisterGroup(width), RegisterGroup(width)
    g[a].value = x
    g[b].value = y
    want = y if b == d else (x if a == d else 0)
    equal(g[d].value, want, 'a register holds what was last stored in it')
    for i in range(32):
        equal(g[NAMES[i]].value, y if b == i else (x if a == i else 0),
              'also by name')
    equal(h[d].value, 0, 'another group is not affected')


def group_assign():
    a, d = integers(('a', 5), ('d', 5))
    x, y, z = integers(('x', 16), ('y', 16), ('z', 16))
    g = RegisterGroup()
    g[d].value = z
    old = g[d]
    r = Register(x, 'R1')
    g[a] = r
    require(g[a] is r, 'the register is replaced')
    equal(g[a].value, x, 'the register is replaced')
    if a != d:
        require(g[d] is old, 'no other register is replaced')
        equal(g[d].value, z, 'no other register changes')
    equal(len(g), 32, 'there are still 32')
    for i in range(32):
        h = RegisterGroup()
        r = Register(y, 'R1')
        h[NAMES[i]] = r
        require(h[i] is r, 'assignment by name replaces that register')
        equal(r.name, 'R1', 'the register is not changed')
        equal(r.value, y, 'the register is not changed')
        for j in range(32):
            if j != i:
                require(h[j] is not r, 'and no other')


def group_mixed(width):
    """Bit and range writes, assignments and clearing together."""
    a, b, d = integers(('a', 5), ('b', 5), ('d', 5))
    x, z = integers(('x', 16), ('z', 16))
    g = RegisterGroup(width)
    held = g[d]
    held.value = z
    r = Register(x, 'R1', width)
    g[a] = r
    equal(r.value, x, 'an assigned register keeps its value')
    equal(r.name, 'R1', 'and its name')
    r[width - 3:width] = 5
    x = (x & ~15) | 5
    equal(g[a].value, x, 'the register itself is in the group')
    g[b][1:2] = 3
    w = 3 << (width - 2)
    equal(r.value, (x & ~w) | w if a == b else x,
          'a write through the group touches exactly that register')
    equal(held.value, ((z & ~w) | w) if b == d and a != d else z,
          'and no other, replaced ones included')
    n = 0
    for q in g:
        require(q is g[n], 'iteration yields the assigned register')
        n = n + 1
    equal(n, 32, 'all 32')
    g.clear()
    for q in g:
        equal(q.value, 0, 'clear() zeroes every register')
    equal(r.value, 0, 'also an assigned one, which stays in the group')
    require(g[a] is r, 'clear() replaces no register')
    if a != d:
        require(g[d] is held, 'clear() replaces no register')
        equal(held.value, 0, 'and zeroes each')
    equal(len(g[d]), width, 'of the same width')


def set_mixed():
    p, q, a, b = integers(('p', 3), ('q', 3), ('a', 5), ('b', 5))
    x, y = integers(('x', 12), ('y', 12))
    s = Registers()
    g = RegisterGroup(24)
    g[a].value = x
    s[p] = g
    held = s[q][b]
    held.value = y
    want = y if p == q and a == b else x
    equal(g[a].value, want, 'the assigned group itself is in the set')
    s.clear()
    equal(held.value, 0, 'clear() zeroes every register of every group')
    equal(g[a].value, 0, 'those of an assigned group included')
    require(s[p] is g, 'clear() replaces no group')
    require(s[q][b] is held, 'and no register')
    held.value = y
    equal(s[p][a].value, y if p == q and a == b else 0,
          'a cleared set is usable')


def values_of(g):
    out = []
    for r in g:
        out.append(r.value)
    return out


def group_iterate():
    a, = integers(('a', 5))
    x, = integers(('x', 16))
    g = RegisterGroup()
    g[a].value = x
    want = []
    for i in range(32):
        want.append(x if i == a else 0)
    equal(values_of(g), want, 'an iteration yields all 32 in order')
    equal(values_of(g), want, 'so does a second one')
    for r in g:
        break
    equal(values_of(g), want, 'so does one after an abandoned one')
    n = 0
    for r in g:
        require(r is g[n], 'the registers themselves are yielded')
        n = n + 1
        if n == 4:
            equal(values_of(g), want, 'so does a nested one')
    equal(n, 32, 'the outer iteration is complete')
    t = ''
    for i in range(32):
        t = t + '0o%06o ' % want[i]
    equal(repr(g), t, 'repr shows all registers')


def group_clear():
    a, b, d = integers(('a', 5), ('b', 5), ('d', 5))
    x, y = integers(('x', 16), ('y', 16))
    g, h = RegisterGroup(), RegisterGroup()
    g[a].value = x
    h[a].value = x
    for r in g:
        break
    g.clear()
    equal(g[d].value, 0, 'clear() zeroes every register')
    g[b].value = y
    equal(g[d].value, y if b == d else 0, 'a cleared group is usable')
    for r in g:
        pass
    g.clear()
    equal(g[d].value, 0, 'a second clear() zeroes every register')
    equal(len(g), 32, 'all registers are still there')
    for i in range(32):
        require(g[i] is g[NAMES[i]], 'under number and name')
    equal(h[d].value, x if a == d else 0, 'another group is not affected')


def set_shape(width):
    s = Registers(width)
    equal(len(s), 8, 'a set has 8 groups')
    equal(s.width, width, 'of the requested width')
    for i in range(8):
        equal(len(s[i]), 32, 'each group is complete')
        equal(s[i].width, width, 'and of the width')
        for j in range(i):
            require(s[i] is not s[j], 'the groups are distinct')
    for k in range(32):
        equal(len(s[7][k]), width, 'each register has the width')
    k = integer('k', 5, True)
    g = RegisterGroup()
    ok = 0 <= k and k <= 7
    equal(raises(getitem, s, k), 'ok' if ok else 'ValueError',
          'exactly the groups 0 to 7')
    if not ok:
        equal(raises(setitem, s, k, g), 'ValueError', 'no other group')
    equal(raises(getitem, s, 'X1'), 'ValueError', 'no names')
    equal(raises(setitem, s, 'X1', g), 'ValueError', 'no names')
    equal(raises(getslice, s, 0, 3), 'ValueError', 'no slices')
    equal(raises(setslice, s, 0, 3, g), 'ValueError', 'no slices')
    for i in range(8):
        require(s[i] is not g, 'rejected assignments have no effect')


def set_write():
    p, q, a, b = integers(('p', 3), ('q', 3), ('a', 5), ('b', 5))
    x, y = integers(('x', 12), ('y', 12))
    s, o = Registers(), Registers()
    s[p][a].value = x
    equal(s[q][b].value, x if p == q and a == b else 0,
          'exactly one register of one group changes')
    equal(o[q][b].value, 0, 'another set is not affected')
    g = RegisterGroup()
    g[b].value = y
    s[q] = g
    require(s[q] is g, 'a group is replaced')
    if p != q:
        equal(s[p][a].value, x, 'no other group changes')
        require(s[p] is not g, 'no other group is replaced')
    equal(len(s), 8, 'there are still 8')


def set_clear():
    p, q, a, b = integers(('p', 3), ('q', 3), ('a', 5), ('b', 5))
    x, y = integers(('x', 12), ('y', 12))
    s = Registers()
    s[p][a].value = x
    s.clear()
    equal(s[q][b].value, 0, 'clear() zeroes every register of every group')
    s[q][b].value = y
    for g in s:
        for r in g:
            break
    equal(s[q][b].value, y, 'a cleared set is usable')
    s.clear()
    equal(s[q][b].value, 0, 'a second clear() zeroes every register')
    s[p][b].value = y
    s.clear()
    equal(s[p][b].value, 0, 'and so does a third')
    equal(len(s), 8, 'all groups are still there')


def set_iterate():
    s = Registers()
    n = 0
    for g in s:
        require(g is s[n], 'an iteration yields the groups in order')
        n = n + 1
    equal(n, 8, 'the first iteration yields all 8 groups')


def set_iterate_again():
    s = Registers()
    n = 0
    for g in s:
        n = n + 1
    n = 0
    for g in s:
        n = n + 1
    equal(n, 8, 'a second iteration yields all 8 groups')


def set_iterate_abandoned():
    s = Registers()
    for g in s:
        break
    n = 0
    for g in s:
        n = n + 1
    equal(n, 8, 'an iteration after an abandoned one yields all 8 groups')


def step(x):
    try:
        next(x)
    except TypeError:
        pass


def group_stepped(n):
    """Stepping through a group by hand spoils neither clear() nor loops."""
    a, b, d = integers(('a', 5), ('b', 5), ('d', 5))
    x, y = integers(('x', 16), ('y', 16))
    g = RegisterGroup()
    g[a].value = x
    for k in range(n):
        step(g)
    want = []
    for i in range(32):
        want.append(x if i == a else 0)
    equal(values_of(g), want, 'an iteration yields all 32 in order')
    g.clear()
    equal(g[d].value, 0, 'clear() zeroes every register')
    g[b].value = y
    equal(g[d].value, y if b == d else 0, 'a cleared group is usable')
    g.clear()
    equal(g[d].value, 0, 'a second clear() zeroes every register')


def set_stepped(n):
    p, q, a, b = integers(('p', 3), ('q', 3), ('a', 5), ('b', 5))
    x, y = integers(('x', 12), ('y', 12))
    s = Registers()
    s[p][a].value = x
    for k in range(n):
        step(s)
    s.clear()
    equal(s[q][b].value, 0, 'clear() zeroes every register of every group')
    s[q][b].value = y
    s.clear()
    equal(s[q][b].value, 0, 'a second clear() zeroes every register')
