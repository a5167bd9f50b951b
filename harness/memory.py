"""C06, C07: memory banks and modules."""
from verif import *
from harness_common import *
from h800.memory import MemoryBank, MemoryModule, ExpansionMemoryModule

TOP = 2 ** 48 - 1


def inside(a):
    return 0 <= a and a <= 2047


def history(n):
    """n writes to arbitrary addresses, then a read of an arbitrary one."""
    specs = [('d', 13, True)]
    for k in range(n):
        specs.append(('a' + str(k), 13, True))
    addr = integers(*specs)
    if n == 1:
        vals = integers(('x0', 50, True))
    else:
        # 48-bit values whose four groups of 12 bits are the same arbitrary
        # bits: history(1) has arbitrary words
        vals = [v * 0o1000100010001 for v in
                integers(*[('x' + str(k), 12) for k in range(n)])]
    bank = MemoryBank()
    want = 0
    d = addr[0]
    for k in range(n):
        a, x = addr[k + 1], vals[k]
        r = raises(setitem, bank, a, x)
        if inside(a) and 0 <= x and x <= TOP:
            equal(r, 'ok', 'a legal write is accepted')
            if a == d:
                want = x
        else:
            equal(r, 'ValueError', 'an illegal write is rejected')
    k, r = outcome(getitem, bank, d)
    if inside(d):
        equal(k, 'ok', 'a legal read is accepted')
        equal(r, want, 'a location holds the last value written to it')
        equal(bank[d], want, 'reading changes nothing')
    else:
        equal(k, 'ValueError', 'an illegal read is rejected')


def far_address():
    a = number('a')
    assume(a < 0 or a > 2047)
    x, d = integers(('x', 48), ('d', 11))
    bank = MemoryBank()
    bank[d] = x
    equal(raises(getitem, bank, a), 'ValueError', 'reading far outside')
    equal(raises(setitem, bank, a, 5), 'ValueError', 'writing far outside')
    equal(bank[d], x, 'nothing changed')


def far_value():
    v = number('v')
    assume(v < 0 or v > TOP)
    x, d, a = integers(('x', 48), ('d', 11), ('a', 11))
    bank = MemoryBank()
    bank[d] = x
    equal(raises(setitem, bank, a, v), 'ValueError', 'a value too large')
    equal(bank[d], x, 'nothing changed')


def independent():
    a, d = integers(('a', 11), ('d', 11))
    x, y = integers(('x', 48), ('y', 48))
    one, two = MemoryBank(), MemoryBank()
    m = MemoryModule()
    e = ExpansionMemoryModule()
    one[a] = x
    m[1][a] = y
    equal(one[a], x, 'a bank keeps its own')
    equal(two[d], 0, 'another bank is not affected')
    equal(m[1][d], y if a == d else 0, 'a bank of a module keeps its own')
    for k in (0, 2, 3):
        equal(m[k][d], 0, 'another bank of the module is not affected')
    equal(e[1][d], 0, 'another module is not affected')


def slice_at(base):
    """Slices with both ends near base, on arbitrary contents there."""
    i, j, d = integers(('i', 4), ('j', 4), ('d', 4))
    y, x = integers(('y', 50, True), ('x', 48))
    p, q, d = base + i, base + j, base + d
    bank = MemoryBank()
    other = MemoryBank()
    e = integer('e', 4)
    e = base + e
    if inside(e):
        bank[e] = x
    old = x if d == e else 0
    k, r = outcome(getslice, bank, p, q)
    bad = False
    n = q - p if q > p else 0
    if n > 0 and (p < 0 or q > 2048):
        bad = True
    if bad:
        equal(k, 'ValueError', 'a slice partly outside cannot be read')
    else:
        equal(k, 'ok', 'a slice inside can be read')
        equal(len(r), n, 'a slice has one value for each address')
        if p <= d and d < q:
            equal(r[d - p], old, 'a slice has the values in address order')
    if inside(d):
        equal(bank[d], old, 'reading a slice changes nothing')
    k = raises(setslice, bank, p, q, y)
    fits = 0 <= y and y <= TOP
    if bad or (n > 0 and not fits):
        equal(k, 'ValueError', 'a slice partly outside or a value too large')
        if inside(d):
            equal(bank[d], old, 'a rejected slice changes nothing')
    elif fits:
        equal(k, 'ok', 'a slice inside is written')
        if inside(d):
            equal(bank[d], y if p <= d and d < q else old,
                  'exactly the addresses of the slice are written')
    if inside(d):
        equal(other[d], 0, 'another bank is not affected')
    # the locations stay independent after a slice access
    now = bank[d] if inside(d) else 0
    f = integer('f', 4)
    f = base + f
    if inside(f):
        bank[f] = x
    if inside(d):
        equal(bank[d], x if f == d else now,
              'a write after a slice access changes only its own address')


def slice_const(i, j):
    """One particular (long) slice, arbitrary values and address."""
    d, e = integers(('d', 11), ('e', 11))
    x, y = integers(('x', 48), ('y', 48))
    bank = MemoryBank()
    bank[e] = x
    bad = i < j and (i < 0 or j > 2048)
    k, r = outcome(getslice, bank, i, j)
    equal(k, 'ValueError' if bad else 'ok', 'reading a slice')
    if not bad:
        equal(len(r), max(0, j - i), 'a slice has one value per address')
        if i <= d and d < j:
            equal(r[d - i], x if d == e else 0, 'values in address order')
    k = raises(setslice, bank, i, j, y)
    equal(k, 'ValueError' if bad else 'ok', 'writing a slice')
    want = x if d == e else 0
    if not bad and i <= d and d < j:
        want = y
    equal(bank[d], want, 'exactly the addresses of the slice are written')
    bank[e] = x
    equal(bank[d], x if d == e else want,
          'a write after a slice access changes only its own address')


# ---------------------------------------------------------------- C07

def words(bank):
    out = []
    for w in bank:
        out.append(w.value)
    return out


def shape():
    b = MemoryBank()
    equal(len(b), 2048, 'a bank has 2048 words')
    equal(b.width, 48, 'of 48 bits')
    for cls, n in ((MemoryModule, 4), (ExpansionMemoryModule, 8)):
        m = cls()
        equal(len(m), n, 'number of banks')
        equal(m.size(), n * 2048, 'size in words')
        for k in range(n):
            equal(len(m[k]), 2048, 'every bank is complete')
            for l in range(n):
                require((m[k] is m[l]) == (k == l), 'the banks are distinct')
        l = m[0:n]
        equal(len(l), n, 'a slice of all banks')
        for k in range(n):
            require(l[k] is m[k], 'a slice has the banks in order')
        for i in range(n + 1):
            for j in range(n + 1):
                l = m[i:j]
                equal(len(l), max(0, j - i), 'a slice has its banks')
                for k in range(i, j):
                    require(l[k - i] is m[k], 'a slice has its banks in order')
        k = integer('k' + str(n), 5, True)
        r = raises(getitem, m, k)
        require((r == 'ok') == (0 <= k and k < n),
                'exactly the banks of the module can be reached')
        r = raises(getslice, m, n - 1, n + 1)
        require(r != 'ok', 'a slice past the last bank is rejected')


def iterate():
    """Complete, repeated, nested and abandoned iterations."""
    a, = integers(('a', 11))
    x, = integers(('x', 48))
    b = MemoryBank()
    b[a] = x
    want = []
    for k in range(2048):
        want.append(x if k == a else 0)
    equal(words(b), want, 'an iteration yields every word in address order')
    equal(words(b), want, 'so does a second one')
    n = 0
    for w in b:
        n = n + 1
        if n == 3:
            break
    equal(words(b), want, 'so does one after an abandoned one')
    m = 0
    for w in b:
        m = m + 1
        if m == 2:
            equal(words(b), want, 'so does a nested one')
        if m == 5:
            break
    equal(m, 5, 'the outer iteration goes on after a nested one')
    t = 0
    for w in b:
        t = t + 1
    equal(t, 2048, 'and is complete')
    equal(len(b), 2048, 'the bank is still complete')


def iterate_write():
    """Writes between and during iterations show in later ones."""
    a, c = integers(('a', 11), ('c', 11))
    x, y = integers(('x', 48), ('y', 48))
    b = MemoryBank()
    b[a] = x
    n = 0
    for w in b:
        n = n + 1
        if n == 1:
            b[c] = y
    equal(n, 2048, 'the iteration is complete')
    want = []
    for k in range(2048):
        want.append(y if k == c else (x if k == a else 0))
    equal(words(b), want, 'an iteration shows the current contents')


def text():
    a, = integers(('a', 11))
    x, = integers(('x', 48))
    b = MemoryBank()
    b[a] = x
    s = repr(b)
    n = 0
    want = ''
    for k in range(2048):
        want = want + '0o%016o ' % (x if k == a else 0)
    equal(s, want, 'repr shows every word in octal')


def clear():
    a, c, d = integers(('a', 11), ('c', 11), ('d', 11))
    x, y = integers(('x', 48), ('y', 48))
    b = MemoryBank()
    other = MemoryBank()
    b[a] = x
    other[a] = x
    for w in b:
        break
    b.clear()
    equal(b[d], 0, 'clear() clears every word')
    equal(other[d], x if a == d else 0, 'another bank is not affected')
    equal(len(b), 2048, 'the bank is still complete')
    n = 0
    for w in b:
        n = n + 1
    equal(n, 2048, 'and can be iterated')
    b[c] = y
    equal(b[d], y if c == d else 0, 'and written')
    b.clear()
    equal(b[d], 0, 'and cleared again')


def step(b):
    try:
        next(b)
    except TypeError:
        pass


def clear_stepped(n):
    """Stepping through a bank by hand spoils neither clear() nor loops."""
    a, d = integers(('a', 11), ('d', 11))
    x, = integers(('x', 48))
    b = MemoryBank()
    b[a] = x
    for k in range(n):
        step(b)
    want = []
    for k in range(2048):
        want.append(x if k == a else 0)
    equal(words(b), want, 'an iteration yields every word in address order')
    b.clear()
    equal(b[d], 0, 'clear() clears every word')
    equal(len(b), 2048, 'the bank is still complete')


def iterate_clear():
    """Words still to come in an iteration have their current contents."""
    a, c = integers(('a', 11), ('c', 11))
    x, y = integers(('x', 48), ('y', 48))
    b = MemoryBank()
    b[a] = x
    seen = []
    for w in b:
        seen.append(w.value)
        if len(seen) == 2:
            b.clear()
            b[c] = y
    want = []
    for k in range(2048):
        if k < 2:
            want.append(x if k == a else 0)
        else:
            want.append(y if k == c else 0)
    equal(seen, want, 'a clear() during an iteration shows in the rest of it')
