"""C05: words and instruction words."""
from verif import *
from harness_common import *
from h800.word import Word, InstructionWord

TOP = 2 ** 48 - 1


def word():
    i, = integers(('i', 8, True))
    v, x = integers(('v', 50, True), ('x', 50, True))
    k, w = outcome(Word, v)
    fits = 0 <= v and v <= TOP
    equal(k, 'ok' if fits else 'ValueError', 'a word takes exactly 48 bits')
    if fits:
        equal(w.value, v, 'a word gives back its value')
        equal(int(w.data), v, 'the bits of a word are its value')
        r = raises(getitem, w.data, i)
        if 1 <= i and i <= 48:
            equal(r, 'ok', 'bits 1 to 48 exist')
            equal(w.data[i], (v >> (48 - i)) & 1,
                  'bit 1 is the most significant, bit 48 the least')
        else:
            equal(r, 'ValueError', 'no bits but 1 to 48 exist')
        k = raises(setvalue, w, x)
        if 0 <= x and x <= TOP:
            equal(k, 'ok', 'a fitting value is accepted')
            equal(w.value, x, 'the stored value is read back')
        else:
            equal(k, 'ValueError', 'a value that does not fit is rejected')
            equal(w.value, v, 'a rejected value leaves the contents')


def word_any():
    v = number('v')
    x, = integers(('x', 48))
    w = Word(x)
    if v < 0 or v > TOP:
        equal(raises(Word, v), 'ValueError', 'too large for a word')
        equal(raises(setvalue, w, v), 'ValueError', 'too large for a word')
        equal(w.value, x, 'a rejected value leaves the contents')


def word_bits():
    """Writing bits and ranges of a word's data."""
    s, e = integers(('s', 7), ('e', 7))
    v, x = integers(('v', 48), ('x', 48))
    assume(1 <= s and s <= e and e <= 48)
    w = Word(v)
    n = e - s + 1
    assume(x >> n == 0)
    w.data[s:e] = x
    m = ((1 << n) - 1) << (48 - e)
    equal(w.value, (v & ~m) | (x << (48 - e)),
          'a range of a word is written exactly')


def group(w, k):
    return (w.command, w.a, w.b, w.c)[k]


def construct():
    g = integers(('p', 14, True), ('a', 14, True), ('b', 14, True),
                 ('c', 14, True))
    k, w = outcome(InstructionWord, g[0], g[1], g[2], g[3])
    fits = True
    for x in g:
        if x < 0 or x > 4095:
            fits = False
    equal(k, 'ok' if fits else 'ValueError',
          'groups of 12 bits are accepted, others rejected')
    if fits:
        v = 0
        for n in range(4):
            v = (v << 12) | g[n]
            equal(group(w, n), g[n], 'each group is read back')
        equal(w.value, v, 'the word is the four groups')


def construct_defaults():
    p, a, b, c = integers(('p', 12), ('a', 12), ('b', 12), ('c', 12))
    equal(InstructionWord().value, 0, 'no groups given')
    equal(InstructionWord(p).value, p << 36, 'command only')
    equal(InstructionWord(command=p).value, p << 36, 'command by name')
    equal(InstructionWord(a=a).value, a << 24, 'A only')
    equal(InstructionWord(b=b).value, b << 12, 'B only')
    equal(InstructionWord(c=c).value, c, 'C only')
    equal(InstructionWord(p, a, b).value, (p << 36) | (a << 24) | (b << 12),
          'C not given')


def put(w, which, x):
    if which == 0:
        w.command = x
    elif which == 1:
        w.a = x
    elif which == 2:
        w.b = x
    else:
        w.c = x


def update(first, second):
    """Two group writes on arbitrary contents."""
    p, a, b, c = integers(('p', 12), ('a', 12), ('b', 12), ('c', 12))
    x, y = integers(('x', 14, True), ('y', 14, True))
    w = InstructionWord(p, a, b, c)
    other = InstructionWord(p, a, b, c)
    want = [p, a, b, c]
    for which, z in ((first, x), (second, y)):
        r = raises(put, w, which, z)
        if 0 <= z and z <= 4095:
            equal(r, 'ok', 'a 12-bit group is accepted')
            want[which] = z
        else:
            equal(r, 'ValueError', 'a group that does not fit is rejected')
        v = 0
        for n in range(4):
            v = (v << 12) | want[n]
            equal(group(w, n), want[n], 'exactly the written group changes')
        equal(w.value, v, 'the word is the four groups')
    v = (((p << 12 | a) << 12 | b) << 12) | c
    equal(other.value, v, 'another word is not affected')


def update_whole(which):
    """Assigning the whole word and then a group, and the other way round."""
    v, x = integers(('v', 48), ('x', 12))
    w = InstructionWord()
    w.value = v
    for n in range(4):
        equal(group(w, n), (v >> (36 - 12 * n)) & 4095,
              'the groups are the parts of the word')
    put(w, which, x)
    sh = 36 - 12 * which
    equal(w.value, (v & ~(4095 << sh)) | (x << sh),
          'exactly the written group changes')
    w.value = v
    equal(w.value, v, 'the whole word can be replaced')
    for n in range(4):
        equal(group(w, n), (v >> (36 - 12 * n)) & 4095,
              'the groups are the parts of the word')


def update_bits(which):
    """Writing bits of the word, and then a group."""
    s, e = integers(('s', 6), ('e', 6))
    v, x, y = integers(('v', 48), ('x', 12), ('y', 12))
    w = InstructionWord(v >> 36, (v >> 24) & 4095, (v >> 12) & 4095,
                        v & 4095)
    other = InstructionWord(1, 2, 3, 4)
    assume(1 <= s and s <= e and e <= 48 and e - s < 12)
    n = e - s + 1
    assume(x >> n == 0)
    w.data[s:e] = x
    m = ((1 << n) - 1) << (48 - e)
    v = (v & ~m) | (x << (48 - e))
    for n in range(4):
        equal(group(w, n), (v >> (36 - 12 * n)) & 4095,
              'the groups are the parts of the word')
    put(w, which, y)
    sh = 36 - 12 * which
    v = (v & ~(4095 << sh)) | (y << sh)
    equal(w.value, v, 'exactly the written group changes')
    for n in range(4):
        equal(group(w, n), (v >> (36 - 12 * n)) & 4095,
              'the groups are the parts of the word')
        equal(group(other, n), n + 1, 'another word is not affected')


def update_any(which):
    x = number('x')
    assume(x < 0 or x > 4095)
    p, a, b, c = integers(('p', 12), ('a', 12), ('b', 12), ('c', 12))
    w = InstructionWord(p, a, b, c)
    equal(raises(put, w, which, x), 'ValueError',
          'a group that does not fit is rejected')
    equal(w.value, (((p << 12 | a) << 12 | b) << 12) | c,
          'a rejected group changes nothing')


def two_words():
    """Words, also equal ones, are independent."""
    v, x, y = integers(('v', 48), ('x', 48), ('y', 48))
    first, second = Word(v), Word(x)
    third = Word(v)
    first.value = y
    equal(first.value, y, 'the stored value is read back')
    equal(second.value, x, 'another word keeps its value')
    equal(third.value, v, 'an equal word keeps its value')
    third.data[1:12] = y >> 36
    equal(first.value, y, 'the other word keeps its value')
    equal(third.value, (v & (2 ** 36 - 1)) | (y >> 36 << 36),
          'the bits of a word are its own')
    equal(Word(v).value, v, 'a later word has its own value')
    equal(Word().value, 0, 'a later word without value is zero')


def two_instruction_words(k):
    g = integers(('p', 12), ('a', 12), ('b', 12), ('c', 12))
    x, y = integers(('x', 12), ('y', 48))
    first = InstructionWord(g[0], g[1], g[2], g[3])
    second = InstructionWord(g[0], g[1], g[2], g[3])
    plain = Word(y)
    put(first, k, x)
    for n in range(4):
        equal(group(first, n), x if n == k else g[n],
              'only the written group changes')
        equal(group(second, n), g[n], 'an equal word keeps its groups')
    equal(plain.value, y, 'another word keeps its value')
    second.value = y
    for n in range(4):
        equal(group(second, n), (y >> (36 - 12 * n)) & 4095,
              'groups are those of the new value')
        equal(group(first, n), x if n == k else g[n],
              'another word keeps its groups')
