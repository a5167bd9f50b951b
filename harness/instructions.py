"""C11-C16: instructions, opcode table, constants."""
import copy

from verif import *
from harness_common import *
from harness_manual import *
from h800 import instruction, instructions


def bitof(pattern, letter, value):
    """The bits a value puts into the places of a letter, first bit first."""
    code = 0
    n = pattern.count(letter)
    for i in range(12):
        if pattern[i] == letter:
            n = n - 1
            code = code + (((value >> n) & 1) << (11 - i))
    return code


def code_of(pattern, sequence=None, mask=None, a=None, b=None, c=None,
            paddr=None):
    """Command code from the manual; operands not given are zero."""
    code = 0
    for i in range(12):
        if pattern[i] == '1':
            code = code + (1 << (11 - i))
    for letter, v in (('s', sequence), ('m', mask), ('a', a), ('b', b),
                      ('c', c), ('p', paddr)):
        if v is not None:
            code = code + bitof(pattern, letter, int(v))
    return code


def kind(m):
    masked, other, _ = LIST[m]
    if masked is not None:
        return 'maskable'
    if other[0] == 'p':
        return 'peripheral'
    if other[:7] == 'sxxabc1':
        return 'print'
    if other[:7] == 'sxxxxxx':
        return 'simulator'
    return 'unmasked'


def operand(name, bits):
    """Nothing, a truth value, or an integer."""
    return choice(name + '?', (None, flag(name + '!'),
                               integer(name, bits, True)))


def oneof(v):
    return v is None or v == 0 or v == 1


def cls(m):
    return getattr(instructions, LIST[m][2])


def build(m, s, mask, a, b, c, p):
    k = kind(m)
    if m == 'PR':
        return cls(m)()
    if k == 'maskable':
        return cls(m)(sequence=s, mask=mask, a=a, b=b, c=c)
    if k == 'peripheral':
        return cls(m)(paddr=p)
    if k == 'simulator':
        return cls(m)(sequence=s)
    return cls(m)(sequence=s, a=a, b=b, c=c)


def takes(m):
    """Letters of the operands an instruction takes."""
    if m == 'PR':
        return ''
    masked, other, _ = LIST[m]
    return (masked or '') + other


def expected(m, s, mask, a, b, c, p):
    masked, other, _ = LIST[m]
    if mask is not None:
        return code_of(masked, s, mask)
    return code_of(other, s, None, a, b, c, p)


def legal(m, s, mask, a, b, c, p):
    if not oneof(s) or not oneof(a) or not oneof(b) or not oneof(c):
        return False
    if mask is not None:
        if kind(m) != 'maskable':
            return False
        if a is not None or b is not None or c is not None or p is not None:
            return False
        if mask < 0 or mask > 31:
            return False
    if p is not None:
        if s is not None or a is not None or b is not None or c is not None:
            return False
        if p < 0 or p > 63:
            return False
    return True


def operands(m):
    t = takes(m)
    s = mask = a = b = c = p = None
    if 's' in t:
        s = operand('s', 8)
    if 'm' in t:
        mask = operand('m', 8)
    if 'a' in t:
        a = operand('a', 8)
        b = operand('b', 8)
        c = operand('c', 8)
    if 'p' in t:
        p = operand('p', 9)
    return s, mask, a, b, c, p


def encode(m):
    s, mask, a, b, c, p = operands(m)
    assume(legal(m, s, mask, a, b, c, p))
    i = build(m, s, mask, a, b, c, p)
    want = expected(m, s, mask, a, b, c, p)
    equal(i.value, want, 'command code of ' + m)
    equal(int(i.data), want, 'data of ' + m)
    for n in range(1, 13):
        equal(i.data[n], (want >> (12 - n)) & 1, 'bit of ' + m)
    # an instruction made before is not affected by one made later
    other = build(m, None, None, None, None, None, None)
    equal(i.value, want, 'another instruction changes nothing')
    equal(other.value, expected(m, None, None, None, None, None, None),
          'bare command code of ' + m)


def others(m):
    """Instructions of every kind, made before."""
    for n in LIST:
        if n != m:
            attempt(build, n, None, None, None, None, None, None)
            attempt(build, n, 1, None, 1, 0, 1, 6)
            attempt(build, n, 1, 6, None, None, None, None)
            attempt(build, n, 7, 99, 7, 7, 7, 99)
    for s in (0, 1):
        attempt(build, m, s, None, 0, 0, 0, 5)
        attempt(build, m, s, None, 1, 0, 1, 33)
        attempt(build, m, s, None, None, None, None, None)
        attempt(build, m, s, 0, None, None, None, None)
        attempt(build, m, s, 21, None, None, None, None)
        attempt(build, m, s, 99, 4, None, None, 99)


def encode_after(m):
    """After other instructions, and the same with other operands."""
    others(m)
    encode(m)


def encode_next(m):
    """Right after an instruction of each kind, accepted or not."""
    s, mask, a, b, c, p = operands(m)
    assume(legal(m, s, mask, a, b, c, p))
    want = expected(m, s, mask, a, b, c, p)
    for n in ('BA', 'BM', 'PR', 'RF', 'PRD', 'S', 'FBA'):
        attempt(build, n, 1, None, 1, 1, 1, 63)
        equal(build(m, s, mask, a, b, c, p).value, want,
              'command code of ' + m)
        attempt(build, n, 1, 31, None, None, None, None)
        equal(build(m, s, mask, a, b, c, p).value, want,
              'command code of ' + m)
        attempt(build, n, 7, 99, 7, 7, 7, 99)
        equal(build(m, s, mask, a, b, c, p).value, want,
              'command code of ' + m)


def reject_after(m):
    others(m)
    reject(m)


def encoders_after(m):
    for n in LIST:
        for f in (instructions.make_masked_opcode,
                  instructions.make_unmasked_opcode,
                  instructions.make_peripheral_opcode,
                  instructions.make_print_opcode):
            attempt(f, n, 1)
            attempt(f, n, 1, 1)
            attempt(f, n, 0, 3)
            attempt(f, n, 1, 1, 0, 1)
    encoders(m)


def encode_base(m):
    """The same through the general classes."""
    o = instructions.OPCODES[m]
    s, a, b, c, mask, p = integers(('s', 1), ('a', 1), ('b', 1), ('c', 1),
                                   ('m', 5), ('p', 6))
    k = kind(m)
    equal(instruction.Instruction(o).value, expected(
        m, None, None, None, None, None, None), 'no operands')
    if k == 'maskable':
        equal(instruction.GeneralMasked(o, s, mask).value,
              expected(m, s, mask, None, None, None, None), 'general masked')
        equal(instruction.Instruction(o, sequence=s, mask=mask).value,
              expected(m, s, mask, None, None, None, None), 'masked')
    if k == 'maskable' or k == 'unmasked' or k == 'print':
        pattern = LIST[m][1]
        if m == 'PR':
            pattern = 's00abc000000'
        want = code_of(pattern, s, None, a, b, c)
        equal(instruction.Instruction(o, sequence=s, a=a, b=b, c=c).value,
              want, 'unmasked')
        equal(instruction.GeneralUnmasked(o, s, a, b, c).value, want,
              'general unmasked')
        equal(instruction.Scientific(o, s, a, b, c).value, want,
              'scientific')
    if k == 'peripheral':
        equal(instruction.Peripheral(o, p).value,
              expected(m, None, None, None, None, None, p), 'peripheral')
    if k == 'simulator':
        equal(instruction.Simulator(o, s).value,
              expected(m, s, None, None, None, None, None), 'simulator')


# ------------------------------------------------------------ rejection

def attempt(f, *args, **kw):
    """'ok', 'ValueError' or 'other'."""
    try:
        f(*args, **kw)
    except ValueError:
        return 'ValueError'
    except Exception:
        return 'other'
    return 'ok'


def verdict(got, good, what):
    if good:
        equal(got, 'ok', 'legal operands are accepted: ' + what)
    else:
        equal(got, 'ValueError', 'illegal operands are rejected: ' + what)


def reject(m):
    s, mask, a, b, c, p = operands(m)
    verdict(attempt(build, m, s, mask, a, b, c, p),
            legal(m, s, mask, a, b, c, p), m)


def reject_base(m):
    """Every operand at once, through the general class."""
    o = instructions.OPCODES[m]
    s, mask = operand('s', 4), operand('m', 7)
    a, b, c = operand('a', 3), operand('b', 3), operand('c', 3)
    p = operand('p', 8)
    verdict(attempt(instruction.Instruction, o, s, mask, a, b, c, p),
            legal(m, s, mask, a, b, c, p), m)


def reject_far(m):
    """Operands of any size."""
    n = number('n')
    t = takes(m)
    k = kind(m)
    if 's' in t:
        if k == 'maskable' or k == 'simulator':
            got = attempt(cls(m), sequence=n)
        else:
            got = attempt(cls(m), sequence=n, a=0, b=0, c=0)
        verdict(got, n == 0 or n == 1, m)
    if 'm' in t:
        verdict(attempt(cls(m), sequence=0, mask=n), 0 <= n and n <= 31, m)
    if 'a' in t:
        verdict(attempt(cls(m), sequence=0, a=n, b=0, c=0),
                n == 0 or n == 1, m)
        verdict(attempt(cls(m), sequence=0, a=0, b=n, c=0),
                n == 0 or n == 1, m)
        verdict(attempt(cls(m), sequence=0, a=0, b=0, c=n),
                n == 0 or n == 1, m)
    if 'p' in t:
        verdict(attempt(cls(m), paddr=n), 0 <= n and n <= 63, m)


def reject_opcode(which):
    b23, b7 = operand('b23', 5), operand('b7', 4)
    op = integer('op', 8, True)
    t = ('maskable', 'unmasked', 'peripheral', 'print', 'simulator')[which]
    o = instructions.Opcode('QQ', 'Nothing', b23, b7, op, t)
    good = 0 <= op and op <= 31
    if b23 is not None:
        good = good and 0 <= b23 and b23 <= 3
    if b7 is not None:
        good = good and 0 <= b7 and b7 <= 1
    verdict(attempt(instruction.Instruction, o), good, 'opcode')
    verdict(attempt(instruction.Instruction, o, 1), good, 'opcode')


# ------------------------------------------------------------ table

def table():
    ops = instructions.OPCODES
    equal(sorted(ops.keys()), sorted(LIST.keys()),
          'the table has the instructions of the manual')
    for m in LIST:
        o = ops[m]
        pattern = LIST[m][0] or LIST[m][1]
        k = kind(m)
        equal(o.m, m, 'the key is the mnemonic')
        equal(o.type, k, 'type of ' + m)
        if k == 'simulator':
            require(o.op == 7, 'operation of ' + m)
            require(o.b23 is None, 'bits 2-3 of ' + m)
            require(o.b7 is None, 'bit 7 of ' + m)
            continue
        equal(o.op, int(pattern[7:], 2), 'operation of ' + m)
        equal(o.b7, int(pattern[6]), 'bit 7 of ' + m)
        if k == 'peripheral' or k == 'print':
            require(o.b23 is None, 'bits 2-3 of ' + m)
        else:
            equal(o.b23, int(LIST[m][1][1:3], 2), 'bits 2-3 of ' + m)


def codes(o):
    """Every code of a table entry, as its format says."""
    out = []
    if o.type == 'maskable':
        for i in range(64):
            out.append((i << 6) + (1 << 5) + o.op)
    if o.type == 'maskable' or o.type == 'unmasked':
        for i in range(16):
            out.append(((i >> 3) << 11) + (o.b23 << 9) + ((i & 7) << 6) +
                       o.op)
    if o.type == 'peripheral':
        for i in range(64):
            out.append((i << 6) + (1 << 5) + o.op)
    if o.type == 'print':
        for i in range(16):
            out.append(((i >> 3) << 11) + ((i & 7) << 6) + (1 << 5) + o.op)
    if o.type == 'simulator':
        out = [7, 0o4007]
    return out


def distinct():
    ops = instructions.OPCODES
    owner = {}
    for m in ops:
        for code in codes(ops[m]):
            if code in owner:
                pair = (owner[code], m)
                require(pair in (('NA', 'FNN'), ('FNN', 'NA')) or
                        (pair[0] in ('PRA', 'PRD', 'PRO') and
                         pair[1] in ('PRA', 'PRD', 'PRO')),
                        'codes of different instructions differ')
            owner[code] = m
    require(len(owner) > 2000, 'the codes were compared')


def snapshot():
    out = []
    for m in instructions.OPCODES:
        o = instructions.OPCODES[m]
        out.append((m, o.m, o.c, o.b23, o.b7, o.op, o.type))
    return out


def unchanged(m):
    before = snapshot()
    vocabulary = list(instructions.INSTRUCTIONS)
    s, mask, a, b, c, p = operands(m)
    attempt(build, m, s, mask, a, b, c, p)
    i, = integers(('i', 5))
    k = kind(m)
    if k == 'maskable':
        instructions.make_masked_opcode(m, 1, i)
    elif k == 'peripheral':
        instructions.make_peripheral_opcode(m, i)
    elif k == 'print':
        instructions.make_print_opcode(m, 1, 0, 1, 0)
    if k == 'maskable' or k == 'unmasked':
        instructions.make_unmasked_opcode(m, 0, 1, 0, 1)
    equal(snapshot(), before, 'the table is not changed')
    equal(instructions.INSTRUCTIONS, vocabulary,
          'the vocabulary is not changed')


# ------------------------------------------------------------ encoders

def encoders(m):
    s, a, b, c, mask, p = integers(('s', 1), ('a', 1), ('b', 1), ('c', 1),
                                   ('m', 5), ('p', 6))
    o = instructions.OPCODES[m]
    k = kind(m)
    if k == 'maskable':
        equal(instructions.make_masked_opcode(m, s, mask),
              build(m, s, mask, None, None, None, None).value,
              'masked encoder and object of ' + m)
        equal(instructions.make_masked_opcode(m, s, mask),
              expected(m, s, mask, None, None, None, None),
              'masked encoder of ' + m)
    if k == 'maskable' or k == 'unmasked':
        got = instructions.make_unmasked_opcode(m, s, a, b, c)
        if m != 'PR':
            equal(got, build(m, s, None, a, b, c, None).value,
                  'unmasked encoder and object of ' + m)
            equal(got, expected(m, s, None, a, b, c, None),
                  'unmasked encoder of ' + m)
        else:
            equal(instructions.make_unmasked_opcode(m, 0, 0, 0, 0),
                  build(m, 0, None, 0, 0, 0, None).value,
                  'unmasked encoder and object of ' + m)
        equal(got, instruction.Instruction(o, sequence=s, a=a, b=b,
                                           c=c).value,
              'unmasked encoder and general object of ' + m)
    if k == 'peripheral':
        equal(instructions.make_peripheral_opcode(m, p),
              build(m, None, None, None, None, None, p).value,
              'peripheral encoder and object of ' + m)
        equal(instructions.make_peripheral_opcode(m, p),
              expected(m, None, None, None, None, None, p),
              'peripheral encoder of ' + m)
    if k == 'print':
        equal(instructions.make_print_opcode(m, s, a, b, c),
              build(m, s, None, a, b, c, None).value,
              'print encoder and object of ' + m)
        equal(instructions.make_print_opcode(m, s, a, b, c),
              expected(m, s, None, a, b, c, None),
              'print encoder of ' + m)


def listed():
    """Codes that the list must have: masked form of maskable instructions,
    the form of all the others."""
    out = {}
    for m in LIST:
        k = kind(m)
        some = []
        if k == 'maskable':
            for i in range(64):
                some.append(code_of(LIST[m][0], i >> 5, i & 31))
        elif k == 'peripheral':
            for i in range(64):
                some.append(code_of(LIST[m][1], paddr=i))
        elif k == 'simulator':
            some = [7, 0o4007]
        else:
            pattern = LIST[m][1]
            if m == 'PR':
                pattern = 's00abc000000'
            for i in range(16):
                some.append(code_of(pattern, i >> 3, None, (i >> 2) & 1,
                                    (i >> 1) & 1, i & 1))
        for code in some:
            if code not in out:
                out[code] = []
            out[code].append(m)
    return out


def list_lines(text, what):
    want = listed()
    lines = text.split('\n')
    equal(lines[-1], '', what + ': last line is terminated')
    lines = lines[:-1]
    equal(len(lines), len(want), what + ': one line per code')
    n = 0
    good = True
    for code in sorted(want):
        line = lines[n]
        n = n + 1
        ok = False
        for m in want[code]:
            if line == '0o%04o %s' % (code, m):
                ok = True
        require(ok, what + ': code and mnemonic')


def printed():
    mark0 = mark()
    instructions.print_instructions()
    list_lines(''.join(output('stdout', mark0)), 'printed list')


def stored():
    list_lines(opcodes_text('h800/opcodes.txt'), 'stored list')
    mark0 = mark()
    instructions.print_instructions()
    equal(''.join(output('stdout', mark0)),
          opcodes_text('h800/opcodes.txt'), 'stored list is the printed one')


# ------------------------------------------------------------ vocabulary

def vocabulary():
    parts = ((instructions.OPCODES, tuple(LIST.keys()), 'machine'),
             (instructions.CONTROL_INSTRUCTIONS, CONTROL_INSTRUCTIONS,
              'control'),
             (instructions.DATA_CONSTANTS, DATA_CONSTANTS, 'data constants'),
             (instructions.CONTROL_CONSTANTS, CONTROL_CONSTANTS,
              'control constants'),
             (instructions.EXTENDED_INSTRUCTIONS, EXTENDED_INSTRUCTIONS,
              'extended'),
             (instructions.MISC_INSTRUCTIONS, MISC_INSTRUCTIONS,
              'miscellaneous'),
             (instructions.ARGUS_INSTRUCTIONS, ARGUS_INSTRUCTIONS, 'ARGUS'))
    every = []
    for got, want, name in parts:
        equal(sorted(got), sorted(want), name + ' mnemonics')
        every.extend(want)
    equal(len(set(every)), len(every), 'groups are disjoint')
    equal(sorted(instructions.INSTRUCTIONS), sorted(every),
          'the vocabulary is the union, each once')
    for m in every:
        require(m in instructions.INSTRUCTIONS, 'vocabulary has ' + m)


def link(m):
    """The class a mnemonic names encodes that mnemonic."""
    o = instructions.OPCODES[m]
    equal(o.c, LIST[m][2], 'class of ' + m)
    klass = getattr(instructions, o.c)
    s, a, b, c, mask, p = integers(('s', 1), ('a', 1), ('b', 1), ('c', 1),
                                   ('m', 5), ('p', 6))
    k = kind(m)
    if m == 'PR':
        equal(klass().value, 0, 'class encodes ' + m)
    elif k == 'peripheral':
        equal(klass(p).value, expected(m, None, None, None, None, None, p),
              'class encodes ' + m)
    elif k == 'simulator':
        equal(klass(s).value, expected(m, s, None, None, None, None, None),
              'class encodes ' + m)
    else:
        equal(klass(sequence=s, a=a, b=b, c=c).value,
              expected(m, s, None, a, b, c, None), 'class encodes ' + m)
    if k == 'maskable':
        equal(klass(s, mask).value,
              expected(m, s, mask, None, None, None, None),
              'class encodes masked ' + m)
    require(issubclass(klass, instruction.Instruction),
            'class of %s is an instruction' % m)
    for other in instructions.OPCODES:
        if other != m:
            require(instructions.OPCODES[other].c != o.c,
                    'class of one mnemonic only')


# ------------------------------------------------------------ constants

def constant(m):
    klass = getattr(instructions, CONSTANT_CLASSES[m])
    d, = integers(('d', 50, True))
    if 0 <= d and d < (1 << 48):
        w = klass(d)
        equal(w.value, d, 'value of the constant')
        equal(int(w.data), d, 'bits of the constant')
        require(isinstance(w, instruction.Word), 'a constant is a word')
        for n in range(1, 49):
            equal(w.data[n], (d >> (48 - n)) & 1, 'bit of the constant')
        equal(klass(data=d).value, d, 'value of the constant')
    else:
        verdict(attempt(klass, d), False, 'constant')


def constant_any(m):
    klass = getattr(instructions, CONSTANT_CLASSES[m])
    n = number('n')
    good = 0 <= n and n < (1 << 48)
    verdict(attempt(klass, n), good, 'constant')


def constant_after():
    """Constants of every class, made one after the other."""
    d, e = integers(('d', 48), ('e', 48))
    made = []
    for m in CONSTANT_CLASSES:
        klass = getattr(instructions, CONSTANT_CLASSES[m])
        made.append((klass(d), d))
        made.append((klass(e), e))
        attempt(klass, -1)
        attempt(klass, 1 << 48)
    for w, x in made:
        equal(w.value, x, 'each constant has its own value')
    made[0][0].value = e
    equal(made[0][0].value, e, 'a constant is a word')
    for w, x in made[1:]:
        equal(w.value, x, 'a word that is changed changes no other')


def constant_base():
    d, = integers(('d', 48))
    c = instruction.Constant('ANY', d)
    equal(c.value, d, 'value of the constant')
    other = instruction.Constant('ANY', 5)
    equal(c.value, d, 'another constant changes nothing')
    equal(other.value, 5, 'value of the other constant')
    verdict(attempt(instruction.Constant, 'ANY', -1), False, 'constant')
    verdict(attempt(instruction.Constant, 'ANY', 1 << 48), False, 'constant')
