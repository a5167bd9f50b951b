"""C29: objects made by separate calls share nothing that can change."""
from verif import *
from harness_common import *
from h800 import (arguscard, bitfield, instruction, instructions, memory,
                  punchcard, registers, symbol_table, word)


def fields():
    v, = integers(('v', 8))
    a = bitfield.BitField(v)
    b = bitfield.BitField(v)
    c = bitfield.BitField(v, 8, 3, 0)
    a.indices
    b.indices
    a[3] = 1
    b.set()
    repr(a)
    repr(b)
    apart(a, b, 'two bit-fields')
    apart(a, c, 'two bit-fields')
    apart(a.indices, b.indices, 'the positions of two bit-fields')


def words():
    v, = integers(('v', 8))
    a, b = word.Word(v), word.Word(v)
    a.value = 5
    b.value = 5
    apart(a, b, 'two words')
    a = word.InstructionWord(1, 2, 3, v)
    b = word.InstructionWord(1, 2, 3, v)
    a.b = 7
    b.command = 9
    apart(a, b, 'two instruction words')
    a, b = word.Word(), word.Word()
    apart(a, b, 'two words')
    a, b = word.InstructionWord(), word.InstructionWord()
    apart(a, b, 'two instruction words')


def banks():
    a, b = memory.MemoryBank(), memory.MemoryBank()
    a[3] = 7
    a.clear()
    b.clear()
    apart(a, b, 'two banks')
    apart(a[3:5], b[3:5], 'slices of two banks')
    n = 0
    for w in a:
        n = n + 1
        if n == 4:
            first = w
        elif n == 5:
            apart(first, w, 'two words of a bank')
            break


def modules(expansion):
    cls = memory.ExpansionMemoryModule if expansion else memory.MemoryModule
    a, b = cls(), cls()
    a[1][5] = 7
    apart(a, b, 'two modules')
    apart(a[0], a[1], 'two banks of a module')
    apart(a[2], a[3], 'two banks of a module')
    apart(a[0], a[3], 'two banks of a module')


def register(w):
    v, = integers(('v', 8))
    a = registers.Register(v, 'X0', w)
    b = registers.Register(v, 'X0', w)
    a.value = 1
    b[3] = 1
    a.clear()
    b.clear()
    apart(a, b, 'two registers')
    apart(registers.Register(), registers.Register(), 'two registers')


def group(w):
    a, b = registers.RegisterGroup(w), registers.RegisterGroup(w)
    a['X1'].value = 5
    a.clear()
    b.clear()
    repr(a)
    for r in a:
        r.clear()
    apart(a, b, 'two register groups')
    for i in range(31):
        apart(a[i], a[i + 1], 'two registers of a group')


def regset(w):
    a, b = registers.Registers(w), registers.Registers(w)
    a[1]['X1'].value = 5
    a.clear()
    b.clear()
    for g in a:
        break
    apart(a, b, 'two register sets')
    for i in range(7):
        apart(a[i], a[i + 1], 'two groups of a set')
        apart(a[i][3], a[i + 1][3], 'two registers of a set')


CLASSES = (instructions.DecimalMultiply, instructions.MultipleTransfer,
           instructions.Extract, instructions.PrintOctal,
           instructions.FloatingBinaryAdd)


def instruction_objects():
    s, x = integers(('s', 1), ('x', 1))
    for cls in CLASSES:
        a, b = cls(s, x, 0, 1), cls(s, x, 0, 1)
        apart(a.data, b.data, 'the codes of two instructions')
        apart(a, b, 'two instructions')
    m, = integers(('m', 5))
    a = instruction.GeneralMasked(instructions.OPCODES['BA'], s, m)
    b = instruction.GeneralMasked(instructions.OPCODES['BA'], s, m)
    apart(a, b, 'two instructions')
    a = instructions.ReadForward(m)
    b = instructions.ReadForward(m)
    apart(a, b, 'two instructions')
    a, b = instructions.OctalConstant(m), instructions.OctalConstant(m)
    apart(a, b, 'two constants')


def cards(argus):
    """Two cards, of the same text as well."""
    cls = arguscard.Card if argus else punchcard.PunchCard
    x, y = text('x', 'rawline'), text('y', 'rawline')
    assume(not x.startswith('#'))
    assume(not y.startswith('#'))
    a, b, c = cls(x), cls(y), cls(x)
    if argus:
        a.parse()
    d, e = cls(x, linenum=3, filename='f'), cls(x, linenum=3, filename='f')
    apart(a, b, 'two cards')
    apart(a, c, 'two cards of the same text')
    apart(d, e, 'two cards of the same text')
    for p, q in ((a, b), (a, c), (d, e)):
        apart(p.fields, q.fields, 'the fields of two cards')
        apart(p.strippedFields, q.strippedFields,
              'the stripped fields of two cards')
        apart(p.record, q.record, 'the records of two cards')
        apart(p.layout, q.layout, 'the layouts of two cards')


def decks(argus):
    cls = arguscard.Deck if argus else punchcard.Deck
    x, y = text('x', 'rawline'), text('y', 'rawline')
    a = cls(lines=[x, 'L      *SECTION'])
    b = cls(lines=[y, x])
    c = cls(lines=[x, 'L      *SECTION'])
    str(a)
    str(c)
    parts(a, b)
    parts(a, c)
    assume(not x.startswith('#'))
    apart(b.cards[0], b.cards[-1], 'two cards of a deck') \
        if len(b.cards) == 2 else None


def parts(a, b):
    apart(a, b, 'two decks')
    apart(a.cards, b.cards, 'the cards of two decks')
    apart(a.lines, b.lines, 'the lines of two decks')
    apart(a.fields, b.fields, 'the fields of two decks')
    apart(a.strippedFields, b.strippedFields,
          'the stripped fields of two decks')
    apart(a.records, b.records, 'the records of two decks')


def decks_file(argus):
    """Two decks of one file, and the cards of a file included twice."""
    cls = arguscard.Deck if argus else punchcard.Deck
    x = text('x', 'card')
    assume('\n' not in x)
    assume(not x.startswith('$'))
    assume(not x.startswith('#'))
    file('f.argus', [x + '\n', '$g\n', '$g\n'])
    file('g', ['       A\n'])
    a, b = cls(file='f.argus'), cls(file='f.argus')
    parts(a, b)
    if len(a.cards) == 3:
        apart(a.cards[1], a.cards[2], 'cards of two inclusions')
        apart(a.cards[0], a.cards[1], 'two cards of a deck')


def tables():
    """Symbol tables of one source built twice."""
    x = text('x', 'card')
    assume('\n' not in x)
    assume(not x.startswith('$'))
    file('f.argus', [x + '\n', '        A          BA\n'])
    s, _ = symbol_table.buildSymbolTable('f.argus', {})
    t, _ = symbol_table.buildSymbolTable('f.argus', {})
    apart(s, t, 'two symbol tables')
    symbol_table.checkSymbolTable(s, complexOnlyError=True)
    symbol_table.checkSymbolTable(t, complexOnlyError=True)
    apart(symbol_table.getAbsoluteSymbols(s),
          symbol_table.getAbsoluteSymbols(t),
          'the absolute symbols of two tables')
    apart(symbol_table.findSymbolDef(s, 'A', begin=True),
          symbol_table.findSymbolDef(s, 'A', begin=True),
          'the results of two searches')
    apart(s, t, 'two symbol tables')


def assembler_tables():
    a, b = symbol_table.SymbolTable(), symbol_table.SymbolTable()
    for t in (a, b):
        t.add('A', 'f', 1)
        t.add('B', 'f', 2, value=3, symtype='absolute')
        t.update('A', 5, 'absolute')
        t.lookup('A').addReference(3)
        t.pruneUndefines()
    apart(a, b, 'two assembler symbol tables')
    apart(a.lookup('A'), a.lookup('B'), 'two entries')
    apart(a.lookup('A').references, a.lookup('B').references,
          'the references of two entries')
    e = symbol_table.SymbolTableEntry('A')
    f = symbol_table.SymbolTableEntry('A')
    e.addReference(1)
    f.addReference(1)
    apart(e, f, 'two entries')
