"""C21-C24: symbol tables."""
from verif import *
from harness_common import *
from h800 import arguscard
from h800 import symbol_table as st


def strip_or_none(s):
    s = s.strip()
    if s == '':
        return None
    return s


class Def:
    """A definition in the reference model."""
    def __init__(self, name, seg, sub, kind, file, line, lognum, tag, op,
                 a, b, c):
        self.name, self.seg, self.sub, self.kind = name, seg, sub, kind
        self.file, self.line, self.lognum, self.tag = file, line, lognum, tag
        self.op, self.a, self.b, self.c = op, a, b, c


def same_place(d, name, seg, sub, kind):
    return d.name == name and d.seg == seg and d.sub == sub and d.kind == kind


class Model:
    """What the statement says, over a plain list of definitions."""
    def __init__(self, seg, defs):
        self.seg = seg
        self.defs = list(defs)
        self.sub = '1'
        self.reports = []
        self.errors = 0
        self.ignored = 0
        self.skipped = 0

    def report(self, text):
        self.reports.append('*** ERROR: Symbol ' + text)
        self.errors = self.errors + 1

    def card(self, line, filename, num):
        if line.startswith('#'):
            self.skipped = self.skipped + 1
            return
        line = line.replace('\n', '')
        col1 = line[0:1].strip()
        special = col1 == 'P' or col1 == 'R' or col1 == 'L'
        if line[7:8].strip() == '*':
            self.skipped = self.skipped + 1
            return
        label = strip_or_none(line[8:19])
        op = strip_or_none(line[19:32])
        if special:
            label = None
            op = None
        if op is not None and op.startswith('SETLOC'):
            if ',' in op:
                self.sub = op.split(',')[1].strip()
            else:
                self.sub = '0'
        if label is None:
            self.skipped = self.skipped + 1
            return
        name = label.replace(' ', '')
        tag = ' '
        if name.upper() != name:
            self.report(name + ' is ill-formed (case)!')
            return
        whole = name
        if name.count(',') > 1:
            self.report(whole + ' is illegal, too many commas!')
            return
        if ',' in name:
            tag = whole.split(',')[0]
            name = whole.split(',')[1]
            if tag not in ('B', 'F', 'L', 'S', 'X', 'Z'):
                self.report(whole + ' is ill-formed (tag prefix)!')
                return
            if tag == 'L' or tag == 'X':
                self.report(whole + ' has unsupported tag prefix!')
                return
        if op is None:
            self.report(whole + ' has no operation!')
            return
        kind = 'complex' if op == 'ASSIGN' else 'simple'
        a = strip_or_none(line[32:46])
        b = strip_or_none(line[46:60])
        c = strip_or_none(line[60:75])
        old = None
        for d in self.defs:
            if same_place(d, name, self.seg, self.sub, kind):
                old = d
        if old is None:
            new = Def(name, self.seg, self.sub, kind, filename, num,
                      strip_or_none(line[1:7]), tag, op, a, b, c)
            new.text = line
            self.defs.append(new)
        elif op == 'EQUALS' and old.op == 'EQUALS' and a == old.a and \
                b == old.b and c == old.c:
            self.ignored = self.ignored + 1
        else:
            self.report(name + ' is multiply-defined!')


def earlier(n):
    """A table with one arbitrary definition from before."""
    if n == 0:
        return {}, []
    line = text('old', 'card')
    assume(not line.startswith('#'))
    assume('\n' not in line)
    card = arguscard.Card(line, filename='before', linenum=77)
    assume(card.operation is not None)
    name, seg = text('oldname', 'text'), text('oldseg', 'text')
    sub = text('oldsub', 'text')
    kind = choice('oldkind', ('simple', 'complex'))
    entry = {'file': 'before', 'line': 77, 'lognum': card.lognum,
             'tagtype': ' ', 'card': card}
    table = {name: {seg: {sub: {kind: entry}}}}
    d = Def(name, seg, sub, kind, 'before', 77, card.lognum, ' ',
            card.operation, card.operand1, card.operand2, card.operand3)
    return table, [d]


def count(table):
    n = 0
    for name in table:
        for seg in table[name]:
            for sub in table[name][seg]:
                n = n + len(table[name][seg][sub])
    return n


def reports(since):
    out = []
    for line in output_lines('stderr', since):
        if line.startswith('*** ERROR'):
            out.append(line)
    return out


def check_reports(got, want):
    equal(len(got), len(want), 'one report per error')
    for i in range(len(want)):
        if i < len(got):
            equal(got[i], want[i], 'a report names symbol and reason')


def build(shape, before):
    """shape: one letter per card: a arbitrary, others in lines_of."""
    lines, deck = [], []
    filename = 'prog.x.argus'
    included = False
    for i in range(len(shape)):
        if shape[i] == '$':
            # the next card is in an included file
            included = True
            continue
        line = line_of(shape[i], i)
        if included:
            file('inc%d.y.argus' % i, ['# included\n', line + '\n'])
            lines.append('$inc%d.y.argus' % i)
            deck.append((line, 'inc%d.y.argus' % i, 2))
            included = False
        else:
            lines.append(line)
            deck.append((line, filename, len(lines)))
    table, defs = earlier(before)
    file(filename, [x + '\n' for x in lines])
    model = Model('prog', defs)
    for line, name, num in deck:
        model.card(line, name, num)
    m0 = mark()
    result = st.buildSymbolTable(filename, table)
    return table, model, result, m0


def line_of(kind, i):
    """A card in a file: a is arbitrary; digits are cards out of a set."""
    if kind == 'a':
        s = text('card%d' % i, 'card')
        assume('\n' not in s)
        assume(not s.startswith('$'))
        return s
    return choice('card%d' % i, SETS[int(kind)])


def cards(labels, ops, addresses):
    out = []
    for label in labels:
        for op in ops:
            for a in addresses:
                out.append(one(label, op, a))
    return out


def one(label, op, a, col8=' ', col1=' '):
    return '%s12    %s%-11s%-13s%-14s%-14s%-15s' % (col1, col8, label, op,
                                                    a[0], a[1], a[2])


X = ('X', '', 'Z')
# sets of cards from which decks of some length are made; each set is meant
# to exercise one part of the statement in every order
SETS = (
    # 0: definitions and redefinitions of two symbols
    cards(('A', 'B'), ('BA', 'ASSIGN', 'EQUALS'), (X,)),
    # 1: EQUALS with addresses that differ in one place each
    cards(('A',), ('EQUALS',), (X, ('Y', '', 'Z'), ('X', 'Y', 'Z'),
                                ('X', '', ''))) +
    cards(('B,A',), ('EQUALS', 'ASSIGN', 'BA'), (X,)),
    # 2: subsegments
    cards(('', 'A'), ('SETLOC', 'SETLOC,2', 'SETLOC, 1', 'SETLOC,0'), (X,)) +
    cards(('A',), ('BA', 'ASSIGN', 'SETLOC A,3'), (X,)) +
    cards(('',), ('SETLOCX', 'SETLOC ,2,1', 'XSETLOC,5', 'SETLOC,'), (X,)),
    # 3: errors and cards that do not count
    cards(('a', 'A,B,C', 'Q,A', 'L,A', 'X,A', 'A B', 'F,A', 'AB'),
          ('BA', ''), (X,)) +
    [one('A', 'BA', X, '*'), one('A', 'SETLOC,3', X, '*'),
     one('A', 'BA', X, ' ', 'R'), one('', 'BA', X), '#      X   A',
     one('a', 'SETLOC,3', X), one('SEG', 'SETLOC,3', X, ' ', 'P')],
    # 4: everything, few of each
    [one('A', 'BA', X), one('A', 'ASSIGN', X), one('A', 'EQUALS', X),
     one('S,A', 'EQUALS', X), one('A', 'EQUALS', ('Y', '', 'Z')),
     one('', 'SETLOC,2', X), one('A', 'SETLOC', X), one('A b', 'BA', X),
     one('A', '', X), one('A', 'BA', X, '*'), one('B', 'BA', X),
     one('A', 'EQUALS,1', X), one('A', 'ASSIGN,1', X),
     one('A', 'RESERVE', X), one('Z,A', 'ASSIGN', X), '#'],
    # 5: long names that differ only at one end
    cards(('ABCDEFGHIJK', 'ABCDEFGHIJL', 'ABCDEFGH', 'BBCDEFGHIJK',
           'S,ABCDEFGHI', 'A2', 'A10'), ('ASSIGN', 'EQUALS'), (X,)),
)


def files(kind, n, m):
    """C21, C22: two files, one after the other, in one table."""
    a, b = [], []
    for i in range(n):
        a.append(choice('first%d' % i, SETS[kind]))
    for i in range(m):
        b.append(choice('second%d' % i, SETS[kind]))
    file('one.argus', [x + '\n' for x in a])
    file('two', [x + '\n' for x in b])
    table = {}
    defs = []
    for name, seg, lines in (('one.argus', 'one', a), ('two', 'two', b),
                             ('one.argus', 'one', a)):
        model = Model(seg, defs)
        for i in range(len(lines)):
            model.card(lines[i], name, i + 1)
        m0 = mark()
        result = st.buildSymbolTable(name, table)
        equal(result[1], model.errors, 'the count is the number of errors')
        check_reports(reports(m0), model.reports)
        same(result[0], table, 'the table passed in is returned')
        check_table(table, model)
        defs = model.defs


FILENAMES = ('_a.argus', 'a.b.c.d', './x.argus', 'X', 'x-1.argus', 'dir/y.argus',
             '.hidden', 'a b.argus', 'UPPER.ARGUS', '12.argus', 'l_o_n_g_name',
             'name-that-is-quite-a-bit-longer-than-eight.argus', 'a..b',
             '/abs/path.argus', '../up/z.argus', 'x.', 'SEG$1.argus',
             '-x.argus', 'd.d/file.argus', '~u.argus', 'x_', 'a,b.argus',
             'argus.argus', 'argus', 'prog.py', '\u00e9t\u00e9.argus')


def filenames(k, which):
    """C21, C22: the segment is the file name up to the first dot."""
    table, defs = {}, []
    for name in (FILENAMES[k], FILENAMES[(k + 7) % len(FILENAMES)],
                 FILENAMES[k]):
        lines = [choice('%s0' % name, SETS[4]), one('C1', 'BA', X),
                 one('', 'SETLOC,7', X), one('C1', 'ASSIGN', X)]
        file(name, [x + '\n' for x in lines])
        model = Model(name.split('.')[0], defs)
        for i in range(len(lines)):
            model.card(lines[i], name, i + 1)
        m0 = mark()
        result = st.buildSymbolTable(name, table)
        if which == 'accounting':
            equal(result[1], model.errors, 'the count is the number of errors')
            check_reports(reports(m0), model.reports)
        else:
            same(result[0], table, 'the table passed in is returned')
            check_table(table, model)
        defs = model.defs


def accounting(shape, before):
    """C21"""
    table, model, result, m0 = build(shape, before)
    equal(result[1], model.errors, 'the count is the number of errors')
    check_reports(reports(m0), model.reports)
    equal(count(table), len(model.defs), 'exactly the others are entered')
    equal(count(table) - before + model.errors + model.ignored +
          model.skipped, len(shape) - shape.count('$'),
          'every card is accounted for')


def placement(shape, before):
    """C22"""
    table, model, result, m0 = build(shape, before)
    same(result[0], table, 'the table passed in is returned')
    check_table(table, model)


def check_table(table, model):
    equal(count(table), len(model.defs), 'nothing else is filed')
    for d in model.defs:
        require(filed(table, d), 'a definition is filed in its place')
        if filed(table, d):
            e = table[d.name][d.seg][d.sub][d.kind]
            equal(e['file'], d.file, 'file of the definition')
            equal(e['line'], d.line, 'line of the definition')
            equal(e['lognum'], d.lognum, 'log number of the definition')
            equal(e['tagtype'], d.tag, 'tag prefix of the definition')
            equal(e['card'].linenum, d.line, 'card of the definition')
            equal(e['card'].operation, d.op, 'card of the definition')
            equal(e['card'].addressa, d.a, 'card of the definition')
            equal(e['card'].filename, d.file, 'card of the definition')


def filed(table, d):
    return d.name in table and d.seg in table[d.name] and \
        d.sub in table[d.name][d.seg] and \
        d.kind in table[d.name][d.seg][d.sub]


# ---- C23
NAMES = ('BA', 'A', 'Z', 'AB', 'a')
SEGS = ('t', 's')
SUBS = ('10', '2')
KINDS = ('simple', 'complex')


def some_table(names, segs, subs, which=''):
    """A table with any set of definitions in these places, in an order that
    is not sorted, with or without empty places."""
    table = {}
    have = []
    for name in NAMES[:names]:
        if flag(which + 'name ' + name):
            table[name] = {}
            for seg in SEGS[:segs]:
                if flag(which + 'seg %s %s' % (name, seg)):
                    table[name][seg] = {}
                    for sub in SUBS[:subs]:
                        if flag(which + 'sub %s %s %s' %
                                (name, seg, sub)):
                            table[name][seg][sub] = {}
                            for kind in KINDS:
                                key = (name, seg, sub, kind)
                                if flag(which + 'def %s %s %s %s' % key):
                                    e = {'file': name + seg, 'line': 1,
                                         'lognum': sub, 'tagtype': ' ',
                                         'card': None}
                                    table[name][seg][sub][kind] = e
                                    have.append((key, e))
    return table, have


def copy_of(table):
    out = {}
    for a in table:
        out[a] = {}
        for b in table[a]:
            out[a][b] = {}
            for c in table[a][b]:
                out[a][b][c] = {}
                for k in table[a][b][c]:
                    out[a][b][c][k] = dict(table[a][b][c][k])
    return out


def has_kind(have, name, kind):
    for key, e in have:
        if key[0] == name and key[3] == kind:
            return True
    return False


def all_output(since):
    return output_lines('stderr', since) + output_lines('stdout', since)


def check_query(names, segs, subs):
    """checkSymbolTable"""
    table, have = some_table(names, segs, subs)
    before = copy_of(table)
    for strict in (True, False, None):
        want = []
        lines = []
        for name in sorted(NAMES[:names]):
            if strict and has_kind(have, name, 'complex') and \
                    not has_kind(have, name, 'simple'):
                want.append(name)
                lines.append('ERROR: symbol "%s" has a complex assignment, '
                             'but no simple assignment!' % name)
        m0 = mark()
        if strict is None:
            got = st.checkSymbolTable(table)
        else:
            got = st.checkSymbolTable(table, complexOnlyError=strict)
        equal(got, want, 'the symbols without simple definition')
        equal(output_lines('stderr', m0), lines, 'each reported once')
        equal(table, before, 'the query does not change the table')


def absolute_query(names, segs, subs):
    """getAbsoluteSymbols"""
    table, have = some_table(names, segs, subs)
    before = copy_of(table)
    want = []
    for name in sorted(NAMES[:names]):
        if has_kind(have, name, 'simple'):
            want.append(name)
    got = st.getAbsoluteSymbols(table)
    equal(got, want, 'the symbols with a simple definition')
    equal(table, before, 'the query does not change the table')


def exact_query(names, segs, subs):
    """findSymbolDef, exact"""
    table, have = some_table(names, segs, subs)
    before = copy_of(table)
    name = text('wanted', 'text')
    kind = choice('kind', (None, 'simple', 'complex', 'Simple'))
    m0 = mark()
    got = st.findSymbolDef(table, name, symtype=kind)
    lines = all_output(m0)
    found = False
    for n in NAMES[:names]:
        if n in table and n == name and (
                kind is None or has_kind(have, n, kind)):
            found = True
            same(got, table[n], 'the definitions of the name')
    if found:
        equal(lines, [], 'no report')
    else:
        equal(got, None, 'an unknown symbol gives None')
        equal(lines, ['ERROR: Undefined symbol "%s"!' % name],
              'one error report')
    equal(table, before, 'the query does not change the table')


def partial_query(names, begin, end):
    """findSymbolDef, begin and end"""
    table, have = some_table(names, 1, 1)
    before = copy_of(table)
    name = text('wanted', 'text')
    m0 = mark()
    got = st.findSymbolDef(table, name, begin=begin, end=end)
    lines = all_output(m0)
    want = []
    for n in sorted(NAMES[:names]):
        if n in table and ((begin and n.startswith(name)) or
                           (end and n.endswith(name))):
            want.append(n)
    if begin and end:
        # a name that has the text at both ends may come twice
        for n in NAMES[:names]:
            equal(n in got, n in want, 'the names that match')
        equal(got, sorted(got), 'sorted')
        for n in got:
            require(n in want, 'only names that match')
    else:
        equal(got, want, 'the names that match')
    equal(lines, [], 'no report')
    equal(table, before, 'the query does not change the table')


def queries_again(names):
    """The same questions about another table, and about a changed one."""
    one, have1 = some_table(names, 1, 1)
    two, have2 = some_table(names, 1, 1, 'other ')
    pool = NAMES[:names]
    for table, have, changed in ((one, have1, False), (two, have2, False),
                                 (one, have1, True)):
        if changed:
            # a name more, a name less
            table['Q'] = {'s': {'1': {'complex': {}}}}
            have.append((('Q', 's', '1', 'complex'), None))
            if 'A' in table:
                del table['A']
            have = [x for x in have if x[0][0] != 'A']
            pool = pool + ('Q',)
        bad, good = [], []
        for n in sorted(pool):
            if has_kind(have, n, 'simple'):
                good.append(n)
            elif has_kind(have, n, 'complex'):
                bad.append(n)
        equal(st.checkSymbolTable(table, complexOnlyError=True), bad,
              'the symbols without simple definition')
        equal(st.getAbsoluteSymbols(table), good,
              'the symbols with a simple definition')
        for n in pool:
            got = st.findSymbolDef(table, n)
            if n in table:
                same(got, table[n], 'the definitions of the name')
            else:
                equal(got, None, 'an unknown symbol gives None')
            got = st.findSymbolDef(table, n, begin=True)
            equal(got, [x for x in sorted(table) if x.startswith(n)],
                  'the names that begin with it')


# ---- C24
class Entry:
    def __init__(self, name, value, kind, file, line, seg, sub):
        self.name, self.value, self.kind = name, value, kind
        self.file, self.line, self.seg, self.sub = file, line, seg, sub


class Table:
    """What the statement says about the class."""
    def __init__(self):
        self.entries = []
        self.undefs = []

    def find(self, name):
        for e in self.entries:
            if e.name == name:
                return e
        return None

    def add(self, name, file, line, value, kind, seg, sub):
        """Whether the name is new."""
        if self.find(name) is not None:
            return False
        self.entries.append(Entry(name, value, kind, file, line, seg, sub))
        if value is None:
            self.undefs.append(name)
        return True

    def update(self, name, value, kind):
        e = self.find(name)
        if e is None:
            return False
        e.value, e.kind = value, kind
        return True

    def prune(self):
        keep = []
        for n in self.undefs:
            if self.find(n).value is None:
                keep.append(n)
        self.undefs = keep


def a_value(i):
    n = integer('value%d' % i, 6)
    v = n
    if flag('novalue%d' % i):
        v = None
    return v


def check_class(t, m, names):
    equal(t.getNumSymbols(), len(m.entries), 'the number of entries')
    equal(t.getNumUndefs(), len(m.undefs), 'the number of undefined names')
    equal(t.undefines, m.undefs, 'the undefined names, in order')
    equal(len(t.symbols), len(m.entries), 'nothing else is in the table')
    for n in names:
        e = m.find(n)
        got = t.lookup(n)
        if e is None:
            equal(got, None, 'an unknown name is not found')
            require(n not in t.symbols, 'an unknown name is not there')
        else:
            require(got is not None, 'a known name is found')
            same(got, t.symbols[n], 'lookup returns the entry')
            if got is not None:
                check_entry(got, e)


def check_entry(got, e):
    equal(got.name, e.name, 'name of the entry')
    equal(got.value, e.value, 'value of the entry')
    equal(got.file, e.file, 'file of the entry')
    equal(got.line, e.line, 'line of the entry')
    equal(got.segment, e.seg, 'segment of the entry')
    equal(got.subsegment, e.sub, 'subsegment of the entry')
    equal(got.references, [], 'no references yet')
    equal(got.isValid(), e.value is not None, 'valid when it has a value')
    equal(got.isAbsolute(), e.value is not None and e.kind == 'absolute',
          'absolute when it has an absolute value')
    equal(got.isComplex(), e.value is not None and e.kind != 'absolute',
          'complex when it has another value')
    require(not got.isMultiple(), 'never both')


TYPES = ('absolute', 'complex', None)


def history(steps, names):
    """Any sequence of operations: one letter each, a add, u update, p prune,
    r resolve, ? any of them."""
    t = st.SymbolTable()
    m = Table()
    pool = NAMES[:names]
    for i in range(len(steps)):
        m0 = mark()
        op = steps[i]
        if op == '?':
            op = choice('op%d' % i, ('a', 'u', 'p', 'r'))
        name = choice('name%d' % i, pool)
        value = a_value(i)
        kind = choice('kind%d' % i, TYPES)
        if op == 'a':
            t.add(name, 'file%d' % i, i + 3, value, kind, 'seg%d' % i,
                  'sub%d' % i)
            new = m.add(name, 'file%d' % i, i + 3, value, kind,
                        'seg%d' % i, 'sub%d' % i)
            if new:
                equal(all_output(m0), [], 'no report')
            else:
                equal(all_output(m0), ['ERROR: Symbol "%s" already defined!'
                                       % name], 'one error report')
        elif op == 'u':
            t.update(name, value, kind)
            known = m.update(name, value, kind)
            if known:
                equal(all_output(m0), [], 'no report')
            else:
                equal(all_output(m0), ['ERROR: Symbol "%s" not defined!'
                                       % name], 'one error report')
        elif op == 'p':
            t.pruneUndefines()
            m.prune()
        else:
            t.resolve()
            m.prune()
        check_class(t, m, pool)


def history_any(steps):
    """The same for arbitrary names."""
    t = st.SymbolTable()
    m = Table()
    pool = []
    for i in range(len(steps)):
        name = text('name%d' % i, 'text')
        assume(name != '')
        pool.append(name)
        value = a_value(i)
        kind = text('kind%d' % i, 'text')
        if steps[i] == 'a':
            t.add(name, 'file%d' % i, i + 3, value, kind, 'seg%d' % i,
                  'sub%d' % i)
            m.add(name, 'file%d' % i, i + 3, value, kind, 'seg%d' % i,
                  'sub%d' % i)
        elif steps[i] == 'u':
            t.update(name, value, kind)
            m.update(name, value, kind)
        elif steps[i] == 'p':
            t.pruneUndefines()
            m.prune()
        else:
            t.resolve()
            m.prune()
    check_class(t, m, pool)


def two_tables(steps):
    """Operations on two tables in turn."""
    ts = (st.SymbolTable(), st.SymbolTable())
    ms = (Table(), Table())
    pool = NAMES[:2]
    for i in range(steps):
        t, m = ts[i % 2], ms[i % 2]
        op = choice('op%d' % i, ('a', 'u', 'p', 'r'))
        name = choice('name%d' % i, pool)
        value = a_value(i)
        if op == 'a':
            t.add(name, 'file', i, value, 'absolute', 'seg', 'sub')
            m.add(name, 'file', i, value, 'absolute', 'seg', 'sub')
        elif op == 'u':
            t.update(name, value, 'complex')
            m.update(name, value, 'complex')
        elif op == 'p':
            t.pruneUndefines()
            m.prune()
        else:
            t.resolve()
            m.prune()
        check_class(ts[0], ms[0], pool)
        check_class(ts[1], ms[1], pool)


def class_defaults():
    """What is not given, and tables do not share anything."""
    t = st.SymbolTable()
    t.add('A', 'f', 1)
    e = t.lookup('A')
    equal(e.value, None, 'no value')
    equal(e.segment, None, 'no segment')
    equal(e.subsegment, None, 'no subsegment')
    u = st.SymbolTable()
    equal(u.getNumSymbols(), 0, 'a new table is empty')
    equal(u.getNumUndefs(), 0, 'a new table has no undefined names')
    u.add('A', 'g', 2, 5, 'absolute')
    equal(t.lookup('A').value, None, 'tables are independent')
    equal(t.lookup('A').file, 'f', 'tables are independent')
    t.lookup('A').addReference('x')
    equal(u.lookup('A').references, [], 'entries are independent')
    equal(t.lookup('A').references, ['x'], 'references are kept')
    n, = integers(('n', 4))
    r = choice('ref', ('', None, 'x', 'y'))
    t.lookup('A').addReference(n)
    t.lookup('A').addReference(r)
    t.update('A', 4, 'absolute')
    equal(t.lookup('A').references, ['x', n, r],
          'all references are kept, in order')
    equal(u.lookup('A').references, [], 'entries are independent')


def passes():
    """Resolving stops when nothing is left or no progress is made."""
    t = st.SymbolTable()
    for n in NAMES:
        t.add(n, 'f', 1)
    left = []
    for n in NAMES:
        if flag('update ' + n):
            t.update(n, 5, choice('kind ' + n, TYPES))
        else:
            left.append(n)
    m0 = mark()
    limit = choice('limit', (1, 2, 3, 10))
    t.resolve(limit)
    equal(t.undefines, left, 'the undefined names, in order')
    n = 0
    for line in all_output(m0):
        if line.startswith('Symbol pass'):
            n = n + 1
    want = 1
    if 0 < len(left) < len(NAMES) or len(left) == 0:
        want = min(limit, 2)
    equal(n, want, 'resolving stops when none is left or without progress')
