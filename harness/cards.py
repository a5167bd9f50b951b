"""C17-C20: punch cards, ARGUS cards, decks."""
from verif import *
from harness_common import *
from h800 import punchcard, arguscard

COLUMNS = (1, 2, 8, 9, 20, 33, 47, 61, 76, 81)
NAMES = ('column1', 'lognum', 'column8', 'label', 'operation', 'operand1',
         'operand2', 'operand3', 'misc', 'remarks')
LAYOUTS = (
    (COLUMNS, 120, NAMES),
    ((1,), 80, ('all',)),
    ((1, 2), 2, ('a', 'b')),
    ((1, 7, 73), 80, ('label', 'body', 'seq')),
    ((3, 4, 10, 11), 30, ('d', 'c', 'b', 'a')),
    ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), 12,
     ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l')),
    ((1, 41, 121), 200, ('x', 'y', 'z')),
    ((5, 10), 9, ('p', 'q')),
    ((1, 50, 95), 100, ('f', 'g', 'h')),
    ((1, 3, 81), 81, ('f', 'g', 'h')),
    ((1, 120), 120, ('f', 'g')),
    ((2,), 3, ('f',)),
    (COLUMNS, 80, NAMES),
    ((81, 100), 132, ('u', 'v')),
    ((1, 20, 21, 60), 64, ('zeta', 'alpha', 'mid', 'beta')),
    ((1, 9, 17, 25, 33, 41, 49, 57, 65, 73), 80, NAMES),
)


def substrings(s, columns, width):
    out = []
    for i in range(len(columns)):
        start = columns[i]
        if i == len(columns) - 1:
            end = width + 1
        else:
            end = columns[i + 1]
        if end < start:
            end = start
        out.append(s[start - 1:end - 1])
    return out


def blank_to_none(s):
    s = s.strip()
    if s == '':
        return None
    return s


def card(layout):
    """A card of a given layout."""
    columns, width, names = LAYOUTS[layout]
    line = text('line', 'rawline')
    name = text('name', 'filename')
    n, = integers(('n', 11, True))
    c = punchcard.PunchCard(line, width=width, fields=list(columns),
                            fieldnames=list(names), filename=name, linenum=n)
    check_card(c, line, columns, width, names, name, n)
    equal(punchcard._DEFAULT_FIELDS, list(COLUMNS),
          'the default layout is not changed')


def card_default():
    line = text('line', 'rawline')
    c = punchcard.PunchCard(line)
    check_card(c, line, COLUMNS, 120, NAMES, None, 0)
    d = punchcard.PunchCard(line, linenum=7, filename='f')
    check_card(d, line, COLUMNS, 120, NAMES, 'f', 7)
    check_card(c, line, COLUMNS, 120, NAMES, None, 0)


def card_two():
    """Two cards do not share anything."""
    a = text('a', 'rawline')
    b = text('b', 'rawline')
    c = punchcard.PunchCard(a, linenum=1)
    d = punchcard.PunchCard(b, linenum=2)
    check_card(c, a, COLUMNS, 120, NAMES, None, 1)
    check_card(d, b, COLUMNS, 120, NAMES, None, 2)


def card_after(first, second):
    """Cards of two layouts, one after the other."""
    a, b = text('a', 'rawline'), text('b', 'rawline')
    made = []
    for line, k, n in ((a, first, 3), (b, second, 4), (a, second, 0),
                       (b, first, 5)):
        columns, width, names = LAYOUTS[k]
        made.append((punchcard.PunchCard(
            line, width=width, fields=list(columns),
            fieldnames=list(names), filename='f%d' % n, linenum=n),
            line, columns, width, names, 'f%d' % n, n))
    for c, line, columns, width, names, name, n in made:
        check_card(c, line, columns, width, names, name, n)
    d = punchcard.PunchCard(a)
    check_card(d, a, COLUMNS, 120, NAMES, None, 0)


def check_card(c, line, columns, width, names, name, n):
    body = line.replace('\n', '')
    equal(c.line, body, 'the line without newlines')
    equal(str(c), body, 'text of the card')
    equal(c.filename, name, 'file name as given')
    equal(c.linenum, n, 'line number as given')
    if line.startswith('#'):
        require(c.isComment, 'a line with # is a comment')
        equal(c.comment, body, 'comment is the text')
        return
    require(not c.isComment, 'a line without # is no comment')
    require(c.comment is None, 'no comment')
    want = substrings(body, columns, width)
    equal(len(c.fields), len(columns), 'one field per column')
    equal(len(c.strippedFields), len(columns), 'one stripped field each')
    for i in range(len(columns)):
        equal(c.fields[i], want[i], 'field is the text of its columns')
        equal(c.strippedFields[i], blank_to_none(want[i]),
              'stripped field, or None')
        equal(c.record[names[i]], blank_to_none(want[i]),
              'record has the stripped field')
    if n != 0:
        equal(c.record['linenum'], n, 'record has the line number')
        equal(len(c.record), len(columns) + 1, 'record has nothing else')
    else:
        equal(len(c.record), len(columns), 'record has only the fields')
    if columns[0] == 1:
        equal(''.join(c.fields), body[:width], 'fields joined are the line')


def argus():
    line = text('line', 'rawline')
    name = text('name', 'filename')
    n, = integers(('n', 11, True))
    assume(not line.startswith('#'))
    c = arguscard.Card(line, filename=name, linenum=n)
    check_argus(c, line, n)
    equal(c.filename, name, 'file name as given')
    equal(c.linenum, n, 'line number as given')


def argus_default():
    line = text('line', 'rawline')
    assume(not line.startswith('#'))
    c = arguscard.Card(line)
    check_argus(c, line, 0)
    d = arguscard.Card('L      XOTHER', linenum=3)
    check_argus(c, line, 0)


def argus_two():
    """Two cards do not share anything."""
    a, b = text('a', 'rawline'), text('b', 'rawline')
    assume(not a.startswith('#'))
    assume(not b.startswith('#'))
    c = arguscard.Card(a, linenum=1)
    d = arguscard.Card(b, linenum=2)
    check_argus(c, a, 1)
    check_argus(d, b, 2)


def check_argus(c, line, n):
    body = line.replace('\n', '')
    f = substrings(body, COLUMNS, 120)
    v = []
    for x in f:
        v.append(blank_to_none(x))
    equal(c.line, body, 'the line without newlines')
    equal(c.column1, v[0], 'column 1')
    equal(c.lognum, v[1], 'log number')
    equal(c.column8, v[2], 'column 8')
    if v[0] == 'P' or v[0] == 'R' or v[0] == 'L':
        for x in (c.label, c.location, c.operation, c.operand1, c.addressa,
                  c.operand2, c.addressb, c.operand3, c.addressc,
                  c.sequence, c.instruction):
            require(x is None, 'P, R and L cards have no other fields')
        equal(c.remarks, body[8:].strip(), 'remarks from column 9')
    else:
        equal(c.label, v[3], 'label')
        equal(c.location, v[3], 'location')
        equal(c.operation, v[4], 'operation')
        equal(c.operand1, v[5], 'operand 1')
        equal(c.addressa, v[5], 'address A')
        equal(c.operand2, v[6], 'operand 2')
        equal(c.addressb, v[6], 'address B')
        equal(c.operand3, v[7], 'operand 3')
        equal(c.addressc, v[7], 'address C')
        equal(c.sequence, v[8], 'sequence column')
        equal(c.remarks, v[9], 'remarks')
        if v[4] is None:
            require(c.instruction is None, 'no operation, no instruction')
        elif ',' in v[4]:
            equal(c.instruction, v[4].split(',')[0].strip(),
                  'instruction is the operation up to its comma')
        else:
            equal(c.instruction, v[4], 'instruction is the operation')
    r = c.record
    equal(r['column1'], c.column1, 'record agrees')
    equal(r['lognum'], c.lognum, 'record agrees')
    equal(r['column8'], c.column8, 'record agrees')
    equal(r['label'], c.label, 'record agrees')
    equal(r['operation'], c.operation, 'record agrees')
    equal(r['operand1'], c.operand1, 'record agrees')
    equal(r['operand2'], c.operand2, 'record agrees')
    equal(r['operand3'], c.operand3, 'record agrees')
    equal(r['misc'], c.sequence, 'record agrees')
    equal(r['remarks'], c.remarks, 'record agrees')
    equal(r['instruction'], c.instruction, 'record agrees')
    for i in range(10):
        equal(c.fields[i], f[i], 'fields of the card')
        equal(c.strippedFields[i], v[i], 'stripped fields of the card')


# ---------------------------------------------------------------- decks

def check_deck(d, lines, argus_deck, log=True):
    """d is the deck of the given (line, file name, number) triples."""
    want = []
    for line, name, n in lines:
        if not line.startswith('#'):
            want.append((line.replace('\n', ''), name, n))
    equal(len(d.cards), len(want), 'one card per line')
    equal(len(d.fields), len(want), 'one list of fields per card')
    equal(len(d.strippedFields), len(want), 'one stripped list per card')
    equal(len(d.records), len(want), 'one record per card')
    for i in range(len(want)):
        body, name, n = want[i]
        c = d.cards[i]
        equal(c.line, body, 'cards are the lines in order')
        equal(c.linenum, n, 'number of the line')
        equal(c.filename, name, 'file of the line')
        f = substrings(body, COLUMNS, 120)
        equal(c.fields[3], f[3], 'card has the layout')
        equal(c.fields[9], f[9], 'card has the layout')
        same(d.fields[i], c.fields, 'fields are those of the card')
        same(d.strippedFields[i], c.strippedFields,
             'stripped fields are those of the card')
        same(d.records[i], c.record, 'records are those of the card')
        equal(c.record['linenum'], n, 'record has the number')
    text_equal(str(d), joined(want), 'text of the deck')
    if argus_deck and log:
        section = col8 = None
        found = False
        for body, name, n in want:
            if not found and body[0:1].strip() == 'L':
                found = True
                section = body[8:81].strip()
                col8 = blank_to_none(body[7:8])
        if found:
            equal(d.log_section, section, 'log section')
            equal(d.log_section_col8, col8, 'column 8 of the log section')
        else:
            require(d.log_section is None, 'no log section')
            require(d.log_section_col8 is None, 'no log section')


def joined(want):
    out = []
    first = True
    for body, name, n in want:
        if not first:
            out.append('\n')
        first = False
        out.append(body)
    return out


def deck_lines(n, argus_deck):
    lines = []
    for i in range(n):
        lines.append(text('line%d' % i, 'rawline'))
    keep = list(lines)
    if argus_deck:
        d = arguscard.Deck(lines=lines)
    else:
        d = punchcard.Deck(lines=lines)
    triples = []
    for i in range(n):
        triples.append((keep[i], None, i + 1))
    check_deck(d, triples, argus_deck)
    same(d.lines, lines, 'lines is the list given')
    equal(len(lines), n, 'the list is not changed')
    for i in range(n):
        equal(lines[i], keep[i], 'the list is not changed')


def deck_two(argus_deck):
    """Another deck changes nothing."""
    a = [text('a0', 'rawline'), text('a1', 'rawline')]
    b = [text('b0', 'rawline')]
    cls = arguscard.Deck if argus_deck else punchcard.Deck
    d = cls(lines=a)
    e = cls(lines=b, verbose=True)
    check_deck(d, [(a[0], None, 1), (a[1], None, 2)], argus_deck)
    check_deck(e, [(b[0], None, 1)], argus_deck)


def deck_layout(layout):
    """A deck with a layout of its own (and the names of the default one)."""
    columns, width, names = LAYOUTS[layout]
    line = text('line', 'rawline')
    d = punchcard.Deck(lines=['first', line], width=width,
                       fields=list(columns))
    assume(not line.startswith('#'))
    body = line.replace('\n', '')
    want = substrings(body, columns, width)
    equal(len(d.cards), 2, 'one card per line')
    for i in range(len(columns)):
        equal(d.fields[1][i], want[i], 'fields of the layout')
        equal(d.strippedFields[1][i], blank_to_none(want[i]),
              'stripped fields of the layout')


def deck_layout_file(layout):
    columns, width, names = LAYOUTS[layout]
    line = fileline('line')
    assume(not line.startswith('#'))
    file('main', ['#\n', '$one\n', line + '\n'])
    file('one', [line + '\n'])
    d = punchcard.Deck(file='main', width=width, fields=list(columns))
    body = line.replace('\n', '')
    want = substrings(body, columns, width)
    equal(len(d.cards), 2, 'one card per line')
    for k in range(2):
        for i in range(len(columns)):
            equal(d.fields[k][i], want[i], 'fields of the layout')
            equal(d.strippedFields[k][i], blank_to_none(want[i]),
                  'stripped fields of the layout')


def deck_long(argus_deck):
    """Numbers of lines far down."""
    lines = []
    for i in range(130):
        lines.append('#' if i % 3 == 0 else '       X%d' % i)
    lines[101] = text('line', 'rawline')
    triples = []
    for i in range(130):
        triples.append((lines[i], None, i + 1))
    d = (arguscard.Deck if argus_deck else punchcard.Deck)(lines=lines)
    check_deck(d, triples, False)


def deck_class():
    """The card class of a deck."""
    line = text('line', 'rawline')
    assume(not line.startswith('#'))
    d = punchcard.Deck(lines=[line], cardclass=arguscard.Card)
    check_argus(d.cards[0], line, 1)
    e = arguscard.Deck(lines=[line])
    check_argus(e.cards[0], line, 1)
    require(isinstance(e.cards[0], arguscard.Card), 'ARGUS deck, ARGUS card')


def deck_empty():
    d = punchcard.Deck(lines=[])
    equal(len(d.cards), 0, 'no lines, no cards')
    equal(str(d), '', 'no text')
    e = arguscard.Deck(lines=[])
    require(e.log_section is None, 'no log section')
    for cls in (punchcard.Deck, arguscard.Deck):
        equal(exits(cls), 'exit', 'a deck needs lines or a file')


def exits(f, *args, **kw):
    try:
        f(*args, **kw)
    except SystemExit as e:
        if e.code is None or e.code == 0:
            return 'exit without an error'
        return 'exit'
    return 'ok'


# ---------------------------------------------------------------- files

def plain(name):
    s = text(name, 'rawline')
    return s


def fileline(name):
    """A line of a file which is not an include."""
    s = text(name, 'line')
    assume(not s.startswith('$'))
    assume('\n' not in s)
    assume('\r' not in s)
    return s


def deck_file(n, argus_deck):
    lines = []
    for i in range(n):
        lines.append(fileline('line%d' % i))
    file('main', [x + '\n' for x in lines])
    m0 = mark()
    if argus_deck:
        d = arguscard.Deck(file='main')
    else:
        d = punchcard.Deck(file='main')
    triples = []
    for i in range(n):
        triples.append((lines[i], 'main', i + 1))
    check_deck(d, triples, argus_deck)
    equal(len(effects(m0)), 0, 'no file is written')
    check_lines(d)


def check_lines(d):
    equal(len(d.lines), len(d.cards), 'lines are those of the cards')
    for i in range(len(d.cards)):
        equal(d.lines[i], d.cards[i].line, 'lines are those of the cards')


def include_text(where, name):
    """The rest of an include line after the file name."""
    t = text(where, 'line')
    assume('\n' not in t)
    assume('\r' not in t)
    return name + ' ' + t


def deck_include(where, argus_deck, blank):
    """main includes one, which includes two, in some place."""
    a, b, c, d = fileline('a'), fileline('b'), fileline('c'), fileline('d')
    inc1 = '$' + (' ' if blank else '') + include_text('r1', 'one')
    inc2 = '$' + include_text('r2', 'dir/two')
    if where == 0:
        main = [inc1, a, b]
        one = [inc2, c]
        order = [('d', 'dir/two', 1), ('c', 'one', 2), ('a', 'main', 2),
                 ('b', 'main', 3)]
    elif where == 1:
        main = [a, inc1, b]
        one = [c, inc2]
        order = [('a', 'main', 1), ('c', 'one', 1), ('d', 'dir/two', 1),
                 ('b', 'main', 3)]
    elif where == 2:
        main = [a, inc2, inc1, b]
        one = [c]
        order = [('a', 'main', 1), ('d', 'dir/two', 1), ('c', 'one', 1),
                 ('b', 'main', 4)]
    else:
        # the same file twice is no circle
        main = [a, inc2, inc2, inc1]
        one = [inc2, b]
        order = [('a', 'main', 1), ('d', 'dir/two', 1), ('d', 'dir/two', 1),
                 ('d', 'dir/two', 1), ('b', 'one', 2)]
    file('main', [x + '\n' for x in main])
    file('one', [x + '\n' for x in one])
    file('dir/two', [d + '\n'])
    m0 = mark()
    if argus_deck:
        k = arguscard.Deck(file='main')
    else:
        k = punchcard.Deck(file='main')
    texts = {'a': a, 'b': b, 'c': c, 'd': d}
    check_deck(k, [(texts[x], n, i) for x, n, i in order], argus_deck,
               log=where == 1)
    equal(len(effects(m0)), 0, 'no file is written')
    check_lines(k)


def deck_again(argus_deck):
    """A deck shows the files as they are when it is built."""
    a, b, c, d = fileline('a'), fileline('b'), fileline('c'), fileline('d')
    cls = arguscard.Deck if argus_deck else punchcard.Deck
    file('main', [a + '\n', '$one\n', b + '\n'])
    file('one', [c + '\n'])
    j = cls(file='main')
    file('one', [d + '\n', c + '\n'])
    k = cls(file='main')
    file('main', ['$one\n'])
    m = cls(file='main')
    e = cls(file='one')
    check_deck(j, [(a, 'main', 1), (c, 'one', 1), (b, 'main', 3)], argus_deck)
    check_deck(k, [(a, 'main', 1), (d, 'one', 1), (c, 'one', 2),
                   (b, 'main', 3)], argus_deck)
    check_deck(m, [(d, 'one', 1), (c, 'one', 2)], argus_deck)
    check_deck(e, [(d, 'one', 1), (c, 'one', 2)], argus_deck)
    check_lines(j)
    check_lines(k)
    check_lines(m)


def deck_missing(where):
    a, b = fileline('a'), fileline('b')
    inc = '$' + include_text('r', 'gone')
    m0 = mark()
    if where == 0:
        f = 'gone'
    elif where == 1:
        file('main', [a + '\n', inc + '\n', b + '\n'])
        f = 'main'
    elif where == 2:
        file('main', [a + '\n', '$one\n', b + '\n'])
        file('one', [inc + '\n'])
        f = 'main'
    elif where == 3:
        file('main', [a + '\n', '$main\n', b + '\n'])
        f = 'main'
    elif where == 4:
        file('main', [a + '\n', '$one\n', b + '\n'])
        file('one', [b + '\n', '$dir/two\n'])
        file('dir/two', ['$main\n'])
        f = 'main'
    elif where == 5:
        # a circle that does not come back to the first file
        file('main', ['$one\n', a + '\n'])
        file('one', ['$dir/two\n', a + '\n'])
        file('dir/two', [b + '\n', '$one\n'])
        f = 'main'
    for cls in (punchcard.Deck, arguscard.Deck):
        equal(exits(cls, file=f), 'exit', 'ends with an error')
    equal(len(effects(m0)), 0, 'no file is written')


def deck_last_line(argus_deck):
    """The last line need not be terminated."""
    a, b = fileline('a'), fileline('b')
    assume(b != '')
    file('main', [a + '\n', b])
    cls = arguscard.Deck if argus_deck else punchcard.Deck
    d = cls(file='main', verbose=True)
    check_deck(d, [(a, 'main', 1), (b, 'main', 2)], argus_deck)
    check_lines(d)


# ------------------------------------------------------------- charset

HSP = ('0', '1', '2', '3', '4', '5', '6', '7',
       '8', '9', '\'', '=', ':', ' ', ' ', '&',
       '+', 'A', 'B', 'C', 'D', 'E', 'F', 'G',
       'H', 'I', ';', '.', ')', '%', '█', ' ',
       '-', 'J', 'K', 'L', 'M', 'N', 'O', 'P',
       'Q', 'R', '#', '$', None, '"', ' ', ' ',
       ' ', '/', 'S', 'T', 'U', 'V', 'W', 'X',
       'Y', 'Z', '@', ',', '(', '\n', ' ', ' ')


def charset():
    from h800.charset import CHARSET
    equal(sorted(CHARSET.keys()), list(range(64)), 'codes 0 to 63')
    for i in range(64):
        equal(CHARSET[i], HSP[i], 'character of code %d' % i)
    for i in range(64):
        for j in range(i):
            require(CHARSET[i] == ' ' or CHARSET[i] != CHARSET[j],
                    'a character has one code')
