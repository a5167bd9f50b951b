"""C26, C27, C30, C31: the command-line tools."""
from verif import *
from harness_common import *
from harness_symbols import (Model, line_of, SETS, one, X, check_reports,
                             strip_or_none)
from h800 import instructions


def run(opts, args):
    """Run the tool; what it exits with, or 'ok'."""
    options(opts, args)
    try:
        module('tool').main()
    except SystemExit:
        return 'exit'
    return 'ok'


def lines_from(stream, since, *prefixes):
    out = []
    for line in output_lines(stream, since):
        if line.startswith(prefixes):
            out.append(line)
    return out


class Read:
    """A card as the statement reads it."""
    def __init__(self, line, num, filename):
        line = line.replace('\n', '')
        self.line, self.num, self.filename = line, num, filename
        col1 = line[0:1].strip()
        self.star = line[7:8].strip() == '*'
        op = strip_or_none(line[19:32])
        if col1 == 'P' or col1 == 'R' or col1 == 'L':
            op = None
        self.op = op
        self.ins = op
        if op is not None and ',' in op:
            self.ins = op.split(',')[0].strip()


def read(content):
    out = []
    for line, filename, num in content:
        if not line.startswith('#'):
            out.append(Read(line, num, filename))
    return out


def sources(shapes):
    """Files t.argus, c.argus, ... (in no sorted order) with cards of the given shapes; their
    names and for each the cards it stands for, as (text, file, line). L at
    the start of a shape: a long file name; D: a name with several dots;
    $ before a kind of card: the card is in an included file; =: the first
    file once more."""
    names, contents = [], []
    for i in range(len(shapes)):
        if shapes[i] == '=':
            # the first file again
            names.append(names[0])
            contents.append(contents[0])
            continue
        lines, cards = [], []
        name = 'tcxa'[i] + '.argus'
        included = False
        for j in range(len(shapes[i])):
            kind = shapes[i][j]
            if kind == 'L':
                name = 'library/of/a/large/project/with/many/' \
                       'subsystems/and/long/names/%s.argus' % 'tcxa'[i]
            elif kind == 'D':
                name = 'tcxa'[i] + '.one.two.argus'
            elif kind == '$':
                included = True
            else:
                line = source_line(kind, '%d%d' % (i, j))
                if included:
                    other = 'inc%d%d.x.argus' % (i, j)
                    file(other, ['# included\n', line + '\n'])
                    lines.append('$%s   card %d' % (other, j))
                    cards.append(('# included', other, 1))
                    cards.append((line, other, 2))
                    included = False
                else:
                    lines.append(line)
                    cards.append((line, name, len(lines)))
        file(name, [x + '\n' for x in lines])
        names.append(name)
        contents.append(cards)
    return names, contents


# cards for the tools that look at instructions
OPS = [one('A', 'BA', X), one('', 'BA,B', X), one('', 'XYZZY', X),
       one('', 'XYZZY,BA', X, '*'), one('', 'BA', X, '*'), one('', '', X),
       one('', 'BA', X, ' ', 'R'), '# 12     BA', one('', ',BA', X),
       one('', 'TX , 1', X), one('', 'ba', X), 'L      *SECTION', '',
       one('', 'B A', X), one('', 'BAX', X), one('', 'B', X),
       one('A', 'ALF', X), one('', 'TXX', X), one('', 'BA,BC', X),
       one('', 'BA,B,C', X)]


def source_line(kind, i):
    if kind == 'i':
        return choice('card' + i, OPS)
    if kind == 'a':
        s = text('card' + i, 'card')
        assume('\n' not in s)
        assume(not s.startswith('$'))
        return s
    return choice('card' + i, SETS[int(kind)])


def total_line(n):
    if n == 1:
        return '1 error encountered.'
    return '%d errors encountered.' % n


# ---- C27
def check_instructions(shapes, opts):
    names, contents = sources(shapes)
    given = {'-a': False, '-c': False, '-i': False, '-p': False, '-s': False,
             '-u': False, '-v': False}
    for o in opts:
        if o != '?':
            given['-' + o] = True
    if '?' in opts:
        for o in 'aipuv':
            given['-' + o] = flag('option ' + o)
    want, errors, cards, ins = [], 0, 0, 0
    for i in range(len(names)):
        for c in read(contents[i]):
            cards = cards + 1
            if c.ins:
                ins = ins + 1
                if not c.star and c.ins not in instructions.INSTRUCTIONS:
                    want.append('*** ERROR: Invalid instruction "%s":' %
                                c.ins)
                    want.append('File %s, line %d: %s' %
                                (c.filename, c.num, c.line))
                    errors = errors + 1
    m0 = mark()
    equal(run(given, names), 'ok', 'the tool finishes')
    got = lines_from('stdout', m0, '*** ERROR', 'File ')
    equal(len(got), len(want), 'each invalid instruction is reported once')
    for i in range(len(want)):
        if i < len(got):
            equal(got[i], want[i], 'report with instruction, file and line')
    tail = output_lines('stdout', m0)
    equal(tail[-1], total_line(errors), 'the final total')
    if given['-c']:
        equal(lines_from('stdout', m0, 'Source lines:'),
              ['Source lines: %d' % cards], 'all cards are counted')
        equal(lines_from('stdout', m0, 'Total'),
              ['%-8s %6d  %6.2f%%' % ('Total', ins, 100.0)],
              'all instructions are counted')
        check_frequencies(names, contents, m0, given['-u'])
    equal(effects(m0), [], 'nothing is written')


def frequency(names, contents, ins):
    n = 0
    for i in range(len(names)):
        for c in read(contents[i]):
            if not c.star and c.ins == ins:
                n = n + 1
    return n


def check_frequencies(names, contents, m0, unused):
    lines = output_lines('stdout', m0)
    for ins in ('BA', 'TX', 'ALF', 'FDSU'):
        n = frequency(names, contents, ins)
        got = []
        for line in lines:
            if line.startswith('%-8s ' % ins):
                got.append(line[:15])
        if not unused or n > 0:
            equal(got, ['%-8s %6d' % (ins, n)],
                  'the frequency of an instruction')
        if unused:
            equal(ins in lines, n == 0, 'the instructions that do not occur')


def symbol_models(names, contents):
    """One model per file, over one table; and all definitions."""
    defs = []
    out = []
    for i in range(len(names)):
        m = Model(names[i].split('.')[0], defs)
        for line, filename, num in contents[i]:
            m.card(line, filename, num)
        out.append(m)
        defs = m.defs
    return out, defs


def complex_only(defs):
    """Names with a complex but no simple definition."""
    seen = []
    for d in defs:
        if d.kind == 'complex' and d.name not in seen:
            simple = False
            for e in defs:
                if e.name == d.name and e.kind == 'simple':
                    simple = True
            if not simple:
                seen.append(d.name)
    return seen


def per_file(names, models, m0):
    got = []
    for line in output_lines('stderr', m0):
        if line.endswith(' errors encountered building symbol table.'):
            got.append(line)
    want = []
    for i in range(len(names)):
        want.append('%s: %d errors encountered building symbol table.' %
                    (names[i], models[i].errors))
    equal(got, want, 'the number of errors in each file')
    reports = []
    for m in models:
        reports = reports + m.reports
    check_reports(lines_from('stderr', m0, '*** ERROR'), reports)


def check_symbols(shapes, strict):
    names, contents = sources(shapes)
    models, defs = symbol_models(names, contents)
    m0 = mark()
    equal(run({'-c': strict, '-v': flag('option v')}, names), 'ok', 'the tool finishes')
    per_file(names, models, m0)
    bad = []
    if strict:
        bad = complex_only(defs)
    total = len(bad)
    for m in models:
        total = total + m.errors
    got = lines_from('stderr', m0, 'ERROR: symbol ')
    equal(len(got), len(bad), 'each symbol without simple definition once')
    for n in bad:
        require('ERROR: symbol "%s" has a complex assignment, but no simple '
                'assignment!' % n in got, 'the symbol is reported')
    checking = []
    for line in output_lines('stderr', m0):
        if line.endswith(' errors checking symbol table.'):
            checking.append(line)
    if len(bad) > 0:
        equal(checking, ['%d errors checking symbol table.' % len(bad)],
              'the number of symbols that fail the check')
    else:
        equal(checking, [], 'no symbol fails the check')
    if len(names) > 1:
        equal(lines_from('stderr', m0, 'Total: '),
              ['Total: %d errors encountered.' % total], 'the final total')
    equal(effects(m0), [], 'nothing is written')


def parse(shapes, debug):
    names, contents = sources(shapes)
    models, defs = symbol_models(names, contents)
    want, total, cards = [], 0, 0
    for m in models:
        total = total + m.errors
    for i in range(len(names)):
        for c in read(contents[i]):
            cards = cards + 1
            if c.ins and not c.star and \
                    c.ins not in instructions.INSTRUCTIONS:
                want.append('*** ERROR: Invalid instruction "%s":' % c.ins)
                want.append('File %s, line %d: %s' %
                            (c.filename, c.num, c.line))
                total = total + 1
    m0 = mark()
    equal(run({'-d': debug, '-v': flag('option v')}, names), 'ok', 'the tool finishes')
    per_file(names, models, m0)
    got = lines_from('stdout', m0, '*** ERROR', 'File ')
    equal(len(got), len(want), 'each invalid instruction is reported once')
    for i in range(len(want)):
        if i < len(got):
            equal(got[i], want[i], 'report with instruction, file and line')
    equal(lines_from('stdout', m0, 'Source lines:'),
          ['Source lines: %d' % cards], 'all cards are counted')
    tail = output_lines('stdout', m0)
    equal(tail[-1], total_line(total), 'the final total')
    equal(effects(m0), [], 'nothing is written')


# ---- C31
def listing(shapes, verbose):
    names, contents = sources(shapes)
    m0 = mark()
    equal(run({'-v': verbose}, names), 'ok', 'the tool finishes')
    opened = []
    for i in range(len(names)):
        out = names[i][:names[i].rindex('.')] + '.lst'
        want = []
        for c in read(contents[i]):
            want.append('%-64s %-6d %s\n' % (c.filename, c.num, c.line))
        text_equal(written(out, m0), want, 'one line per card, in order')
        opened.append(('open', out, 'w'))
    equal(effects(m0), opened, 'only the listing files are written')
    if not verbose:
        equal(output_lines('stdout', m0), [], 'nothing is printed')


NAMED = ('prog.argus', 'a.b.c', 'x.y', 'prog.LST', 'p.lstx', 'dir/p.argus',
         'lst.a', 'p.lst.argus', 'a b.txt', 'a.b.c.d.e', './p.argus',
         '../d.e/x.argus', 'v1.2.3.argus', 'x.argus.argus', '_a.argus')


def listing_names(n):
    """The name of the listing file."""
    name = NAMED[n]
    file(name, ['       BA\n'])
    m0 = mark()
    equal(run({'-v': False}, [name]), 'ok', 'the tool finishes')
    want = name[:name.rindex('.')] + '.lst'
    equal(effects(m0), [('open', want, 'w')],
          'the extension is replaced by .lst')
    require(want != name, 'the source is not overwritten')


def listing_source(n):
    """A source that has the name of its listing is left alone."""
    name = ('prog.lst', 'a.b.lst', '.lst')[n]
    file(name, ['       BA\n'])
    file('a.x', ['       BA\n'])
    m0 = mark()
    equal(run({'-v': False}, [name]), 'exit', 'refused')
    equal(effects(m0), [], 'nothing is written')
    for v in (False, True):
        m0 = mark()
        equal(run({'-v': v}, ['a.x', name]), 'exit', 'refused')
        for e in effects(m0):
            equal(e[1], 'a.lst', 'the source is left alone')
        m0 = mark()
        equal(run({'-v': v}, [name, 'a.x']), 'exit', 'refused')
        for e in effects(m0):
            equal(e[1], 'a.lst', 'the source is left alone')


def no_arguments(n):
    """Too few arguments: an error, and nothing is done."""
    m0 = mark()
    equal(run({}, ['XX', 'YY'][:n]), 'exit', 'refused')
    equal(effects(m0), [], 'nothing is written')
    equal(output_lines('stdout', m0), [], 'nothing is printed')


OPCODES = ('BA', 'BA,', 'BA,B', 'TX', 'TX,1', 'XYZZY', 'B', 'ALF', ',BA', 'ba',
           'TX,', '', ',', 'BA,X')


def list_instructions(shapes, details):
    names, contents = sources(shapes)
    opcode = choice('opcode', OPCODES)
    command = opcode.split(',')[0]
    m0 = mark()
    r = run({'-D': details, '-v': False}, [opcode] + names)
    if command not in instructions.INSTRUCTIONS:
        equal(r, 'exit', 'an unknown opcode is refused')
        equal(output_lines('stdout', m0), [], 'nothing is printed')
    else:
        equal(r, 'ok', 'the tool finishes')
        want = []
        for i in range(len(names)):
            for c in read(contents[i]):
                if c.op is not None and not c.star and \
                        matches(c.op, opcode):
                    if details:
                        want.append('%-48s %6d %s' %
                                    (c.filename, c.num, c.line))
                    else:
                        want.append(c.line)
        equal(output_lines('stdout', m0), want,
              'exactly the matching cards, in order')
    equal(effects(m0), [], 'nothing is written')


def matches(op, opcode):
    op = op.replace(' ', '')
    if ',' not in opcode:
        if ',' in op:
            op = op.split(',')[0]
        return op == opcode
    return op == opcode or (opcode.endswith(',') and op.startswith(opcode))


def shown(m0):
    """What is printed, but for the progress that -v prints."""
    out = []
    for line in output_lines('stdout', m0):
        if not line.startswith(('Reading ', 'Skipping meta-comment, ')):
            out.append(line)
    return out


def list_symbols(shapes):
    names, contents = sources(shapes)
    models, defs = symbol_models(names, contents)
    m0 = mark()
    equal(run({'-v': flag('option v')}, names), 'ok', 'the tool finishes')
    want = []
    errors = 0
    segments = []
    for n in sorted(names):
        if n.split('.')[0] not in segments:
            segments.append(n.split('.')[0])
    for m in models:
        errors = errors + m.errors
    for name in ('A', 'AB', 'B'):
        if some(defs, name, None, None):
            want.append(name)
        for seg in segments:
            if some(defs, name, seg, None):
                want.append('  Segment: ' + seg)
            for sub in ('', '0', '1', '2', '3'):
                if some(defs, name, seg, sub):
                    want.append('    Subsegment: ' + sub)
                for kind in ('complex', 'simple'):
                    for d in defs:
                        if same_place(d, name, seg, sub, kind):
                            want.append('        %-9s %1s %-38s      %s' % (
                                '<' + kind + '>', d.tag,
                                d.file.split('.')[0] + ':' + str(d.line),
                                d.text))
    equal(shown(m0), want, 'every definition, sorted')
    got = []
    for line in output_lines('stderr', m0):
        if line.endswith(' errors found'):
            got.append(line)
    if errors > 0:
        equal(got, ['%d errors found' % errors], 'the number of errors')
    else:
        equal(got, [], 'no errors')
    equal(effects(m0), [], 'nothing is written')


def find_symbols(shapes, begin, end, exact, fuzzy=False):
    names, contents = sources(shapes)
    models, defs = symbol_models(names, contents)
    wanted = choice('wanted', ('A', 'AB', 'B', 'Z', '', 'a', ' A', 'B '))
    m0 = mark()
    r = run({'-b': begin, '-e': end, '-x': exact, '-f': fuzzy,
             '-D': flag('option D'), '-v': flag('option v')},
            [wanted] + names)
    if (begin and exact) or (end and exact) or (begin and end) or \
            (fuzzy and (begin or end or exact)):
        equal(r, 'exit', 'conflicting options are refused')
        equal(output_lines('stdout', m0), [], 'nothing is printed')
        equal(effects(m0), [], 'nothing is written')
        return
    equal(r, 'ok', 'the tool finishes')
    per_file(names, models, m0)
    out = shown(m0)
    undefined = lines_from('stderr', m0, 'ERROR: ')
    if begin or end:
        want = []
        for name in ('A', 'AB', 'B'):
            if some(defs, name, None, None) and (
                    name.startswith(wanted) if begin else
                    name.endswith(wanted)):
                want.append(repr(name))
        equal(undefined, [], 'no report')
        if want == []:
            equal(out, [], 'nothing is found')
        else:
            equal(out, ['[' + ', '.join(want) + ']'], 'the names that match')
    elif some(defs, wanted, None, None):
        equal(len(out), 1, 'the definitions are printed')
        require(len(out) == 1 and out[0].startswith('{'),
                'the definitions are printed')
        equal(undefined, [], 'no report')
    else:
        equal(out, [], 'nothing is found')
        equal(undefined, ['ERROR: Undefined symbol "%s"!' % wanted],
              'one error report')
    equal(effects(m0), [], 'nothing is written')


def some(defs, name, seg, sub):
    for d in defs:
        if d.name == name and (seg is None or d.seg == seg) and \
                (sub is None or d.sub == sub):
            return True
    return False


def same_place(d, name, seg, sub, kind):
    return d.name == name and d.seg == seg and d.sub == sub and d.kind == kind


# ---- C30
NUMBERS = ('0', '1', '2', '3', '7', '9', '10', '11', '13', '+0', '01', '0009',
           '00010', '99', '100', '101', '+101', '+00099', ' 12 ')


def numbers_of(start, end, step):
    """The numbers from start that do not pass end."""
    out = []
    n = start
    while (step > 0 and n <= end) or (step < 0 and n >= end):
        out.append(n)
        n = n + step
    return out


def genlines_check(args):
    start, end = int(args[0]), int(args[1])
    step, first, last = 1, 2, 7
    if len(args) > 2:
        step = int(args[2])
    if len(args) > 3:
        first = int(args[3])
    if len(args) > 4:
        last = int(args[4])
    m0 = mark()
    r = run({}, args)
    equal(effects(m0), [], 'nothing is written')
    if len(args[0]) > 6 or len(args[1]) > 6:
        equal(r, 'exit', 'more than 6 digits is an error')
        equal(output_lines('stdout', m0), [], 'nothing is printed')
        return
    width = max(4, len(str(end)), len(args[1]))
    equal(r, 'ok', 'the tool finishes')
    want = []
    for n in numbers_of(start, end, step):
        s = '%0*d' % (width, n)
        want.append(' ' * (first - 1) + s +
                    ' ' * (last + 1 - (first - 1 + width)))
    equal(output_lines('stdout', m0), want, 'the numbered lines')


STEPS = ('1', '2', '3', '5', '10', '100', '-1', '-2', '-3')


def genlines(start, step):
    """A start and step, any end of the table."""
    a = NUMBERS[start]
    b = choice('end', NUMBERS)
    if step is None:
        genlines_check([a, b])
    else:
        genlines_check([a, b, step])


def genlines_any(start, step, bits):
    """A start and step, any end."""
    genlines_check([start, str(integer('end', bits)), step])


def genlines_columns(n):
    """Columns."""
    end, step = (('12', '5'), ('3', '-4'), ('99999', '44444'), ('0012', '12'),
                 ('000012', '12'))[n]
    first = choice('first', ('1', '2', '3', '9'))
    last = choice('last', ('7', '8', '12', '16'))
    genlines_check(['7', end, step, first, last])
    genlines_check(['7', end, step, first])
    genlines_check(['7', end, step, first, last, '99'])


LONG = ('+99999', ' 99998', '999998', '999999', '000001', '1000000', '0000001', '1234567', '7',
        '10000', '99999', '100000', '100001')


def genlines_long(start, step):
    """Many digits."""
    b = choice('end', LONG)
    genlines_check([LONG[start], b, step])


def genpages_any(kind, a, b):
    """An arbitrary first card, pages from a to b."""
    card = text('card', 'card')
    assume('\n' not in card)
    assume(not card.startswith('$'))
    assume(not card.startswith('#'))
    pages = '# Pages: ' + a + '-' + b + '\n'
    lines = [card + '\n', '       A          BA\n', pages]
    if kind == 1:
        lines = [pages, card + '\n']
    if kind == 2:
        lines = [pages, '# Filename: x_y.argus\n', card + '\n']
    file('any.argus', lines)
    line = card.replace('\n', '')
    m0 = mark()
    r = run({}, ['any.argus'])
    first, last = int(a), int(b)
    if first > last or (kind != 2 and not is_section(line)):
        equal(r, 'exit', 'without section or pages it fails')
        equal(effects(m0), [], 'and writes nothing')
        return
    equal(r, 'ok', 'the tool finishes')
    only_appends(m0, 'any.argus')
    col8, section = '@', 'x y'
    if is_section(line):
        section = line[8:81].strip()
        col8 = line[7:8].strip()
        if col8 == '':
            col8 = ' '
    want = ['\nL      ' + col8 + section + '\n']
    p = first
    while p <= last:
        user = str(p - first + 1)
        want.append('\n# Page %d\n' % p)
        want.append('#      ' + col8 + '%-72s' % section +
                    " USER'S OWN PAGE NO." + '%4s' % user +
                    '        PAGE' + '%4s' % user + '\n\n')
        p = p + 1
    text_equal(written('any.argus', m0), want,
               'section card and page headings')


def only_appends(m0, name):
    done = effects(m0)
    require(len(done) > 0, 'it appends to the file')
    for e in done:
        equal(e, ('open', name, 'a'), 'it only appends to the file')


def is_section(line):
    return not line.startswith('#') and line[0:1].strip() == 'L'


HEADS = (
    # log section cards
    ('L      *MAIN CONTROL\n',), ('L      *SEC\n', 'L      -OTHER\n'),
    ('L       BLANK\n',), ('# Filename: a_b_c.argus\n',),
    ('# Filename: noext\n',), ('# Filename: first.x\n', 'L      *SEC\n'),
    ('# Filename: a.x\n', '# Filename: b.y\n'), (), ('R      *SEC\n',),
    ('# filename: a.x\n',), ('# Filename: a_b.c_d.argus\n',),
    ('# Filename: _x__y_.argus z\n',),
)
PAGES = (('# Pages: 3-5\n',), ('# Pages: 7\n',), ('# Pages: 98-101\n',),
         ('# Pages: 5-3\n',), (), ('# Pages: 3-3\n',), ('# Pages: 1-2 x\n',),
         ('# Pages: 1-2\n', '# Pages: 4-4\n'), ('# Page: 3-5\n',),
         ('# Pages: x-3\n',), ('# Pages: 1-\n',), ('# Pages: 12-9\n',),
         ('# Pages: 0-0\n',))


def genpages(head):
    for pages in range(len(PAGES)):
        for swap in (False, True):
            genpages_check(head, pages, swap)


def genpages_check(head, pages, swap):
    lines = list(HEADS[head]) + ['       A          BA\n'] + \
        list(PAGES[pages])
    if swap:
        lines = list(PAGES[pages]) + list(HEADS[head])
    name = 'work%d%d%d.argus' % (head, pages, swap)
    file(name, lines)
    section = (('*', 'MAIN CONTROL'), ('*', 'SEC'), (' ', 'BLANK'),
               ('@', 'a b c'), ('@', 'noext'), ('*', 'SEC'), ('@', 'a'),
               None, None, None, ('@', 'a b'), ('@', ' x  y '))[head]
    span = ((3, 5), (7, 7), (98, 101), None, None, (3, 3), (1, 2), (4, 4),
            None, None, None, None, (0, 0))[pages]
    m0 = mark()
    r = 'failed'
    try:
        r = run({}, [name])
    except ValueError:
        r = 'failed'
    if section is None or span is None:
        require(r != 'ok', 'without section or pages it fails')
        equal(effects(m0), [], 'and writes nothing')
        return
    equal(r, 'ok', 'the tool finishes')
    only_appends(m0, name)
    want = '\nL      ' + section[0] + section[1] + '\n'
    for p in range(span[0], span[1] + 1):
        user = str(p - span[0] + 1)
        want = want + '\n# Page %d\n' % p
        want = want + '#      ' + section[0] + '%-72s' % section[1] + \
            " USER'S OWN PAGE NO." + '%4s' % user + '        PAGE' + \
            '%4s' % user + '\n\n'
    text_equal(written(name, m0), [want], 'section card and page headings')


def genpages_missing():
    m0 = mark()
    equal(run({}, ['nofile']), 'exit', 'a missing file is an error')
    equal(effects(m0), [], 'nothing is written')
