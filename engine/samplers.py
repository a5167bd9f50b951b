"""Structured candidates for text inputs, used to look for witnesses of
obligations the term domain cannot discharge (and in constant mode)."""

NAMES = ['A', 'B1', 'START', 'LOOP2', 'X', 'Z9', 'AB', 'TABLE', 'AAA', 'a', '1']
MNEMS = ['BA', 'TX', 'EQUALS', 'SETLOC', 'ASSIGN', 'CAC', 'SEGMENT', 'RESERVE',
         'DEC', 'ALF', 'MASKGRP', 'XYZZY', 'SPECADD', 'TEMPLOC']
ADDRS = ['', '', '', 'A,1', 'N', '-,X0,R1', 'C,START', '4095', '0', '/A',
         'Z,AB', ',', 'X,0']
LABELS = ['', '', 'A', 'START', 'B,START', 'F,X', 'L,A', 'S,B1', 'X,A', 'Z,AB',
          'A,B,C', 'start', 'Q,START', 'A B', ',A', 'A,', ',', 'B,', 'B ,A',
          '1', ' A', 'b,START', 'BB,A', 'É', '-', 'A1 B', 'SETLOC', 'é', 'Aé', 'B,é']
OPS = ['', 'BA', 'BA,1', 'EQUALS', 'SETLOC', 'SETLOC,3', 'SETLOC,', 'ASSIGN',
       'ASSIGN,2', 'equals', 'TX', ',A', 'SETLOC,A,B', 'SETLOC, 7', 'EQUALS,1',
       'XYZZY', 'TS', 'BA ', ' BA', 'SET LOC']


BLANKS = [' ', ' ', '\t', '\x0b', '\x0c', '\r', '\x1c', '\xa0', '\u2003']


def vary(rng, s):
    """A near miss of s: other case, blanks, an inserted or lost character."""
    r = rng.randrange(9)
    if r == 0:
        return s.lower()
    if r == 1:
        return s.upper()
    if r == 2:
        return s.swapcase()
    if r == 3:
        return rng.choice(BLANKS) + s
    if r == 4:
        return s + rng.choice(BLANKS)
    k = rng.randrange(len(s) + 1)
    if r == 5:
        return s[:k] + rng.choice(BLANKS) + s[k:]
    if r == 6:
        return s[:k] + rng.choice('A,,*1.xÉß') + s[k:]
    if r == 7:
        return s[:k] + s[k + 1:]
    return s + rng.choice('A1,. -')


def card(rng, consts):
    def p(xs):
        return rng.choice(xs)
    line = p([' ', ' ', ' ', ' ', ' ', 'P', 'R', 'L', 'C', 'p', '*', '-', 'A'])
    line += p(['      ', '   100', '000010', 'AB1234', '  1   ', ' 12345'])
    line += p([' ', ' ', ' ', ' ', '*', 'X', '1', 'A'])
    mined = consts if consts and rng.random() < 0.3 else None
    lab = p(mined) if mined else p(LABELS)
    if rng.random() < .1:
        lab = vary(rng, lab)
    line += lab[:11].ljust(11)
    op = p(consts) if mined else p(OPS)
    if rng.random() < .1:
        op = vary(rng, op)
    if rng.random() < .1:
        op += p([',', ',1', 'X', ',BC', ' , 1', 'C'])
    line += op[:13].ljust(13)
    for w in (14, 14, 15):
        line += p(ADDRS)[:w].ljust(w)
    line += p(['', '     ', '1', ' 2 ', 'AB'])[:5].ljust(5)
    line += p(['', '', 'A REMARK', '  X ', '.' * 39, '.' * 40, '.' * 60])
    r = rng.random()
    if r < 0.15:
        line = line[:rng.randrange(len(line) + 1)]
    if r > 0.8:
        line = line.rstrip()
    return line


def line(rng, consts):
    r = rng.random()
    if r < 0.7:
        s = card(rng, consts)
    elif r < 0.76:
        s = '#' + rng.choice(['', ' a comment', '#', ' Page 12', '\t'])
    elif r < 0.82:
        s = '$' + rng.choice(['', 'f1', 'f2 # x', ' f1', 'f1  ', '$f1'])
    elif r < 0.9:
        n = rng.choice([0, 1, 2, 7, 8, 9, 19, 20, 75, 76, 80, 81, 119, 120,
                        121, 130])
        s = ''.join(rng.choice('AbZ09 ,*#$\t') for _ in range(n))
    else:
        s = rng.choice(['', ' ', '#', '$', '*', '\t', ' #', 'P', 'R', 'L',
                        'L' + ' ' * 7 + 'SECTION ONE'])
    return s


def text(rng, consts):
    r = rng.random()
    if r < 0.12 and consts:
        return vary(rng, rng.choice(consts))
    if r < 0.35 and consts:
        return rng.choice(consts)
    if r < 0.5:
        return rng.choice(NAMES)
    if r < 0.6:
        return ''.join(rng.choice('AbZ09 ,.*#$-') for _ in
                       range(rng.randrange(12)))
    if r < 0.9:
        return rng.choice(LABELS + OPS + ['simple', 'complex', 'a.b.c', 'x.txt',
                                          '.', '', 'AU1', 'S4', 'RAC', '12'])
    return line(rng, consts)


def rawline(rng, consts):
    """A line as read from a file or given by a user: may end in a newline."""
    s = line(rng, consts)
    r = rng.random()
    if r < 0.6:
        s += '\n'
    elif r < 0.66:
        s += '\r\n'
    elif r < 0.7:
        s = '\n' + s
    elif r < 0.74:
        s = s[:5] + '\n' + s[5:]
    return s


def filename(rng, consts):
    return rng.choice(['a.argus', 'b', 'x.y.z', 'seg1.txt', '.hid', 'dir/f.a',
                       'AFILE.ARGUS', 'prog.lst', 'p.LST', 'lst', 'a.lst.x'])


def number(rng, consts):
    return rng.choice(['0', '1', '7', '12', '0012', '-3', ' 5 ', '9999',
                       '10000', 'x', '', '1x', '1.5', '100'])


KINDS = {'line': line, 'text': text, 'card': card, 'rawline': rawline,
         'filename': filename, 'number': number}
