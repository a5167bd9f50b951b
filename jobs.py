"""What is analysed for each property: lists of harness jobs.

A job is (harness file, function, arguments); `cost` is a rough number of
seconds, used to start the long ones first."""
import itertools

from engine.harness import Job

CONVENTIONS = [(n, o) for n in range(4) for o in range(2)]
ALL_W = tuple(range(1, 65))
OPS = ('bit', 'range', 'value', 'set', 'clear', 'setall', 'clearall')


class L(list):
    def __init__(self, tier):
        self.tier = tier

    def add(self, file, func, *args, cost=1, extra=None, budget=None,
            keep=None):
        j = Job(file, func, args, extra=extra, tier=self.tier, keep=keep,
                budget=budget or (240 if self.tier == 'quick' else 900))
        j.cost = cost
        self.append(j)


def per_field(tier, funcs, widths=None):
    out = L(tier)
    ws = widths or ALL_W
    for w in ws:
        for k, (n, o) in enumerate(CONVENTIONS):
            for f, args, cost in funcs:
                if tier == 'quick' and cost >= 3 and w > 24 and \
                        w not in (48, 64) and k not in (w % 8, w * 3 % 8):
                    continue        # thorough: every convention
                out.add('bitfield', f, w, n, o, *args,
                        cost=cost * w * w / 2304.0)
    return out


def beside(out, what):
    """Two fields of different kinds."""
    for k, (n, o) in enumerate(CONVENTIONS):
        for l, (n1, o1) in enumerate(CONVENTIONS):
            if k != l:
                out.add('bitfield', 'beside', 4, n1, o1, 4, n, o, what)
            if out.tier != 'quick' or (k + l) % 4 == 0:
                out.add('bitfield', 'beside', 5, n1, o1, 4, n, o, what)
                out.add('bitfield', 'beside', 3, n1, o1, 5, n, o, what)
    return out


WIDE = ((33, 32, 0), (48, 47, 30), (48, 11, 0), (63, 40, 33), (64, 63, 0),
        (64, 63, 32), (24, 23, 12), (16, 15, 0), (17, 16, 8))


def wide(out):
    for n, o in CONVENTIONS:
        for w, hi, lo in WIDE:
            out.add('bitfield', 'wide_again', w, n, o, hi, lo)
    return out


def C01(tier):
    out = per_field(tier, [('read_bit', (), .3), ('read_range', (), 1),
                           ('read_all', (), .1)])
    for w in (6, 8) if tier == 'quick' else (1, 2, 5, 6, 8, 12):
        for k, op in enumerate(OPS):
            for i, (n, o) in enumerate(CONVENTIONS):
                if tier != 'quick' or w == 6 or i == k:
                    out.add('bitfield', 'read_again', w, n, o, op,
                            cost=w / 6.)
    return beside(wide(out), 'read')


def C02(tier):
    out = per_field(tier, [('write_bit', (), .5), ('write_range', (), 5),
                           ('write_all', (), 1)])
    triples = list(itertools.product(OPS, repeat=3))
    if tier == 'quick':
        pairs = list(itertools.product(OPS, repeat=2))
        for i, (a, b) in enumerate(pairs):
            n, o = CONVENTIONS[i % 8]
            out.add('bitfield', 'sequence', 8, n, o, a, b,
                    OPS[(i * 3) % 7], cost=2)
            n, o = CONVENTIONS[(i * 3 + 5) % 8]
            out.add('bitfield', 'sequence', 6, n, o, OPS[(i * 5) % 7], a, b,
                    cost=1)
    else:
        for t in triples:
            for n, o in CONVENTIONS:
                out.add('bitfield', 'sequence', 8, n, o, *t, cost=3)
    return beside(wide(out), 'write')


def C03(tier):
    out = per_field(tier, [
        ('reject_construct', (), .3), ('reject_position', (0,), 1),
        ('reject_range', (0,), 3), ('reject_value', (), 5)])
    ws = (1, 8, 12, 16, 24, 48) if tier == 'quick' else ALL_W
    for w in ws:
        out.add('bitfield', 'reject_construct_any', w)
        for n, o in CONVENTIONS:
            out.add('bitfield', 'reject_position', w, n, o, 1)
            out.add('bitfield', 'reject_range', w, n, o, 1)
            out.add('bitfield', 'reject_range', w, n, o, 2)
            out.add('bitfield', 'reject_value_any', w, n, o)
    out.add('bitfield', 'reject_width')
    return beside(out, 'reject')


def C04(tier):
    out = per_field(tier, [('predicates_bit', (), .3),
                           ('predicates_range', (), .5),
                           ('describe', (), .3)])
    out.add('bitfield', 'predicates_value')
    out.add('bitfield', 'defaults')
    return beside(out, 'describe')


def C05(tier):
    out = L(tier)
    for f in ('word', 'word_any', 'word_bits', 'construct',
              'construct_defaults', 'two_words'):
        out.add('word', f, cost=3)
    for i in range(4):
        out.add('word', 'update_whole', i)
        out.add('word', 'update_any', i)
        out.add('word', 'update_bits', i)
        out.add('word', 'two_instruction_words', i)
        for j in range(4):
            out.add('word', 'update', i, j)
    return out


def C06(tier):
    out = L(tier)
    out.add('memory', 'independent', cost=80)
    for n in (1, 2, 3):
        out.add('memory', 'history', n, cost=10 * n)
    if tier != 'quick':
        out.add('memory', 'history', 4, cost=100)
    out.add('memory', 'far_address')
    out.add('memory', 'far_value', cost=7)
    for b in (2040, -8, 0, 1000) if tier == 'quick' else \
            (2040, -8, 0, 1000, 2044, 2047, 2048, -1, -2048, -2056, 512):
        out.add('memory', 'slice_at', b, cost=12)
    for i, j in ((0, 2048), (5, 9), (2047, 2048), (-1, 3), (2040, 2049)):
        out.add('memory', 'slice_const', i, j, cost=10)
    return out


def C07(tier):
    out = L(tier)
    for f, c in (('shape', 70), ('iterate', 8), ('iterate_write', 8),
                 ('iterate_clear', 12),
                 ('text', 43), ('clear', 17)):
        out.add('memory', f, cost=c)
    for n in (3, 2048) if tier == 'quick' else (1, 2, 3, 2047, 2048):
        out.add('memory', 'clear_stepped', n, cost=12)
    return out


REGISTERS = ('AU1 AU2 SC CSC SH CSH UTR MXR X0 X1 X2 X3 X4 X5 X6 X7 '
             'R0 R1 R2 R3 R4 R5 R6 R7 S0 S1 S2 S3 S4 S5 S6 S7 '
             'RAC DRAC WAC DWAC').split()


def C08(tier):
    out = L(tier)
    for w in (16, 24):
        for f in ('construct', 'construct_any', 'store', 'bits', 'ranges',
                  'beside'):
            out.add('registers', f, w)
    out.add('registers', 'construct_width')
    out.add('registers', 'construct_name')
    for n in REGISTERS:
        out.add('registers', 'named', 16, n)
        out.add('registers', 'named', 24, n)
    return out


def C09(tier):
    out = L(tier)
    out.add('registers', 'names')
    out.add('registers', 'names_any')
    return out


def C10(tier):
    out = L(tier)
    for w in (16, 24):
        for f in ('group_shape', 'group_write', 'group_mixed',
                  'set_shape'):
            out.add('registers', f, w)
    for f in ('group_keys', 'group_far', 'group_assign', 'group_iterate',
              'group_clear', 'set_write', 'set_clear', 'set_mixed',
              'set_iterate',
              'set_iterate_again', 'set_iterate_abandoned'):
        out.add('registers', f)
    for n in (1, 2, 5, 31, 32):
        out.add('registers', 'group_stepped', n)
    for n in (1, 3, 8):
        out.add('registers', 'set_stepped', n)
    return out


MACHINE = (
    'BA DA WA BS DS WD NA NN LA LN TX TS HA SM CP BM DM BT DT MT TN CC IT EBA '
    'EBS RT MPC PR SWS SPS SWE SPE SSL SS EX RF RB WF RW PRA PRD PRO S FBA '
    'FDA FBS FDS FBD FDD FBAU FDAU FBSU FDSU FBM FDM ULD FBAE FBSE BD DD FFN '
    'FCON FLN FNN').split()
CONSTANTS = ('ALF DEC EBC FLBIN FLDEC FXBIN OCT SPEC CAC MASKBASE CONTROL M '
             'TAC LINK SEGNAME SUBCALL').split()


def per_mnemonic(tier, *funcs):
    out = L(tier)
    for m in MACHINE:
        for f in funcs:
            out.add('instructions', f, m)
    return out


def C11(tier):
    return per_mnemonic(tier, 'encode', 'encode_base', 'encode_after',
                        'encode_next')


def C12(tier):
    out = per_mnemonic(tier, 'reject', 'reject_base', 'reject_far',
                       'reject_after')
    for i in range(5):
        out.add('instructions', 'reject_opcode', i)
    return out


def C13(tier):
    out = per_mnemonic(tier, 'unchanged')
    out.add('instructions', 'table')
    out.add('instructions', 'distinct')
    return out


def C14(tier):
    out = per_mnemonic(tier, 'encoders', 'encoders_after')
    out.add('instructions', 'printed', cost=3)
    out.add('instructions', 'stored', cost=3)
    return out


def C15(tier):
    out = per_mnemonic(tier, 'link')
    out.add('instructions', 'vocabulary')
    return out


def C16(tier):
    out = L(tier)
    for m in CONSTANTS:
        out.add('instructions', 'constant', m)
        out.add('instructions', 'constant_any', m)
    out.add('instructions', 'constant_base')
    out.add('instructions', 'constant_after')
    return out


def C17(tier):
    out = L(tier)
    for i in range(16):
        out.add('cards', 'card', i)
    out.add('cards', 'card_default')
    out.add('cards', 'card_two')
    for i, j in ((0, 3), (1, 0), (4, 2), (6, 1), (5, 7), (3, 6), (2, 5), (8, 9),
                 (10, 0), (12, 13), (15, 11)):
        out.add('cards', 'card_after', i, j)
    return out


def C18(tier):
    out = L(tier)
    out.add('cards', 'argus')
    out.add('cards', 'argus_default')
    out.add('cards', 'argus_two')
    out.add('cards', 'deck_class')
    return out


def C19(tier):
    out = L(tier)
    for a in (True, False):
        for n in (1, 2, 3, 4, 5) + ((6, 8) if tier != 'quick' else ()):
            out.add('cards', 'deck_lines', n, a)
        out.add('cards', 'deck_two', a)
        out.add('cards', 'deck_long', a)
    for i in (0, 1, 2, 3, 4, 6, 7):
        out.add('cards', 'deck_layout', i)
    out.add('cards', 'deck_class')
    out.add('cards', 'deck_empty')
    return out


def C20(tier):
    out = L(tier)
    for a in (True, False):
        for n in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()):
            out.add('cards', 'deck_file', n, a)
        for w in range(4):
            for b in (0, 1):
                out.add('cards', 'deck_include', w, a, b)
        out.add('cards', 'deck_last_line', a)
        out.add('cards', 'deck_again', a)
    for w in range(6):
        out.add('cards', 'deck_missing', w)
    for i in (0, 1, 2, 3, 4, 6, 7):
        out.add('cards', 'deck_layout_file', i)
    out.add('cards', 'deck_empty')
    return out


def symbols(tier, func):
    out = L(tier)
    out.add('symbols', func, 'a', 0, cost=2)
    out.add('symbols', func, 'a', 1, cost=2)
    out.add('symbols', func, 'aa', 0, cost=14)
    for k in '012345':
        for n in (2, 3, 4) + ((5, 6) if tier != 'quick' else ()):
            out.add('symbols', func, k * n, 0)
            out.add('symbols', func, k * (n - 1), 1)
    for s in ('0203', '2020', '1212', '2323', '3142', '4040', '2121', '0120',
              '4$4', '$3$4$2', '2$20', '$1$11', '$a'):
        out.add('symbols', func, s, 0)
    for k in range(6):
        out.add('symbols', 'files', k, 1, 1)
        out.add('symbols', 'files', k, 2, 1)
        out.add('symbols', 'files', k, 2, 2)
    for k in range(26):
        if tier != 'quick' or k % 2 == 0 or k < 6:
            out.add('symbols', 'filenames', k, func)
    return out


def C21(tier):
    return symbols(tier, 'accounting')


def C22(tier):
    return symbols(tier, 'placement')


def C23(tier):
    out = L(tier)
    for f in ('check_query', 'absolute_query'):
        out.add('symbols', f, 5, 1, 1)
        out.add('symbols', f, 2, 2, 2)
        out.add('symbols', f, 3, 2, 1)
        out.add('symbols', f, 3, 1, 2)
    for a in ((3, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2)):
        out.add('symbols', 'exact_query', *a, cost=4)
    if tier != 'quick':
        out.add('symbols', 'exact_query', 5, 1, 1, cost=30)
        out.add('symbols', 'exact_query', 3, 2, 2, cost=30)
    out.add('symbols', 'queries_again', 2)
    out.add('symbols', 'queries_again', 3)
    for b, e in ((True, False), (False, True), (True, True)):
        out.add('symbols', 'partial_query', 5, b, e)
    return out


def C24(tier):
    out = L(tier)
    for n in (2, 3):
        for k in range(1, 6 if tier == 'quick' else 7):
            out.add('symbols', 'history', '?' * k, n)
    for s in ('aup', 'aap', 'aaup', 'auap', 'auup', 'aur', 'aaur', 'aara'):
        out.add('symbols', 'history_any', s)
    for k in (2, 4) if tier == 'quick' else (2, 3, 4, 5, 6):
        out.add('symbols', 'two_tables', k)
    out.add('symbols', 'class_defaults')
    out.add('symbols', 'passes')
    return out


def C25(tier):
    out = L(tier)
    out.add('cards', 'charset')
    return out


TOOLS = ('check-instructions', 'check-symbols', 'find-symbols', 'genlines',
         'genpages', 'list-instructions', 'list-symbols', 'listing', 'parse')


def tool(out, name, func, *args, cost=1):
    out.add('tools', func, *args, cost=cost,
            extra={'tool': 'tools/%s.py' % name})


def C26(tier):
    """The effect clauses of the tool harnesses."""
    out = L(tier)
    for t in TOOLS:
        tool(out, t, 'no_arguments', 0)
    for t in ('genlines', 'find-symbols', 'list-instructions'):
        tool(out, t, 'no_arguments', 1)
    for n in range(15):
        tool(out, 'listing', 'listing_names', n)
    for n in range(3):
        tool(out, 'listing', 'listing_source', n)
    for s in (('a',), ('aa', 'a')):
        tool(out, 'listing', 'listing', s, False)
    for k in range(3):
        for a, b in (('3', '5'), ('5', '3'), ('7', '7')):
            tool(out, 'genpages', 'genpages_any', k, a, b)
    for n in range(12):
        tool(out, 'genpages', 'genpages', n, cost=5)
    tool(out, 'genpages', 'genpages_missing')
    tool(out, 'check-instructions', 'check_instructions', ('a',), 'c')
    tool(out, 'list-instructions', 'list_instructions', ('a',), False)
    for n in ('check-symbols', 'parse'):
        f = n.replace('-', '_')
        tool(out, n, f, ('a',), False, cost=5)
    tool(out, 'list-symbols', 'list_symbols', ('44', '44'))
    tool(out, 'find-symbols', 'find_symbols', ('44', '4'), False, False,
         False)
    tool(out, 'genlines', 'genlines', 3, '2')
    return out


def C27(tier):
    out = L(tier)
    for s, o in ((('i',), ''), (('ii',), '?'), (('i', 'i'), '?'),
                 (('i',), 'c'), (('ii', 'i'), 'csu'), (('iii', 'i'), 'c'),
                 (('a',), 'c'), (('a',), ''), (('i', 'i', 'i'), ''),
                 (('iii',), 'u'), (('ii',), 'cu'), (('ii',), 'cs'),
                 (('i$i', 'L$ii'), '?'), (('$a',), 'c'), (('$i$i',), 'csu'),
                 (('ii', '='), '?'), (('i', 'i', '='), 'c'),
                 (('a', '='), '')):
        tool(out, 'check-instructions', 'check_instructions', s, o, cost=3)
    shapes = [('00',), ('11',), ('22',), ('33',), ('44',), ('a',),
              ('1', '0', '0'), ('44', '44'), ('22', '0'), ('000', '000'),
              ('333', '33'), ('11', '11', '11'), ('ii', 'ii'),
              ('4$4', 'L$0'), ('$a',), ('$i', 'i$i'), ('$2$3',),
              ('555',), ('55', '5'), ('44', '='), ('2', 'i', '=')]
    if tier != 'quick':
        shapes += [('22', '22'), ('33', '44'), ('0', '1', '2', '3'),
                   ('44', '4', '44'), ('222', '2'), ('1111', '1')]
    for s in shapes:
        for b in (False, True):
            tool(out, 'check-symbols', 'check_symbols', s, b, cost=3)
        tool(out, 'parse', 'parse', s, False, cost=3)
    tool(out, 'check-symbols', 'check_symbols', ('a', 'a'), True, cost=20)
    tool(out, 'parse', 'parse', ('11', '2'), True)
    tool(out, 'parse', 'parse', ('a',), True)
    for t in ('check-instructions', 'check-symbols', 'parse'):
        tool(out, t, 'no_arguments', 0)
    return out


def C30(tier):
    out = L(tier)
    steps = ('1', '2', '3', '5', '10', '100', '-1', '-2', '-3')
    for n in range(19):
        tool(out, 'genlines', 'genlines', n, None)
        for s in steps:
            tool(out, 'genlines', 'genlines', n, s)
    for a, s, b in (('0', '1', 4), ('0', '3', 5), ('7', '2', 5),
                    ('12', '-1', 4), ('3', '7', 6), ('990', '5', 10),
                    ('0005', '1', 4)):
        tool(out, 'genlines', 'genlines_any', a, s, b, cost=2)
    for n in range(5):
        tool(out, 'genlines', 'genlines_columns', n)
    for n in range(13):
        for s in ('44444', '999999', '-44444', '-999999'):
            tool(out, 'genlines', 'genlines_long', n, s)
    for n in range(2):
        tool(out, 'genlines', 'no_arguments', n)
    for n in range(12):
        tool(out, 'genpages', 'genpages', n, cost=5)
    for k in range(3):
        for a, b in (('3', '5'), ('3', '2'), ('0', '0'), ('7', '7'),
                     ('9', '30'), ('98', '101'), ('1', '2'), ('12', '9'),
                     ('998', '1002')):
            tool(out, 'genpages', 'genpages_any', k, a, b)
    tool(out, 'genpages', 'genpages_missing')
    tool(out, 'genpages', 'no_arguments', 0)
    return out


def C31(tier):
    out = L(tier)
    for s in (('a',), ('aa', 'a'), ('ii', 'ii'), ('aaa',), ('i$ii', 'La'),
              ('$a$ii', 'L$i')):
        tool(out, 'listing', 'listing', s, False)
        tool(out, 'listing', 'listing', s, True)
    for n in range(15):
        tool(out, 'listing', 'listing_names', n)
    for s in (('i', 'ii'), ('ii',), ('a',), ('aa',), ('a', 'a'), ('iii',),
              ('i$ii', 'L$i'), ('$a', 'Li'), ('ii', 'i', '=')):
        for d in (False, True):
            tool(out, 'list-instructions', 'list_instructions', s, d)
    for s in (('00',), ('44', '44'), ('22', '0'), ('2',), ('1', '1'),
              ('D4$4', '4'), ('$2$2',), ('44', '=')) + (
            (('33',), ('33', '3'), ('222',), ('444', '44'))
            if tier != 'quick' else ()):
        tool(out, 'list-symbols', 'list_symbols', s, cost=3)
    for s in (('00',), ('11', '11'), ('22', '1'), ('33',), ('44', '4'),
              ('$4', '$2')):
        for o in ((True, False, False), (False, True, False),
                  (False, False, False), (False, False, True)):
            tool(out, 'find-symbols', 'find_symbols', s, *o)
    for o in ((True, True, False), (True, False, True), (False, True, True),
              (True, True, True), (True, False, False, True),
              (False, True, False, True), (False, False, True, True),
              (True, True, True, True), (True, True, False, True)):
        tool(out, 'find-symbols', 'find_symbols', ('0',), *o)
    for n, m in (('listing', 0), ('list-instructions', 0),
                 ('list-symbols', 0), ('find-symbols', 0),
                 ('find-symbols', 1)):
        tool(out, n, 'no_arguments', m)
    return out


def kept(tier, keep, *props):
    """Jobs of other properties, looked at for something else."""
    out = L(tier)
    names = set()
    for p in props:
        for j in globals()[p](tier):
            if j.name in names or j.cost > 20:
                continue
            names.add(j.name)
            out.add(j.file, j.func, *j.args, cost=j.cost, extra=j.extra,
                    keep=keep)
    return out


def some(jobs, per_function=1):
    """A few configurations of each harness."""
    seen = {}
    out = L(jobs.tier)
    for j in jobs:
        k = j.file, j.func, tuple(j.extra.values())
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= per_function:
            out.append(j)
    return out


LIBRARY = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09',
           'C10', 'C16', 'C25')
SOURCES = ('C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24')
PROGRAMS = ('C26', 'C27', 'C30', 'C31')


def C28(tier):
    out = some(kept(tier, 'resolve', *LIBRARY), 2)
    out += some(kept(tier, 'resolve', 'C14', 'C15'), 1 if tier == 'quick'
                else 64)
    out += kept(tier, 'resolve', *SOURCES, *PROGRAMS) if tier != 'quick' \
        else some(kept(tier, 'resolve', *SOURCES, *PROGRAMS), 4)
    return out


def C29(tier):
    out = L(tier)
    for f in ('fields', 'words', 'banks', 'instruction_objects', 'tables',
              'assembler_tables'):
        out.add('sharing', f, keep='state', cost=5)
    for b in (False, True):
        for f in ('modules', 'cards', 'decks', 'decks_file'):
            out.add('sharing', f, b, keep='state', cost=20)
    for w in (16, 24):
        for f in ('register', 'group', 'regset'):
            out.add('sharing', f, w, keep='state', cost=5)
    out += some(kept(tier, 'state', *LIBRARY), 2)
    made = kept(tier, 'state', 'C11', 'C14', 'C15')
    out += made if tier != 'quick' else [
        j for j in made if not j.args or
        j.args[0] in ('BA', 'PR', 'RF', 'PRD', 'S', 'FBA')]
    out += kept(tier, 'state', *SOURCES, *PROGRAMS) if tier != 'quick' \
        else some(kept(tier, 'state', *SOURCES, *PROGRAMS), 4)
    return out


def jobs(prop, tier):
    f = globals().get(prop)
    return f(tier) if f else None
