#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs  # noqa: E402
import rules  # noqa: E402

BITS = 'abstract interpretation of the source, BDD bit domain'
TEXT = 'abstract interpretation of the source, Herbrand text terms with ' \
       'BDD guards'
TECH = {
    'C26': 'effect analysis (abstract interpretation, effect log) and ' \
           'call-site rule over the syntax trees',
    'C28': 'name, attribute, import and call-signature resolution over the '
           'syntax trees, and abstract interpretation of every harness path '
           'for resolution errors',
    'C29': 'mutation analysis over the syntax trees, and abstract '
           'interpretation of the heap (what tables and objects reach before '
           'and after)',
}
NOTE_ABS = (
    'Every obligation is discharged on the current tree for all values of '
    'the symbolic inputs, in every configuration listed in the evidence '
    '(trace partitioning over the finite configurations). Trusts the '
    'analyser (engine/) as a model of Python and the reference model in '
    'harness/. If a changed tree uses constructs the abstract domain cannot '
    'follow, the affected job falls back to constant propagation over '
    'generated instances, which can refute but not prove; the evidence says '
    'so (jobs_decided_on_constants_only).')
TAIL = (
    ' Trusts the analyser (engine/) as a model of Python and the reference '
    'model in harness/. If a changed tree uses constructs the abstract domain '
    'cannot follow, the affected job falls back to constant propagation over '
    'generated instances, which can refute but not prove; the evidence says '
    'so (jobs_decided_on_constants_only).')
BOUNDED = {
    'C06': 'All addresses and values; histories of up to 3 (thorough 4) '
           'writes before the read, slices inside windows of 16 addresses at '
           'the limits plus some long ones.',
    'C19': 'Every line is an arbitrary text; decks of 0 to 5 (thorough 8) '
           'lines and one of 130.',
    'C20': 'Every line is an arbitrary text; files of up to 4 lines, includes '
           'to depth 3.',
    'C21': 'One or two cards of arbitrary text on an arbitrary earlier table; '
           'all decks of up to 4 (thorough 6) cards drawn from five sets.',
    'C22': 'One or two cards of arbitrary text on an arbitrary earlier table; '
           'all decks of up to 4 (thorough 6) cards drawn from five sets.',
    'C23': 'Arbitrary search text and any set of definitions; tables of up '
           'to 5 names, 2 segments, 2 subsegments.',
    'C24': 'Every sequence of up to 5 (thorough 6) operations on 2 or 3 '
           'names; arbitrary names on fixed sequences.',
    'C26': 'Effect log of the tools on bounded sets of sources with '
           'arbitrary or enumerated cards, and every reference to a function '
           'with effects in the whole repository.',
    'C27': 'Up to 4 sources of up to 3 cards: arbitrary text for single '
           'cards, all combinations of enumerated cards otherwise.',
    'C28': 'The rules cover every name, attribute, call, format and option '
           'of the repository, up to types they cannot infer.',
    'C29': 'The rule covers every write in the repository, up to aliases it '
           'cannot follow; the heap analysis covers the harness programs.',
    'C30': 'Numbers of 1 to 7 digits, arbitrary within a few bits around '
           'listed starts, steps listed; page cards of arbitrary text, page '
           'ranges listed.',
    'C31': 'Up to 2 sources of up to 3 cards: arbitrary text for single '
           'cards, all combinations of enumerated cards otherwise.',
}
NOTES = {p: 'Every obligation is discharged on the current tree, within a '
            'bound on the size of the input: ' + t + TAIL
         for p, t in BOUNDED.items()}
NA = {
    'C32': 'The ranking is computed by a third-party similarity metric '
           '(fuzzywuzzy, and difflib below it) on arbitrary strings; no '
           'static argument in reach bounds its floating-point scores.',
    'C33': 'The assembler front end is unfinished: assembler.py and '
           'context.py import modules that do not exist and use undefined '
           'names (recorded under C28), so there is no behaviour to decide.',
}
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        continue
    if jobs.jobs(p, 'quick') is None and not rules.has(p):
        NA[p] = 'No check built yet.'
        continue
    n = int(p[1:])
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
        'technique': TECH.get(p, BITS if n <= 16 else TEXT),
        'level': 'other' if p in BOUNDED else 'proof',
        'level_note': NOTES.get(p, NOTE_ABS),
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1, 'setup_cmd': 'true', 'checks': checks,
        'not_applicable': [{'property': p, 'reason': NA[p]}
                           for p in sorted(NA)],
        'notes': 'Pure static analysis: nothing of /repo is imported or run. '
                 'known_findings.txt lists recorded and repaired defects.',
    }, f, indent=1)
    f.write('\n')
