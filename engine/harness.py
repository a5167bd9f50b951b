"""Harness support: symbolic inputs, obligations, and how they are decided.

A harness is a Python file under /verif/harness which is never executed
either: it is interpreted by the same abstract interpreter as the code of
/repo, and says what is arbitrary (integers, flag, text), what is done with
the code under analysis, and what must hold afterwards (require)."""
import ast
import glob
import os
import random
import time
import traceback

from . import heap, bdd, values as V, terms as T, interp, builtin, samplers
from .bdd import TRUE, FALSE, and_, or_, neg
from .values import Term, BV, SB, Un, UNDEF, Unsupported, sb
from .interp import HList, HObj, HDict, Dead, AnchorMissing, ModV, BuiltinV

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


_tables = []


def is_cache(name):
    """A module-level name that is not one of the tables of the package (see
    rules/tables.txt): what it holds may change, but not be shared."""
    if not _tables:
        with open(os.path.join(HERE, 'rules', 'tables.txt')) as f:
            _tables.append(set(f.read().split()))
    return '.' in name and not name.startswith('default') and \
        name.rpartition('.')[0] in _tables[0] and name not in _tables[0]


class BadHarness(Exception):
    pass


def repo_constants(repo, harness=None):
    out = set()
    for p in sorted(glob.glob(repo + '/h800/*.py') +
                    glob.glob(repo + '/tools/*.py')) + (
            [os.path.join(HERE, 'harness', harness + '.py')] if harness
            else []):
        if p.endswith('_test.py'):
            continue
        try:
            tree = ast.parse(open(p, 'rb').read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    0 < len(n.value) <= 12 and '%' not in n.value:
                out.add(n.value)
    return sorted(out)


class Run:
    """One interpretation of one harness function."""

    def __init__(self, job, const=None, deadline=None):
        V.reset()
        self.job = job
        self.const = const
        self.obligations = []       # (label, pc, bad, line)
        self.kinds = {}             # input name -> sampling information
        self.order = []
        it = self.it = interp.Interp(REPO)
        it.deadline = deadline
        for p in glob.glob(os.path.join(HERE, 'harness', '*.py')):
            it.extra['harness_' + os.path.basename(p)[:-3]] = p
        for n, p in job.extra.items():
            it.extra[n] = os.path.join(REPO, p)
        m = ModV('verif', None)
        m.is_pkg = True
        it.modules['verif'] = m
        for n in dir(self):
            if n.startswith('v_'):
                m.env.vars[n[2:]] = BuiltinV(
                    n[2:], (lambda f: lambda t, a, k: f(*a, **k))(
                        getattr(self, n)))
        m.env.vars['TIER'] = job.tier
        m.env.vars['__all__'] = tuple(
            n for n in m.env.vars if not n.startswith('__'))

    # ---- what a harness can use
    def v_integers(self, *specs):
        names = [(s[0], s[1]) for s in specs]
        for s in specs:
            signed = len(s) > 2 and s[2] is True
            self.kinds[s[0]] = ('int', s[1], signed)
        if self.const is not None:
            return tuple(int(self.const.get(s[0], 0)) for s in specs)
        return tuple(V.sym_bv(names, [s[0] for s in specs
                                      if len(s) > 2 and s[2] is True]))

    def v_integer(self, name, bits, signed=False):
        return self.v_integers((name, bits, signed))[0]

    def v_flag(self, name):
        self.kinds[name] = ('flag',)
        if self.const is not None:
            return bool(self.const.get(name, False))
        return V.sym_bool(name)

    def v_text(self, name, kind='text'):
        self.kinds[name] = ('text', kind)
        if self.const is not None:
            return self.const.get(name, '')
        return V.sym_term(name)

    def v_number(self, name):
        """An arbitrary (unbounded) integer."""
        self.kinds[name] = ('number',)
        if self.const is not None:
            return int(self.const.get(name, 0))
        return V.sym_term(name, ty='int')

    def v_choice(self, name, seq):
        """One of the given values."""
        items = [v for _, v in self.it.to_list(seq).ents]
        bits = max(1, (len(items) - 1).bit_length())
        self.kinds[name] = ('choice', len(items))
        if self.const is not None:
            return items[int(self.const.get(name, 0)) % len(items)]
        n = V.sym_bv([(name, bits)])[0]
        out = []
        for i, v in enumerate(items):
            g = V.eq_int(n, i) if i < len(items) - 1 else \
                neg(V.lt_int(n, i))
            out.append((g, v))
        return V.v_union(out)

    def v_require(self, cond, label, **info):
        it = self.it
        b = it.truth(cond)
        bad = and_(it.pc, neg(b))
        self.obligations.append((label, it.pc, bad, it.frame.line,
                                 info.get('got', UNDEF),
                                 info.get('want', UNDEF)))

    def v_equal(self, got, want, label):
        self.v_require(sb(self.it.eq(got, want)), label, got=got, want=want)

    def v_same(self, got, want, label):
        """The same object."""
        self.v_require(sb(self.it.is_(got, want)), label)

    def v_assume(self, cond):
        it = self.it
        it.pc = and_(it.pc, it.truth(cond))
        if it.pc == FALSE:
            raise Dead()

    def v_mark(self):
        return len(self.it.events)

    def v_output(self, stream, since=0):
        """List of the pieces of text written to a stream."""
        it = self.it
        l = it.new_list()
        for g, kind, p in it.events[since:]:
            if kind == 'out' and p[0] == stream:
                g = bdd.constrain(g, it.pc) if g != TRUE else TRUE
                if and_(g, it.pc) != FALSE:
                    l.ents.append([g, p[1]])
        return l

    def v_output_lines(self, stream, since=0):
        """The complete lines written to a stream."""
        it = self.it
        l = it.new_list()
        open_ = [(it.pc, '')]
        for g, kind, p in it.events[since:]:
            if kind != 'out' or p[0] != stream:
                continue
            for h, x in V.alts_of(p[1]):
                gh = bdd.conj([g, h, it.pc])
                if gh == FALSE:
                    continue
                nxt = []
                for k, s in open_:
                    both, rest = and_(k, gh), and_(k, neg(gh))
                    if rest != FALSE:
                        nxt.append((rest, s))
                    if both != FALSE:
                        done, tail = split_lines(T.cat(s, x))
                        for d in done:
                            l.ents.append([both, d])
                        nxt.append((both, tail))
                by = {}
                for k, s in nxt:
                    key = s if isinstance(s, str) else id(s)
                    if key in by:
                        by[key] = (or_(by[key][0], k), s)
                    else:
                        by[key] = (k, s)
                open_ = list(by.values())
        for e in l.ents:
            if e[0] == it.pc:
                e[0] = TRUE
        return l

    def v_written(self, name, since=0):
        it = self.it
        l = it.new_list()
        for g, kind, p in it.events[since:]:
            if kind == 'write':
                g = and_(g, it.eq(p[0], name))
                if and_(g, it.pc) != FALSE:
                    l.ents.append([g, p[1]])
        return l

    def v_effects(self, since=0):
        """List of (kind, ...) of the file effects other than reading."""
        it = self.it
        l = it.new_list()
        for g, kind, p in it.events[since:]:
            if and_(g, it.pc) == FALSE:
                continue
            if kind == 'open':
                mode = p[1] if len(p) > 1 else 'r'
                if mode in ('r', 'rt', 'rb', 'rU'):
                    continue
                l.ents.append([g, ('open', p[0], mode)])
            elif kind == 'fs':
                l.ents.append([g, ('fs',) + tuple(
                    x for x in p)])
        return l

    def v_events(self, kind, since=0):
        it = self.it
        l = it.new_list()
        for g, k, p in it.events[since:]:
            if k == kind and and_(g, it.pc) != FALSE:
                l.ents.append([g, tuple(p)])
        return l

    def v_same_text(self, a, b):
        return sb(same_text(self.it, a, b))

    def v_text_equal(self, a, b, label):
        self.v_require(self.v_same_text(a, b), label, got=a, want=b)

    def v_file(self, name, lines):
        """Put a file into the file system the analysed code sees."""
        self.it.files[name] = lines
        return None

    def v_options(self, opts, args):
        it = self.it
        it.opt_values = {}
        for e in opts.ents:
            it.opt_values[e.k] = e.v
        it.opt_args = [v for _, v in it.to_list(args).ents]

    def v_module(self, name):
        return self.it.load(name)

    def v_note(self, what):
        return None

    def v_constants(self, value):
        return V.concrete(value)

    def v_opcodes_text(self, path):
        """Text of a data file of the repository."""
        with open(os.path.join(REPO, path)) as f:
            return f.read()

    # ---- running
    UNRESOLVED = ('NameError', 'UnboundLocalError', 'AttributeError',
                  'TypeError', 'ImportError', 'ModuleNotFoundError')

    def keep_resolve(self, raised):
        """C28: only what does not resolve counts."""
        it = self.it
        self.obligations = []
        for g, e in raised:
            site = it.raise_sites.get(id(e), (None, None))[1]
            if e.cls.name in self.UNRESOLVED and site and site[0] and \
                    site[0].startswith(REPO + '/'):
                self.obligations.append((
                    '%s %s in %s of %s' % (
                        e.cls.name, V.show(e.attrs.get('args')), site[1],
                        os.path.relpath(site[0], REPO)),
                    g, g, site[2], UNDEF, UNDEF))
        if not self.obligations:
            self.obligations.append((
                'every name, attribute and call on the paths resolves', TRUE,
                FALSE, 0, UNDEF, UNDEF))

    def v_apart(self, a, b, label):
        """Two objects share no mutable part, other than tables of the
        package that nothing modifies."""
        if self.job.keep == 'state':
            self.pairs.append((heap.reach(a), heap.reach(b), self.it.pc,
                               self.it.frame.line, label))

    def keep_state(self):
        """C29: only shared and modified state counts."""
        it = self.it
        self.obligations = []
        names = {}
        for n, v in self.before:
            for k in heap.freeze(v):
                names.setdefault(k, n)
        diff, modified = {}, set()
        for g, x in heap.changed(it, self.frozen):
            n = names.get(id(x), '?')
            diff[n] = or_(diff.get(n, FALSE), g)
            modified.add(id(x))
        for ra, rb, pc, line, label in self.pairs:
            bad, what = FALSE, []
            for k in ra:
                if k in rb and (k not in self.frozen or k in modified):
                    bad = or_(bad, and_(ra[k][0], rb[k][0]))
                    what.append('%s and %s' % (ra[k][2] or 'itself',
                                               rb[k][2] or 'itself'))
            self.obligations.append((label, pc, and_(bad, pc), line,
                                     ', '.join(what[:3]),
                                     'nothing in common'))
        after = dict(heap.roots(it, REPO))
        for n, v in self.before:
            if n not in after:
                diff[n] = TRUE
            elif after[n] is not v:
                d = neg(heap.same_value(it, v, after[n]))
                if d != FALSE:
                    diff[n] = or_(diff.get(n, FALSE), d)
        count = 0
        for n, v in self.before:
            if n in diff:
                continue
            if isinstance(v, (Un, HObj, HList, HDict, tuple)) or \
                    n.startswith('default'):
                count += 1
        for n in sorted(diff):
            if is_cache(n):
                continue
            self.obligations.append(('%s is modified' % n, TRUE, diff[n], 0,
                                     UNDEF, UNDEF))
        for i in range(count):
            self.obligations.append(('tables and defaults are unchanged',
                                     TRUE, FALSE, 0, UNDEF, UNDEF))

    def go(self):
        it = self.it
        it.events[:] = []
        it.seen.clear()
        m = it.load('harness_' + self.job.file)
        f = m.env.vars.get(self.job.func)
        if f is None:
            raise BadHarness('no function ' + self.job.func)
        it.events[:] = []
        it.seen.clear()
        if self.job.keep == 'state':
            for n in self.job.extra:
                it.load(n)
            self.before = heap.roots(it, REPO)
            self.frozen = {}
            self.pairs = []
            for _, v in self.before:
                heap.freeze(v, self.frozen)
        _, ok, raised = it.attempt(lambda: it.call(f, list(self.job.args), {}))
        if self.job.keep == 'resolve':
            self.keep_resolve(raised)
            return self
        if self.job.keep == 'state':
            self.keep_state()
            return self
        for g, e in raised:
            site = it.raise_sites.get(id(e), (None, None))[1]
            if e.cls.name == 'NameError' and site and \
                    site[0] and '/harness/' in site[0]:
                raise BadHarness('%s %r' % (e.cls.name, e.attrs.get('args')))
            self.obligations.append((
                'no uncaught exception (%s %s at %s)' % (
                    e.cls.name, V.show(e.attrs.get('args')), site),
                g, g, 0, UNDEF, UNDEF))
        return self


def split_lines(t):
    """Complete lines and the rest, at newlines in constant text."""
    parts = t.args if isinstance(t, Term) and t.op == 'cat' else (t,)
    done, cur = [], []
    for p in parts:
        if isinstance(p, str):
            bits = p.split('\n')
            for b in bits[:-1]:
                done.append(T.cat(*(cur + [b])))
                cur = []
            p = bits[-1]
        cur.append(p)
    return done, T.cat(*cur)


def pieces(it, l):
    out = []
    for g, v in l.ents:
        g = and_(g, it.pc)
        if g == FALSE:
            continue
        for h, x in V.alts_of(v):
            gh = and_(g, h)
            if gh != FALSE:
                out.append((gh, x))
    return out


def same_text(it, a, b):
    """The concatenations of two guarded sequences of strings are equal."""
    def lst(x):
        if isinstance(x, HList):
            return x
        return it.new_list([x])
    a, b = lst(a), lst(b)
    pa, pb = pieces(it, a), pieces(it, b)
    if len(pa) == len(pb) and all(
            g == h and V.same(x, y) for (g, x), (h, y) in zip(pa, pb)):
        return TRUE
    # cells of the partition by the guards of the pieces
    cells = [it.pc]
    for g, _ in pa + pb:
        nxt = []
        for c in cells:
            x, y = and_(c, g), and_(c, neg(g))
            if x != FALSE:
                nxt.append(x)
            if y != FALSE:
                nxt.append(y)
        cells = nxt
        if len(cells) > 3000:
            raise Unsupported('too many output cases')
    r = FALSE
    for c in cells:
        sa = T.cat(*[x for g, x in pa if and_(c, g) != FALSE])
        sb_ = T.cat(*[x for g, x in pb if and_(c, g) != FALSE])
        base = it.pc
        it.pc = c
        try:
            e = it.eq(sa, sb_)
        finally:
            it.pc = base
        r = or_(r, and_(c, e))
    return or_(r, neg(it.pc))


# ------------------------------------------------------------ deciding

class Job:
    def __init__(self, file, func, args=(), extra=None, tier='quick',
                 budget=120, samples=3000, instances=60, keep=None):
        self.file, self.func, self.args = file, func, tuple(args)
        self.extra = dict(extra or {})
        self.tier = tier
        self.budget = budget
        self.samples = samples
        self.instances = instances
        self.keep = keep            # what of the harness is looked at

    @property
    def name(self):
        where = ''.join(' of ' + v for v in sorted(self.extra.values()))
        return '%s.%s(%s)%s' % (self.file, self.func,
                                ', '.join(map(repr, self.args)), where)


def sample_value(kind, rng, consts, i):
    if kind[0] == 'int':
        w, signed = kind[1], kind[2]
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        r = rng.random()
        if r < 0.25:
            return rng.choice([lo, hi, 0, 1, hi - 1, (hi + 1) // 2])
        if r < 0.6:
            return max(lo, min(hi, rng.randrange(-9 if signed else 0, 70)))
        if r < 0.8:
            v = 1 << rng.randrange(w)
            return max(lo, min(hi, v - rng.randrange(2)))
        return rng.randrange(lo, hi + 1)
    if kind[0] == 'flag':
        return rng.random() < 0.5
    if kind[0] == 'choice':
        return rng.randrange(kind[1])
    if kind[0] == 'number':
        return rng.choice([0, 1, 2, 3, -1, -7, 10, 100, 5, 9999,
                           12345])
    if kind[0] == 'text':
        return samplers.KINDS[kind[1]](rng, consts)
    raise ValueError(kind)


def sample_env(kinds, rng, consts, i):
    env = {n: sample_value(k, rng, consts, i) for n, k in kinds.items()}
    texts = [n for n, k in kinds.items() if k[0] == 'text']
    if len(texts) > 1 and rng.random() < 0.6:
        # repetitions matter (duplicates, identical lines)
        a, b = rng.sample(texts, 2)
        if kinds[a] == kinds[b]:
            env[b] = env[a]
            if kinds[a][1] in ('line', 'card', 'rawline') and \
                    rng.random() < 0.6:
                other = sample_value(kinds[b], rng, consts, i)
                x, y = rng.choice([(0, 8), (8, 19), (19, 32), (32, 46),
                                   (46, 60), (60, 75), (32, 200)])
                s = env[a].rstrip('\n').ljust(81)
                t = other.rstrip('\n').ljust(200)
                env[b] = s[:x] + t[x:y] + s[y:]
    return env


def home(x):
    """(input, offset, width) of the text a term is computed from."""
    if not isinstance(x, Term):
        return None
    if x.op == 'sym':
        return x.args[0], 0, None
    if x.op == 'slice' and isinstance(x.args[1], int) and x.args[1] >= 0:
        h = home(x.args[0])
        if h is None:
            return None
        n, off, w = h
        a, b = x.args[1:]
        if b is not None and b < 0:
            b = None
        v = None if b is None else b - a
        if w is not None:
            v = w - a if v is None else min(v, w - a)
        return n, off + a, v
    if x.op == 'idx' and isinstance(x.args[1], int) and x.args[1] >= 0:
        h = home(x.args[0])
        return h and (h[0], h[1] + x.args[1], 1)
    if x.op == 'scall' and len(x.args) > 1:
        return home(x.args[1])
    if x.op in ('before', 'getitem', 'after', 'len'):
        return home(x.args[0])
    return None


def placements(b):
    """Where constants that the atoms of b compare with would be."""
    out = set()
    for v in bdd.support(b):
        if V.atoms[v][0] != 'term':
            continue
        for t in list(T.subterms(V.atoms[v][1]).values()):
            c = None
            if t.op == 'eq' and isinstance(t.args[1], str):
                x, c = t.args
            elif t.op == 'in' and isinstance(t.args[0], str):
                c, x = t.args
            elif t.op == 'scall' and len(t.args) == 3 and \
                    isinstance(t.args[2], str):
                x, c = t.args[1:]
            if c is None:
                continue
            h = home(x)
            if h is not None:
                if h[2] is not None and h[2] < len(c):
                    continue
                # a comparison of the beginning says nothing of the rest
                y = x
                while isinstance(y, Term) and y.op in ('slice', 'idx') and \
                        isinstance(y.args[0], Term) and \
                        y.args[0].op != 'sym':
                    y = y.args[0]
                g = home(y) if y is not x else None
                if g is not None and g[1] == h[1]:
                    h = g
                out.add(h + (c,))
    return sorted(out, key=repr)


def place(env, spots, rng):
    for _ in range(rng.randrange(1, 4)):
        n, off, w, c = rng.choice(spots)
        s = env.get(n)
        if not isinstance(s, str):
            continue
        end = '\n' if s.endswith('\n') else ''
        s = s[:len(s) - len(end)]
        if rng.random() < .4:
            c += rng.choice(['A', ',', ',1', '1', ' ', ' X', '.', ',A,B'])
        if rng.random() < .3:
            c = samplers.vary(rng, c)
        if w is None:
            w = rng.choice([len(c), len(c), max(len(c), len(s) - off)])
        s = s.ljust(off)[:off] + c[:w].ljust(w) + s[off + w:]
        env[n] = s + end


def has_terms(b):
    return any(V.atoms[v][0] == 'term' for v in bdd.support(b))


def model_env(b, kinds):
    """Input values from a model of a diagram over input bits."""
    env = {}
    m = bdd.pick(b)
    for v, val in m.items():
        a = V.atoms[v]
        if a[0] == 'bit' and val:
            env[a[1]] = int(env.get(a[1], 0)) | (1 << a[2])
    for n, k in kinds.items():
        x = env.get(n, 0)
        if k[0] == 'int' and k[2] and x >> (k[1] - 1):
            x -= 1 << k[1]
        if k[0] == 'flag':
            x = bool(x)
        if k[0] in ('int', 'flag', 'choice'):
            env[n] = x
    return env


def bits_env(env, kinds):
    return dict(env)


def confirm(job, env, deadline):
    """Interpret the harness with the witness as constants."""
    try:
        r = Run(job, const=env, deadline=deadline).go()
    except (Unsupported, bdd.TooBig, RecursionError) as e:
        return None, str(e), None
    except Exception as e:
        if isinstance(e, AnchorMissing):
            raise
        return [], str(e), None
    bad = [(l, line, got, want) for l, pc, b, line, got, want
           in r.obligations if b == TRUE]
    funcs = sorted(r.it.seen, key=str)
    return bad, funcs, [V.show(x[2]) + ' / ' + V.show(x[3]) for x in bad]


def decide(job, seed=1):
    """Run one job; returns a plain dict."""
    t0 = time.time()
    res = {'job': job.name, 'mode': 'abstract', 'obligations': 0, 'proved': 0,
           'refuted': [], 'undecided': [], 'functions': [], 'nodes': 0,
           'labels': [], 'atoms': 0, 'instances': 0, 'note': ''}
    rng = random.Random('%s/%s' % (seed, job.name))
    consts = repo_constants(REPO, job.file)
    try:
        r = Run(job, deadline=t0 + job.budget).go()
        todo = []
        labels = {}
        for l, pc, bad, line, got, want in r.obligations:
            labels.setdefault(l, [0, 0])
            labels[l][0] += 1
            res['obligations'] += 1
            if pc != FALSE:
                labels[l][1] += 1
            if bad == FALSE:
                res['proved'] += 1
                continue
            todo.append((l, bad, line, got, want))
        res['functions'] = sorted(
            set('%s:%s' % x for x in r.it.seen), key=str)
        res['nodes'] = r.it.nodes
        res['atoms'] = len(V.atoms)
        res['labels'] = sorted(labels)
        cands = []
        for l, bad, line, got, want in todo:
            if has_terms(bad):
                bad = T.refine(bad)
                if bad == FALSE:
                    res['proved'] += 1
                    continue
            if not has_terms(bad):
                cands.append((l, model_env(bad, r.kinds), line, True))
                continue
            env = None
            t1 = time.time()
            spots = placements(bad)
            for i in range(job.samples):
                e = sample_env(r.kinds, rng, consts, i)
                if spots and i % 3:
                    place(e, spots, rng)
                try:
                    if bdd.evaluate(bad, lambda v: T.atom_value(v, e)):
                        env = e
                        break
                except T.EvalError as x:
                    res['note'] = 'no value for %s' % x
                if i % 50 == 0 and time.time() - t1 > 15:
                    break
            if env is None:
                res['undecided'].append({'label': l, 'line': line,
                                         'samples': i + 1})
            else:
                env = {k: v for k, v in env.items() if k[0] != '#'}
                cands.append((l, env, line, False))
        kinds = r.kinds
    except AnchorMissing as e:
        if not e.path.startswith(REPO + '/'):
            raise
        what = str(e)
        for n, p in job.extra.items():
            what = what.replace('importing %s ' % n, 'importing %s ' % p)
        res['refuted'].append({'label': what, 'witness': {}, 'line': 0,
                               'functions': [e.path + ':<module>']})
        res['obligations'] = 1
        res['wall'] = time.time() - t0
        return res
    except Exception as e:
        # a construct the domains do not know, or a slip of the analyser
        res.update(mode='instances', obligations=0, proved=0, undecided=[])
        res['note'] = '%s: %s' % (type(e).__name__, e)
        if not isinstance(e, (Unsupported, bdd.TooBig, RecursionError)):
            res['note'] += ' ' + traceback.format_exc()[-600:]
        return instances(job, res, rng, consts, t0)
    for l, env, line, exact in cands:
        bad, funcs, detail = confirm(job, env, time.time() + 60)
        if bad is None and exact:
            res['refuted'].append({'label': l, 'witness': env, 'line': line,
                                   'confirmed': funcs})
        elif bad:
            res['refuted'].append({'label': bad[0][0], 'witness': env,
                                   'line': bad[0][1], 'detail': detail[:3],
                                   'functions': ['%s:%s' % x
                                                 for x in funcs]})
        else:
            res['undecided'].append({'label': l, 'line': line,
                                     'spurious': repr(env)[:500]})
    if res['undecided'] and not res['refuted']:
        # look at constant instances too, so that an undecided obligation is
        # not simply left alone
        instances(job, res, rng, consts, time.time(), kinds)
    res['wall'] = time.time() - t0
    return res


def instances(job, res, rng, consts, t0, kinds=None):
    """Constant propagation on instances: the abstract run was not possible."""
    if kinds is None:
        kinds = {}
        try:
            r = Run(job, const={}, deadline=time.time() + 60).go()
            kinds = r.kinds
        except Exception as e:
            if isinstance(e, AnchorMissing):
                raise
            res['note'] += '; constants: %s' % e
            kinds = None
    if kinds is None:
        res['mode'] = 'none'
        res['wall'] = time.time() - t0
        return res
    seen_kinds = dict(kinds)
    for i in range(job.instances):
        if time.time() - t0 > job.budget * 2:
            break
        env = sample_env(seen_kinds, rng, consts, i) if i else {}
        try:
            r = Run(job, const=env, deadline=time.time() + 60).go()
        except Exception as e:
            if isinstance(e, AnchorMissing):
                raise
            res['unsupported_instances'] = res.get(
                'unsupported_instances', 0) + 1
            res['note'] += '' if res['unsupported_instances'] > 1 else \
                '; instance: %s' % e
            continue
        seen_kinds.update(r.kinds)
        res['instances'] += 1
        if not res['functions']:
            res['functions'] = sorted(set('%s:%s' % x for x in r.it.seen))
        for l, pc, b, line, got, want in r.obligations:
            if res['mode'] == 'instances':
                res['obligations'] += 1
            # a remaining condition is about text the analysis does not know
            if b == TRUE:
                res['refuted'].append({
                    'label': l, 'witness': env, 'line': line,
                    'detail': ['%s / %s' % (V.show(got), V.show(want))],
                    'functions': ['%s:%s' % x for x in sorted(
                        r.it.seen, key=str)]})
                res['wall'] = time.time() - t0
                return res
    res['wall'] = time.time() - t0
    return res
