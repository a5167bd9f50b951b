"""Differential test of the analyser against Python itself.

    python3 tools/selftest.py [name...]

Each function of tools/snippets.py is interpreted by the engine, on constants
and on symbolic inputs, and its outcome compared with what Python does. This
tests the trusted base of the checks (engine/), not the repository.
"""
import contextlib
import importlib.util
import inspect
import io
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from engine import bdd, harness, interp, terms as T, values as V  # noqa

SNIPPETS = os.path.join(HERE, 'tools', 'snippets.py')
TEXTS = ['', ' ', 'a', 'abc', ' a b ', 'A,B', 'x,y,z', ',', 'a  b\tc', '-12',
         '007', '$inc rest', '# c', 'Hello World', 'AB.CD', 'a-b', '\n',
         'line\n', ' L,1 ', '3-5']
NUMBERS = [-32, -31, -8, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 30,
           31]


class Unknown(Exception):
    pass


def plain(v, env):
    """The Python value of an engine value under an assignment."""
    def on(g):
        return bdd.evaluate(g, lambda x: T.atom_value(x, env))
    if isinstance(v, V.Un):
        for g, x in v.alts:
            if on(g):
                return plain(x, env)
        raise Unknown('no alternative')
    if isinstance(v, tuple):
        return tuple(plain(x, env) for x in v)
    if isinstance(v, interp.HList):
        l = [plain(x, env) for g, x in v.ents if on(g)]
        return tuple(l) if v.kind == 'tuple' else l
    if isinstance(v, interp.HDict):
        es = [e for g, e in interp.in_order(v) if on(g)]
        if v.kind in ('set', 'frozenset'):
            return set(plain(e.k, env) for e in es)
        return {plain(e.k, env): plain(e.v, env) for e in es}
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, (V.BV, V.SB, V.Term)):
        return T.evalt(v, env)
    raise Unknown('value %r' % (v,))


def shape(v):
    """Comparable form of a Python value."""
    import collections
    if isinstance(v, (list, collections.deque)):
        return ('list',) + tuple(map(shape, v))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(map(shape, v))
    if isinstance(v, dict):
        return ('dict',) + tuple((shape(k), shape(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(map(repr, v)))
    return (type(v).__name__, v)


def python(f, args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            r = 'value', shape(f(*args))
        except Exception as e:
            r = 'raise', type(e).__name__
    return r + (out.getvalue(),)


class Case:
    def __init__(self, f):
        self.f = f
        self.params = list(inspect.signature(f).parameters)

    def engine(self, const):
        job = harness.Job('selftest', 'x')
        r = harness.Run(job, const=const, deadline=time.time() + 60)
        it = r.it
        it.extra['snippets'] = SNIPPETS
        m = it.load('snippets')
        args = []
        for p in self.params:
            if p[0] in 'st':
                args.append(r.v_text(p))
            elif p[0] == 'b':
                args.append(r.v_flag(p))
            else:
                args.append(None)
        ints = [p for p in self.params if p[0] not in 'stb']
        vals = r.v_integers(*[(p, 6, True) for p in ints]) if ints else ()
        for p, v in zip(ints, vals):
            args[self.params.index(p)] = v
        f = m.env.vars[self.f.__name__]
        v, ok, raised = it.attempt(lambda: it.call(f, args, {}))
        return v, ok, raised, list(it.events)

    def outcome(self, res, env):
        v, ok, raised, events = res

        def on(g):
            return bdd.evaluate(g, lambda x: T.atom_value(x, env))
        out = ''.join(plain(p[1], env) for g, kind, p in events
                      if kind == 'out' and p[0] == 'stdout' and on(g))
        return self.result(v, ok, raised, on, env) + (out,)

    def result(self, v, ok, raised, on, env):
        for g, e in raised:
            if on(g):
                return 'raise', e.cls.name
        if not on(ok):
            return 'nothing', None
        return 'value', shape(plain(v, env))


def inputs(params, n, rng):
    out = []
    for i in range(n):
        env = {}
        for p in params:
            if p[0] in 'st':
                env[p] = rng.choice(TEXTS)
            elif p[0] == 'b':
                env[p] = rng.random() < .5
            else:
                env[p] = rng.choice(NUMBERS)
        out.append(env)
    return out


def main():
    spec = importlib.util.spec_from_file_location('snippets', SNIPPETS)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    bad = unsup = good = 0
    for n, f in sorted(vars(mod).items()):
        if not n.startswith('t_') or \
                len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        c = Case(f)
        rng = random.Random(n)
        envs = inputs(c.params, 25 if c.params else 1, rng)
        for mode in ('constants', 'symbolic') if c.params else ('constants',):
            res = None
            try:
                if mode == 'symbolic':
                    res = c.engine(None)
                for env in envs:
                    want = python(f, [env[p] for p in c.params])
                    if mode == 'constants':
                        res = c.engine(env)
                    got = c.outcome(res, dict(env))
                    if got != want:
                        bad += 1
                        print('DIFFER %s %s %r\n   engine %r\n   python %r' %
                              (n, mode, env, got, want))
                        break
                else:
                    good += 1
            except (interp.Unsupported, bdd.TooBig, Unknown,
                    T.EvalError) as e:
                unsup += 1
                print('unsupported %s %s: %s' % (n, mode, e))
            except Exception as e:
                bad += 1
                print('CRASH %s %s: %s %s' % (n, mode, type(e).__name__, e))
    print('%d agree, %d unsupported, %d differ' % (good, unsup, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
