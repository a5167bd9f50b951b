#!/usr/bin/env python3
"""Decide one property: check.py <ID> [--replay FILE] [--jobs SUBSTRING].

Exit 0: no violation; 1: violation (line VIOLATION ...); 2: no answer."""
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

CPUS = 8
LIMITS = {'quick': (560, 740), 'thorough': (40000, 43000)}
KNOWN = os.path.join(HERE, 'known_findings.txt')
TRUSTED = [
    'engine/ (abstract interpreter: its model of Python semantics and of the '
    'library functions it knows)',
    'harness/ and oracle/ (the reference model of each property)',
    'CPython (runs the analyser), ast (parses /repo)']


def known(prop):
    out = []
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k['property'] == prop:
                    out.append(k)
    return out


def is_known(findings, job, label):
    for k in findings:
        if k.get('job') == job and k.get('label') == label:
            return k
    return None


def work(job, seed, q, i):
    try:
        import threading
        threading.stack_size(512 * 1024 * 1024)
        box = []

        def f():
            from engine import harness
            try:
                box.append(harness.decide(job, seed))
            except BaseException as e:
                box.append({'job': job.name, 'mode': 'none',
                            'obligations': 0, 'proved': 0, 'refuted': [],
                            'undecided': [], 'functions': [], 'labels': [],
                            'nodes': 0, 'atoms': 0, 'instances': 0,
                            'note': 'internal: ' + traceback.format_exc()
                            [-1500:], 'wall': 0})
        t = threading.Thread(target=f)
        t.start()
        t.join()
        q.put((i, json.dumps(box[0], default=repr)))
    except BaseException:
        q.put((i, None))


def run_jobs(jobs, seed, tier, stop):
    """Run in separate processes, at most CPUS at a time."""
    soft, hard = LIMITS[tier]
    t0 = time.time()
    ctx = multiprocessing.get_context('fork')
    q = ctx.SimpleQueue()
    todo = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    running, results = {}, {}
    started = {}
    skipped = 0
    while todo or running:
        now = time.time() - t0
        while todo and len(running) < CPUS and now < soft:
            i = todo.pop(0)
            p = ctx.Process(target=work, args=(jobs[i], seed, q, i))
            p.start()
            running[i] = p
            started[i] = time.time()
        if now >= soft:
            skipped += len(todo)
            todo = []
        while not q.empty():
            i, r = q.get()
            p = running.pop(i, None)
            if p is not None:
                p.join()
            results[i] = json.loads(r) if r else None
            if results[i] and stop(results[i]):
                todo = []
                for p in running.values():
                    p.kill()
                running = {}
        for i, p in list(running.items()):
            over = time.time() - started[i] > jobs[i].budget * 3.5
            if now > hard or over:
                p.kill()
                p.join()
            if not p.is_alive() and q.empty():
                time.sleep(.05)
                if q.empty():
                    running.pop(i)
                    results[i] = {
                        'job': jobs[i].name, 'mode': 'none', 'obligations': 0,
                        'proved': 0, 'refuted': [], 'undecided': [],
                        'functions': [], 'labels': [], 'nodes': 0, 'atoms': 0,
                        'instances': 0, 'note': 'ended (out of time or '
                        'memory)', 'wall': time.time() - started[i]}
        time.sleep(.01)
    return [results[i] for i in sorted(results) if results[i]], skipped


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=repr, sort_keys=True)
        f.write('\n')


def manifest_entry(prop):
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c
    except (OSError, ValueError):
        pass
    return {}


def construct_of(r):
    """The constructs of /repo that take part in a refutation."""
    from engine.harness import REPO
    out = []
    for f in r.get('functions') or []:
        if REPO + '/' in f:
            out.append(f.replace(REPO + '/', ''))
    return out


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMITS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in args
    only = args[args.index('--jobs') + 1] if '--jobs' in args else None
    if '--replay' in args:
        return replay(args[args.index('--replay') + 1])
    import jobs as J
    import rules
    findings = known(prop)
    jl = J.jobs(prop, tier) or []
    if only:
        jl = [j for j in jl if only in j.name]
    fresh = []
    seen_known = {}

    def stop(r):
        bad = False
        for x in r['refuted']:
            k = is_known(findings, r['job'], x['label'])
            if k:
                seen_known[k['job'], k['label']] = k
            else:
                fresh.append((r, x))
                bad = True
        if verbose:
            print('%-60s %-9s %d/%d ref=%d und=%d nodes=%d %.1fs %s' % (
                r['job'], r['mode'], r['proved'], r['obligations'],
                len(r['refuted']), len(r['undecided']), r['nodes'],
                r.get('wall', 0), r['note'][:300]), flush=True)
            for u in r['undecided']:
                print('    undecided', u)
        return bad and not verbose

    results, skipped = run_jobs(jl, seed, tier, stop)
    rule = rules.run(prop, tier)
    rule_sites = []
    if rule is not None:
        for v in rule['violations']:
            k = is_known(findings, 'rule', v['label'])
            if k:
                seen_known['rule', v['label']] = k
            else:
                fresh.append(({'job': 'rule', 'mode': 'rule'}, v))
        rule_sites = rule.get('sites', [])
    obligations = sum(r['obligations'] for r in results)
    proved = sum(r['proved'] for r in results)
    if rule is not None:
        obligations += rule['obligations']
        proved += rule['obligations'] - len(rule['violations'])
    none = [r for r in results if r['mode'] == 'none']
    inst = [r for r in results if r['mode'] == 'instances']
    und = [r for r in results if r['undecided']]
    functions = sorted(set(f for r in results for f in construct_of(r)))
    by_job = {}
    for r in results:
        k = r['job'].split('(')[0]
        b = by_job.setdefault(k, {'configurations': 0, 'obligations': 0,
                                  'discharged': 0})
        b['configurations'] += 1
        b['obligations'] += r['obligations']
        b['discharged'] += r['proved']
    status = 0
    replay_path = None
    if fresh:
        status = 1
        r, x = fresh[0]
        replay_path = os.path.join(HERE, 'evidence', 'replay',
                                   prop + '.json')
        write_json(replay_path, {
            'property': prop, 'tier': tier, 'job': r['job'],
            'mode': r['mode'], 'label': x['label'],
            'witness': x.get('witness'), 'harness_line': x.get('line'),
            'got / expected': x.get('detail'),
            'constructs': x.get('constructs') or construct_of(x),
            'others': [[a['job'], b['label']] for a, b in fresh[1:20]]})
    elif jl and not any(r['obligations'] for r in results):
        status = 2
    cov = {
        'obligations': obligations, 'discharged': proved,
        'checker_cmd': 'python3 check.py ' + prop,
        'trusted_base': TRUSTED,
        'jobs': len(results),
        'jobs_not_started_out_of_time': skipped,
        'harnesses': by_job,
        'functions_of_repo_analysed': functions,
        'statements_interpreted': sum(r['nodes'] for r in results),
        'abstract_atoms': sum(r['atoms'] for r in results),
        'undecided_obligations': [
            {'job': r['job'], 'labels': [u['label'] for u in r['undecided']]}
            for r in und][:20],
        'jobs_decided_on_constants_only': [
            {'job': r['job'], 'why': r['note'][:300],
             'instances': r['instances']} for r in inst][:20],
        'jobs_without_answer': [
            {'job': r['job'], 'why': r['note'][:300]} for r in none][:20],
        'rule': 'each harness obligation is one equality or predicate that '
                'must hold on every valuation of the symbolic inputs; it is '
                'discharged when the decision diagram of its negation under '
                'the path guard is the constant false'}
    if rule is not None:
        cov['rule'] = rule['rule']
        cov['analysed'] = rule['analysed']
        cov['sites'] = rule_sites[:200]
        if results:
            cov['rule'] += '; harness jobs: diagram of the negation is false'
    write_json(os.path.join(HERE, 'evidence', prop + '.json'), {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': manifest_entry(prop).get('level', 'proof'),
        'coverage': cov,
        'assumptions': ['the code is used by one thread'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh)})
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop,
                                                 seen_known[k]['what']))
    print('%s: %d obligations, %d discharged, %d jobs, %d undecided, '
          '%d on constants, %d without answer, %d not started, %.1f s' % (
              prop, obligations, proved, len(results), len(und), len(inst),
              len(none), skipped, time.time() - t0))
    for r in none[:5]:
        print('  no answer: %s %s' % (r['job'], r['note'][:2000]))
    for r, x in fresh[:5]:
        print('  %s: %s' % (r['job'], x['label']))
        print('     witness: %s' % repr(x.get('witness'))[:600])
        print('     got / expected: %s' % repr(x.get('detail'))[:600])
        print('     in: %s' % ', '.join(
            (x.get('constructs') or construct_of(x))[-12:]))
    if status == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    sys.stdout.flush()
    return status


def replay(path):
    """Interpret the harness of a reported violation on its witness."""
    with open(path) as f:
        d = json.load(f)
    if d['job'] == 'rule':
        print(json.dumps(d, indent=1))
        import rules
        r = rules.run(d['property'], d['tier'])
        bad = [v for v in r['violations'] if v['label'] == d['label']]
    else:
        import jobs as J
        from engine import harness
        job = [j for j in J.jobs(d['property'], d['tier'])
               if j.name == d['job']][0]
        b, funcs, detail = harness.confirm(job, d['witness'],
                                           time.time() + 300)
        bad = [(x[0], y) for x, y in zip(b or [], detail or [])]
    for b in bad:
        print(b)
    print('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
