#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--tier quick|thorough]

Every task of the property (harness/tasks.py) is executed symbolically from
the current source of /repo; the obligations go to an SMT solver.  A
counterexample is replayed on the real code before it is reported.

exit 0: held on everything explored;  exit 1: VIOLATION (reproduced);
exit 3: no verdict (unsupported code, solver unknown, encoder mismatch).
"""
import argparse
import json
import os
import re
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE_PY = next((p for p in ('/opt/venv/bin/python',)
                  if os.path.exists(p)), sys.executable)


def native(items):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    total = sum(i.get('timeout', 20) for i in items) + 30

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        os.setsid()
    try:
        p = subprocess.run(
            [NATIVE_PY, os.path.join(HERE, 'engine', 'native.py'), REPO,
             HERE], input=json.dumps(items), text=True, capture_output=True,
            timeout=total, env=env, preexec_fn=lim, cwd='/')
    except subprocess.TimeoutExpired:
        return [{'result': 'timeout', 'observed': [], 'labels': [],
                 'trace': ''} for _ in items]
    if p.returncode:
        raise RuntimeError('native replay failed: %s' % p.stderr[-2000:])
    return json.loads(p.stdout)


def failing(res):
    return res.startswith('check: ') or res.startswith('exception: ') or \
        res == 'timeout'


class Pool(object):
    def __init__(self, width, deadline):
        self.width = width
        self.deadline = deadline
        self.run = []

    def start(self, task):
        left = self.deadline - time.time()
        budget = max(5, min(task['budget'], left - 15))
        t = dict(task, opts=dict(task.get('opts', {}), budget=budget))
        f = open(task['out'], 'wb')
        e = open(task['out'] + '.err', 'wb')
        p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'engine', 'worker.py'),
             REPO], stdin=subprocess.PIPE, stdout=f, stderr=e, cwd='/',
            env=dict(os.environ, PYTHONHASHSEED='0',
                     PYTHONDONTWRITEBYTECODE='1'))
        p.stdin.write(json.dumps(
            {k: t[k] for k in ('harness', 'params', 'opts', 'mem')}).encode())
        p.stdin.close()
        self.run.append((p, task, time.time() + budget + 45))

    def poll(self):
        done = []
        for x in list(self.run):
            p, task, limit = x
            if p.poll() is None and time.time() < limit:
                continue
            timed = p.poll() is None
            if timed:
                p.kill()
                p.wait()
            self.run.remove(x)
            try:
                rep = json.load(open(task['out']))
            except ValueError:
                err = open(task['out'] + '.err', errors='replace').read()
                rep = {'status': 'inconclusive', 'message':
                       'worker %s: %s' % ('timed out' if timed else 'died (%s)'
                                          % p.returncode, err[-800:])}
            done.append((task, rep))
        return done

    def kill(self):
        for p, _, _ in self.run:
            p.kill()
            p.wait()
        self.run = []


def known_findings(pid):
    """[(task name, message, description)] of the recorded defects."""
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\w+) task=(.*?) message=(.*?) '
                         r'\| (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def name_of(task):
    return '%s(%s)' % (task['harness'], ', '.join(
        '%s=%r' % kv for kv in sorted(task['params'].items())))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--all', action='store_true',
                    help='do not stop at the first violation')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property

    if a.replay:
        item = json.load(open(a.replay))
        r = native([item])[0]
        print('%s\n%s\nvalues: %s\nresult on the real code: %s\n%s' % (
            name_of(item), item.get('message', ''), json.dumps(
                item['values']), r['result'], r['trace']))
        return 1 if failing(r['result']) else 0

    from harness import tasks as registry
    t0 = time.time()
    total = 780 if a.tier == 'quick' else 3600 * 3
    todo = registry.tasks_for(pid, a.tier)
    todo = [t for t in todo if a.task in name_of(t)]
    work = '/tmp/verif-%s-%d' % (pid, os.getpid())
    os.makedirs(work, exist_ok=True)
    for i, t in enumerate(todo):
        t['out'] = os.path.join(work, '%d.json' % i)
    pool = Pool(a.jobs, t0 + total)
    queue = sorted(todo, key=lambda t: -t['cost'])
    reports, problems, violations, skipped = [], [], [], []
    nreplay = [0]
    findings, printed = known_findings(pid), set()
    validated = 0
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)

    def say(*args):
        print(*args)
        sys.stdout.flush()

    def confirm(task, values, message, expect=None):
        item = {'harness': task['harness'], 'params': task['params'],
                'values': values, 'timeout': task.get('timeout', 30),
                'message': message, 'property': pid}
        r = native([item])[0]
        if not failing(r['result']):
            problems.append('counterexample of %s did not reproduce: %s '
                            '(native: %s) values %s' % (
                                name_of(task), message, r['result'],
                                json.dumps(values)[:600]))
            return
        for t, msg, what in findings:
            if t == name_of(task) and msg in (message, r['result']):
                if what not in printed:
                    printed.add(what)
                    say('KNOWN-FINDING: property=%s %s' % (pid, what))
                return
        nreplay[0] += 1
        path = os.path.join(HERE, 'replay', '%s-%d.json' % (pid, nreplay[0]))
        if REPO != '/repo':
            path = '/tmp/verif-replay-%s-%d.json' % (pid, os.getpid())
        item['native'] = r['result']
        with open(path, 'w') as f:
            json.dump(item, f)
        violations.append(path)
        say('counterexample: %s: %s; on the real code: %s' % (
            name_of(task), message, r['result']))
        say('VIOLATION property=%s replay=%s' % (pid, path))

    while queue or pool.run:
        while queue and len(pool.run) < pool.width and not (
                violations and not a.all):
            if time.time() > t0 + total - 30:
                skipped.append(queue.pop(0))
                continue
            pool.start(queue.pop(0))
        if violations and not a.all:
            pool.kill()
            break
        done = pool.poll()
        if not done:
            time.sleep(0.05)
            continue
        for task, rep in done:
            nm = name_of(task)
            rep['task'] = nm
            reports.append((task, rep))
            if a.v:
                say('%-60s %s %s paths=%s wall=%s solver=%s nodes=%s' % (
                    nm, rep['status'], rep.get('message', ''),
                    rep.get('paths'), rep.get('wall_s'),
                    rep.get('solver_s'), rep.get('nodes')))
            st = rep['status']
            if st == 'violation':
                confirm(task, rep['values'], rep['message'])
                continue
            # replay the witnesses on the real code
            ws = rep.get('witnesses', [])
            if ws:
                try:
                    res = native([{'harness': task['harness'],
                                   'params': task['params'],
                                   'values': w['values'],
                                   'timeout': task.get('timeout', 30)}
                                  for w in ws])
                except RuntimeError as e:
                    problems.append('%s: %s' % (nm, e))
                    continue
                for w, r in zip(ws, res):
                    if failing(r['result']):
                        confirm(task, w['values'], 'witness input')
                        break
                    if r['result'] != 'ok' or \
                            r['labels'] != w['labels'] or \
                            r['observed'] != json.loads(
                                json.dumps(w['observed'])):
                        problems.append(
                            'encoding and real code differ: %s %s: %s' % (
                                nm, json.dumps(w['values'])[:400],
                                diff(w, r)))
                        break
                    validated += 1
            if st != 'ok':
                msg = '%s: %s: %s' % (nm, st, rep.get('message'))
                if a.v and rep.get('trace'):
                    msg += '\n' + rep['trace'][-2500:]
                if st == 'inconclusive' and not task['core']:
                    skipped.append(task)
                    say('NOT DECIDED (outside this run): ' + msg)
                else:
                    problems.append(msg)
            else:
                missing = set(task['reach']) - set(rep['reached'])
                if missing:
                    problems.append('%s: vacuous, not reached: %s' % (
                        nm, sorted(missing)))

    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    coreless = [name_of(t) for t in skipped if t['core']]
    if coreless and not violations:
        problems.append('not run in time: %s' % coreless)
    wall = time.time() - t0
    ok = [r for _, r in reports if r['status'] == 'ok']
    tot = lambda k: sum(r.get(k) or 0 for r in ok)
    functions = sorted(set(f for r in ok for f in r.get('functions', ())))
    samples = []
    for _, r in reports[:6]:
        for w in r.get('witnesses', [])[:1]:
            samples.append({'task': r['task'], 'inputs': w['values'],
                            'reached': w['labels']})
    evidence = {
        'property': pid, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('stmts'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'task': r['task']} for _, r in
                                   reports[:3]],
            'meaning': 'states = symbolic paths explored to the end; '
                       'transitions = guarded statements of the real code '
                       'executed symbolically; every path carries all values '
                       'of the symbolic inputs that follow it; '
                       'traces_validated_against_impl = solver models '
                       'replayed on the real code with identical observed '
                       'results',
            'assertions': tot('checks'),
            'assertions_discharged': tot('discharged'),
            'solver_queries': tot('queries'),
            'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'),
            'solver_seconds': round(tot('solver_s'), 2),
            'symbolic_bits': tot('vars'),
            'formula_nodes': tot('nodes'),
            'functions_encoded': [f for f in functions
                                  if not f.startswith('harness.')],
            'tasks': [{'task': r['task'], 'status': r['status'],
                       'paths': r.get('paths'), 'queries': r.get('queries'),
                       'solver_s': r.get('solver_s'),
                       'wall_s': r.get('wall_s')} for _, r in reports],
            'not_decided': [name_of(t) for t in skipped],
            'bounds': registry.bounds_for(pid, a.tier),
        },
        'assumptions': registry.assumptions_for(pid),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if problems:
        evidence['coverage']['problems'] = problems
    if not a.task and REPO == '/repo':
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for p in problems:
        say('PROBLEM: ' + p)
    if violations:
        return 1
    if problems:
        return 3
    say('property %s held: %d tasks, %d paths, %d assertions, %d solver '
        'queries (%.1f s in the solver), %d traces validated, %.1f s' % (
            pid, len(ok), tot('paths'), tot('checks'), tot('queries'),
            tot('solver_s'), validated, wall))
    return 0


def diff(w, r):
    if r['result'] != 'ok':
        return 'native result %s' % r['result']
    if r['labels'] != w['labels']:
        return 'labels %s / %s' % (w['labels'], r['labels'])
    obs = json.loads(json.dumps(w['observed']))
    for x, y in zip(obs, r['observed']):
        if x != y:
            return 'observed %s / %s' % (x, y)
    return 'observed lengths %d / %d' % (len(obs), len(r['observed']))


if __name__ == '__main__':
    sys.exit(main())
