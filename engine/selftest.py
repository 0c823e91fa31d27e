"""Encoder against CPython: every function of harness/mini.py, on every input
of a small domain."""
import copy
import io
import itertools
import sys
import time
from . import aig, driver, rt, values
from .driver import evaluate, freeze
from .native import norm


def native(f, args):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            r = ['ok', norm(f(*args))]
        except Exception as e:
            r = ['exc', type(e).__name__]
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = out


def compare(f, hi=3):
    driver.T = driver.Task()
    aig.reset()
    aig.reset_encoder()
    R = rt.R
    R.functions = set()
    R.decisions = 0
    R.calls = 0
    R.deadline = time.time() + 600
    bad = []
    todo = {a: native(f, a) for a in itertools.product(range(hi + 1), repeat=3)}
    n = len(todo)
    work = [[]]
    paths = 0
    while work:
        facts = work.pop()
        paths += 1
        driver.reset_path()
        R.solver = aig.Solver(60)
        R.facts = list(facts)
        for x in facts:
            R.solver.add(x)
        ok = all([aig.learn(x) for x in facts])
        res = g = None
        try:
            args = [driver.Sym().int(nm, 0, hi) for nm in 'abc']
            res = freeze(rt.call(f, tuple(args)))
            g = R.g
        except values.K:
            g = 0
        except rt.PathEnd:
            g = 0
        outs = list(R.out)
        log = list(R.ctxs[0].log)
        allfacts = list(R.facts)
        work.extend(R.pending)
        for a in list(todo):
            vals = {}
            for nm, v in zip('abc', a):
                for i, l in enumerate(driver.T.vars[nm][1]):
                    vals[l >> 1] = (i == v)
            m = aig.Model(vals)
            if not all(m.lit(x) for x in allfacts):
                continue
            exp, text = todo.pop(a)
            raised = [e for l, e in log if m.lit(l)]
            if raised:
                got = ['exc', driver.describe(raised[0]).split('(')[0]]
            elif g and m.lit(g):
                got = ['ok', evaluate(m, res)]
            else:
                got = ['dead']
            tx = ''.join(evaluate(m, t) for og, t in outs if m.lit(og))
            if strip(got) != strip(exp):
                bad.append((a, got, exp))
            elif tx != text:
                bad.append((a, tx, text))
    if todo:
        bad.append(('uncovered', sorted(todo)[:3], len(todo)))
    return n, paths, bad


def strip(x):
    return x


def main(names):
    driver.setup()
    from harness import mini
    fails = 0
    total = 0
    for k, f in list(vars(mini).items()):
        if not k.startswith('f_') or names and k not in names:
            continue
        try:
            n, p, bad = compare(f)
        except BaseException as e:
            import traceback
            print(k, 'ERROR', type(e).__name__, e)
            if names:
                traceback.print_exc()
            fails += 1
            continue
        total += n
        if bad:
            fails += 1
            print(k, 'paths', p, 'BAD', len(bad), 'e.g.', bad[0])
        elif names or p > 1:
            print(k, 'ok', n, 'paths', p)
    print('functions failing:', fails, 'inputs compared:', total)
    return fails


if __name__ == '__main__':
    sys.exit(1 if driver.big_stack(main, sys.argv[1:]) else 0)
