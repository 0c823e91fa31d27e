"""Runs a harness symbolically over every path and decides its obligations."""
import json
import os
import sys
import threading
import time
import traceback

from . import aig, rt, models, values
from .aig import and2, or_all, and_all
from .values import R, K, Union, SBool, Seq, PSet, PDict, PObj, PMethod, PFunc
from .values import mkbool, merge_many
from .compiler import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NonTermination(Exception):
    pass


rt.NonTermination = NonTermination


# ------------------------------------------------------------ task registry
class Task(object):
    """State shared by every path of one harness run."""

    def __init__(self):
        self.vars = {}          # name -> descriptor for model read-back
        self.reached = {}       # label -> witness values (or None so far)
        self.witnesses = []
        self.npaths = 0
        self.checks = 0
        self.discharged = 0
        self.stmts = 0
        self.samples = []


T = None


class Found(BaseException):
    def __init__(self, model, msg):
        self.model = model
        self.msg = msg


class Sym(object):
    """The symbolic side of the harness API (the native side: native.py)."""
    _host_api_ = True
    symbolic = True

    # ------------------------------------------------------------- inputs
    def int(self, name, lo, hi):
        name = host(name)
        lo, hi = host(lo), host(hi)
        d = T.vars.get(name)
        if d is None:
            lits = [aig.new_var('%s=%d' % (name, k))
                    for k in range(lo, hi + 1)]
            if len(lits) > 1:
                aig.onehot_group(lits)
            else:
                lits = [1]
            d = T.vars[name] = ('int', lits, lo)
        lits = d[1]
        return merge_many([(aig.simp(l), lo + i) for i, l in enumerate(lits)])

    def bool(self, name):
        name = host(name)
        d = T.vars.get(name)
        if d is None:
            d = T.vars[name] = ('bool', aig.new_var(name))
        return mkbool(aig.simp(d[1]))

    def choice(self, name, options):
        name = host(name)
        opts = [x for g, x in rt.drain(options)]
        d = T.vars.get(name)
        if d is None:
            lits = [aig.new_var('%s#%d' % (name, k))
                    for k in range(len(opts))]
            if len(lits) > 1:
                aig.onehot_group(lits)
            else:
                lits = [1]
            d = T.vars[name] = ('int', lits, 0)
        return merge_many([(aig.simp(l), x) for l, x in zip(d[1], opts)])

    def subset(self, name, elems):
        name = host(name)
        elems = [host(x) for g, x in rt.drain(elems)]
        d = T.vars.get(name)
        if d is None:
            lits = [aig.new_var('%s has %r' % (name, k)) for k in elems]
            d = T.vars[name] = ('subset', lits, elems)
        s = PSet()
        for l, x in zip(d[1], d[2]):
            s.e[x] = aig.simp(l)
        return s

    def solution(self, name, w, h):
        """An arbitrary completely filled valid grid, as a list of lists."""
        name, w, h = host(name), host(w), host(h)
        n = w * h
        d = T.vars.get(name)
        if d is None:
            cells = []
            for r in range(n):
                row = []
                for c in range(n):
                    lits = [aig.new_var('%s[%d][%d]=%d' % (name, r, c, k + 1))
                            for k in range(n)]
                    aig.onehot_group(lits)
                    row.append(lits)
                cells.append(row)
            d = T.vars[name] = ('solution', cells)
        cells = d[1]
        for k in range(n):
            for i in range(n):
                br, bc = (i // h) * h, (i % h) * w
                for unit in ([(i, j) for j in range(n)],
                             [(j, i) for j in range(n)],
                             [(br + j // w, bc + j % w) for j in range(n)]):
                    ls = [cells[r][c][k] for r, c in unit]
                    R.solver.add(or_all(ls))
                    for a in range(n):
                        for b in range(a):
                            R.solver.add(and2(ls[a], ls[b]) ^ 1)
        return Seq('list', [Seq('list', [
            merge_many([(aig.simp(l), k + 1)
                        for k, l in enumerate(cells[r][c])])
            for c in range(n)]) for r in range(n)])

    # --------------------------------------------------------- properties
    def assume(self, cond):
        lit = rt.truth(cond)
        if lit == 1:
            return
        lit = aig.simp(aig.under(R.g, lit))
        if lit == 1:
            return
        flush()
        f = and2(R.g, lit ^ 1) ^ 1
        if f == 0 or not R.solver.check(f):
            raise rt.PathEnd("assumption unsatisfiable on this path")
        R.solver.add(f)
        if not aig.learn(f):
            raise rt.PathEnd("assumption")
        R.g = aig.simp(R.g)
        if not R.g:
            raise K

    def check(self, cond, msg):
        T.checks += 1
        lit = rt.truth(cond)
        if lit == 1:
            T.discharged += 1
            return
        o = and2(R.g, aig.under(R.g, lit) ^ 1)
        if o:
            R.obligations.append((o, host(msg)))
        else:
            T.discharged += 1

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        label = host(label)
        R.reach.setdefault(label, []).append(R.g)

    def observe(self, label, value):
        R.observed.append((R.g, host(label), freeze(value)))

    def output(self):
        """Everything printed so far, as one string."""
        parts = []
        for g, t in R.out:
            parts.append((g, t))
        items, guards = [], []
        for g, t in parts:
            for tg, ch in (t.pairs() if t.__class__ is Seq
                           else [(1, c) for c in t]):
                x = and2(aig.under(R.g, g), tg)
                if x:
                    items.append(ch)
                    guards.append(x)
        return values.mkseq('str', items, guards)

    def clear_output(self):
        R.out = []

    # -------------------------------------------------------- environment
    def stub(self, func, repl):
        if func.__class__ is PMethod:
            func = func.func
        R.stubs[func] = repl

    def case(self, v):
        """v with a definite value on this path (splits paths)."""
        return rt.concretize(v)

    def fact(self, cond):
        """Split the paths on cond; its definite truth value."""
        return rt.decide_here(rt.truth(cond))

    def forking(self, on):
        """Split paths at every decision from here on; or in the plain
        functions of the module with the given name only."""
        on = host(on)
        if isinstance(on, str):
            R.shallow = on
        else:
            R.shallow = None
            R.fork = on

    def loop_limit(self, n):
        R.loop_limit = host(n)

    def log(self, *a):
        sys.stderr.write('log: %r\n' % (a,))


def host(v):
    return v if v.__class__ in (str, int) else rt.hostify(v)


def freeze(v):
    """A snapshot of a value (so that later mutation does not show)."""
    c = v.__class__
    if c is Seq:
        return Seq(v.kind, [freeze(x) for x in v.items],
                   None if v.guards is None else list(v.guards))
    if c is PSet:
        return PSet(dict(v.e), v.frozen)
    if c is PDict:
        d = PDict()
        for k, e in v.d.items():
            d.d[k] = [e[0], freeze(e[1])]
        return d
    if c is Union:
        return Union([(l, freeze(x)) for l, x in v.alts])
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def evaluate(m, v):
    """JSON-able value of v in a model."""
    c = v.__class__
    if c is Union:
        for l, x in v.alts:
            if m.lit(l):
                return evaluate(m, x)
        return None
    if c is SBool:
        return m.lit(v.lit)
    if c is Seq:
        out = [evaluate(m, x) for g, x in v.pairs() if m.lit(g)]
        return ''.join(out) if v.kind == 'str' else out
    if c is PSet:
        return ['set'] + sorted((evaluate(m, rt.host_key(k))
                                 for k, p in v.e.items() if m.lit(p)),
                                key=repr)
    if c is PDict:
        return ['dict'] + [[evaluate(m, rt.host_key(k)), evaluate(m, e[1])]
                           for k, e in v.d.items() if m.lit(e[0])]
    if isinstance(v, tuple):
        return [evaluate(m, x) for x in v]
    if c is frozenset:
        return ['set'] + sorted(v, key=repr)
    if isinstance(v, type):
        return v.__name__
    if v is None or c in (int, str, bool):
        return v
    return '<%s>' % (v.cls.__name__ if c is PObj else c.__name__)


def readback(m):
    out = {}
    for name, d in T.vars.items():
        if d[0] == 'int':
            out[name] = next((d[2] + i for i, l in enumerate(d[1])
                              if m.lit(l)), d[2])
        elif d[0] == 'bool':
            out[name] = m.lit(d[1])
        elif d[0] == 'subset':
            out[name] = [x for l, x in zip(d[1], d[2]) if m.lit(l)]
        elif d[0] == 'solution':
            out[name] = [[next((k + 1 for k, l in enumerate(ls) if m.lit(l)),
                               0) for ls in row] for row in d[1]]
    return out


def flush():
    """Decide the obligations collected so far on this path."""
    obs = R.obligations + [
        (l, 'uncaught %s' % describe(e)) for l, e in R.ctxs[0].log]
    R.obligations = []
    del R.ctxs[0].log[:]
    if not obs:
        return
    T.checks += len([1 for _, m in obs if m.startswith('uncaught')])
    todo = []
    seen = set()
    for l, _ in obs:
        l = aig.simp(l)
        if l and l not in seen:
            seen.add(l)
            todo.append(l)
    n = T.opts.get('chunk', 1) or len(todo)
    work = [todo[i:i + n] for i in range(0, len(todo), n)][::-1]
    while work:
        if time.time() > R.deadline:
            raise aig.Inconclusive("time budget exhausted, %d obligations "
                                   "left" % len(work))
        lits = work.pop()
        lit = or_all(lits)
        try:
            m = R.solver.model(lit, None if len(lits) == 1 else
                               T.opts.get('group_limit', 3))
        except aig.Timeout:
            # decide the first part, then use it as a lemma
            k = len(lits) // 2
            work.append(lits[k:])
            work.append(lits[:k])
            continue
        if m is not None:
            for (l, msg) in obs:
                if m.lit(l):
                    raise Found(m, msg)
            raise Unsupported("model does not falsify any obligation")
        if work:
            R.solver.add(lit ^ 1, True)
    T.discharged += len(obs)


def describe(e):
    if e.__class__ is PObj:
        return e.cls.__name__
    if e.__class__ is Union:
        return '/'.join(sorted(set(describe(x) for _, x in e.alts)))
    try:
        return '%s(%s)' % (type(e).__name__, ', '.join(
            repr(a) for a in e.args))
    except BaseException:
        return type(e).__name__


def reset_path():
    R.g = 1
    R.pending = []
    c = rt.Ctx()
    c.F = None
    c.log = []
    c.bumped = False
    c.types = ()
    R.ctxs = [c]
    R.losts = []
    R.fork = False
    R.shallow = None
    R.stubs = {}
    R.shadow = {}
    R.globals = {}
    R.memo = {}
    R.clsattrs = {}
    R.compiled = {}
    R.depth = 0
    R.active = {}
    R.out = []
    R.counts = {}
    R.obligations = []
    R.reach = {}
    R.observed = []
    R.loop_limit = 5000
    R.n = 0
    aig.KNOWN.clear()
    aig.KV[0] += 1
    aig.clear_caches()


def tupled(v):
    return tuple(tupled(x) for x in v) if v.__class__ is list else v


def run_path(fn, params, facts, opts):
    reset_path()
    R.solver = aig.Solver(opts.get('solver_timeout', 240))
    R.facts = list(facts)
    for f in facts:
        R.solver.add(f)
    for f in facts:
        if not aig.learn(f):
            return
    sym = Sym()
    end = None
    try:
        rt.call(fn, (sym,), {k: rt.wrap(tupled(v))
                             for k, v in params.items()})
    except K:
        pass
    except rt.PathEnd as e:
        end = e
    T.stmts += R.n
    if end is not None:
        # still decide what was collected; R.solver may be unsatisfiable
        if R.obligations or R.ctxs[0].log:
            flush()
        return
    if len(R.ctxs) != 1:
        raise Unsupported("engine: a try statement was left open")
    flush()
    # every input of this path must have reached the end of the harness
    left = aig.simp(R.g) ^ 1
    if left and R.solver.check(left):
        raise Unsupported("the encoding lost inputs on the way")
    # reachability witnesses
    fresh = 0
    for label, gs in R.reach.items():
        known = T.reached.get(label)
        if known and (T.npaths % 7 and len(T.witnesses) > 4 or len(
                T.witnesses) >= opts.get('max_witnesses', 24)):
            continue
        if known and fresh:
            continue
        m = R.solver.model(aig.simp(or_all(gs)))
        if m is None:
            continue
        T.reached[label] = True
        fresh += 1
        T.witnesses.append({
            'values': readback(m),
            'labels': sorted(l for l, g in R.reach.items()
                             if any(m.lit(x) for x in g)),
            'observed': [[l, evaluate(m, v)] for g, l, v in R.observed
                         if m.lit(g)]})


def run_task(fn, params, opts):
    """Explore every path of one harness; returns a JSON-able report."""
    global T
    T = Task()
    T.opts = opts
    aig.reset()
    aig.reset_encoder()
    aig.STATS.__init__()
    R.functions = set()
    R.decisions = 0
    t0 = time.time()
    budget = opts.get('budget', 800)
    R.deadline = t0 + budget
    R.calls = 0
    out = {'status': 'ok'}
    work = [[]]
    try:
        while work:
            facts = work.pop()
            T.npaths += 1
            if time.time() - t0 > budget:
                raise aig.Inconclusive("time budget exhausted, %d paths left"
                                       % (len(work) + 1))
            run_path(fn, params, facts, opts)
            work.extend(R.pending)
            if len(aig.C0) > opts.get('max_nodes', 30000000):
                raise aig.Inconclusive("encoding too large")
    except Found as e:
        out['status'] = 'violation'
        out['message'] = e.msg
        out['values'] = readback(e.model)
        out['observed'] = [[l, evaluate(e.model, v)]
                           for g, l, v in R.observed if e.model.lit(g)]
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['message'] = str(e)
        out['trace'] = traceback.format_exc()
    except aig.Inconclusive as e:
        out['status'] = 'inconclusive'
        out['message'] = str(e)
    except Exception as e:
        out['status'] = 'engine-error'
        out['message'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
    out.update(paths=T.npaths, decisions=R.decisions, stmts=T.stmts,
               checks=T.checks, discharged=T.discharged,
               queries=aig.STATS.queries, sat=aig.STATS.sat,
               unsat=aig.STATS.unsat, solver_s=round(aig.STATS.time, 3),
               nodes=len(aig.C0), vars=len(aig.NAMES),
               functions=sorted(R.functions), wall_s=round(
                   time.time() - t0, 3),
               witnesses=T.witnesses, reached=sorted(T.reached))
    return out


def big_stack(fn, *args):
    res = []

    def go():
        try:
            res.append(fn(*args))
        except BaseException as e:
            res.append({'status': 'engine-error', 'message': '%s: %s' % (
                type(e).__name__, e), 'trace': traceback.format_exc()})
    sys.setrecursionlimit(400000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res[0]


def setup(repo='/repo'):
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    rt.INTERPRET_DIRS[:] = [
        os.path.join(repo, 'sudokutools') + os.sep,
        os.path.join(HERE, 'harness') + os.sep,
        os.path.join(HERE, 'engine', 'prelude.py')]
    models.load_prelude()
    from oracle import geo
    for f in vars(geo).values():
        if callable(f) and f is not geo.lru_cache:
            rt.MODELS[f] = pure(f)


def pure(f):
    """A host function of concrete arguments (results are tuples); for
    symbolic ones, of each possible value."""
    def model(*args):
        if all(a.__class__ is int or rt.is_concrete(a) for a in args):
            return f(*[rt.hostify(a) if a.__class__ not in (int, tuple)
                       else a for a in args])
        alts = rt.spread(args)
        if len(alts) == 1:
            return f(*alts[0][1])
        res = {}
        for l, a in alts:
            res.setdefault(f(*a), []).append(l)
        if len(res) == 1:
            return list(res)[0]
        return rt.Union([(rt.or_all(ls), x) for x, ls in res.items()])
    return model
