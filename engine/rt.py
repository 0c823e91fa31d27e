"""Runtime of the guarded twins: truth, comparison, containers, control flow,
exceptions, generators and calls over symbolic values."""
import ast
import builtins
import functools
import itertools
import operator
import time
import types

from . import aig
from .aig import and2, or2, ite, iff, or_all, and_all, under
from .compiler import FunctionCompiler, Unsupported
from .values import (
    R, K, Union, SBool, Seq, PSet, PDict, PObj, PMethod, PFunc, BMethod,
    PSuper, Hist, UNDEF, add_entry, is_concrete, akey, lift_bool, mkbool,
    merge, merge_many, mkseq, mk_tuple_like)

H = Hist
NonTermination = None    # set by the driver
DEPTH_LIMIT = 700


class PathEnd(BaseException):
    """This path needs no further execution (infeasible)."""


# =================================================================== run
R.solver = None
R.facts = []
R.pending = []        # worklist entries produced by this path
R.ctxs = []
R.losts = []
R.stubs = {}
R.shadow = {}
R.globals = {}
R.clsattrs = {}
R.compiled = {}
R.depth = 0
R.active = {}
R.out = []
R.functions = set()
R.decisions = 0
R.assumed = []
R.shallow = None
R.fork = False           # inside a recursive function: split at every decision


def feasible(lit):
    lit = aig.simp(lit)
    if lit <= 1:
        return bool(lit)
    return R.solver.check(lit)


def known(lit):
    """lit, or the constant the solver shows it to be on this path."""
    lit = aig.simp(under(R.g, lit))
    if lit <= 1:
        return lit
    if not R.solver.check(and2(R.g, lit)):
        return 0
    if not R.solver.check(and2(R.g, lit ^ 1)):
        return 1
    return lit


def decide(lit):
    """Fix the truth of lit on this path; the other value, if feasible, is
    left for another execution."""
    lit = aig.simp(lit)
    if lit <= 1:
        return bool(lit)
    t = R.solver.check(lit)
    f = R.solver.check(lit ^ 1)
    if not t and not f:
        raise PathEnd("no input satisfies the assumptions on this path")
    if t and f:
        R.decisions += 1
        R.pending.append(R.facts + [lit ^ 1])
        R.facts.append(lit)
        R.solver.add(lit)
    else:
        if f:
            lit ^= 1
        R.solver.add(lit)
    if not aig.learn(lit):
        raise PathEnd("contradictory facts")
    R.g = aig.simp(R.g)
    if not R.g:
        raise K
    return bool(t)


def decide_here(lit):
    """As decide, for a literal that only matters under the current guard."""
    u = under(R.g, aig.simp(lit))
    if u <= 1:
        return bool(u)
    g = R.g
    if not R.solver.check(and2(g, u)):
        if g == 1:
            aig.learn(u ^ 1)
        return False
    if not R.solver.check(and2(g, u ^ 1)):
        if g == 1:
            aig.learn(u)
        return True
    if g != 1:
        # make the guard itself definite first
        if not decide(g):
            raise K
    return decide(u)


def rel(birth):
    """Guard of a write relative to the object written to."""
    g = R.g
    if g == birth:
        return 1
    return under(birth, g)


# ============================================================= variables
def rd(h, exc=None):
    g = R.g
    if h.cg == g:
        return h.cv
    res = []
    cover = False
    for eg, v in reversed(h.entries):
        u = under(g, eg)
        if u == 0:
            continue
        if v is UNDEF:
            v = None
            res.append((u, UNDEF))
            if u == 1:
                cover = True
                break
            continue
        res.append((u, v))
        if u == 1:
            cover = True
            break
    while res and res[-1][1] is UNDEF:
        cover = False
        res.pop()
    if any(v is UNDEF for _, v in res):
        raise Unsupported("conditionally deleted variable")
    if not cover:
        miss = and2(g, or_all([u for u, _ in res]) ^ 1)
        if miss:
            if not res or feasible(miss):
                throw(exc or UnboundLocalError("local variable not assigned"),
                      miss if res else 1)
                g = R.g
    if len(res) == 1:
        val = res[0][1]
    else:
        alts = []
        rest = 1
        for i, (u, v) in enumerate(res):
            if i == len(res) - 1:
                alts.append((rest, v))
            else:
                alts.append((and2(rest, u), v))
                rest = and2(rest, u ^ 1)
            if not rest:
                break
        val = merge_many(alts)
    h.cg = g
    h.cv = val
    return val


def wr(old, v):
    return add_entry(old, R.g, v)


# ============================================================== exceptions
class Ctx(object):
    __slots__ = ('F', 'log', 'bumped', 'types')


def may_catch(exc):
    for c in R.ctxs[1:]:
        for th in c.types:
            if th is None:
                return True
            g = R.g
            t = th()
            if exc_match(exc, t):
                return True
    return False


def exc_match(exc, t):
    if t.__class__ is tuple:
        return any(exc_match(exc, x) for x in t)
    if isinstance(exc, PObj):
        return issubclass(exc.cls, t)
    return isinstance(exc, t)


def pend(lit, exc):
    c = R.ctxs[-1]
    c.log.append((lit, exc))
    R.losts.append(lit)
    if c.F is not None and not c.bumped:
        c.bumped = True
        c.F.d += 1


def throw(exc, cond=1):
    """exc is raised under the current guard where cond holds."""
    lit = and2(R.g, cond)
    if not lit:
        if not R.g:
            raise K
        return
    if cond == 1 or lit == R.g:
        pend(lit, exc)
        R.g = 0
        raise K
    if R.fork and may_catch(exc):
        if decide_here(cond):
            throw(exc)
        return
    if not may_catch(exc):
        # becomes a proof obligation; where it is discharged the guard is
        # exact, where it is not the run is a violation anyway
        R.ctxs[0].log.append((lit, exc))
        return
    if not feasible(lit):
        return
    pend(lit, exc)
    R.g = and2(R.g, lit ^ 1)
    if not R.g:
        raise K


def raise_(e):
    if e.__class__ is Union:
        def one(v):
            raise_(v)
        each(e, one)
        raise K
    if isinstance(e, type):
        e = call(e, ())
    throw(e)


def reraise(T):
    if T is None:
        throw(RuntimeError("No active exception to reraise"))
    raise_(T.exc)


def assert_(c, msg):
    t = truth(c)
    if t == 1:
        return
    g = R.g
    R.g = and2(g, t ^ 1)
    if R.g:
        m = msg() if msg else None
        R.g = g
        throw(AssertionError(*(() if m is None else (m,))), t ^ 1)
    else:
        R.g = g


class Frame(object):
    __slots__ = ('d', 'rets', 'g0', 'l0', 'nr', 'cx', 'jumps')

    def __init__(self):
        self.d = 0
        self.rets = []
        self.g0 = R.g
        self.l0 = len(R.losts)
        self.nr = 0
        self.cx = []
        self.jumps = []


def ret(F, v):
    F.rets.append((R.g, v))
    F.nr += 1
    R.g = 0
    raise K


def genret(F):
    F.nr += 1
    R.g = 0
    raise K


def leave(F):
    rets = F.rets
    if not rets:
        R.g = 0
        raise K
    if len(rets) == 1:
        R.g = rets[0][0]
        return rets[0][1]
    if len(R.losts) == F.l0:
        R.g = F.g0
    else:
        R.g = or_all([g for g, _ in rets])
    if not R.g:
        raise K
    return merge_many(rets)


def suspend(F):
    if not F.cx:
        return None
    n = len(F.cx)
    assert R.ctxs[-n:] == F.cx
    del R.ctxs[-n:]
    return n


def resume(F, n):
    if n:
        R.ctxs.extend(F.cx)


def resumed(F, g):
    F.nr += 1
    return g


# ================================================================ branches
class IfS(object):
    __slots__ = ('F', 'g0', 'g1', 'g2', 'e1')

    def mid(self):
        self.e1 = R.g
        R.g = self.g2

    def join(self):
        self.F.d -= 1
        e2 = R.g
        if e2 == self.g2 and self.e1 == self.g1:
            R.g = self.g0
        else:
            R.g = or2(self.e1, e2)
            if not R.g:
                raise K


def test(F, c):
    if c is True or c is False:
        return c
    t = truth(c)
    if t == 1:
        return True
    if t == 0:
        return False
    g = R.g
    t = under(g, t)
    if t == 1:
        return True
    if t == 0:
        return False
    g1 = and2(g, t)
    if not g1:
        return False
    g2 = and2(g, t ^ 1)
    if not g2:
        return True
    if R.fork:
        return decide_here(t)
    s = IfS()
    s.F = F
    s.g0 = g
    s.g1 = g1
    s.g2 = g2
    F.d += 1
    R.g = g1
    return s


def restrict(c):
    """Comprehension condition."""
    if c is True:
        return
    t = truth(c)
    if R.fork:
        t = 1 if decide_here(t) else 0
    R.g = and2(R.g, under(R.g, t))
    if not R.g:
        raise K


def branch2(c, fa, fb):
    """Value of fa() where c holds and of fb() elsewhere."""
    t = under(R.g, truth(c))
    if t == 1:
        return fa()
    if t == 0:
        return fb()
    g = R.g
    g1, g2 = and2(g, t), and2(g, t ^ 1)
    if not g2:
        return fa()
    if not g1:
        return fb()
    if R.fork:
        return fa() if decide_here(t) else fb()
    out = []
    ends = []
    R.g = g1
    try:
        v = fa()
        out.append((t, v))
        ends.append(R.g)
    except K:
        ends.append(0)
    R.g = g2
    try:
        v = fb()
        out.append((t ^ 1, v))
        ends.append(R.g)
    except K:
        ends.append(0)
    if ends[0] == g1 and ends[1] == g2:
        R.g = g
    else:
        R.g = or2(ends[0], ends[1])
    if not R.g:
        raise K
    return merge_many(out) if len(out) > 1 else out[0][1]


def and_(a, thunk):
    if a is True:
        return thunk()
    if a is False or a is None:
        return a
    if a.__class__ is SBool:
        # SBool and SBool stays boolean
        return branch2(a, thunk, lambda: False)
    return branch2(a, thunk, lambda: a)


def or_(a, thunk):
    if a is True:
        return True
    if a is False or a is None:
        return thunk()
    if a.__class__ is SBool:
        return branch2(a, lambda: True, thunk)
    return branch2(a, lambda: a, thunk)


ifx = branch2


def not_(a):
    if a is True:
        return False
    if a is False:
        return True
    return mkbool(truth(a) ^ 1)


def each(u, fn):
    """fn over the alternatives of a Union, merged."""
    g = R.g
    out = []
    same = True
    for l, v in u.alts:
        l = under(g, l)
        gl = and2(g, l)
        if not gl:
            continue
        R.g = gl
        try:
            r = fn(v)
            out.append((l if R.g == gl else R.g, r, R.g))
            if R.g != gl:
                same = False
        except K:
            same = False
    if not out:
        R.g = 0
        raise K
    R.g = g if same else or_all([e for _, _, e in out])
    if not R.g:
        raise K
    return merge_many([(l, r) for l, r, _ in out])


# ==================================================================== loops
class Loop(object):
    __slots__ = ('F', 'src', 'g0', 'live', 'ig', 'bump', 'conts', 'brks',
                 'l0', 'r0', 'done', 'isgen')

    def __init__(self, F, src):
        self.F = F
        self.src = src
        self.g0 = self.live = R.g
        self.bump = 0
        self.conts = None
        self.brks = None
        self.l0 = len(R.losts)
        self.r0 = F.nr
        self.done = False
        self.isgen = src.__class__ is PGen

    def __iter__(self):
        return self

    def __next__(self):
        while True:
            live = self.live
            if not live:
                R.g = 0
                raise StopIteration
            if self.isgen:
                l1 = len(R.losts)
                r = self.src.step(live)
                if len(R.losts) != l1:
                    for l in R.losts[l1:]:
                        live = and2(live, l ^ 1)
                    self.live = live
                if r is None:
                    self.done = True
                    R.g = live
                    raise StopIteration
                ig, item = r
            else:
                R.g = live
                r = self.src.nxt()
                if r is None:
                    self.done = True
                    raise StopIteration
                if R.g != live:
                    live = self.live = R.g
                p, item = r
                if p != 1 and R.fork:
                    R.g = live
                    p = 1 if decide_here(p) else 0
                    live = self.live = aig.simp(live)
                ig = live if p == 1 else and2(live, under(live, p))
            if ig:
                break
            if self.isgen:
                self.src.back(0)
        if ig != live:
            self.F.d += 1
            self.bump = 1
        self.ig = ig
        R.g = ig
        return item

    def end(self):
        e = R.g
        if self.conts:
            self.F.d -= 1
            e = or_all([e] + self.conts)
            if len(R.losts) == self.l0 and self.F.nr == self.r0 \
                    and not self.brks:
                e = self.ig
            self.conts = None
        if self.bump:
            self.F.d -= 1
            self.bump = 0
        ig = self.ig
        if e != ig:
            if ig == self.live:
                self.live = e
            else:
                self.live = or2(e, and2(self.live, ig ^ 1))
        if self.isgen:
            self.src.back(e)

    def end_filtered(self):
        """End of a comprehension step: a false condition loses nothing."""
        if len(R.losts) == self.l0:
            R.g = self.ig
        else:
            e = self.ig
            for l in R.losts[self.l0:]:
                e = and2(e, l ^ 1)
            R.g = e
        self.end()

    def brk(self):
        self.F.jumps.append(R.g)
        if self.brks is None:
            self.brks = []
            self.F.d += 1
        self.brks.append(R.g)
        R.g = 0
        raise K

    def cont(self):
        self.F.jumps.append(R.g)
        if self.conts is None:
            self.conts = []
            self.F.d += 1
        self.conts.append(R.g)
        R.g = 0
        raise K

    def skip_unless(self, c):
        """Condition of a generator expression."""
        if c is True:
            return
        g = R.g
        t = under(g, truth(c))
        g1 = and2(g, t)
        if g1 == g:
            return
        g2 = and2(g, t ^ 1)
        if g2:
            if self.conts is None:
                self.conts = []
                self.F.d += 1
            self.conts.append(g2)
        R.g = g1
        if not g1:
            raise K

    def enter_else(self):
        R.g = self.live
        return bool(R.g)

    def end_else(self):
        if R.g != self.live:
            self.r0 = -1
            self.live = R.g

    def finish(self):
        if self.brks is not None:
            self.F.d -= 1
        if len(R.losts) == self.l0 and self.F.nr == self.r0:
            R.g = self.g0
            return
        R.g = or_all([self.live] + (self.brks or []))
        if not R.g:
            raise K


class WhileLoop(object):
    __slots__ = ('F', 'g0', 'live', 'exits', 'conts', 'brks', 'l0', 'r0',
                 'xb', 'n', 'sg')

    def __init__(self, F):
        self.F = F
        self.g0 = self.live = R.g
        self.exits = []
        self.conts = None
        self.brks = None
        self.l0 = len(R.losts)
        self.r0 = F.nr
        self.xb = 0
        self.n = 0

    def begin(self):
        R.g = self.live
        if not R.g:
            raise K
        self.n += 1
        if self.n > R.loop_limit:
            # "does not terminate" becomes an obligation like any other
            R.ctxs[0].log.append((R.g, NonTermination(
                "while loop exceeds %d iterations" % R.loop_limit)))
            R.losts.append(R.g)
            R.g = 0
            raise K

    def test(self, c):
        t = truth(c) if c is not True else 1
        g = R.g
        t = under(g, t)
        if t == 1:
            if self.n % 50 == 49 and g != 1 and not feasible(g):
                R.g = 0
            self.sg = R.g
            return
        if t == 0:
            self.exits.append(g)
            R.g = 0
            return
        if R.fork:
            if decide_here(t):
                self.sg = R.g
            else:
                self.exits.append(R.g)
                R.g = 0
            return
        g1 = and2(g, t)
        if not g1 or not feasible(g1):
            self.exits.append(g)
            R.g = 0
            return
        g2 = and2(g, t ^ 1)
        if g2:
            self.exits.append(g2)
            if not self.xb:
                self.xb = 1
                self.F.d += 1
        self.sg = R.g = g1

    def end(self):
        e = R.g
        if self.conts:
            self.F.d -= 1
            e = or_all([e] + self.conts)
            self.conts = None
        self.live = e

    brk = Loop.brk
    cont = Loop.cont

    def enter_else(self):
        R.g = or_all(self.exits)
        return bool(R.g)

    def end_else(self):
        self.r0 = -1
        self.exits = [R.g]

    def finish(self):
        self.F.d -= self.xb
        if self.brks is not None:
            self.F.d -= 1
        if len(R.losts) == self.l0 and self.F.nr == self.r0:
            R.g = self.g0
            return
        R.g = or_all(self.exits + (self.brks or []))
        if not R.g:
            raise K


whileloop = WhileLoop


class Try(object):
    def __init__(self, F, types_):
        self.F = F
        c = Ctx()
        c.F = F
        c.log = []
        c.bumped = False
        c.types = types_
        self.ctx = c
        self.l0 = len(R.losts)
        self.ends = []
        R.ctxs.append(c)
        F.cx.append(c)

    def body_end(self):
        c = R.ctxs.pop()
        assert c is self.ctx
        self.F.cx.pop()
        if c.log:
            del R.losts[self.l0:]
            self.F.nr += 1

    def else_end(self):
        self.ends.append(R.g)

    def match(self, th):
        c = self.ctx
        if not c.log:
            return False
        if th is None:
            hit, rest = c.log, []
        else:
            R.g = c.log[0][0]
            t = th()
            hit = [x for x in c.log if exc_match(x[1], t)]
            rest = [x for x in c.log if not exc_match(x[1], t)]
        if not hit:
            return False
        c.log = rest
        R.g = or_all([l for l, _ in hit])
        if R.g != 1 and not feasible(R.g):
            return False
        self.exc = merge_many(hit)
        return True

    def handler_end(self):
        self.ends.append(R.g)

    def join(self):
        c = self.ctx
        if c.bumped:
            self.F.d -= 1
        for l, e in c.log:
            pend(l, e)
        R.g = self.ends[0] if len(self.ends) == 1 else or_all(self.ends)
        if not R.g:
            raise K


try_ = Try


class TryFinally(object):
    def __init__(self, F):
        self.F = F
        c = Ctx()
        c.F = F
        c.log = []
        c.bumped = False
        c.types = (None,)
        self.ctx = c
        self.l0 = len(R.losts)
        self.nrets = len(F.rets)
        self.njumps = len(F.jumps)
        R.ctxs.append(c)
        F.cx.append(c)
        F.d += 1

    def enter(self):
        R.ctxs.pop()
        self.F.cx.pop()
        if self.ctx.log:
            del R.losts[self.l0:]
            self.F.nr += 1
        self.normal = R.g
        lits = [R.g] + [l for l, _ in self.ctx.log] + \
            [l for l, _ in self.F.rets[self.nrets:]] + \
            self.F.jumps[self.njumps:]
        R.g = or_all(lits)

    def leave(self):
        self.F.d -= 1
        if self.ctx.bumped:
            self.F.d -= 1
        for l, e in self.ctx.log:
            pend(l, e)
        R.g = self.normal
        if not R.g:
            raise K


tryfinally = TryFinally


# ========================================================= iteration sources
class HostSrc(object):
    """Concrete unguarded elements."""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = iter(it)

    def nxt(self):
        for x in self.it:
            return 1, x
        return None


class PairSrc(object):
    __slots__ = ('it',)

    def __init__(self, pairs):
        self.it = iter(pairs)

    def nxt(self):
        for x in self.it:
            return x
        return None


class SeqSrc(object):
    __slots__ = ('s', 'i')

    def __init__(self, s):
        self.s = s
        self.i = 0

    def nxt(self):
        s = self.s
        i = self.i
        if i >= len(s.items):
            return None
        self.i = i + 1
        return (1 if s.guards is None else s.guards[i]), s.items[i]


class SetSrc(object):
    """Set or dict keys; a change of size while iterating raises."""
    __slots__ = ('s', 'keys', 'i', 'ver', 'snap', 'what')

    def __init__(self, s, d, what):
        self.s = s
        self.keys = list(d)
        if what == "Set" and all(k.__class__ is int for k in self.keys):
            self.keys.sort()
        self.i = 0
        self.ver = s.ver
        self.what = what
        self.snap = self._pres()

    def _pres(self):
        s = self.s
        if s.__class__ is PSet:
            return list(s.e.values())
        return [x[0] for x in s.d.values()]

    def nxt(self):
        s = self.s
        if s.ver != self.ver:
            self.ver = s.ver
            now = self._pres()
            if now != self.snap:
                ne = ne_count(self.snap, now)
                throw(RuntimeError("%s changed size during iteration"
                                   % self.what), ne)
        i = self.i
        if i >= len(self.keys):
            return None
        self.i = i + 1
        k = self.keys[i]
        if s.__class__ is PSet:
            p = s.e.get(k, 0)
        else:
            p = s.d.get(k, (0,))[0]
        return p, host_key(k)


def ne_count(a, b):
    a, b = list(a), list(b)
    # drop common literals
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    ca, cb = counter(a), counter(b)
    return or_all([and2(x, y) for i, x in enumerate(ca)
                   for j, y in enumerate(cb) if i != j])


def host_key(k):
    if k.__class__ is frozenset:
        return wrap(k)
    return k


class PGen(object):
    """A generator object (the native generator of a guarded twin)."""

    def __init__(self, ng, name):
        self.ng = ng
        self.name = name
        self.state = 0          # 0 new, 1 suspended, 2 finished
        self.gy = None          # guard at the current suspension
        self.bk = None          # guard to continue with (None: unchanged)
        self.birth = R.g
        self.fork = R.fork

    def step(self, live):
        """Continue the paths that wait here; -> (guard, value) or None."""
        if self.state == 2:
            return None
        if self.state == 3:
            raise Unsupported("iterator used after next() of it")
        old = R.fork
        R.fork = old is True or self.fork
        if R.depth > DEPTH_LIMIT:
            raise Unsupported("call depth")
        R.depth += 1
        try:
            if self.state == 0:
                self.state = 1
                R.g = live
                a = R.active.get(self.name, 0)
                if a and live != 1 and not feasible(live):
                    self.state = 2
                    return None
                R.active[self.name] = a + 1
                self.gy, v = next(self.ng)
            else:
                x = self.bk
                self.bk = None
                if x == self.gy:
                    x = None
                self.gy, v = self.ng.send(x)
        except StopIteration:
            self.state = 2
            R.active[self.name] -= 1
            return None
        finally:
            R.depth -= 1
            R.fork = old
        return self.gy, v

    def back(self, e):
        self.bk = e


def mkgen(ng, name):
    return PGen(ng, name)


def genmaker(g, name):
    def make(*a, **k):
        for i, x in enumerate(a):
            if x.__class__ is Union and any(
                    y.__class__ is Seq and y.kind == 'list'
                    for _, y in x.alts):
                # one generator for each list, one after the other
                alts = [(and_under(R.g, l), y) for l, y in x.alts]
                alts = [(l, y) for l, y in alts if l and feasible(
                    and2(R.g, l))]
                if len(alts) > 1:
                    gens = [make(*(a[:i] + (y,) + a[i + 1:]), **k)
                            for _, y in alts]
                    return call(prelude().chain_from_, (Seq(
                        'list', gens, [l for l, _ in alts]),))
                if alts:
                    a = a[:i] + (alts[0][1],) + a[i + 1:]
        return PGen(g(*a, **k), name)
    make.__name__ = name
    make.inner = g
    return make


def source(v):
    """Iteration source of a value."""
    c = v.__class__
    if c is Seq:
        return SeqSrc(v)
    if c is tuple or c is str or c is range:
        return HostSrc(v)
    if c is PGen:
        return v
    if c is PSet:
        return SetSrc(v, v.e, "Set")
    if c is PDict:
        return SetSrc(v, v.d, "dictionary")
    if c is PView:
        return v.source()
    if c is PIter:
        return v
    if c is PObj:
        f = cls_lookup(v.cls, '__iter__')
        if f is not MISSING:
            return source(call(f, (v,)))
        f = cls_lookup(v.cls, '__getitem__')
        if f is not MISSING:
            raise Unsupported("iteration by __getitem__")
    if c is Union:
        return union_source(v)
    if isinstance(v, tuple):
        return HostSrc(v)
    if c is frozenset:
        return source(wrap(v))
    if c is SBool or is_concrete(v) or c in (PFunc, PMethod) or \
            c is types.FunctionType:
        throw(TypeError("'%s' object is not iterable" % tname(v)))
    if isinstance(v, type) and hasattr(v, '__iter__'):
        return HostSrc(list(v))
    raise Unsupported("iteration over %r" % (v,))


def union_source(v):
    g = R.g
    alts = [(and_under(g, l), x) for l, x in v.alts]
    alts = [(l, x) for l, x in alts if l]
    if not alts:
        raise K
    if len(alts) == 1:
        return source(alts[0][1])
    if all(x.__class__ is PSet for _, x in alts):
        keys = {}
        for l, s in alts:
            for k, p in s.e.items():
                keys.setdefault(k, []).append(and2(l, p))
        return PairSrc([(or_all(ls), host_key(k)) for k, ls in keys.items()])
    seqs = []
    for l, x in alts:
        if isinstance(x, tuple) or x.__class__ is str:
            seqs.append((l, list(x)))
        elif x.__class__ is Seq and x.guards is None:
            seqs.append((l, x.items))
        else:
            seqs = None
            break
    if seqs is not None:
        n = max(len(s) for _, s in seqs)
        pairs = []
        for i in range(n):
            here = [(l, s[i]) for l, s in seqs if len(s) > i]
            p = 1 if len(here) == len(seqs) else or_all([l for l, _ in here])
            pairs.append((p, merge_many(here)))
        return PairSrc(pairs)
    if all(isinstance(x, tuple) or x.__class__ in (str, Seq, range)
           for _, x in alts):
        # only one of them is there: one after the other
        pairs = []
        for l, x in alts:
            for g, y in (x.pairs() if x.__class__ is Seq
                         else [(1, y) for y in x]):
                lg = and2(l, g)
                if lg:
                    pairs.append((lg, y))
        return PairSrc(pairs)
    # something lazy: split the path
    for l, x in alts[:-1]:
        if decide_here(l):
            return source(x)
    return source(alts[-1][1])


def and_under(g, l):
    l = under(g, l)
    if l == 0 or and2(g, l) == 0:
        return 0
    return l


def loop(F, v):
    return Loop(F, v if v.__class__ in SRC_CLASSES else source(v))


def loopable(v):
    """The iterator of the outermost loop of a generator expression is made
    when the expression is evaluated."""
    if v.__class__ in (Seq, tuple, str, range, PSet, PDict, PGen):
        return v
    return source(v)


def drain(v):
    """All (guard relative to now, item) pairs of an iterable."""
    c = v.__class__
    if c is Seq:
        return v.pairs()
    if c is PSet:
        return [(p, host_key(k)) for k, p in v.e.items() if p]
    if c is PDict:
        return [(e[0], host_key(k)) for k, e in v.d.items() if e[0]]
    if isinstance(v, tuple) or c is str or c is range:
        return [(1, x) for x in v]
    F = Frame()
    L = Loop(F, source(v) if c not in SRC_CLASSES else v)
    out = []
    g0 = R.g
    for x in L:
        p = 1 if R.g == g0 else under(g0, R.g)
        out.append((p, x))
        L.end()
    L.finish()
    return out


class PView(object):
    """dict.keys()/values()/items()"""
    __slots__ = ('d', 'what')

    def __init__(self, d, what):
        self.d = d
        self.what = what

    def pairs(self):
        d = self.d.d
        if self.what == 'keys':
            return [(e[0], host_key(k)) for k, e in d.items()]
        if self.what == 'values':
            return [(e[0], val(e)) for k, e in d.items()]
        return [(e[0], (host_key(k), val(e))) for k, e in d.items()]

    def source(self):
        return ViewSrc(self)


class ViewSrc(SetSrc):
    __slots__ = ('w',)

    def __init__(self, view):
        SetSrc.__init__(self, view.d, view.d.d, "dictionary")
        self.w = view.what

    def nxt(self):
        r = SetSrc.nxt(self)
        if r is None or self.w == 'keys':
            return r
        p, k = r
        if p == 0:
            return r
        e = self.s.d[k if k.__class__ is not PSet else pset_key(k)]
        if self.w == 'values':
            return p, val(e)
        return p, (k, val(e))


class PIter(object):
    """iter(x): a shared cursor."""

    def __init__(self, src):
        self.src = src

    def nxt(self):
        if self.src.__class__ is PGen:
            raise Unsupported("shared generator cursor")
        return self.src.nxt()


SRC_CLASSES = {PGen, HostSrc, PairSrc, SeqSrc, SetSrc, ViewSrc, PIter}


# ====================================================================== truth
NONE = type(None)


def truth(v):
    c = v.__class__
    if c is bool:
        return 1 if v else 0
    if c is SBool:
        return v.lit
    if c is int or c is str or v is None:
        return 1 if v else 0
    if c is Union:
        if all([x.__class__ in (int, str, bool, NONE) for _, x in v.alts]):
            # the same literal as the comparison with the falsy value
            no = [l for l, x in v.alts if not x]
            if 2 * len(no) < len(v.alts):
                return or_all(no) ^ 1
            return or_all([l for l, x in v.alts if x])
        ts = [(l, truth_in(l, x)) for l, x in v.alts]
        if all([t in (0, 1) for _, t in ts]):
            no = [l for l, t in ts if not t]
            if 2 * len(no) < len(ts):
                return or_all(no) ^ 1
        return or_all([and2(l, t) for l, t in ts])
    if c is Seq:
        if v.guards is None:
            return 1 if v.items else 0
        return or_all(v.guards)
    if c is PSet:
        return or_all(list(v.e.values()))
    if c is PDict:
        return or_all([e[0] for e in v.d.values()])
    if c is PObj:
        f = cls_lookup(v.cls, '__bool__')
        if f is not MISSING:
            return truth(call(f, (v,)))
        f = cls_lookup(v.cls, '__len__')
        if f is not MISSING:
            return truth(c_ne(call(f, (v,)), 0))
        return 1
    if isinstance(v, tuple):
        return 1 if len(v) else 0
    if c is PView:
        return or_all([e[0] for e in v.d.d.values()])
    if c in (PFunc, PMethod, PGen, BMethod, PIter):
        return 1
    if c in (float, bytes, range, frozenset):
        return 1 if v else 0
    return 1 if bool(v) else 0


def guarded(l, fn, *args):
    """fn(*args) under the current guard and l (a literal, 0 where dead)."""
    g = R.g
    gl = and2(g, l)
    if not gl:
        return 0
    R.g = gl
    try:
        r = fn(*args)
        e = R.g
    except K:
        r = e = 0
    R.g = g if e == gl else and2(g, or2(gl ^ 1, e))
    if not R.g:
        raise K
    return r


def truth_in(l, v):
    if v.__class__ is PObj:
        return guarded(l, truth, v)
    return truth(v)


# ================================================================= comparison
def tname(v):
    return pytype(v).__name__


def pytype(v):
    c = v.__class__
    if c is SBool:
        return bool
    if c is Seq:
        return {'list': list, 'tuple': tuple, 'str': str,
                'deque': list}[v.kind]
    if c is PSet:
        return frozenset if v.frozen else set
    if c is PDict:
        return v.cls
    if c is PObj:
        return v.cls
    if c is PGen:
        return types.GeneratorType
    if c is PFunc:
        return types.FunctionType
    if c is PMethod or c is BMethod:
        return types.MethodType
    if c is Union:
        raise Unsupported("type of a symbolic value")
    return c


def eq(a, b):
    """literal of a == b"""
    if a is b and a.__class__ is not PObj:
        return 1
    ca, cb = a.__class__, b.__class__
    if ca in CMPATOM and cb in CMPATOM:
        return 1 if a == b else 0
    if ca is Union:
        if cb is Union:
            out = []
            # equal atoms meet only each other
            for l, x in a.alts:
                for m, y in b.alts:
                    lm = and2(l, m)
                    if lm:
                        e = eq_in(lm, x, y)
                        if e:
                            out.append(and2(lm, e))
            return or_all(out)
        return or_all([and2(l, eq_in(l, x, b)) for l, x in a.alts])
    if cb is Union:
        return or_all([and2(l, eq_in(l, a, x)) for l, x in b.alts])
    if ca is SBool or cb is SBool:
        la, lb = lift_bool(a), lift_bool(b)
        if la is not None and lb is not None:
            return iff(la, lb)
        if la is None:
            a, b, la, lb = b, a, lb, la
        if b.__class__ in (int, float):
            if b == 1:
                return la
            if b == 0:
                return la ^ 1
        return 0
    if ca is PObj or cb is PObj:
        return eq_obj(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return 0
        r = 1
        for x, y in zip(a, b):
            r = and2(r, eq(x, y))
            if not r:
                return 0
        return r
    ka, kb = seqkind(a), seqkind(b)
    if ka is not None and ka == kb:
        return eq_seq(a, b)
    if (ca is PSet or ca is frozenset) and (cb is PSet or cb is frozenset):
        a, b = wrap(a), wrap(b)
        r = 1
        for k, p in a.e.items():
            r = and2(r, iff(p, b.e.get(k, 0)))
            if not r:
                return 0
        for k, p in b.e.items():
            if k not in a.e:
                r = and2(r, p ^ 1)
        return r
    if ca is PDict and cb is PDict:
        r = 1
        for k, e in a.d.items():
            f = b.d.get(k)
            if f is None:
                r = and2(r, e[0] ^ 1)
            else:
                both = and2(e[0], f[0])
                r = and2(r, iff(e[0], f[0]))
                if both and r:
                    r = and2(r, or2(both ^ 1, eq(val(e), val(f))))
            if not r:
                return 0
        for k, f in b.d.items():
            if k not in a.d:
                r = and2(r, f[0] ^ 1)
        return r
    if ca is PView and cb is PView and a.what == 'keys':
        return eq(PSet({k: e[0] for k, e in a.d.d.items()}),
                  PSet({k: e[0] for k, e in b.d.d.items()}))
    if ca is PMethod and cb is PMethod:
        return 1 if a.func is b.func and a.self is b.self else 0
    if ca in MODELLED or cb in MODELLED:
        return 0
    try:
        return 1 if bool(a == b) else 0
    except Unsupported:
        raise


CMPATOM = {int, str, bool, type(None), float, bytes}
MODELLED = {Seq, PSet, PDict, PObj, PMethod, PFunc, PGen, PView, BMethod,
            PIter}


def eq_in(l, a, b):
    if a.__class__ is PObj or b.__class__ is PObj:
        return guarded(l, eq, a, b)
    return eq(a, b)


def eq_obj(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ is PObj:
            f = cls_lookup(x.cls, '__eq__')
            if f is not MISSING and f is not object.__eq__:
                r = call(f, (x, y))
                if r is NotImplemented:
                    continue
                if r.__class__ is Union:
                    raise Unsupported("symbolic NotImplemented")
                return truth(r)
    return 1 if a is b else 0


def seqkind(v):
    c = v.__class__
    if c is Seq:
        return 'list' if v.kind == 'deque' else v.kind
    if c is str:
        return 'str'
    if isinstance(v, tuple):
        return 'tuple'
    if c is range:
        return 'range'
    return None


def seq_pairs(v):
    if v.__class__ is Seq:
        return v.pairs()
    return [(1, x) for x in v]


def eq_seq(a, b):
    pa, pb = seq_pairs(a), seq_pairs(b)
    pa = [x for x in pa if x[0]]
    pb = [x for x in pb if x[0]]
    if all(g == 1 for g, _ in pa) and all(g == 1 for g, _ in pb):
        if len(pa) != len(pb):
            return 0
        r = 1
        for (_, x), (_, y) in zip(pa, pb):
            r = and2(r, eq(x, y))
            if not r:
                return 0
        return r
    # same elements in the same order: presence decides
    if len(pa) == len(pb):
        ks = [(akey(x), akey(y)) for (_, x), (_, y) in zip(pa, pb)]
        if all(x is not None and x == y for x, y in ks) and \
                len(set(x for x, _ in ks)) == len(ks):
            return and_all([iff(g, h) for (g, _), (h, _) in zip(pa, pb)])
    # strictly increasing atoms on both sides: align by value
    r = eq_sorted(pa, pb)
    if r is not None:
        return r
    # a common prefix of the same elements under the same guards
    k = 0
    while k < len(pa) and k < len(pb) and pa[k][0] == pb[k][0] and \
            eq_in(pa[k][0], pa[k][1], pb[k][1]) == 1:
        k += 1
    pa, pb = pa[k:], pb[k:]
    n, m = len(pa), len(pb)
    # E[j] = suffix i.. of a equals suffix j.. of b
    sufb = [1] * (m + 1)
    for j in range(m - 1, -1, -1):
        sufb[j] = and2(sufb[j + 1], pb[j][0] ^ 1)
    E = sufb
    for i in range(n - 1, -1, -1):
        ga, x = pa[i]
        N = [0] * (m + 1)
        N[m] = and2(ga ^ 1, E[m])
        for j in range(m - 1, -1, -1):
            gb, y = pb[j]
            both = and2(ga, gb)
            t = and2(eq(x, y), E[j + 1]) if both else 0
            N[j] = ite(ga, ite(gb, t, N[j + 1]), E[j])
        E = N
    return E[0]


def eq_sorted(pa, pb):
    try:
        xa = [x for _, x in pa]
        xb = [x for _, x in pb]
        if not all(akey(x) is not None for x in xa + xb):
            return None
        for xs in (xa, xb):
            for u, v in zip(xs, xs[1:]):
                if not u < v:
                    return None
    except TypeError:
        return None
    da = {akey(x): g for g, x in pa}
    db = {akey(x): g for g, x in pb}
    r = 1
    for k in list(da) + [k for k in db if k not in da]:
        r = and2(r, iff(da.get(k, 0), db.get(k, 0)))
    return r


def lt(a, b, op='lt'):
    """literal of a < b (op: lt, le, gt, ge)"""
    ca, cb = a.__class__, b.__class__
    if ca in NUM and cb in NUM or ca is str and cb is str:
        return 1 if HOSTCMP[op](a, b) else 0
    if ca is Union or cb is Union:
        aa = a.alts if ca is Union else [(1, a)]
        bb = b.alts if cb is Union else [(1, b)]
        if (ca in NUM or cb in NUM) and all(
                [x.__class__ in NUM for _, x in aa + bb]):
            yes, no = [], []
            cmp = HOSTCMP[op]
            for l, x in aa:
                for m, y in bb:
                    (yes if cmp(x, y) else no).append(and2(l, m))
            if len(no) < len(yes):
                return or_all(no) ^ 1
            return or_all(yes)
        out = []
        for l, x in aa:
            for m, y in bb:
                lm = and2(l, m)
                if lm:
                    out.append(and2(lm, guarded(lm, lt, x, y, op)))
        return or_all(out)
    if ca is SBool or cb is SBool:
        return lt(as_int(a), as_int(b), op)
    if ca is PSet and cb is PSet:
        if op in ('gt', 'ge'):
            a, b = b, a
        sub = and_all([or2(p ^ 1, b.e.get(k, 0)) for k, p in a.e.items()])
        if op in ('lt', 'gt'):
            return and2(sub, eq(a, b) ^ 1)
        return sub
    ka, kb = seqkind(a), seqkind(b)
    if ka is not None and ka == kb:
        return lt_seq(a, b, op)
    if ca is PObj or cb is PObj:
        nm = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__',
              'ge': '__ge__'}[op]
        rf = {'lt': '__gt__', 'le': '__ge__', 'gt': '__lt__',
              'ge': '__le__'}[op]
        for x, y, m in ((a, b, nm), (b, a, rf)):
            if x.__class__ is PObj:
                f = cls_lookup(x.cls, m)
                if f is not MISSING and not isinstance(
                        f, types.WrapperDescriptorType):
                    r = call(f, (x, y))
                    if r is NotImplemented:
                        continue
                    return truth(r)
        throw(TypeError("'%s' not supported" % op))
    try:
        return 1 if HOSTCMP[op](a, b) else 0
    except TypeError as e:
        throw(TypeError(*e.args))


NUM = {int, bool, float}
HOSTCMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
           'ge': operator.ge}


def lt_seq(a, b, op):
    pa = [x for x in seq_pairs(a) if x[0]]
    pb = [x for x in seq_pairs(b) if x[0]]
    if is_concrete_pairs(pa) and is_concrete_pairs(pb):
        return 1 if HOSTCMP[op](tuple(x for _, x in pa),
                                tuple(y for _, y in pb)) else 0
    strict = op in ('lt', 'gt')
    if op in ('gt', 'ge'):
        pa, pb = pb, pa
    n, m = len(pa), len(pb)
    if all(x[0] == 1 for x in pa) and all(x[0] == 1 for x in pb):
        # a later element is only compared where the earlier ones are equal
        pre = 1
        out = []
        for (_, x), (_, y) in zip(pa, pb):
            e = eq(x, y)
            d = and2(pre, e ^ 1)
            if d:
                out.append(and2(d, guarded(d, lt, x, y, 'lt')))
            pre = and2(pre, e)
            if not pre:
                break
        if n < m or n == m and not strict:
            out.append(pre)
        return or_all(out)
    # L[i][j]: suffix i of a < suffix j of b
    base = 0 if strict else 1
    row = [0] * (m + 1)
    row[m] = base
    for j in range(m - 1, -1, -1):
        row[j] = ite(pb[j][0], 1, row[j + 1])
    for i in range(n - 1, -1, -1):
        ga, x = pa[i]
        new = [0] * (m + 1)
        new[m] = ite(ga, 0, row[m])
        for j in range(m - 1, -1, -1):
            gb, y = pb[j]
            if and2(ga, gb):
                e = eq(x, y)
                t = and2(e, row[j + 1])
                if e != 1:
                    t = or2(t, and2(e ^ 1, lt(x, y, 'lt')))
            else:
                t = 0
            new[j] = ite(ga, ite(gb, t, new[j + 1]), row[j])
        row = new
    return row[0]


def is_concrete_pairs(p):
    return all(g == 1 and is_concrete(x) for g, x in p)


def c_eq(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a == b
    return mkbool(eq(a, b))


def c_ne(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a != b
    if a.__class__ is PObj:
        f = cls_lookup(a.cls, '__ne__')
        if f is not MISSING and isinstance(f, types.FunctionType):
            return call(f, (a, b))
    return mkbool(eq(a, b) ^ 1)


def _mkcmp(op):
    h = HOSTCMP[op]

    def cmp(a, b):
        if a.__class__ is int and b.__class__ is int:
            return h(a, b)
        return mkbool(lt(a, b, op))
    return cmp


c_lt, c_le, c_gt, c_ge = [_mkcmp(o) for o in ('lt', 'le', 'gt', 'ge')]


def is_lit(a, b):
    ca, cb = a.__class__, b.__class__
    if ca is Union:
        return or_all([and2(l, is_lit(x, b)) for l, x in a.alts])
    if cb is Union:
        return or_all([and2(l, is_lit(a, x)) for l, x in b.alts])
    if ca is SBool or cb is SBool:
        la, lb = lift_bool(a), lift_bool(b)
        if la is None or lb is None:
            return 0
        return iff(la, lb)
    if ca is str and cb is str:
        # one-character latin-1 strings and the empty string are interned
        if a == b and (a is b or (len(a) <= 1 and a < '\u0100')):
            return 1
        return 1 if a is b else 0
    if ca is Seq and ca is cb and a.kind == 'str':
        raise Unsupported("identity of symbolic strings")
    if (ca is Seq and a.kind == 'str' and cb is str) or \
            (cb is Seq and b.kind == 'str' and ca is str):
        return str_is(a, b)
    if ca is int and cb is int:
        return 1 if a == b and -5 <= a <= 256 else (1 if a is b else 0)
    if ca is PMethod or cb is PMethod:
        return 0
    return 1 if a is b else 0


def str_is(a, b):
    if a.__class__ is str:
        a, b = b, a
    # symbolic one-character string against a literal
    if len(b) <= 1 and (not b or b < '\u0100'):
        return eq(a, b)
    return 0


def c_is(a, b):
    return mkbool(is_lit(a, b))


def c_isnot(a, b):
    return mkbool(is_lit(a, b) ^ 1)


def contains(x, cont):
    """literal of x in cont"""
    c = cont.__class__
    if c is PSet:
        return or_all([and2(l, cont.e.get(k, 0)) for l, k in keys(x)])
    if c is PDict:
        return or_all([and2(l, cont.d[k][0]) for l, k in keys(x)
                       if k in cont.d])
    if c is Seq and cont.kind != 'str' or isinstance(cont, tuple) or \
            c is range:
        if c is Seq and cont.guards is not None:
            out = []
            for g, y in zip(cont.guards, cont.items):
                if g:
                    e = eq(x, y)
                    if e:
                        out.append(and2(g, e))
            return or_all(out)
        items = cont.items if c is Seq else cont
        out = []
        if x.__class__ is tuple and len(x) == 2 and \
                x[0].__class__ is int and x[1].__class__ is int:
            # coordinates
            p, q = x
            for y in items:
                if y.__class__ is tuple and len(y) == 2:
                    s, t = y
                    if s.__class__ is int and t.__class__ is int:
                        if p == s and q == t:
                            return 1
                        continue
                e = eq(x, y)
                if e == 1:
                    return 1
                if e:
                    out.append(e)
            return or_all(out)
        for y in items:
            e = eq(x, y)
            if e == 1:
                return 1
            if e:
                out.append(e)
        return or_all(out)
    if c is str or c is Seq:
        return str_contains(x, cont)
    if c is Union:
        return truth(each(cont, lambda v: mkbool(contains(x, v))))
    if c is PView:
        if cont.what == 'keys':
            return contains(x, cont.d)
        return or_all([and2(g, eq(x, y)) for g, y in cont.pairs()])
    if c is PObj:
        f = cls_lookup(cont.cls, '__contains__')
        if f is not MISSING:
            return truth(call(f, (cont, x)))
    if c is frozenset:
        return contains(x, wrap(cont))
    # any other iterable
    out = []
    rest = 1
    for g, y in drain(cont):
        out.append(and2(g, eq(x, y)))
    return or_all(out)


def c_in(x, cont):
    return mkbool(contains(x, cont))


def c_notin(x, cont):
    return mkbool(contains(x, cont) ^ 1)


def str_contains(x, s):
    if x.__class__ is str and s.__class__ is str:
        return 1 if x in s else 0
    if x.__class__ is Union:
        return or_all([and2(l, str_contains(v, s)) for l, v in x.alts])
    if not (x.__class__ is str or x.__class__ is Seq and x.kind == 'str'):
        throw(TypeError("'in <string>' requires string as left operand"))
    ps, px = seq_pairs(s), seq_pairs(x)
    if all(g == 1 for g, _ in px):
        if not px:
            return 1
        if len(px) == 1:
            return or_all([and2(g, eq(c, px[0][1])) for g, c in ps])
        if all(g == 1 for g, _ in ps):
            out = []
            for i in range(len(ps) - len(px) + 1):
                out.append(and_all([eq(ps[i + j][1], px[j][1])
                                    for j in range(len(px))]))
            return or_all(out)
    s = definite(s)
    x = definite(x)
    return str_contains(x, s)


# ================================================================= keys/atoms
def keys(v):
    """[(literal, hashable host key)] of a value used as a dict/set key."""
    c = v.__class__
    if c is int or c is str or c is bool or v is None:
        return [(1, v)]
    if c is Union:
        out = []
        for l, x in v.alts:
            for m, k in keys(x):
                lm = and2(l, m)
                if lm:
                    out.append((lm, k))
        return out
    if c is SBool:
        return [(v.lit, True), (v.lit ^ 1, False)]
    if isinstance(v, tuple):
        if is_concrete(v):
            return [(1, v)]
        out = [(1, ())]
        for x in v:
            kx = keys(x)
            if len(kx) == 1:
                out = [(l, t + (kx[0][1],)) for l, t in out]
            else:
                new = []
                for l, t in out:
                    for m, k in kx:
                        lm = and2(l, m)
                        if lm:
                            new.append((lm, t + (k,)))
                out = new
            if len(out) > 3000:
                raise Unsupported("too many keys")
        if v.__class__ is not tuple:
            out = [(l, mk_tuple_like(v, t)) for l, t in out]
        return out
    if c is PSet:
        if not v.frozen:
            throw(TypeError("unhashable type: 'set'"))
        return [(1, pset_key(v))]
    if c is Seq:
        if v.kind in ('list', 'deque'):
            throw(TypeError("unhashable type: 'list'"))
        if v.guards is None:
            n = 1
            for x in v.items:
                n *= len(x.alts) if x.__class__ is Union else 1
            if n <= 64:
                out = [(1, '' if v.kind == 'str' else ())]
                for x in v.items:
                    out = [(and2(l, m), t + (k if v.kind == 'str' else (k,)))
                           for l, t in out for m, k in keys(x)]
                return [(l, t) for l, t in out if l]
        return keys(concretize(v))
    if c is PDict:
        throw(TypeError("unhashable type: 'dict'"))
    if c is PObj:
        h = cls_lookup(v.cls, '__hash__')
        if h is None:
            throw(TypeError("unhashable type: '%s'" % v.cls.__name__))
        if h is not object.__hash__ or \
                cls_lookup(v.cls, '__eq__') is not object.__eq__:
            raise Unsupported("object with __eq__ used as a key")
        return [(1, v)]
    return [(1, v)]


def pset_key(s):
    out = []
    for k, p in s.e.items():
        if p == 1 or p and decide_here(p):
            out.append(k)
    return frozenset(out)


def definite(v):
    """v (Seq) with every element known to be present or absent: may fork."""
    if v.__class__ is not Seq or v.guards is None:
        return v
    items = []
    for g, x in zip(list(v.guards), list(v.items)):
        if g == 1 or g and decide_here(g):
            items.append(x)
    if v.kind in ('list', 'deque'):
        v.items = items
        v.guards = None
        return v
    return mkseq(v.kind, items, None)


def concretize(v):
    """The concrete value of v on this path: may fork."""
    c = v.__class__
    if c is Union:
        for l, x in v.alts[:-1]:
            if decide_here(l):
                return concretize(x)
        return concretize(v.alts[-1][1])
    if c is SBool:
        return decide_here(v.lit)
    if c is Seq:
        v = definite(v)
        if v.__class__ is not Seq:
            return concretize(v) if isinstance(v, tuple) else v
        items = [concretize(x) for x in v.items]
        if v.kind == 'str':
            return ''.join(items)
        if v.kind == 'tuple':
            return tuple(items)
        v.items = items
        return v
    if c is PSet:
        return PSet({k: 1 for k, p in list(v.e.items())
                     if p == 1 or p and decide_here(p)}, v.frozen, v.birth)
    if isinstance(v, tuple) and not is_concrete(v):
        return mk_tuple_like(v, [concretize(x) for x in v])
    return v


def hostify(v):
    """A plain host object equal to v (v concretized); lists etc. rebuilt."""
    v = concretize(v)
    c = v.__class__
    if c is Seq:
        return [hostify(x) for x in v.items]
    if c is PSet:
        s = set(hostify(k) for k in v.e)
        return frozenset(s) if v.frozen else s
    if c is PDict:
        return {hostify(k): hostify(val(e)) for k, e in list(v.d.items())
                if e[0] == 1 or e[0] and decide_here(e[0])}
    if isinstance(v, tuple):
        return mk_tuple_like(v, [hostify(x) for x in v])
    if c in (PObj, PMethod, PFunc, PGen):
        raise Unsupported("host call with a modelled object (%r)" % (v,))
    return v


def wrap(v):
    """Host containers enter the modelled world as private shadows."""
    c = v.__class__
    if c is list or c is dict or c is set or c is frozenset:
        s = R.shadow.get(id(v))
        if s is not None:
            return s[1]
        if c is list:
            s = Seq('list', [wrap(x) for x in v], None, 1)
        elif c is dict:
            s = PDict(birth=1)
            for k, x in v.items():
                s.d[k] = [1, wrap(x)]
        else:
            s = PSet({k: 1 for k in v}, c is frozenset, 1)
        R.shadow[id(v)] = (v, s)
        return s
    if c is tuple and any(x.__class__ in (list, dict, set) for x in v):
        return tuple(wrap(x) for x in v)
    return v


# ==================================================================== counting
def counter(lits):
    """[literal that exactly k of lits hold]"""
    cnt = [1]
    for p in lits:
        if p == 0:
            continue
        if p == 1:
            cnt = [0] + cnt
            continue
        new = [0] * (len(cnt) + 1)
        for k in range(len(new)):
            a = cnt[k - 1] if k else 0
            b = cnt[k] if k < len(cnt) else 0
            new[k] = ite(p, a, b)
        cnt = new
    return cnt


def mkcount(lits):
    key = tuple(lits)
    u = R.counts.get(key)
    if u is None:
        cnt = counter(lits)
        alts = [(l, k) for k, l in enumerate(cnt) if l]
        u = alts[0][1] if len(alts) == 1 else Union(alts)
        R.counts[key] = u
    return u


R.counts = {}


def as_int(v):
    c = v.__class__
    if c is SBool:
        return Union([(v.lit, 1), (v.lit ^ 1, 0)])
    if c is bool:
        return int(v)
    return v


def m_len(v):
    c = v.__class__
    if c is Seq:
        if v.guards is None:
            return len(v.items)
        return mkcount(v.guards)
    if c is PSet:
        return mkcount(list(v.e.values()))
    if c is PDict:
        return mkcount([e[0] for e in v.d.values()])
    if c is PView:
        return mkcount([e[0] for e in v.d.d.values()])
    if c is Union:
        return each(v, m_len)
    if c is PObj:
        f = cls_lookup(v.cls, '__len__')
        if f is not MISSING:
            return call(f, (v,))
        throw(TypeError("object of type '%s' has no len()" % v.cls.__name__))
    if isinstance(v, (tuple, str, range, frozenset, bytes)):
        return len(v)
    throw(TypeError("object of type '%s' has no len()" % tname(v)))


# ================================================================= operators
def host_bin(op, a, b):
    try:
        return op(a, b)
    except K:
        raise
    except Unsupported:
        raise
    except Exception as e:
        throw(e)


def lift2(op, a, b):
    """A pure binary operation over atoms."""
    aa = a.alts if a.__class__ is Union else [(1, a)]
    bb = b.alts if b.__class__ is Union else [(1, b)]
    g = R.g
    groups = {}
    same = True
    other = []
    ends = []
    for l, x in aa:
        for m, y in bb:
            lm = and2(l, m)
            if not lm:
                continue
            lg = under(g, lm)
            gl = and2(g, lg)
            if not gl:
                continue
            R.g = gl
            try:
                r = op(x, y)
            except K:
                same = False
                continue
            if R.g != gl:
                same = False
            ends.append(R.g)
            other.append((lg, r))
    if not other:
        R.g = 0
        raise K
    R.g = g if same else or_all(ends)
    return merge_many(other)


SYM = (Union, SBool)


def _arith(name, hop, special=None):
    def op(a, b):
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            try:
                return hop(a, b)
            except ZeroDivisionError as e:
                throw(e)
        if special is not None:
            r = special(a, b)
            if r is not NotImplemented:
                return r
        if ca is Union or cb is Union:
            return lift2(op, a, b)
        if ca is SBool or cb is SBool:
            return op(as_int(a), as_int(b))
        if ca is PObj or cb is PObj:
            return obj_bin(name, a, b)
        if ca in MODELLED or cb in MODELLED:
            throw(TypeError("unsupported operand type(s) for %s: '%s' and "
                            "'%s'" % (name, tname(a), tname(b))))
        return host_bin(hop, a, b)
    op.__name__ = name
    return op


def obj_bin(name, a, b):
    nm = {'or_': 'or', 'and_': 'and'}.get(name, name)
    for x, y, m in ((a, b, '__%s__' % nm), (b, a, '__r%s__' % nm)):
        if x.__class__ is PObj:
            f = cls_lookup(x.cls, m)
            if f is not MISSING:
                r = call(f, (x, y))
                if r is not NotImplemented:
                    return r
    throw(TypeError("unsupported operand type(s) for %s" % name))


def _sp_add(a, b):
    ka, kb = seqkind(a), seqkind(b)
    if ka is not None and kb is not None and ka == kb and ka != 'range':
        if ka == 'str':
            if a.__class__ is str and b.__class__ is str:
                return a + b
            return concat_str([a, b])
        pa, pb = seq_pairs(a), seq_pairs(b)
        items = [x for _, x in pa] + [x for _, x in pb]
        guards = [g for g, _ in pa] + [g for g, _ in pb]
        if ka == 'tuple':
            return mkseq('tuple', items, guards)
        return Seq('list', items,
                   None if all(g == 1 for g in guards) else guards)
    if ka == 'str' and b.__class__ is Union and \
            all(seqkind(x) == 'str' for _, x in b.alts):
        return concat_str([a, b])
    if kb == 'str' and a.__class__ is Union and \
            all(seqkind(x) == 'str' for _, x in a.alts):
        return concat_str([a, b])
    if ka == 'str' or kb == 'str':
        o = b if ka == 'str' else a
        if o.__class__ is not Union:
            throw(TypeError("can only concatenate str"))
    return NotImplemented


def _sp_mul(a, b):
    if seqkind(b) and not seqkind(a):
        a, b = b, a
    k = seqkind(a)
    if k:
        if b.__class__ is Union:
            return NotImplemented if k == 'str' and a.__class__ is str \
                else each(b, lambda n: bo_mul(a, n))
        b = as_int(b)
        if b.__class__ is not int:
            throw(TypeError("can't multiply sequence by non-int"))
        if a.__class__ is not Seq:
            return NotImplemented
        p = a.pairs() * b
        gs = [g for g, _ in p]
        items = [x for _, x in p]
        if k == 'list':
            return Seq('list', items, None if a.guards is None else gs)
        return mkseq(k, items, gs)
    return NotImplemented


def setlike(v):
    c = v.__class__
    if c is PSet:
        return v
    if c is frozenset:
        return wrap(v)
    if c is PView and v.what in ('keys',):
        return PSet({k: e[0] for k, e in v.d.d.items()})
    return None


def _set_op(name):
    def f(a, b):
        sa, sb = setlike(a), setlike(b)
        if sa is None or sb is None:
            if a.__class__ is Union and (sb is not None or any(
                    setlike(x) is not None for _, x in a.alts)):
                return each(a, lambda x: OPS[name](x, b))
            if b.__class__ is Union and sa is not None:
                return each(b, lambda x: OPS[name](a, x))
            if name in ('and_', 'or_', 'xor'):
                la, lb = lift_bool(a), lift_bool(b)
                if la is not None and lb is not None:
                    if name == 'and_':
                        return mkbool(and2(la, lb))
                    if name == 'or_':
                        return mkbool(or2(la, lb))
                    return mkbool(iff(la, lb) ^ 1)
            if name == 'or_' and a.__class__ is PDict and \
                    b.__class__ is PDict:
                r = dict_copy(a)
                dict_update(r, b)
                return r
            return NotImplemented
        return set_bin(name, sa, sb)
    return f


def set_bin(name, a, b):
    ea, eb = a.e, b.e
    if name == 'and_':
        e = {}
        for k, p in ea.items():
            q = eb.get(k, 0)
            if q:
                r = and2(p, q)
                if r:
                    e[k] = r
    elif name == 'or_':
        e = dict(ea)
        for k, q in eb.items():
            p = e.get(k, 0)
            e[k] = or2(p, q) if p else q
    elif name == 'sub':
        e = {}
        for k, p in ea.items():
            q = eb.get(k, 0)
            r = and2(p, q ^ 1) if q else p
            if r:
                e[k] = r
    else:
        e = dict(ea)
        for k, q in eb.items():
            p = e.get(k, 0)
            e[k] = iff(p, q) ^ 1
    return PSet(e, a.frozen)


def _sp_mod(a, b):
    if a.__class__ is str or a.__class__ is Seq and a.kind == 'str':
        from . import models
        return models.format_percent(concretize(a), b)
    return NotImplemented


OPS = {}
for _n, _h, _s in [
        ('add', operator.add, _sp_add), ('sub', operator.sub, _set_op('sub')),
        ('mul', operator.mul, _sp_mul), ('truediv', operator.truediv, None),
        ('floordiv', operator.floordiv, None), ('mod', operator.mod, _sp_mod),
        ('pow', operator.pow, None), ('lshift', operator.lshift, None),
        ('rshift', operator.rshift, None), ('or_', operator.or_, _set_op('or_')),
        ('xor', operator.xor, _set_op('xor')),
        ('and_', operator.and_, _set_op('and_'))]:
    OPS[_n] = _arith(_n, _h, _s)

bo_add, bo_sub, bo_mul, bo_truediv = (
    OPS['add'], OPS['sub'], OPS['mul'], OPS['truediv'])
bo_floordiv, bo_mod, bo_pow = OPS['floordiv'], OPS['mod'], OPS['pow']
bo_lshift, bo_rshift = OPS['lshift'], OPS['rshift']
bo_or_, bo_xor, bo_and_ = OPS['or_'], OPS['xor'], OPS['and_']


def iop(name, a, b):
    c = a.__class__
    if c is int and b.__class__ is int:
        return OPS[name](a, b)
    if c is Seq and a.kind == 'list' and name == 'add':
        list_extend(a, b)
        return a
    if c is PSet and not a.frozen and name in ('or_', 'sub', 'and_', 'xor'):
        def go(s):
            s = setlike(s)
            if s is None:
                throw(TypeError("unsupported operand type(s)"))
            n = set_bin(name, a, s)
            set_assign(a, n.e)
        if b.__class__ is Union:
            each(b, go)
        else:
            go(b)
        return a
    if c is PDict and name == 'or_':
        dict_update(a, b)
        return a
    if c is PObj:
        nm = '__i%s__' % {'or_': 'or', 'and_': 'and'}.get(name, name)
        f = cls_lookup(a.cls, nm)
        if f is not MISSING:
            return call(f, (a, b))
    if c is Union and any(
            x.__class__ in (Seq, PDict) or x.__class__ is PSet and
            not x.frozen for _, x in a.alts):
        return each(a, lambda x: iop(name, x, b))
    return OPS[name](a, b)


def set_assign(s, e):
    """Contents of s become e under the current guard."""
    r = rel(s.birth)
    s.ver += 1
    if r == 1:
        s.e = e
        return
    new = {}
    for k, p in s.e.items():
        q = ite(r, e.get(k, 0), p)
        if q:
            new[k] = q
    for k, q in e.items():
        if k not in s.e:
            x = and2(r, q)
            if x:
                new[k] = x
    s.e = new


def neg(a):
    if a.__class__ is int:
        return -a
    return bo_sub(0, a)


def pos(a):
    return as_int(a)


def inv(a):
    return bo_sub(-1, a)


# ================================================================ containers
def mklist(items):
    return Seq('list', items)


def mkset(items):
    s = PSet()
    for x in items:
        for l, k in keys(x):
            s.e[k] = or2(s.e.get(k, 0), l)
    return s


def mkdict(items):
    d = PDict()
    for k, v, star in items:
        if star:
            dict_update(d, v)
        else:
            dict_set(d, k, v)
    return d


def mktuple(parts):
    items, guards = star_pairs(parts)
    return mkseq('tuple', items, guards)


def star_pairs(parts):
    items, guards = [], []
    for st, v in parts:
        if st:
            for g, x in drain(v):
                items.append(x)
                guards.append(g)
        else:
            items.append(v)
            guards.append(1)
    return items, guards


def mkliststar(parts):
    items, guards = star_pairs(parts)
    return Seq('list', items, None if all(g == 1 for g in guards) else guards)


def mksetstar(parts):
    items, guards = star_pairs(parts)
    s = PSet()
    for x, g in zip(items, guards):
        for l, k in keys(x):
            s.e[k] = or2(s.e.get(k, 0), and2(g, l))
    return s


class StarArgs(tuple):
    """Positional arguments ending in a sequence of symbolic length."""


class VarTail(object):
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq


def vararg(args):
    if args and args[-1].__class__ is VarTail:
        t = args[-1].seq
        if len(args) == 1:
            return t
        pairs = [(1, x) for x in args[:-1]] + list(t.pairs())
        return mkseq('tuple', [x for _, x in pairs], [g for g, _ in pairs])
    return args


def star_call(f, args, kw):
    tail = args[-1]
    args = tuple(args[:-1])
    g, extra = f, 0
    while g.__class__ is PMethod:
        g, extra = g.func, extra + 1
    code = None
    if g.__class__ is types.FunctionType:
        if g not in R.stubs and interpretable(g):
            code = g.__code__
    elif g.__class__ is PFunc and g.code.__code__.co_name != 'make':
        code = g.code.__code__
    if code is not None and code.co_flags & 4 and \
            code.co_argcount <= len(args) + extra:
        return call(f, args + (tail,), kw)
    if f in (set.intersection, set.union, frozenset.intersection,
             frozenset.union) and tail.seq.pairs():
        return star_sets(f, args, tail.seq)
    out = list(args)
    for g, x in tail.seq.pairs():
        if g == 1 or g and decide_here(g):
            out.append(x)
    return call(f, tuple(out), kw)


def star_sets(f, args, seq):
    """set.union(*xs) and set.intersection(*xs) for guarded xs."""
    pairs = [(1, x) for x in args] + list(seq.pairs())
    inter = f.__name__ == 'intersection'
    none = and_all([g ^ 1 for g, _ in pairs])
    if none and feasible(none):
        guarded(none, throw, TypeError(
            "unbound method set.%s() needs an argument" % f.__name__))
    acc = None
    out = PSet()
    sets = [(g, mkset_of(x)) for g, x in pairs]
    keys = {}
    for g, s in sets:
        for k in s.e:
            keys.setdefault(k, None)
    for k in keys:
        if inter:
            l = and_all([or2(g ^ 1, s.e.get(k, 0)) for g, s in sets])
        else:
            l = or_all([and2(g, s.e.get(k, 0)) for g, s in sets])
        if l:
            out.e[k] = l
    return out


def mkset_of(x):
    if x.__class__ is PSet:
        return x
    return call(set, (x,))


def starargs(parts):
    out = []
    last = len(parts) - 1
    for i, (st, v) in enumerate(parts):
        if not st:
            out.append(v)
            continue
        if v.__class__ is Union:
            v = split_union_for_unpack(v)
        pairs = drain(v)
        if i == last and any(g != 1 and aig.simp(aig.under(R.g, g)) != 1
                             for g, x in pairs):
            pairs = [(aig.simp(aig.under(R.g, g)), x) for g, x in pairs]
            pairs = [(g, x) for g, x in pairs if g]
            while pairs and pairs[0][0] == 1:
                out.append(pairs.pop(0)[1])
            if pairs:
                return StarArgs(out + [VarTail(mkseq(
                    'tuple', [x for _, x in pairs],
                    [g for g, _ in pairs]))])
            return tuple(out)
        for g, x in pairs:
            if g == 1 or g and decide_here(g):
                out.append(x)
    return tuple(out)


def split_union_for_unpack(v):
    """Union of equal-length tuples -> tuple of merged elements."""
    if all(isinstance(x, tuple) for _, x in v.alts):
        n = set(len(x) for _, x in v.alts)
        if len(n) == 1:
            k = n.pop()
            return tuple(merge_many([(l, x[i]) for l, x in v.alts])
                         for i in range(k))
    for l, x in v.alts[:-1]:
        if decide_here(l):
            return x
    return v.alts[-1][1]


def starkw(parts):
    out = {}
    for k, v in parts:
        if k is None:
            v = concrete_ref(v)
            if v.__class__ is not PDict:
                raise Unsupported("** of %r" % (v,))
            for kk, e in list(v.d.items()):
                if e[0] == 1 or e[0] and decide_here(e[0]):
                    out[kk] = val(e)
        else:
            out[k] = v
    return out


def concrete_ref(v):
    if v.__class__ is Union:
        for l, x in v.alts[:-1]:
            if decide_here(l):
                return x
        return v.alts[-1][1]
    return v


def kwdict(d):
    r = PDict()
    for k, v in d.items():
        r.d[k[2:]] = [1, v]
    return r


class acc_lc(object):
    def __init__(self):
        self.value = Seq('list', [])
        self.put1 = None

    def put(self, x):
        s = self.value
        g = R.g
        if g == s.birth:
            s.items.append(x)
            if s.guards is not None:
                s.guards.append(1)
        else:
            if s.guards is None:
                s.guards = [1] * len(s.items)
            s.items.append(x)
            s.guards.append(under(s.birth, g))


class acc_sc(object):
    def __init__(self):
        self.value = PSet()

    def put(self, x):
        set_add(self.value, x)


class acc_dc(object):
    def __init__(self):
        self.value = PDict()

    def put(self, k, v):
        dict_set(self.value, k, v)


def set_add(s, x):
    r = rel(s.birth)
    s.ver += 1
    for l, k in keys(x):
        p = s.e.get(k, 0)
        if p != 1:
            s.e[k] = or2(p, and2(r, l))


def set_discard(s, x):
    """-> literal: was present"""
    r = rel(s.birth)
    s.ver += 1
    was = []
    for l, k in keys(x):
        p = s.e.get(k, 0)
        if p:
            was.append(and2(l, p))
            q = and2(p, and2(r, l) ^ 1)
            if q:
                s.e[k] = q
            else:
                del s.e[k]
    return or_all(was)


class Pristine(object):
    """Value of a defaultdict entry that may not exist yet on some paths."""


def val(e):
    return e[1]


def dict_get(d, key, missing):
    """Value under key; missing(literal) is called where it is absent."""
    ks = keys(key)
    if len(ks) == 1:
        k = ks[0][1]
        e = d.d.get(k)
        if e is None:
            return missing(1, key)
        if e[0] == 1:
            return e[1]
        m = under(R.g, e[0] ^ 1)
        if m == 0:
            return e[1]
        if m == 1:
            return missing(1, key)
        r = missing(m, key)
        if r is NOTHING:
            return e[1]
        return merge(m, r, e[1])
    alts = []
    miss = []
    for l, k in ks:
        e = d.d.get(k)
        if e is None:
            miss.append(l)
            continue
        if e[0] != 1:
            miss.append(and2(l, e[0] ^ 1))
        lp = and2(l, e[0])
        if lp:
            alts.append((lp, e[1]))
    m = under(R.g, or_all(miss))
    if m:
        if not alts:
            return missing(1, key)
        r = missing(m, key)
        if r is not NOTHING:
            alts.append((m, r))
    return merge_many(alts)


class _Nothing(object):
    pass


NOTHING = _Nothing()


def dict_missing(d):
    def f(m, key):
        if d.factory is not None:
            # create where absent
            g = R.g
            gm = and2(g, m)
            if not gm:
                return NOTHING
            R.g = gm
            try:
                v = call(d.factory, ())
                dict_set(d, key, v)
            finally:
                R.g = g
            return v
        if d.cls is COUNTER:
            return 0
        throw(KeyError(key), m)
        if m == 1:
            raise K
        return NOTHING
    return f


COUNTER = None      # set by models


def dict_getitem(d, key):
    if d.factory is not None and R.g != d.birth:
        # share one entry between the paths that create it
        ks = keys(key)
        if len(ks) == 1 and ks[0][1] not in d.d:
            pass
    return dict_get(d, key, dict_missing(d))


def dict_set(d, key, v):
    r = rel(d.birth)
    d.ver += 1
    for l, k in keys(key):
        g = and2(r, l)
        if not g:
            continue
        e = d.d.get(k)
        if e is None:
            d.d[k] = [g, v]
        elif g == 1:
            e = d.d[k] = [1, v]
        elif e[0] == 0:
            d.d[k] = [g, v]
        else:
            d.d[k] = [or2(e[0], g), merge(g, v, e[1])]


def dict_del(d, key, missing_ok=False):
    r = rel(d.birth)
    d.ver += 1
    miss = []
    vals = []
    for l, k in keys(key):
        e = d.d.get(k)
        if e is None:
            miss.append(l)
            continue
        if e[0] != 1:
            miss.append(and2(l, e[0] ^ 1))
        vals.append((and2(l, e[0]), k, e))
    m = under(R.g, or_all(miss))
    if m and not missing_ok:
        throw(KeyError(key), m if vals else 1)
        r = rel(d.birth)
    out = []
    for l, k, e in vals:
        g = and2(r, l)
        out.append((l, e[1]))
        p = and2(e[0], g ^ 1)
        if p:
            d.d[k] = [p, e[1]]
        else:
            del d.d[k]
    return out, m


def dict_copy(d):
    r = PDict(d.factory, cls=d.cls)
    for k, e in d.d.items():
        r.d[k] = [e[0], e[1]]
    return r


def dict_update(d, o):
    if o.__class__ is Union:
        each(o, lambda x: dict_update(d, x))
        return
    if o.__class__ is PDict:
        g = R.g
        for k, e in list(o.d.items()):
            gk = and2(g, e[0])
            if gk:
                R.g = gk
                dict_set(d, host_key(k), e[1])
        R.g = g
        return
    g = R.g
    for p, x in drain(o):
        k, v = unpack(x, 2)
        R.g = and2(g, p)
        if R.g:
            dict_set(d, k, v)
        R.g = g


def list_append(s, x):
    g = R.g
    if s.guards is None:
        r = rel(s.birth)
        s.items.append(x)
        if r != 1:
            s.guards = [1] * (len(s.items) - 1) + [r]
    else:
        s.items.append(x)
        s.guards.append(rel(s.birth))


def list_extend(s, v):
    g = R.g
    c = v.__class__
    if c is PGen or c not in (Seq, PSet, PDict, tuple, str, range, PView):
        F = Frame()
        L = Loop(F, source(v) if c not in SRC_CLASSES else v)
        for x in L:
            list_append(s, x)
            L.end()
        L.finish()
        return
    r = rel(s.birth)
    pairs = drain(v) if c is not PView else v.pairs()
    pairs = [(and2(r, p), x) for p, x in pairs]
    if s.guards is None and any(p != 1 for p, _ in pairs):
        s.guards = [1] * len(s.items)
    for p, x in pairs:
        if p:
            s.items.append(x)
            if s.guards is not None:
                s.guards.append(p)


def norm_list(s):
    """Drop absent elements."""
    if s.guards is not None:
        if 0 in s.guards:
            keep = [i for i, g in enumerate(s.guards) if g]
            s.items = [s.items[i] for i in keep]
            s.guards = [s.guards[i] for i in keep]
        if all(g == 1 for g in s.guards):
            s.guards = None


def kth_present(pairs, idx):
    """[(literal, position)] for index idx among guarded elements, and the
    literal that there is none."""
    out = []
    if idx < 0:
        r, miss = kth_present(list(reversed(pairs)), -idx - 1)
        n = len(pairs) - 1
        return [(l, n - i) for l, i in r], miss
    cnt = [1] + [0] * idx           # exactly k seen, k <= idx
    for i, (g, _) in enumerate(pairs):
        hit = and2(cnt[idx], g)
        if hit:
            out.append((hit, i))
        if g == 1:
            cnt = [0] + cnt[:-1]
        elif g:
            cnt = [ite(g, cnt[k - 1] if k else 0, cnt[k])
                   for k in range(idx + 1)]
        if not any(cnt):
            break
    return out, or_all(cnt)


def seq_getitem(s, idx):
    """s: Seq or tuple/str/range; idx int"""
    if s.__class__ is not Seq:
        try:
            return s[idx]
        except IndexError as e:
            throw(IndexError(*e.args))
    if s.guards is None:
        try:
            return s.items[idx]
        except IndexError:
            throw(IndexError("%s index out of range" % s.kind))
    pairs = s.pairs()
    r, miss = kth_present(pairs, idx)
    m = under(R.g, miss)
    if m:
        throw(IndexError("%s index out of range" % s.kind), m if r else 1)
    return merge_many([(l, s.items[i]) for l, i in r])


def slice_of(s, sl):
    lo, hi, st = [concretize(x) for x in (sl.start, sl.stop, sl.step)]
    kind = s.kind if s.__class__ is Seq else None
    if s.__class__ is Seq and s.guards is not None:
        r = guarded_slice(s, lo, hi, st)
        if r is not None:
            return r
        s = definite(s)
    if s.__class__ is not Seq:
        return s[lo:hi:st]
    items = s.items[lo:hi:st]
    if s.kind == 'list':
        return Seq('list', items)
    return mkseq(s.kind, items, None)


def guarded_slice(s, lo, hi, st):
    if st not in (None, 1):
        if st == -1 and lo is None and hi is None:
            p = list(reversed(s.pairs()))
            gs, items = [g for g, _ in p], [x for _, x in p]
            return Seq('list', items, gs) if s.kind == 'list' else \
                mkseq(s.kind, items, gs)
        return None
    if lo is not None and lo < 0 or hi is not None and hi < 0:
        return None
    lo = lo or 0
    top = hi if hi is not None else len(s.items)
    cnt = [1]
    items, guards = [], []
    for g, x in s.pairs():
        ok = or_all([c for k, c in enumerate(cnt) if lo <= k < top])
        gg = and2(g, ok)
        if gg:
            items.append(x)
            guards.append(gg)
        new = [0] * (len(cnt) + 1)
        for k in range(len(new)):
            new[k] = ite(g, cnt[k - 1] if k else 0,
                         cnt[k] if k < len(cnt) else 0)
        cnt = new
    if s.kind == 'list':
        return Seq('list', items, guards)
    return mkseq(s.kind, items, guards)


def getitem(o, i):
    c = o.__class__
    ci = i.__class__
    if c is Seq or c is tuple or c is str or c is range:
        if ci is int:
            if c is Seq and o.guards is None:
                try:
                    return o.items[i]
                except IndexError:
                    throw(IndexError("%s index out of range" % o.kind))
            return seq_getitem(o, i)
        if ci is Union:
            return each(i, lambda k: getitem(o, k))
        if ci is slice:
            return slice_of(o, i)
        if ci is SBool or ci is bool:
            return getitem(o, as_int(i))
        throw(TypeError("indices must be integers or slices, not %s"
                        % tname(i)))
    if c is PDict:
        return dict_getitem(o, i)
    if c is PObj:
        f = cls_lookup(o.cls, '__getitem__')
        if f is not MISSING:
            return call(f, (o, i))
        throw(TypeError("'%s' object is not subscriptable" % o.cls.__name__))
    if c is Union:
        return each(o, lambda x: getitem(x, i))
    if isinstance(o, tuple):
        return getitem(tuple(o), i)
    if c in (PSet, int, bool, SBool, type(None), PGen, PFunc, PMethod):
        throw(TypeError("'%s' object is not subscriptable" % tname(o)))
    return wrap(host_bin(operator.getitem, o, hostify(i)))


def setitem(o, i, v):
    c = o.__class__
    if c is Seq:
        if o.kind not in ('list', 'deque'):
            throw(TypeError("'%s' object does not support item assignment"
                            % o.kind))
        ci = i.__class__
        if ci is Union:
            each(i, lambda k: setitem(o, k, v))
            return
        if ci is slice:
            seq_setslice(o, i, v)
            return
        if ci is not int:
            throw(TypeError("list indices must be integers"))
        r = rel(o.birth)
        if o.guards is None:
            try:
                old = o.items[i]
            except IndexError:
                throw(IndexError("list assignment index out of range"))
            o.items[i] = v if r == 1 else merge(r, v, old)
            return
        hit, miss = kth_present(o.pairs(), i)
        m = under(R.g, miss)
        if m:
            throw(IndexError("list assignment index out of range"),
                  m if hit else 1)
            r = rel(o.birth)
        for l, p in hit:
            w = and2(r, l)
            o.items[p] = merge(w, v, o.items[p])
        return
    if c is PDict:
        dict_set(o, i, v)
        return
    if c is PObj:
        f = cls_lookup(o.cls, '__setitem__')
        if f is not MISSING:
            call(f, (o, i, v))
            return
        throw(TypeError("'%s' object does not support item assignment"
                        % o.cls.__name__))
    if c is Union:
        each(o, lambda x: setitem(x, i, v))
        return
    throw(TypeError("'%s' object does not support item assignment" % tname(o)))


def seq_setslice(o, sl, v):
    r = rel(o.birth)
    pairs = drain(v)
    if r != 1 or o.guards is not None or any(g != 1 for g, _ in pairs):
        if sl.start is None and sl.stop is None and sl.step is None:
            old = o.pairs()
            p = [(and2(g, r ^ 1), x) for g, x in old] + \
                [(and2(g, r), x) for g, x in pairs]
            o.items = [x for _, x in p]
            o.guards = [g for g, _ in p]
            norm_list(o)
            return
        if not decide(R.g):
            raise K
        definite(o)
        pairs = [(1, x) for g, x in pairs if g == 1 or decide_here(g)]
    lo, hi, st = [concretize(x) for x in (sl.start, sl.stop, sl.step)]
    try:
        o.items[lo:hi:st] = [x for _, x in pairs]
    except ValueError as e:
        throw(e)


def delitem(o, i):
    c = o.__class__
    if c is Seq:
        if i.__class__ is slice:
            if rel(o.birth) != 1 and not decide(R.g):
                raise K
            definite(o)
            lo, hi, st = [concretize(x) for x in (i.start, i.stop, i.step)]
            del o.items[lo:hi:st]
            return
        list_pop(o, i)
        return
    if c is PDict:
        dict_del(o, i)
        return
    if c is PObj:
        f = cls_lookup(o.cls, '__delitem__')
        if f is not MISSING:
            call(f, (o, i))
            return
    if c is Union:
        each(o, lambda x: delitem(x, i))
        return
    throw(TypeError("'%s' object doesn't support item deletion" % tname(o)))


def list_pop(s, i=-1):
    if i.__class__ is Union:
        return each(i, lambda k: list_pop(s, k))
    r = rel(s.birth)
    if r == 1 and s.guards is None:
        try:
            return s.items.pop(i)
        except IndexError:
            throw(IndexError("pop index out of range" if s.items
                             else "pop from empty list"))
    hit, miss = kth_present(s.pairs(), i)
    m = under(R.g, miss)
    if m:
        throw(IndexError("pop from empty list"), m if hit else 1)
        r = rel(s.birth)
    v = merge_many([(l, s.items[p]) for l, p in hit])
    if s.guards is None:
        s.guards = [1] * len(s.items)
    for l, p in hit:
        s.guards[p] = and2(s.guards[p], and2(r, l) ^ 1)
    norm_list(s)
    return v


def spread(vals):
    """The possible combinations of concrete values: (literal, tuple)."""
    out = [(1, ())]
    for v in vals:
        alts = possible(v)
        nxt = []
        for l, t in out:
            for l2, x in alts:
                b = and2(l, l2)
                if b and (len(alts) == 1 or len(out) == 1 or
                          feasible(and2(R.g, b))):
                    nxt.append((b, t + (x,)))
        out = nxt
    if not out:
        raise K
    return out


def possible(v):
    """The possible concrete values of v: (literal, value)."""
    if is_concrete(v):
        return [(1, v)]
    c = v.__class__
    if c is Union:
        out = {}
        for l, x in v.alts:
            l = and_under(R.g, l)
            if l:
                for l2, y in possible(x):
                    l3 = and2(l, l2)
                    if l3:
                        out.setdefault(y, []).append(l3)
        return [(or_all(ls), y) for y, ls in out.items()]
    if c is tuple or c is Seq and v.guards is None:
        return spread(v if c is tuple else v.items)
    return [(1, hostify(v))]


def unpack(v, n):
    c = v.__class__
    if c is tuple or isinstance(v, tuple):
        if len(v) != n:
            throw(ValueError("not enough/too many values to unpack "
                             "(expected %d)" % n))
        return v
    if c is Seq and v.guards is None:
        if len(v.items) != n:
            throw(ValueError("not enough/too many values to unpack "
                             "(expected %d)" % n))
        return v.items
    if c is Union:
        if all(isinstance(x, tuple) and len(x) == n for _, x in v.alts):
            return [merge_many([(l, x[i]) for l, x in v.alts])
                    for i in range(n)]
        r = each(v, lambda x: tuple(unpack(x, n)))
        return r if isinstance(r, tuple) else unpack(r, n)
    pairs = [(g, x) for g, x in drain(v) if g]
    if len(pairs) < n:
        throw(ValueError("not enough values to unpack (expected %d)" % n))
    if all(g == 1 for g, _ in pairs) or n == 0:
        items = [x for g, x in pairs if decide_here(g)]
        if len(items) != n:
            throw(ValueError("not enough/too many values to unpack "
                             "(expected %d)" % n))
        return items
    hits = [kth_present(pairs, k)[0] for k in range(n)]
    more = or_all([l for l, _ in kth_present(pairs, n)[0]])
    good = and2(or_all([l for l, _ in hits[-1]]), more ^ 1)
    throw(ValueError("not enough/too many values to unpack (expected %d)"
                     % n), good ^ 1)
    return [merge_many([(l, pairs[i][1]) for l, i in h]) for h in hits]


def unpackstar(v, before, after):
    pairs = drain(v)
    items = [x for g, x in pairs if g == 1 or g and decide_here(g)]
    if len(items) < before + after:
        throw(ValueError("not enough values to unpack"))
    end = len(items) - after
    return items[:before] + [Seq('list', items[before:end])] + items[end:]


# =================================================================== strings
def concat_str(parts):
    """Concatenation of str / Union of str / Seq str."""
    if all(p.__class__ is str for p in parts):
        return ''.join(parts)
    items, guards = [], []
    for p in parts:
        if p.__class__ is Union:
            p = union_str(p)
        if p.__class__ is str:
            items.extend(p)
            guards.extend([1] * len(p))
        elif p.__class__ is Seq and p.kind == 'str':
            for g, x in p.pairs():
                items.append(x)
                guards.append(g)
        else:
            throw(TypeError("sequence item: expected str instance, %s found"
                            % tname(p)))
    return mkseq('str', items, guards)


def union_str(u):
    """A Union of strings as one guarded string."""
    from .values import merge_seqs
    grp = [(l, x) for l, x in u.alts]
    if not all(seqkind(x) == 'str' for _, x in grp):
        bad = or_all([l for l, x in grp if seqkind(x) != 'str'])
        throw(TypeError("expected str"), bad)
        grp = [(l, x) for l, x in grp if seqkind(x) == 'str']
    return merge_seqs('str', grp)


# =========================================================== attributes/calls
class _Missing(object):
    pass


MISSING = _Missing()


def cls_lookup(cls, name):
    for k in cls.__mro__:
        s = R.clsattrs.get((k, name))
        if s is not None:
            return rd(s) if s.__class__ is Hist else s
        d = k.__dict__
        if name in d:
            return d[name]
    return MISSING


def bind(x, obj, cls):
    c = x.__class__
    if c is types.FunctionType or c is PFunc:
        return PMethod(x, obj)
    if c is classmethod:
        return PMethod(x.__func__, cls)
    if c is staticmethod:
        return x.__func__
    if c is property:
        return call(x.fget, (obj,))
    if c is functools.cached_property:
        return call(prelude().cached_property_, (obj, x.attrname, x.func))
    if c is functools._lru_cache_wrapper:
        return PMethod(x, obj)
    if c in (types.WrapperDescriptorType, types.MethodDescriptorType):
        return PMethod(x, obj)
    if c is types.MemberDescriptorType:
        e = obj.attrs.get(x.__name__, MISSING)
        if e is MISSING:
            throw(AttributeError(x.__name__))
        return rd(e) if e.__class__ is Hist else e
    return wrap(x)


def attr(o, name):
    c = o.__class__
    if c is PObj:
        e = o.attrs.get(name, MISSING)
        if e is not MISSING:
            if e.__class__ is Hist:
                x = cls_lookup(o.cls, name)
                if x.__class__ is functools.cached_property:
                    return bind(x, o, o.cls)
                return attr_hist(o, e, name)
            return e
        x = cls_lookup(o.cls, name)
        if x is MISSING:
            if name == '__class__':
                return o.cls
            f = cls_lookup(o.cls, '__getattr__')
            if f is not MISSING:
                return call(f, (o, name))
            throw(AttributeError("'%s' object has no attribute '%s'" % (
                o.cls.__name__, name)))
        if name == '__class__':
            return o.cls
        return bind(x, o, o.cls)
    if c is Union:
        k = o.alts[0][1]
        k = k.cls if k.__class__ is PObj else None
        if k is not None and all(
                x.__class__ is PObj and x.cls is k and name not in x.attrs
                for _, x in o.alts):
            # one call for all of these objects
            x = cls_lookup(k, name)
            if x.__class__ is types.FunctionType and x not in R.stubs:
                return PMethod(x, o)
        return each(o, lambda x: attr(x, name))
    if isinstance(o, type):
        x = cls_lookup(o, name)
        if x is not MISSING:
            if x.__class__ is classmethod:
                return PMethod(x.__func__, o)
            if x.__class__ is staticmethod:
                return x.__func__
            if x.__class__ is types.FunctionType:
                return x
            if x.__class__ in (types.GetSetDescriptorType, property,
                               types.MemberDescriptorType,
                               types.WrapperDescriptorType,
                               types.MethodDescriptorType):
                if name in ('__name__', '__doc__', '__module__', '__mro__'):
                    return wrap(getattr(o, name))
                return x
            return wrap(x)
        try:
            return wrap(getattr(o, name))
        except AttributeError as e:
            throw(e)
    if c is PSuper:
        mro = o.obj.cls.__mro__ if o.obj.__class__ is PObj else (
            o.obj if isinstance(o.obj, type) else pytype(o.obj)).__mro__
        i = mro.index(o.cls)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                x = k.__dict__[name]
                return bind(x, o.obj, o.obj.cls
                            if o.obj.__class__ is PObj else o.obj)
        throw(AttributeError("'super' object has no attribute %r" % name))
    if c is types.ModuleType:
        h = R.globals.get((id(o.__dict__), name))
        if h is not None:
            return rd(h)
        try:
            return wrap(getattr(o, name))
        except AttributeError as e:
            throw(e)
    if c is PFunc:
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return None
        throw(AttributeError(name))
    if c is PMethod:
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.func
        return attr(o.func, name)
    if isinstance(o, tuple) and c is not tuple:
        x = cls_lookup(c, name)
        if x is MISSING:
            throw(AttributeError(name))
        if x.__class__ is types.FunctionType:
            return PMethod(x, o)
        if x.__class__ is property:
            return call(x.fget, (o,))
        if x.__class__ is classmethod:
            return PMethod(x.__func__, c)
        if name == '__class__':
            return c
        try:
            return wrap(getattr(o, name))
        except AttributeError as e:
            throw(e)
    if name == '__class__':
        return pytype(o)
    t = pytype(o)
    if c in (Seq, PSet, PDict, PView, PGen, SBool) or isinstance(
            o, (str, int, tuple, frozenset, float, bytes)) or o is None:
        if c is PView or hasattr(t, name):
            return BMethod(o, name)
        throw(AttributeError("'%s' object has no attribute '%s'" % (
            t.__name__, name)))
    try:
        return wrap(getattr(o, name))
    except AttributeError as e:
        throw(e)


def attr_hist(o, h, name):
    # where the attribute was never set
    return rd(h, AttributeError("'%s' object has no attribute '%s'" % (
        o.cls.__name__, name)))


def own_attribute(o, name):
    e = o.attrs.get(name, MISSING)
    if e is MISSING:
        throw(AttributeError(name))
    return rd(e, AttributeError(name)) if e.__class__ is Hist else e


def prelude():
    from engine import prelude as p
    return p


def setattr_(o, name, v):
    c = o.__class__
    if c is PObj:
        x = cls_lookup(o.cls, name)
        if x.__class__ is property:
            if x.fset is None:
                throw(AttributeError("can't set attribute"))
            call(x.fset, (o, v))
            return
        f = cls_lookup(o.cls, '__setattr__')
        if f.__class__ is types.FunctionType:
            call(f, (o, name, v))
            return
        if R.g == o.birth or rel(o.birth) == 1:
            o.attrs[name] = v
        else:
            old = o.attrs.get(name, MISSING)
            if old is MISSING:
                x = cls_lookup(o.cls, name)
                old = UNDEF if x is MISSING or x.__class__ is \
                    functools.cached_property else bind(x, o, o.cls)
            o.attrs[name] = add_entry(old, R.g, v)
        return
    if c is Union:
        each(o, lambda x: setattr_(x, name, v))
        return
    if isinstance(o, type):
        old = cls_lookup(o, name)
        R.clsattrs[(o, name)] = v if R.g == 1 else add_entry(
            UNDEF if old is MISSING else wrap(old), R.g, v)
        return
    if c is types.ModuleType:
        setglob(o.__dict__, name, v)
        return
    if isinstance(o, BaseException):
        setattr(o, name, v)
        return
    throw(AttributeError("'%s' object has no attribute '%s'" % (
        tname(o), name)))


def delattr_(o, name):
    if o.__class__ is PObj and name in o.attrs and rel(o.birth) == 1:
        del o.attrs[name]
        return
    raise Unsupported("del attribute")


def setglob(G, name, v):
    k = (id(G), name)
    old = R.globals.get(k)
    if old is None:
        old = wrap(G[name]) if name in G else UNDEF
    R.globals[k] = add_entry(old, R.g, v)


def isgenfunc(f):
    return bool(f.__code__.co_flags & 0x20)


_CODE = {}        # code object -> compiled module code, constants, needs


class Compiled(object):
    def __init__(self, code, consts):
        self.code = code
        self.consts = consts


_TREES = {}


def module_index(fn):
    t = _TREES.get(fn)
    if t is None:
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src)
        funcs = {}
        lambdas = {}

        def walk(node, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    walk(ch, ch.name)
                elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = ch.lineno
                    if ch.decorator_list:
                        line = min(d.lineno for d in ch.decorator_list)
                    funcs[(ch.name, line)] = (ch, cls)
                    walk(ch, cls)
                elif isinstance(ch, ast.Lambda):
                    lambdas.setdefault(ch.lineno, []).append((ch, cls))
                    walk(ch, cls)
                else:
                    walk(ch, cls)
        walk(tree, None)
        t = _TREES[fn] = (funcs, lambdas, src)
    return t


def find_node(f):
    co = f.__code__
    funcs, lambdas, src = module_index(co.co_filename)
    if co.co_name == '<lambda>':
        cand = lambdas.get(co.co_firstlineno, [])
        if len(cand) == 1:
            return cand[0]
        cols = [p[2] for p in co.co_positions() if p[2] is not None and
                p[0] == co.co_firstlineno]
        lo = max(cols) if cols else 0
        best = None
        for n, cls in cand:
            if n.lineno == n.end_lineno or True:
                if n.body.col_offset <= lo <= n.body.end_col_offset:
                    best = (n, cls)
        if best:
            return best
        raise Unsupported("lambda at %s:%d" % (
            co.co_filename, co.co_firstlineno))
    r = funcs.get((co.co_name, co.co_firstlineno))
    if r is None:
        raise Unsupported("no source for %s" % co.co_name)
    return r


def compile_twin(f):
    co = f.__code__
    c = _CODE.get(co)
    if c is None:
        node, cls = find_node(f)
        comp = FunctionCompiler(co.co_freevars, cls)
        text = comp.compile_toplevel(node)
        c = Compiled(compile(text, '<twin of %s>' % co.co_qualname, 'exec'),
                     comp.consts)
        c.text = text
        _CODE[co] = c
    return c


BUILTINS = builtins.__dict__
NS = {}          # filled at the end of this module


def twin(f):
    t = R.compiled.get(f)
    if t is not None:
        return t
    c = compile_twin(f)
    G = f.__globals__
    gid = id(G)
    defaults = f.__defaults__ or ()
    kwdefaults = f.__kwdefaults__ or {}
    cellmap = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))

    def gl(name):
        if R.globals:
            h = R.globals.get((gid, name))
            if h is not None:
                return rd(h)
        try:
            v = G[name]
        except KeyError:
            try:
                v = BUILTINS[name]
            except KeyError:
                throw(NameError("name '%s' is not defined" % name))
        if v.__class__ in WRAPPED:
            return wrap(v)
        return v

    ns = dict(NS)
    ns['gl'] = gl
    ns['KST'] = [wrap(k) for k in c.consts]
    ns['cell'] = lambda name: wrap(cellmap[name].cell_contents)
    ns['setglobal'] = lambda name, v: setglob(G, name, v)
    ns['DEFAULTS'] = lambda j: wrap(defaults[j])
    ns['KWDEFAULTS'] = lambda k: wrap(kwdefaults[k])
    exec(c.code, ns)
    t = ns['_main']
    R.compiled[f] = t
    R.functions.add('%s.%s' % (f.__module__, f.__qualname__))
    return t


WRAPPED = {list, dict, set, frozenset}

INTERPRET_DIRS = []      # path prefixes whose functions are encoded
INTERPRET_MODULES = {'functools', 'bisect', 'statistics_'}


def interpretable(f):
    r = _INTERP.get(f.__code__)
    if r is None:
        fn = f.__code__.co_filename
        r = any(fn.startswith(p) for p in INTERPRET_DIRS) or \
            f.__module__ in INTERPRET_MODULES and fn.endswith('.py')
        _INTERP[f.__code__] = r
    return r


_INTERP = {}
_RECURSIVE = {}


def code_names(code):
    out = set(code.co_names)
    for c in code.co_consts:
        if c.__class__ is types.CodeType:
            out |= code_names(c)
    return out


def callees(f):
    """Functions of the same module or class f may call, by name."""
    for nm in code_names(f.__code__):
        x = f.__globals__.get(nm)
        if x.__class__ is types.FunctionType and interpretable(x):
            yield x
        cls = f.__globals__.get(f.__qualname__.split('.')[0])
        if isinstance(cls, type):
            x = vars(cls).get(nm)
            x = getattr(x, '__func__', x)
            if x.__class__ is types.FunctionType:
                yield x


def recursive(f):
    """May f call itself again?"""
    r = _RECURSIVE.get(f)
    if r is None:
        seen = set()
        todo = [f]
        r = False
        while todo and not r:
            for x in callees(todo.pop()):
                if x is f:
                    r = True
                    break
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        _RECURSIVE[f] = r
    return r


SHALLOW = 'shallow'     # fork here, but not in what is called


def shallow(f):
    return f.__module__ == R.shallow and '.' not in f.__qualname__


def call_code(t, args, kw, name):
    if R.depth > DEPTH_LIMIT:
        raise Unsupported("call depth limit at %s" % name)
    a = R.active.get(name, 0)
    if a and R.g != 1 and a > 1 and not feasible(R.g):
        R.losts.append(R.g)
        R.g = 0
        raise K
    R.active[name] = a + 1
    R.depth += 1
    R.calls += 1
    if not R.calls & 255 and time.time() > R.deadline:
        raise aig.Inconclusive("time budget exhausted")
    try:
        if kw:
            return t(*args, **{'v_' + k: v for k, v in kw.items()})
        return t(*args)
    except TypeError as e:
        tb = e.__traceback__.tb_next
        if tb is None:
            throw(TypeError(str(e).replace('_main', getattr(
                name, 'co_name', str(name))).replace("'v_", "'")))
        # genmaker adds one frame
        if tb.tb_next is None and tb.tb_frame.f_code.co_name == 'make':
            throw(TypeError(*e.args))
        raise
    finally:
        R.depth -= 1
        R.active[name] = a


def call(f, args, kw=None):
    c = f.__class__
    if args.__class__ is StarArgs:
        return star_call(f, args, kw)
    if c is types.FunctionType:
        s = R.stubs.get(f)
        if s is not None:
            return call(s, args, kw)
        if interpretable(f):
            old = R.fork
            if old is not True:
                R.fork = SHALLOW if R.shallow and shallow(f) else recursive(f)
            try:
                return call_code(twin(f), args, kw, f.__code__)
            finally:
                R.fork = old
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **(kw or {}))
        return host_call(f, args, kw)
    if c is PMethod:
        return call(f.func, (f.self,) + tuple(args), kw)
    if c is PFunc:
        return call_code(f.code, args, kw, f.name)
    if isinstance(f, type):
        return instantiate(f, args, kw)
    if c is BMethod:
        return call_method(f.obj, f.name, args, kw)
    if c is types.BuiltinFunctionType or c is types.MethodType:
        try:
            s = R.stubs.get(f)
        except TypeError:
            s = None
        if s is not None:
            return call(s, args, kw)
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **(kw or {}))
        o = getattr(f, '__self__', None)
        if c is types.MethodType:
            if getattr(o, '_host_api_', False):
                return f(*args, **(kw or {}))
            return call(f.__func__, (o,) + tuple(args), kw)
        return host_call(f, args, kw)
    if c is Union:
        return each(f, lambda x: call(x, args, kw))
    if c is PObj:
        m = cls_lookup(f.cls, '__call__')
        if m is not MISSING:
            return call(m, (f,) + tuple(args), kw)
    if c is functools._lru_cache_wrapper and f not in MODELS:
        m = R.memo.get(f)
        if m is None:
            m = R.memo[f] = PDict(birth=1)
        k = PDict()
        for x, y in (kw or {}).items():
            k.d[x] = [1, y]
        return call(prelude().lru_cached_, (
            m, f.__wrapped__, tuple(args), k))
    if c is functools.partial:
        k = dict(f.keywords)
        k.update(kw or {})
        return call(f.func, f.args + tuple(args), k)
    if c is types.WrapperDescriptorType or c is types.MethodDescriptorType:
        return call_slot(f, args, kw)
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None:
        return m(*args, **(kw or {}))
    if hasattr(f, '__func__'):
        return call(f.__func__, args, kw)
    if c in (int, str, tuple, bool, type(None), Seq, PSet, PDict, SBool):
        throw(TypeError("'%s' object is not callable" % tname(f)))
    if callable(f):
        return host_call(f, args, kw)
    raise Unsupported("call of %r" % (f,))


def call_slot(f, args, kw):
    """object.__init__ and friends, set.intersection(*sets), str.join, ..."""
    nm = f.__name__
    owner = f.__objclass__
    if owner is object:
        if nm == '__init__':
            return None
        if nm == '__eq__':
            return args[0] is args[1] or NotImplemented
        if nm == '__ne__':
            return mkbool(eq(args[0], args[1]) ^ 1)
        if nm in ('__repr__', '__str__'):
            from . import models
            return models.m_repr(args[0])
        if nm == '__setattr__':
            o = args[0]
            if R.g == o.birth:
                o.attrs[args[1]] = args[2]
            else:
                o.attrs[args[1]] = add_entry(
                    o.attrs.get(args[1], UNDEF), R.g, args[2])
            return None
    if isinstance(args[0] if args else None, BaseException):
        return None
    if owner in (set, frozenset, dict, list, str, tuple, int):
        if not args:
            throw(TypeError("unbound method %s.%s() needs an argument" % (
                owner.__name__, nm)))
        return callm(args[0], nm, tuple(args[1:]), kw)
    raise Unsupported("slot %r" % f)


def callm(o, name, args, kw=None):
    c = o.__class__
    if c in METHOD_CLASSES:
        if args.__class__ is StarArgs:
            return star_call(BMethod(o, name), args, kw)
        return call_method(o, name, args, kw)
    return call(attr(o, name), args, kw)


METHOD_CLASSES = {Seq, PSet, PDict, str, PView, PGen}
METHODS = {}        # kind -> name -> function


def mkind(o):
    c = o.__class__
    if c is Seq:
        return o.kind
    if c is PSet:
        return 'set'
    if c is PDict:
        return 'dict'
    if c is str:
        return 'str'
    if isinstance(o, tuple):
        return 'tuple'
    if c is PView:
        return 'view'
    if c is PGen:
        return 'gen'
    if c is range:
        return 'range'
    return None


def call_method(o, name, args, kw=None):
    k = mkind(o)
    m = METHODS.get(k, {}).get(name)
    if m is not None:
        return m(o, *args, **(kw or {}))
    if name == '__class__':
        raise Unsupported("__class__ call")
    t = pytype(o) if k != 'view' else None
    if t is not None and not hasattr(t, name):
        throw(AttributeError("'%s' object has no attribute '%s'" % (
            t.__name__, name)))
    if name in DUNDER:
        return DUNDER[name](o, *args)
    if isinstance(o, (str, int, float, bytes, tuple, bool, range)):
        return host_method(o, name, args, kw)
    raise Unsupported("method %s.%s" % (k, name))


DUNDER = {
    '__len__': m_len, '__contains__': lambda o, x: c_in(x, o),
    '__getitem__': getitem, '__setitem__': setitem, '__delitem__': delitem,
    '__eq__': c_eq, '__ne__': c_ne, '__lt__': c_lt, '__le__': c_le,
    '__gt__': c_gt, '__ge__': c_ge, '__add__': bo_add, '__sub__': bo_sub,
    '__and__': bo_and_, '__or__': bo_or_, '__mul__': bo_mul,
}


def host_method(o, name, args, kw):
    """A pure method of a concrete host value, lifted over its arguments."""
    return lift_call(lambda *a, **k: getattr(o, name)(*a, **k), args, kw)


def lift_call(fn, args, kw):
    args = [hostify_args(a) for a in args]
    kw = {k: hostify_args(a) for k, a in (kw or {}).items()}
    us = [i for i, a in enumerate(args) if a.__class__ is Union]
    if us and not any(a.__class__ is Union for a in kw.values()):
        i = us[0]
        return each(args[i], lambda x: lift_call(
            fn, args[:i] + [x] + args[i + 1:], kw))
    kw = {k: hostify(a) for k, a in kw.items()}
    try:
        return wrap_result(fn(*args, **kw))
    except (K, Unsupported):
        raise
    except Exception as e:
        throw(e)


def hostify_args(a):
    c = a.__class__
    if c is Union:
        if all(is_concrete(x) for _, x in a.alts):
            return a
        return hostify(a)
    if c is SBool:
        return Union([(a.lit, True), (a.lit ^ 1, False)])
    return hostify(a)


def wrap_result(v):
    if v.__class__ in (list, dict, set, frozenset):
        c = v.__class__
        if c is list:
            return Seq('list', [wrap_result(x) for x in v])
        if c is dict:
            d = PDict()
            for k, x in v.items():
                d.d[k] = [1, wrap_result(x)]
            return d
        return PSet({k: 1 for k in v}, c is frozenset)
    if v.__class__ is tuple:
        return tuple(wrap_result(x) for x in v)
    return v


HOST_OK = set()       # names of host functions that may be called


def host_call(f, args, kw):
    nm = '%s.%s' % (getattr(f, '__module__', None), getattr(
        f, '__qualname__', f))
    if nm in HOST_OK or f in HOST_OK:
        return lift_call(f, args, kw)
    raise Unsupported("call of host function %s" % nm)


def instantiate(cls, args, kw):
    try:
        s = R.stubs.get(cls)
    except TypeError:
        s = None
    if s is not None:
        return call(s, args, kw)
    m = MODELS.get(cls)
    if m is not None:
        return m(*args, **(kw or {}))
    if issubclass(cls, BaseException):
        init = cls_lookup(cls, '__init__')
        if init.__class__ is types.FunctionType:
            raise Unsupported("exception class with __init__")
        return cls(*args, **(kw or {}))
    if issubclass(cls, tuple):
        new = cls_lookup(cls, '__new__')
        nf = getattr(new, '__func__', new)
        if nf.__class__ is types.FunctionType and interpretable(nf):
            raise Unsupported("tuple subclass with __new__")
        try:
            return cls(*args, **(kw or {}))
        except TypeError as e:
            throw(e)
    if issubclass(cls, (list, dict, set, frozenset, str, int)):
        raise Unsupported("subclass of a builtin container: %s" % cls)
    new = cls_lookup(cls, '__new__')
    if new is not object.__new__:
        nf = getattr(new, '__func__', new)
        raise Unsupported("class with __new__: %s" % cls)
    init = cls_lookup(cls, '__init__')
    if init.__class__ is types.FunctionType and not interpretable(init) and \
            init not in R.stubs:
        nm = '%s.%s' % (cls.__module__, cls.__name__)
        if nm in HOST_OK:
            return lift_call(cls, args, kw)
        raise Unsupported("host class %s" % nm)
    if init is not object.__init__ and init.__class__ is not \
            types.FunctionType and init.__class__ is not PFunc:
        raise Unsupported("host class %s" % cls)
    o = PObj(cls)
    if init is not object.__init__:
        call(init, (o,) + tuple(args), kw)
    elif args or kw:
        throw(TypeError("%s() takes no arguments" % cls.__name__))
    # an object exists only on the paths that survived its construction
    return o


def mkfunc(code, name):
    return PFunc(code, name)


def mksuper(cls, obj):
    return PSuper(cls, obj)


MODELS = {}


def import_(name, asname):
    import importlib
    m = importlib.import_module(name)
    if not asname:
        return importlib.import_module(name.split('.')[0])
    return m


def importfrom(mod, name, level):
    import importlib
    if level:
        raise Unsupported("relative import inside a function")
    m = importlib.import_module(mod)
    if hasattr(m, name):
        return attr(m, name)
    return importlib.import_module(mod + '.' + name)


NS.update({k: v for k, v in globals().items() if not k.startswith('__')})
