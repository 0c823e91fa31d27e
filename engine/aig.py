"""Boolean layer: a hash-consed and-inverter graph, and the SMT solver (z3)
that decides literals over it.

A literal is an int: 2*node (+1 when negated).  FALSE == 0, TRUE == 1.
"""
import array
import ctypes
import time
import z3
from z3 import z3core

from . import satlib

FALSE = 0
TRUE = 1

C0 = [0]        # first child of an AND node (-1 for an input variable)
C1 = [0]        # second child
TABLE = {}
GROUP = {}      # input variable node -> one-hot group (tuple of nodes)
NAMES = {}      # node -> name
KNOWN = {}      # node -> bool: facts of the path being executed
KV = [0]        # version number of KNOWN
_SIMP = {}
_CONJ = {}
_UNDER = {}


GROUPS = []
MIRROR = [0, 0]      # nodes and groups known to the MiniSat bridge


def reset():
    """Forget every node (used between independent harness runs)."""
    del C0[1:], C1[1:]
    TABLE.clear(); GROUP.clear(); NAMES.clear(); KNOWN.clear()
    del GROUPS[:]
    MIRROR[:] = [0, 0]
    lib = satlib.load()
    if lib is not None:
        lib.aig_reset()
    _SIMP.clear(); _CONJ.clear(); _UNDER.clear()


def clear_caches():
    _SIMP.clear(); _CONJ.clear(); _UNDER.clear()


def new_var(name):
    n = len(C0)
    C0.append(-1)
    C1.append(-1)
    NAMES[n] = name
    return 2 * n


def onehot_group(lits):
    grp = tuple(l >> 1 for l in lits)
    for n in grp:
        GROUP[n] = grp
    GROUPS.append(grp)


def and2(a, b):
    if KNOWN:
        k = KNOWN.get(a >> 1)
        if k is not None:
            a = (a & 1) ^ k
        k = KNOWN.get(b >> 1)
        if k is not None:
            b = (b & 1) ^ k
    if a == b:
        return a
    if a ^ b == 1:
        return 0
    if a > b:
        a, b = b, a
    if a <= 1:
        return b if a else 0
    key = (a, b)
    r = TABLE.get(key)
    if r is not None:
        if KNOWN:
            k = KNOWN.get(r >> 1)
            if k is not None:
                return k ^ (r & 1)
        return r
    na = a >> 1
    nb = b >> 1
    # one-hot exclusivity
    if not (a & 1) and not (b & 1) and na in GROUP and GROUP[na] is GROUP.get(nb):
        return 0
    if a & 1 == 0 and b & 1 and na in GROUP and GROUP[na] is GROUP.get(nb):
        return a
    if b & 1 == 0 and a & 1 and nb in GROUP and GROUP[nb] is GROUP.get(na):
        return b
    r = -1
    # one-level rules on a
    p = C0[na]
    pb = C0[nb]
    if p >= 0 and na:
        q = C1[na]
        if not a & 1:
            if b == p or b == q:
                return a
            if b ^ 1 == p or b ^ 1 == q:
                return 0
        else:
            if b ^ 1 == p or b ^ 1 == q:
                return b
            if b == p:
                return and2(b, q ^ 1)
            if b == q:
                return and2(b, p ^ 1)
    if pb >= 0 and nb:
        qb = C1[nb]
        if not b & 1:
            if a == pb or a == qb:
                return b
            if a ^ 1 == pb or a ^ 1 == qb:
                return 0
        else:
            if a ^ 1 == pb or a ^ 1 == qb:
                return a
            if a == pb:
                return and2(a, qb ^ 1)
            if a == qb:
                return and2(a, pb ^ 1)
        # two-level rules
        if p >= 0 and na:
            if not a & 1 and not b & 1:
                if p ^ 1 == pb or p ^ 1 == qb or q ^ 1 == pb or q ^ 1 == qb:
                    return 0
            elif not a & 1:          # a = p&q, b = !(pb&qb)
                if p ^ 1 == pb or p ^ 1 == qb or q ^ 1 == pb or q ^ 1 == qb:
                    return a
                if p == pb or q == pb:
                    return and2(a, qb ^ 1)
                if p == qb or q == qb:
                    return and2(a, pb ^ 1)
            elif not b & 1:
                if p ^ 1 == pb or p ^ 1 == qb or q ^ 1 == pb or q ^ 1 == qb:
                    return b
                if p == pb or p == qb:
                    return and2(b, q ^ 1)
                if q == pb or q == qb:
                    return and2(b, p ^ 1)
            else:                    # !(p&q) & !(pb&qb): same p, opposite q
                if p == pb and q ^ 1 == qb or p == qb and q ^ 1 == pb:
                    return p ^ 1
                if q == pb and p ^ 1 == qb or q == qb and p ^ 1 == pb:
                    return q ^ 1
    r = 2 * len(C0)
    C0.append(a)
    C1.append(b)
    TABLE[key] = r
    return r


def or2(a, b):
    return and2(a ^ 1, b ^ 1) ^ 1


def ite(c, a, b):
    if a == b:
        return a
    if c == 1:
        return a
    if c == 0:
        return b
    if a == 1:
        return or2(c, b)
    if a == 0:
        return and2(c ^ 1, b)
    if b == 0:
        return and2(c, a)
    if b == 1:
        return or2(c ^ 1, a)
    return or2(and2(c, a), and2(c ^ 1, b))


def iff(a, b):
    return ite(a, b, b ^ 1)


def and_all(lits):
    r = 1
    for l in lits:
        r = and2(r, l)
        if not r:
            return 0
    return r


def or_all(lits):
    """Balanced disjunction."""
    lits = [l for l in lits if l]
    if not lits:
        return 0
    while len(lits) > 1:
        nxt = []
        for i in range(0, len(lits) - 1, 2):
            o = or2(lits[i], lits[i + 1])
            if o == 1:
                return 1
            nxt.append(o)
        if len(lits) & 1:
            nxt.append(lits[-1])
        lits = nxt
    return lits[0]


def learn(lit):
    """Record that lit is true on this path (with cheap propagation).
    Returns False on an evident contradiction."""
    stack = [lit]
    KV[0] += 1
    _SIMP.clear()
    _UNDER.clear()
    _CONJ.clear()
    while stack:
        l = stack.pop()
        if l <= 1:
            if l == 0:
                return False
            continue
        n = l >> 1
        v = 0 if l & 1 else 1
        old = KNOWN.get(n)
        if old is not None:
            if old != v:
                return False
            continue
        KNOWN[n] = v
        if C0[n] >= 0:
            if v:
                stack.append(C0[n])
                stack.append(C1[n])
            else:
                a, b = simp(C0[n]), simp(C1[n])
                if a == 1:
                    stack.append(b ^ 1)
                elif b == 1:
                    stack.append(a ^ 1)
        elif n in GROUP:
            grp = GROUP[n]
            if v:
                for m in grp:
                    if m != n:
                        stack.append(2 * m + 1)
            else:
                left = [m for m in grp if KNOWN.get(m) != 0]
                if len(left) == 1:
                    stack.append(2 * left[0])
                elif not left:
                    return False
    return True


def simp(lit):
    """Rebuild lit under the facts known on this path."""
    if not KNOWN or lit <= 1:
        return lit
    memo = _SIMP
    n = lit >> 1
    r = memo.get(n)
    if r is not None:
        return r ^ (lit & 1)
    stack = [n]
    while stack:
        n = stack[-1]
        if n in memo:
            stack.pop()
            continue
        k = KNOWN.get(n)
        if k is not None:
            memo[n] = k
            stack.pop()
            continue
        a = C0[n]
        if a < 0 or n == 0:
            memo[n] = 2 * n
            stack.pop()
            continue
        b = C1[n]
        ra = memo.get(a >> 1)
        rb = memo.get(b >> 1)
        if ra is None and a > 1:
            stack.append(a >> 1)
            continue
        if rb is None and b > 1:
            stack.append(b >> 1)
            continue
        ra = a if a <= 1 else ra ^ (a & 1)
        rb = b if b <= 1 else rb ^ (b & 1)
        if ra == a and rb == b:
            memo[n] = 2 * n
        else:
            memo[n] = and2(ra, rb)
        stack.pop()
    return memo[lit >> 1] ^ (lit & 1)


def conj(g):
    """The set of literals that g is evidently a conjunction of (bounded)."""
    r = _CONJ.get(g)
    if r is None:
        out = set()
        stack = [g]
        while stack and len(out) < 400:
            l = stack.pop()
            if l in out:
                continue
            out.add(l)
            n = l >> 1
            if not l & 1 and C0[n] >= 0 and n:
                stack.append(C0[n])
                stack.append(C1[n])
        r = _CONJ[g] = frozenset(out)
    return r


def under(g, lit, depth=3):
    """lit simplified given that g holds (cheap, syntactic)."""
    if lit <= 1 or g == 1:
        return lit
    if lit == g:
        return 1
    if lit ^ g == 1:
        return 0
    key = (g, lit)
    r = _UNDER.get(key)
    if r is not None:
        return r
    r = _under(conj(g), lit, depth)
    _UNDER[key] = r
    return r


def _under(cs, lit, depth):
    if lit in cs:
        return 1
    if lit ^ 1 in cs:
        return 0
    n = lit >> 1
    a = C0[n]
    if a < 0:
        grp = GROUP.get(n)
        if grp is not None:
            for m in grp:
                if m != n and 2 * m in cs:
                    return lit & 1
        return lit
    if depth == 0:
        return lit
    b = C1[n]
    ua = _under(cs, a, depth - 1)
    if ua == 0:
        return lit & 1
    ub = _under(cs, b, depth - 1)
    if ub == 0:
        return lit & 1
    if ua == 1 and ub == 1:
        return 1 ^ (lit & 1)
    if ua == 1:
        return ub ^ (lit & 1)
    if ub == 1:
        return ua ^ (lit & 1)
    return lit


# ----------------------------------------------------------------- z3 -----

def _raw(name):
    return getattr(z3core, name).__defaults__[0].f


_mk_and = _raw("Z3_mk_and")
_mk_or = _raw("Z3_mk_or")
_mk_not = _raw("Z3_mk_not")
_inc = _raw("Z3_inc_ref")
_assert = _raw("Z3_solver_assert")
_A2 = z3core.Ast * 2


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.time = 0.0
        self.largest = 0
        self.retries = 0
        self.crossed = 0


STATS = Stats()


class Inconclusive(BaseException):
    pass


class Timeout(Exception):
    pass


class Encoder(object):
    """AIG nodes -> z3 terms, shared by every solver of this process."""

    def __init__(self):
        self.ctx = z3.main_ctx()
        self.c = self.ctx.ref()
        self.bool = z3core.Z3_mk_bool_sort(self.c)
        self.memo = {}
        self.buf = _A2()
        self.fresh = 0
        self.true = z3.BoolVal(True).ast

    def var(self, name):
        v = z3.Bool(name)
        _inc(self.c, v.ast)
        return v

    def lit(self, l):
        if l <= 1:
            b = z3.BoolVal(bool(l))
            _inc(self.c, b.ast)
            return b.ast
        memo = self.memo
        if l in memo:
            return memo[l]
        c = self.c
        stack = [l >> 1]
        while stack:
            n = stack[-1]
            if 2 * n in memo:
                stack.pop()
                continue
            a = C0[n]
            if a < 0:
                memo[2 * n] = self.var("v%d" % n).ast
                stack.pop()
                continue
            b = C1[n]
            xa = memo.get(a)
            if xa is None:
                if a & 1 and a ^ 1 in memo:
                    xa = _mk_not(c, memo[a ^ 1])
                    _inc(c, xa)
                    memo[a] = xa
                else:
                    stack.append(a >> 1)
                    continue
            xb = memo.get(b)
            if xb is None:
                if b & 1 and b ^ 1 in memo:
                    xb = _mk_not(c, memo[b ^ 1])
                    _inc(c, xb)
                    memo[b] = xb
                else:
                    stack.append(b >> 1)
                    continue
            self.buf[0] = xa
            self.buf[1] = xb
            x = _mk_and(c, 2, self.buf)
            _inc(c, x)
            memo[2 * n] = x
            stack.pop()
        if l not in memo:
            x = _mk_not(c, memo[l ^ 1])
            _inc(c, x)
            memo[l] = x
        return memo[l]


ENC = None


def encoder():
    global ENC
    if ENC is None:
        ENC = Encoder()
    return ENC


def reset_encoder():
    global ENC
    ENC = None


def mirror(lib):
    n = len(C0)
    if MIRROR[0] < n:
        a = array.array('i', C0[MIRROR[0]:])
        b = array.array('i', C1[MIRROR[0]:])
        lib.aig_push(len(a), a.buffer_info()[0], b.buffer_info()[0])
        MIRROR[0] = n
    while MIRROR[1] < len(GROUPS):
        g = array.array('i', GROUPS[MIRROR[1]])
        lib.aig_group(len(g), g.buffer_info()[0])
        MIRROR[1] += 1


class MiniSolver(object):
    """One incremental MiniSat instance.  base facts are asserted, queries
    are checked under an assumption.  The first queries of a run are decided
    a second time by z3."""

    def __init__(self, timeout_s=300):
        self.lib = satlib.load()
        self.p = self.lib.sat_new()
        self.timeout_s = timeout_s
        self.cache = {}
        self.facts = []

    def __del__(self):
        try:
            self.lib.sat_free(self.p)
        except Exception:
            pass

    def add(self, lit, lemma=False):
        if lit == 1:
            return
        mirror(self.lib)
        if not lemma:
            self.facts.append(lit)
        if self.lib.sat_add(self.p, lit, 1 if lemma else 0) < 0:
            raise Inconclusive("solver: out of memory")
        self.cache.clear()

    def solve(self, lit, limit):
        mirror(self.lib)
        t = time.time()
        r = self.lib.sat_check(self.p, lit, limit)
        STATS.queries += 1
        STATS.time += time.time() - t
        STATS.largest = max(STATS.largest, len(C0))
        if r == -2:
            raise Inconclusive("solver: out of memory")
        if r == 1:
            STATS.sat += 1
        elif r == 0:
            STATS.unsat += 1
        if r >= 0 and lit > 1 and STATS.crossed < CROSS[0] and \
                len(C0) < CROSS[1]:
            self.cross(lit, r)
        return r

    def cross(self, lit, r):
        z = Z3Solver(10)
        try:
            for f in self.facts:
                z.add(f)
            q, s, u = STATS.queries, STATS.sat, STATS.unsat
            same = z.check(lit) == bool(r)
        except Inconclusive:
            return
        STATS.queries, STATS.sat, STATS.unsat = q, s, u
        STATS.crossed += 1
        if not same:
            raise RuntimeError("MiniSat and z3 disagree")

    def check(self, lit):
        if lit == 0:
            return False
        r = self.cache.get(lit)
        if r is None:
            r = self.solve(lit, self.timeout_s)
            if r < 0:
                raise Inconclusive("solver: timeout")
            self.cache[lit] = r = bool(r)
        return r

    def model(self, lit, limit=None):
        r = self.solve(lit, self.timeout_s if limit is None else limit)
        if r < 0:
            if limit is None:
                raise Inconclusive("solver: timeout")
            STATS.retries += 1
            raise Timeout()
        if not r:
            return None
        nodes = array.array('i', NAMES)
        out = ctypes.create_string_buffer(len(nodes) or 1)
        self.lib.sat_values(self.p, len(nodes), nodes.buffer_info()[0], out)
        return Model({n: v == 1 for n, v in zip(nodes, out.raw) if v != 2})


CROSS = [2, 60000]


def Solver(timeout_s=300):
    if satlib.load() is None:
        return Z3Solver(timeout_s)
    return MiniSolver(timeout_s)


class Z3Solver(object):
    """One incremental z3 solver.  base facts are asserted, queries are
    checked under an assumption."""

    def __init__(self, timeout_s=300):
        self.enc = encoder()
        self.s = z3.SimpleSolver()
        self.timeout_s = timeout_s
        self.s.set("timeout", int(timeout_s * 1000))
        self.groups_done = set()
        self.cache = {}
        self.nproxy = 0
        self.seen_nodes = set()

    def _groups(self, lit):
        """Assert the one-hot constraints of the variables below lit."""
        stack = [lit >> 1]
        seen = self.seen_nodes
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            if C0[n] >= 0:
                if n:
                    stack.append(C0[n] >> 1)
                    stack.append(C1[n] >> 1)
            elif n in GROUP:
                grp = GROUP[n]
                if grp not in self.groups_done:
                    self.groups_done.add(grp)
                    vs = [z3.Bool("v%d" % m) for m in grp]
                    for m in grp:
                        seen.add(m)
                    self.s.add(z3.Or(*vs))
                    for i in range(len(vs)):
                        for j in range(i):
                            self.s.add(z3.Or(z3.Not(vs[i]), z3.Not(vs[j])))

    def add(self, lit, lemma=False):
        if lit == 1:
            return
        self._groups(lit)
        _assert(self.enc.c, self.s.solver, self.enc.lit(lit))
        self.cache.clear()

    def check(self, lit):
        """True if lit is satisfiable together with the asserted facts."""
        if lit == 0:
            return False
        r = self.cache.get(lit)
        if r is not None:
            return r
        self._groups(lit)
        t = time.time()
        if lit == 1:
            res = self.s.check()
        else:
            self.nproxy += 1
            p = z3.Bool("p!%d" % self.nproxy)
            e = z3.BoolRef(self.enc.lit(lit), self.enc.ctx)
            self.s.add(z3.Or(z3.Not(p), e))
            res = self.s.check(p)
        dt = time.time() - t
        STATS.queries += 1
        STATS.time += dt
        STATS.largest = max(STATS.largest, len(C0))
        if res == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" % self.s.reason_unknown())
        r = res == z3.sat
        if r:
            STATS.sat += 1
        else:
            STATS.unsat += 1
        self.cache[lit] = r
        return r

    def model(self, lit, limit=None):
        """A satisfying assignment (node -> bool) of lit, or None.  With a
        limit (seconds), Timeout is raised when it does not suffice."""
        self._groups(lit)
        if limit is not None:
            self.s.set("timeout", int(limit * 1000))
        t = time.time()
        self.nproxy += 1
        p = z3.Bool("p!%d" % self.nproxy)
        e = z3.BoolRef(self.enc.lit(lit), self.enc.ctx)
        self.s.add(z3.Or(z3.Not(p), e))
        res = self.s.check(p)
        STATS.queries += 1
        STATS.time += time.time() - t
        if limit is not None:
            self.s.set("timeout", int(self.timeout_s * 1000))
            if res == z3.unknown:
                STATS.retries += 1
                raise Timeout()
        if res == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" % self.s.reason_unknown())
        if res == z3.unsat:
            STATS.unsat += 1
            return None
        STATS.sat += 1
        m = self.s.model()
        out = {}
        for d in m.decls():
            nm = d.name()
            if nm[0] == "v" and nm[1:].isdigit():
                out[int(nm[1:])] = bool(m[d])
        # one-hot groups that the query never mentioned, and partial models
        return Model(out)


class Model(object):
    def __init__(self, vals):
        self.vals = vals
        self.memo = {}
        # a one-hot group no query mentioned takes its first value
        for n, grp in GROUP.items():
            if n == grp[0] and not any(vals.get(m) for m in grp):
                free = [m for m in grp if m not in vals]
                if free:
                    vals[free[0]] = True

    def lit(self, l):
        if l <= 1:
            return bool(l)
        memo = self.memo
        stack = [l >> 1]
        while stack:
            n = stack[-1]
            if n in memo:
                stack.pop()
                continue
            a = C0[n]
            if a < 0:
                memo[n] = bool(self.vals.get(n, False))
                stack.pop()
                continue
            b = C1[n]
            if a > 1 and a >> 1 not in memo:
                stack.append(a >> 1)
                continue
            if b > 1 and b >> 1 not in memo:
                stack.append(b >> 1)
                continue
            va = bool(a) if a <= 1 else memo[a >> 1] ^ bool(a & 1)
            vb = bool(b) if b <= 1 else memo[b >> 1] ^ bool(b & 1)
            memo[n] = va and vb
            stack.pop()
        return memo[l >> 1] ^ bool(l & 1)
