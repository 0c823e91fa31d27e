"""Hints: which steps in which order; comparing steps."""
from sudokutools import solvers
from sudokutools.sudoku import Sudoku
from harness.grids import asked, numbers_of, candidates_of, same_numbers, \
    same_candidates
from harness.steps import loose, state
from oracle.geo import fields, peers, base

ORDER = ['CalculateCandidates', 'NakedSingle', 'HiddenSingle', 'NakedPair',
         'HiddenPair', 'NakedTriple', 'HiddenTriple', 'NakedQuad',
         'HiddenQuad', 'NakedQuint', 'HiddenQuint', 'PointingPair',
         'PointingTriple', 'XWing', 'Swordfish', 'Jellyfish']


def partial(sym, w, h, open_, vals):
    """A solved sudoku except for the fields in open_, which are empty or
    filled with any number and have any of the values as candidates."""
    s = Sudoku(box_size=(w, h))
    for a in fields(w * h):
        s[a] = base(w, h)[a[0]][a[1]]
        s.set_candidates(a[0], a[1], [s[a]])
    for a in open_:
        s[a] = 0
        s.set_candidates(a[0], a[1], sym.subset("c%d.%d" % a, vals))
    return s


def listing(sym, w, h, open_, vals, again=False):
    """hints() lists the steps of all methods but guessing, from easy to
    hard."""
    s = partial(sym, w, h, open_, vals)
    asked(again, s, lambda t: list(solvers.hints(t)))
    want = []
    for name in ORDER:
        for step in getattr(solvers, name).find(s):
            want.append((name, step.clues, step.affected, step.values))
    got = []
    for step in solvers.hints(s):
        got.append((step.__class__.__name__, step.clues, step.affected,
                    step.values))
    sym.check(got == want, "hints")
    if len(got) > 1:
        sym.reach("several")
    sym.reach("end")


def following(sym, w, h, open_, vals, steps, top=5):
    """Any sequence of hints keeps the solution."""
    s = Sudoku(box_size=(w, h))
    sol = base(w, h)
    for a in fields(w * h):
        s[a] = sol[a[0]][a[1]]
        s.set_candidates(a[0], a[1], [s[a]])
    for a in open_:
        s[a] = 0
        s.set_candidates(a[0], a[1], sym.subset(
            "c%d.%d" % a, vals) | {sol[a[0]][a[1]]})
    for k in range(steps):
        pick = sym.int("pick%d" % k, 0, top)
        t = s.copy(include_candidates=True)
        i = 0
        for step in solvers.hints(s):
            if i == pick:
                step.apply(t)
                sym.reach("hint %d" % (k + 1))
            i += 1
        s = t
        for a in fields(w * h):
            sym.check(s[a] in (0, sol[a[0]][a[1]]), "wrong number")
            sym.check(sol[a[0]][a[1]] in s.get_candidates(a[0], a[1]),
                      "solution removed")
    sym.reach("end")


def make(sym, k, kinds):
    def pick(name, n):
        return [(sym.int("%s%d.%d.r" % (name, k, i), 0, 1),
                 sym.int("%s%d.%d.c" % (name, k, i), 0, 1))
                for i in range(n)]
    clues = pick("clue", 2)
    affected = pick("affected", 1)
    values = [sym.int("value%d.%d" % (k, i), 1, 2) for i in range(2)]
    kind = sym.choice("kind%d" % k, kinds)
    step = None
    for name in kinds:
        if kind == name:
            step = getattr(solvers, name)(clues, affected, values)
    key = (tuple(sorted(clues)), tuple(affected), tuple(sorted(values)))
    return step, key


def comparing(sym, kinds, three=False):
    """Steps are ordered by their sorted fields and values."""
    a, ka = make(sym, 0, kinds)
    b, kb = make(sym, 1, kinds)
    sym.check(a.clues == ka[0] and a.affected == ka[1] and
              a.values == ka[2], "stored fields and values")
    sym.check((a == b) == (ka == kb), "==")
    sym.check((a != b) == (ka != kb), "!=")
    lt, gt, eq = a < b, a > b, a == b
    one = (lt and not gt and not eq) or (gt and not lt and not eq) or \
        (eq and not lt and not gt)
    sym.check(one, "exactly one of <, ==, >")
    sym.check((a <= b) == (lt or eq), "<=")
    sym.check((a >= b) == (gt or eq), ">=")
    sym.check((b > a) == lt and (b < a) == gt, "both directions")
    if three:
        c, kc = make(sym, 2, kinds)
        if a < b and b < c:
            sym.check(a < c, "transitive")
            sym.reach("chain")
    if eq:
        sym.reach("equal")
    sym.reach("end")
