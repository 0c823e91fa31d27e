"""Asking changes nothing, and answers stay as they were."""
from sudokutools import solvers
from sudokutools.sudoku import Sudoku, view
from sudokutools.solve import dlx, bruteforce, calc_candidates
from sudokutools.analyze import rate, score, is_unique, is_solved, \
    find_conflicts
from harness.complete import puzzle, solver
from harness.grids import any_grid, any_candidates, numbers_of, \
    candidates_of, same_numbers, same_candidates
from oracle.geo import fields, peers


def untouched(sym, s, nums, cands, what):
    sym.check(same_numbers(s, nums), what + " changed numbers")
    sym.check(same_candidates(s, cands), what + " changed candidates")


def reading(sym, w, h):
    """Queries that only look, in any state at all."""
    n = w * h
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    list(find_conflicts(s))
    for a in fields(n):
        list(find_conflicts(s, a))
    untouched(sym, s, nums, cands, "find_conflicts")
    is_solved(s)
    untouched(sym, s, nums, cands, "is_solved")
    for r, c in fields(n):
        calc_candidates(s, r, c)
    untouched(sym, s, nums, cands, "calc_candidates")
    s.copy(include_candidates=True)
    s == s.copy()
    list(s.diff(s.copy()))
    s.count()
    list(s.empty())
    list(s.filled())
    untouched(sym, s, nums, cands, "comparing and counting")
    s.encode()
    s.encode(include_candidates=True)
    untouched(sym, s, nums, cands, "encode")
    for r, c in fields(n):
        s.row_of(r, c)
        s.column_of(r, c)
        s.box_of(r, c)
        s.surrounding_of(r, c)
        s.box_at(r, c)
    untouched(sym, s, nums, cands, "coordinates")
    sym.reach("end")


def answers(sym, w, h):
    """A set handed out is no way into the sudoku."""
    n = w * h
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    r, c = sym.int("row", 0, n - 1), sym.int("col", 0, n - 1)
    got = s.get_candidates(r, c)
    before = set(got)
    given = sym.subset("given", range(1, n + 1))
    mine = set(given)
    s.set_candidates(r, c, mine)
    mine.add(1)
    mine.discard(2)
    sym.check(s.get_candidates(r, c) == given, "set_candidates keeps a link")
    sym.check(got == before, "answer of get_candidates changed")
    t = s.copy(include_candidates=True)
    s.remove_candidates(r, c, {1, 2})
    sym.check(t.get_candidates(r, c) == given, "copy changed")
    x = calc_candidates(s, r, c)
    x.clear()
    sym.check(t.get_candidates(r, c) == given, "copy changed")
    for a in s.surrounding_of(r, c):
        if a != (r, c):
            sym.check(s[a] == t[a] and s.get_candidates(a[0], a[1]) ==
                      t.get_candidates(a[0], a[1]), "another field changed")
    f = s.row_of(r, c)
    f.append((0, 0))
    sym.check(len(s.row_of(r, c)) == n, "row changed")
    sym.reach("end")


STEPS = [x.__name__ for x in solvers.SOLVERS]


def searching(sym, w, h, names, fields_=None):
    """Searching steps, completely or abandoned after the first."""
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    for name in names:
        cls = getattr(solvers, name)
        for step in cls.find(s):
            break
        untouched(sym, s, nums, cands, "first step of " + name)
        list(cls.find(s))
        untouched(sym, s, nums, cands, "search for " + name)
    sym.reach("end")


def solving(sym, w, h, what, empty, free=None, maybe=()):
    """Whatever is asked about a puzzle leaves it as it was."""
    s = puzzle(sym, w, h, empty, free, maybe)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    sym.loop_limit(400)
    if what == 'is_unique':
        is_unique(s)
    elif what == 'rate':
        sym.forking(True)
        rate(s)
        sym.forking(False)
    elif what == 'score':
        sym.forking(True)
        score(s)
        sym.forking(False)
    elif what == 'solve':
        sym.forking(True)
        solvers.solve(s)
        sym.forking(False)
    elif what == 'hints':
        list(solvers.hints(s))
    elif what == 'first hint':
        next(solvers.hints(s), None)
    elif what == 'Bruteforce':
        sym.forking(True)
        list(solvers.Bruteforce.find(s))
        sym.forking(False)
    untouched(sym, s, nums, cands, what)
    sym.reach("end")


def yielded(sym, w, h, name, empty, free=None, maybe=(), change=True):
    """Solutions stay as they are while further ones are computed, the
    original changes, or an earlier one is changed."""
    n = w * h
    s = puzzle(sym, w, h, empty, free, maybe)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    # the same search undisturbed
    want = [numbers_of(x) for x in solver(name)(s)]
    got = []
    seen = []
    k = 0
    for x in solver(name)(s):
        got.append(x)
        seen.append(numbers_of(x))
        sym.check(k < len(want) and seen[k] == want[k], "disturbed search")
        if k == 0:
            untouched(sym, s, nums, cands, "search")
            for a in fields(n):
                s[a] = 1
                s.set_candidates(a[0], a[1], ())
        if change and k == 1:
            got[1][0, 0] = 0
            got[1][n - 1, 0] = 0
            seen[1][0][0] = 0
            seen[1][n - 1][0] = 0
        for i in range(k + 1):
            sym.check(same_numbers(got[i], seen[i]),
                      "an earlier solution changed")
        k += 1
    sym.check(k == len(want), "disturbed search")
    for i in range(k):
        sym.check(same_numbers(got[i], seen[i]),
                  "an earlier solution changed")
        if i:
            sym.reach("several")
    sym.reach("end")


def abandoned(sym, w, h, name, empty, free=None, maybe=()):
    """A search that is not finished."""
    s = puzzle(sym, w, h, empty, free, maybe)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    g = solver(name)(s)
    x = next(g, None)
    untouched(sym, s, nums, cands, "search")
    if x is not None:
        y = next(solver(name)(s), None)
        sym.check(y is not None and numbers_of(y) == numbers_of(x),
                  "second search disturbed")
        sym.check(y is not x, "same solution object")
        keep = numbers_of(x)
        next(g, None)
        sym.check(same_numbers(x, keep), "solution changed")
        untouched(sym, s, nums, cands, "search")
        sym.reach("found")
    sym.reach("end")
