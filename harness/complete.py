"""The two solvers against the definition: which completions are yielded."""
from itertools import product
from sudokutools.sudoku import Sudoku
from sudokutools import solve as low
from sudokutools.analyze import is_unique
from harness.grids import any_candidates, asked, numbers_of, candidates_of, \
    same_numbers, same_candidates
from oracle.geo import fields, peers, base


def solver(name):
    return low.dlx if name == 'dlx' else low.bruteforce


def puzzle(sym, w, h, empty, free=None, maybe=()):
    """empty: fields without a number; maybe: fields with any number or
    none; free: fields with any number (None: all others); the rest is
    filled with a fixed solution."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    for a in fields(n):
        if a in empty:
            continue
        elif a in maybe:
            s[a] = sym.int("n%d.%d" % a, 0, n)
        elif free is None or a in free:
            s[a] = sym.int("n%d.%d" % a, 1, n)
        else:
            s[a] = base(w, h)[a[0]][a[1]]
    return s


def exact(sym, w, h, name, empty, free=None, maybe=(), stale=False,
          again=False):
    """An arbitrary filling of the grid is yielded, and once, if and only
    if it completes the sudoku without conflicts."""
    n = w * h
    s = puzzle(sym, w, h, empty, free, maybe)
    if stale:
        any_candidates(sym, s)
    nums = numbers_of(s)
    cands = candidates_of(s)
    goal = {}
    agree = True
    for a in fields(n):
        if a in empty or a in maybe:
            goal[a] = sym.int("goal%d.%d" % a, 1, n)
            if a in maybe:
                agree = agree and (s[a] == 0 or s[a] == goal[a])
        else:
            goal[a] = s[a]
    for a in fields(n):
        for b in peers(w, h, a):
            if a < b:
                agree = agree and goal[a] != goal[b]
    asked(again, s, lambda t: next(solver(name)(t), None))
    hits = {}
    k = 0
    for x in solver(name)(s):
        sym.check(x.box_size == (w, h), "box size")
        sym.check(all([1 <= x[a] <= n for a in fields(n)]), "not filled")
        hits[k] = all([x[a] == goal[a] for a in fields(n)])
        k += 1
        sym.reach("found")
    sym.check(any([hits[i] for i in hits]) == agree,
              "yielded if and only if it is a completion")
    for i in hits:
        for j in hits:
            if i < j:
                sym.check(not (hits[i] and hits[j]), "yielded twice")
    if not hits:
        sym.reach("none")
    sym.check(same_numbers(s, nums) and same_candidates(s, cands),
              "the sudoku itself changed")
    sym.reach("end")


def unique(sym, w, h, empty, free=None, again=False):
    """is_unique() against the number of conflict-free fillings."""
    n = w * h
    s = puzzle(sym, w, h, empty, free)
    any_candidates(sym, s)
    clean = True
    for a in fields(n):
        for b in peers(w, h, a):
            if a < b and a not in empty and b not in empty:
                clean = clean and s[a] != s[b]
    one = False
    two = False
    for vals in product(range(1, n + 1), repeat=len(empty)):
        goal = dict(zip(empty, vals))
        ok = True
        for a in empty:
            for b in peers(w, h, a):
                if b in goal:
                    if goal[a] == goal[b]:
                        ok = False
        if ok:
            ok = clean and all([s[b] != goal[a] for a in empty
                                for b in peers(w, h, a) if b not in goal])
            two = two or (one and ok)
            one = one or ok
    asked(again, s, is_unique)
    got = is_unique(s)
    sym.check(got == (one and not two), "is_unique")
    if got:
        sym.reach("unique")
    else:
        sym.reach("not unique")
