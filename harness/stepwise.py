"""Solving step by step: end, result, report; rating and score."""
from sudokutools import solvers
from sudokutools.sudoku import Sudoku
from sudokutools.analyze import rate, score, RATINGS
from harness.complete import puzzle
from harness.grids import any_candidates, asked, numbers_of, candidates_of, \
    same_numbers, same_candidates
from oracle.geo import fields, peers, base


def clean(s, w, h):
    return all([s[a] == 0 or s[a] != s[b] for a in fields(w * h)
                for b in peers(w, h, a) if a < b])


def solved(sym, w, h, empty, free=None, maybe=(), stale=False,
           merge=False, again=False):
    n = w * h
    s = puzzle(sym, w, h, empty, free, maybe)
    if stale:
        any_candidates(sym, s)
    nums = numbers_of(s)
    cands = candidates_of(s)
    steps = []
    goal = {}
    agree = clean(s, w, h)
    sym.loop_limit(400)
    sym.forking('sudokutools.solvers' if merge else True)
    asked(again, s, solvers.solve)
    t = solvers.solve(s, steps.append)
    sym.forking(False)
    sym.check(same_numbers(s, nums) and same_candidates(s, cands),
              "the sudoku itself changed")
    sym.check(t.box_size == (w, h), "box size")
    sym.check(all([s[a] == 0 or t[a] == s[a] for a in fields(n)]),
              "a given number changed")
    done = clean(t, w, h) and all([1 <= t[a] <= n for a in fields(n)])
    for a in fields(n):
        if a in empty or a in maybe:
            goal[a] = sym.int("goal%d.%d" % a, 1, n)
            if a in maybe:
                agree = agree and (s[a] == 0 or s[a] == goal[a])
        else:
            goal[a] = s[a]
    for a in goal:
        for b in peers(w, h, a):
            if a < b:
                agree = agree and goal[a] != goal[b]
    if agree:
        sym.check(done, "not solved although there is a solution")
        sym.reach("solved")
    else:
        sym.reach("another")
    if not done:
        sym.reach("unsolved")
    # the reported steps are the ones that lead there
    u = s.copy()
    for r, c in u.filled():
        u.set_candidates(r, c, {u[r, c]})
    for step in steps:
        step.__class__(*args_of(step)).apply(u)
    sym.check(u == t, "reported steps lead elsewhere")
    sym.reach("end")


def args_of(step):
    if isinstance(step, solvers._SingleFieldStep):
        r, c = step.clues[0]
        return r, c, step.values[0]
    return step.clues, step.affected, step.values


def rated(sym, w, h, empty, free=None, maybe=(), again=False):
    """rate() and score() against the reported steps."""
    s = puzzle(sym, w, h, empty, free, maybe)
    any_candidates(sym, s)
    nums = numbers_of(s)
    cands = candidates_of(s)
    steps = []
    sym.loop_limit(400)
    sym.forking(True)
    asked(again, s, rate)
    asked(again, s, score)
    t = solvers.solve(s, steps.append)
    got = rate(s)
    points = score(s)
    sym.forking(False)
    values = [RATINGS[x.__class__] for x in steps]
    sym.check(got == (max(values) if values else 0), "rating")
    sym.check(points == sum(values), "score")
    sym.check(0 <= got <= 10, "range of the rating")
    sym.check(got <= points <= got * len(steps), "score and rating")
    guess = any([isinstance(x, solvers.Bruteforce) for x in steps])
    sym.check((got == 10) == guess, "rating of guesses")
    work = any([not isinstance(x, solvers.CalculateCandidates)
                for x in steps])
    sym.check((got == 0) == (not work), "rating of no work")
    if t != s:
        sym.check(got > 0, "rating of an unsolved sudoku")
    sym.check(same_numbers(s, nums) and same_candidates(s, cands),
              "the sudoku itself changed")
    if guess:
        sym.reach("guess")
    elif work:
        sym.reach("work")
    else:
        sym.reach("none")
    sym.reach("end")


def table(sym):
    """Harder methods rate higher, in the order in which they are tried."""
    n = len(solvers.SOLVERS)
    i = sym.case(sym.int("i", 0, n - 1))
    a = RATINGS[solvers.SOLVERS[i]]
    sym.check(0 <= a <= 10, "range")
    sym.check((a == 0) == (solvers.SOLVERS[i] ==
                           solvers.CalculateCandidates), "rating 0")
    sym.check((a == 10) == (solvers.SOLVERS[i] == solvers.Bruteforce),
              "rating 10")
    if i:
        sym.check(RATINGS[solvers.SOLVERS[i - 1]] <= a, "order")
    sym.reach("end")
