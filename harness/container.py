"""The sudoku as a container: reads, writes, copies, comparison."""
from sudokutools.sudoku import Sudoku
from harness.grids import any_grid, any_candidates, numbers_of, \
    candidates_of, same_numbers, same_candidates
from oracle.geo import fields


def state(sym, w, h, name=""):
    s = any_grid(sym, w, h, name + "n")
    any_candidates(sym, s, name + "c")
    return s


def write(sym, n, s, nums, cands, k, kinds):
    """One arbitrary write, on the sudoku and on the lists."""
    r = sym.int("row%d" % k, 0, n - 1)
    c = sym.int("col%d" % k, 0, n - 1)
    v = sym.int("value%d" % k, 0, n)
    m = sym.subset("set%d" % k, range(1, n + 1))
    kind = sym.int("kind%d" % k, 0, kinds)
    if kind == 0:
        s[r, c] = v
    elif kind == 1:
        s.set_number(r, c, v)
    elif kind == 2:
        s.set_candidates(r, c, m)
    elif kind == 3:
        s.remove_candidates(r, c, m)
    else:
        s.set_candidates(r, c, [x for x in range(1, n + 1) if x in m])
    for a in fields(n):
        if a == (r, c):
            if kind <= 1:
                nums[a[0]][a[1]] = v
            elif kind == 3:
                cands[a[0]][a[1]] = set(
                    [x for x in cands[a[0]][a[1]] if x not in m])
            else:
                cands[a[0]][a[1]] = set([x for x in m])


def holds(sym, s, nums, cands, what):
    sym.check(same_numbers(s, nums), what + ": numbers")
    sym.check(same_candidates(s, cands), what + ": candidates")
    n = len(nums)
    sym.check(all([s.get_number(r, c) == nums[r][c]
                   for r, c in fields(n)]), what + ": get_number")


def writes(sym, w, h, steps):
    """Writing a field changes this field only."""
    n = w * h
    s = state(sym, w, h)
    nums = numbers_of(s)
    cands = candidates_of(s)
    for k in range(steps):
        write(sym, n, s, nums, cands, k, 4)
    holds(sym, s, nums, cands, "written")
    sym.reach("end")


def copies(sym, w, h, steps, back):
    """Copies equal the original and are independent of it."""
    n = w * h
    s = state(sym, w, h)
    inc = sym.bool("include")
    t = s.copy(include_candidates=inc)
    u = s.copy()
    nums, cands = numbers_of(s), candidates_of(s)
    tn = [list(x) for x in nums]
    tc = [[set(x) if inc else set() for x in y] for y in cands]
    sym.check(t.box_size == (w, h) and u.box_size == (w, h), "box size")
    sym.check(len(t) == n * n, "size")
    sym.check(t == s and s == t and u == s, "copy is not equal")
    sym.check(not list(t.diff(s)), "copy is different")
    holds(sym, t, tn, tc, "copy")
    holds(sym, u, nums, [[set() for c in x] for x in nums],
          "copy without candidates")
    for k in range(steps):
        if back:
            write(sym, n, s, nums, cands, k, 4)
        else:
            write(sym, n, t, tn, tc, k, 4)
    holds(sym, s, nums, cands, "original")
    holds(sym, t, tn, tc, "changed copy")
    sym.reach("end")


def fresh(sym, w, h):
    """A new sudoku is empty, whatever happened to others."""
    n = w * h
    s = state(sym, w, h)
    t = Sudoku(box_size=(w, h))
    sym.check(t.box_size == (w, h), "box size")
    sym.check(len(t) == n * n and len(s) == n * n, "size")
    sym.check(all([t[a] == 0 for a in fields(n)]), "numbers")
    sym.check(all([len(t.get_candidates(r, c)) == 0 for r, c in fields(n)]),
              "candidates")
    t[0, 0] = sym.int("value", 0, n)
    t.set_candidates(n - 1, 0, sym.subset("set", range(1, n + 1)))
    u = Sudoku((w, h))
    sym.check(all([u[a] == 0 for a in fields(n)]), "numbers")
    sym.check(all([len(u.get_candidates(r, c)) == 0 for r, c in fields(n)]),
              "candidates")
    sym.check(t.count() == (0 if t[0, 0] == 0 else 1), "count")
    sym.reach("end")


def queries(sym, w, h):
    """Iteration, empty and filled fields, counting, length."""
    n = w * h
    s = state(sym, w, h)
    nums, cands = numbers_of(s), candidates_of(s)
    sym.check(list(s) == list(fields(n)), "iteration")
    sym.check(list(s.empty()) == [a for a in fields(n) if s[a] == 0],
              "empty fields")
    sym.check(list(s.filled()) == [a for a in fields(n) if s[a] != 0],
              "filled fields")
    sym.check(s.count() == len([a for a in fields(n) if s[a] != 0]),
              "count")
    sym.check(len(s) == n * n, "length")
    holds(sym, s, nums, cands, "changed by a query")
    sym.reach("end")


def comparison(sym, w, h):
    """Equality and difference of two sudokus."""
    n = w * h
    s = state(sym, w, h)
    t = state(sym, w, h, "t")
    nums, cands = numbers_of(s), candidates_of(s)
    tn, tc = numbers_of(t), candidates_of(t)
    other = [a for a in fields(n) if s[a] != t[a]]
    sym.check(list(s.diff(t)) == other, "difference")
    same = all([s[a] == t[a] for a in fields(n)])
    sym.check((s == t) == same, "equality")
    sym.check((s != t) == (not same), "inequality")
    sym.check(s.equals(t) == same, "equals()")
    both = same and all([s.get_candidates(r, c) == t.get_candidates(r, c)
                         for r, c in fields(n)])
    sym.check(s.equals(t, candidates=True) == both, "equals() candidates")
    holds(sym, s, nums, cands, "changed by comparing")
    holds(sym, t, tn, tc, "other changed by comparing")
    if same:
        sym.reach("equal")
    sym.reach("end")


def sizes(sym, w, h, w2, h2):
    """Sudokus of different sizes are never equal."""
    s = any_grid(sym, w, h)
    t = any_grid(sym, w2, h2, "t")
    sym.check(not (s == t) and s != t, "different sizes are equal")
    sym.check(not (t == s) and t != s, "different sizes are equal")
    sym.check(not (s.equals(t) or t.equals(s)), "equals() of other sizes")
    sym.check(not (s == 5 or s == None), "equal to something else")
    sym.reach("end")
