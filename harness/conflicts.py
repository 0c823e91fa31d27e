from sudokutools.analyze import find_conflicts, is_solved
from harness.grids import any_grid, any_candidates, asked, fields, sees, units, \
    numbers_of, candidates_of, same_numbers, same_candidates
from harness.geometry import field


def whole(sym, w, h, again=False):
    """All conflicts of an arbitrary grid: every ordered pair of equal
    numbers in a row, column or box once, and nothing else."""
    n = w * h
    s = any_grid(sym, w, h)
    before = numbers_of(s)
    asked(again, s, lambda t: list(find_conflicts(t)))
    found = {}
    for x, y, v in find_conflicts(s):
        sym.check(v == s[x], "value of the conflict")
        found[x, y] = found.get((x, y), 0) + 1
    some = False
    for a in fields(n):
        for b in fields(n):
            k = found.pop((a, b), 0)
            if sees(w, h, a, b):
                v = before[a[0]][a[1]]
                bad = v != 0 and v == before[b[0]][b[1]]
                sym.check(k == (1 if bad else 0),
                          "conflict between %r and %r" % (a, b))
                some = some or bad
            else:
                sym.check(k == 0, "%r and %r" % (a, b))
    sym.check(len(found) == 0, "conflicts outside the grid")
    sym.check(same_numbers(s, before), "numbers changed")
    if some:
        sym.reach("conflict")
    sym.reach("end")


def at(sym, w, h):
    """Conflicts at an arbitrary non-empty collection of fields."""
    n = w * h
    s = any_grid(sym, w, h)
    wanted = sym.subset("coords", fields(n))
    sym.assume(len(wanted) > 0)
    coords = [a for a in fields(n) if a in wanted]
    found = {}
    for x, y, v in find_conflicts(s, *coords):
        sym.check(v == s[x], "value of the conflict")
        found[x, y] = found.get((x, y), 0) + 1
    some = False
    for a in fields(n):
        for b in fields(n):
            if sees(w, h, a, b):
                bad = s[a] != 0 and s[a] == s[b] and a in wanted
                sym.check(found.get((a, b), 0) == (1 if bad else 0),
                          "conflict between %r and %r" % (a, b))
                some = some or bad
            else:
                sym.check((a, b) not in found, "%r and %r" % (a, b))
    if some:
        sym.reach("conflict")
    sym.reach("end")


def solved(sym, w, h, again=False):
    n = w * h
    s = any_grid(sym, w, h)
    before = numbers_of(s)
    # no empty field and no number twice in a row, column or box
    want = all([x != 0 for row in before for x in row]) and \
        all([before[a[0]][a[1]] != before[b[0]][b[1]]
             for u in units(w, h) for a in u for b in u if a < b])
    asked(again, s, is_solved)
    got = is_solved(s)
    sym.check(bool(got) == want, "is_solved")
    sym.check(same_numbers(s, before), "numbers changed")
    if want:
        sym.reach("solved")
    else:
        sym.reach("unsolved")
