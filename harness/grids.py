"""Shared pieces of the harnesses: symbolic sudokus."""
from sudokutools.sudoku import Sudoku
from oracle.geo import fields, sees, same_box, units


def any_grid(sym, w, h, name="n"):
    """A sudoku with arbitrary numbers (also conflicting ones)."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    for r in range(n):
        for c in range(n):
            s[r, c] = sym.int("%s%d.%d" % (name, r, c), 0, n)
    return s


def any_candidates(sym, s, name="c"):
    n = s.box_width * s.box_height
    for r in range(n):
        for c in range(n):
            s.set_candidates(r, c, sym.subset(
                "%s%d.%d" % (name, r, c), range(1, n + 1)))


def asked(again, s, f):
    """Ask about other sudokus, and about this one in other states, before
    the answer that counts."""
    if not again:
        return
    n = s.box_width * s.box_height
    t = Sudoku(box_size=(s.box_height, s.box_width))
    for r, c in fields(n):
        t[r, c] = s[r, c]
        t.set_candidates(r, c, s.get_candidates(r, c))
    f(t)
    v, x = s[0, 0], s.get_candidates(0, 0)
    s[0, 0] = 0
    s.set_candidates(0, 0, range(1, n + 1))
    f(s)
    s[0, 0] = n
    s.set_candidates(0, 0, [n])
    f(s)
    s[0, 0] = v
    s.set_candidates(0, 0, x)


def numbers_of(s):
    n = s.box_width * s.box_height
    return [[s[r, c] for c in range(n)] for r in range(n)]


def candidates_of(s):
    n = s.box_width * s.box_height
    return [[set(s.get_candidates(r, c)) for c in range(n)]
            for r in range(n)]


def same_numbers(s, rows):
    n = s.box_width * s.box_height
    return all([s[r, c] == rows[r][c] for r in range(n) for c in range(n)])


def same_candidates(s, rows):
    n = s.box_width * s.box_height
    return all([s.get_candidates(r, c) == rows[r][c]
                for r in range(n) for c in range(n)])
