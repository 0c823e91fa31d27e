from sudokutools.sudoku import Sudoku
from sudokutools import coordinates as co
from harness.grids import fields


def same_box(w, h, a, b):
    return a[0] // h == b[0] // h and a[1] // w == b[1] // w


def sees(w, h, a, b):
    return a != b and (
        a[0] == b[0] or a[1] == b[1] or same_box(w, h, a, b))


def exactly(sym, got, b, want, what):
    """The arbitrary field b is listed once if wanted, else not at all."""
    k = 0
    for x in got:
        if x[0] == b[0] and x[1] == b[1]:
            k += 1
    sym.check(k == (1 if want else 0), what)


def field(sym, n, name="", margin=0):
    return (sym.int("row" + name, -margin, n - 1 + margin),
            sym.int("col" + name, -margin, n - 1 + margin))


def methods(sym, w, h, again=False):
    """Row, column, box and surroundings of an arbitrary field, as methods
    of a sudoku and as functions."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    inc = sym.bool("include")
    a = r, c = field(sym, n)
    b = field(sym, n, "2", 1)
    valid = 0 <= b[0] < n and 0 <= b[1] < n
    ok = valid and (inc or b != a)
    rows = ok and b[0] == r
    cols = ok and b[1] == c
    boxes = ok and same_box(w, h, a, b)
    peers = ok and (b == a or sees(w, h, a, b))
    if again:
        t = Sudoku(box_size=(h, w))
        for k in True, False:
            t.box_of(r, c, k), t.row_of(r, c, k), t.column_of(r, c, k)
            t.surrounding_of(r, c, k), t.box_at(r, c)
            co.box_of(r, c, h, w, k), co.row_of(r, c, h, w, k)
            co.column_of(r, c, h, w, k), co.surrounding_of(r, c, h, w, k)
            co.box_at(r, c, h, w)
    exactly(sym, s.row_of(r, c, include=inc), b, rows, "row_of")
    exactly(sym, s.column_of(r, c, include=inc), b, cols, "column_of")
    exactly(sym, s.box_of(r, c, include=inc), b, boxes, "box_of")
    exactly(sym, s.surrounding_of(r, c, include=inc), b, peers,
            "surrounding_of")
    exactly(sym, co.row_of(r, c, w, h, inc), b, rows, "coordinates.row_of")
    exactly(sym, co.column_of(r, c, w, h, inc), b, cols,
            "coordinates.column_of")
    exactly(sym, co.box_of(r, c, w, h, inc), b, boxes, "coordinates.box_of")
    exactly(sym, co.surrounding_of(r, c, w, h, inc), b, peers,
            "coordinates.surrounding_of")
    # numbering of the boxes: left to right, top to bottom
    box = (r // h) * h + c // w
    sym.check(s.box_at(r, c) == box, "box_at")
    sym.check(co.box_at(r, c, w, h) == box, "coordinates.box_at")
    if inc:
        sym.reach("include")
    sym.reach("end")


def defaults(sym):
    """The functions default to a 3x3 box and to including the field."""
    a = r, c = field(sym, 9)
    b = field(sym, 9, "2")
    s = Sudoku()
    same = same_box(3, 3, a, b)
    near = b == a or sees(3, 3, a, b)
    exactly(sym, co.row_of(r, c), b, b[0] == r, "row_of")
    exactly(sym, co.column_of(r, c), b, b[1] == c, "column_of")
    exactly(sym, co.box_of(r, c), b, same, "box_of")
    exactly(sym, co.surrounding_of(r, c), b, near, "surrounding_of")
    exactly(sym, s.row_of(r, c), b, b[0] == r, "s.row_of")
    exactly(sym, s.column_of(r, c), b, b[1] == c, "s.column_of")
    exactly(sym, s.box_of(r, c), b, same, "s.box_of")
    exactly(sym, s.surrounding_of(r, c), b, near, "s.surrounding_of")
    exactly(sym, co.the_row(r), b, b[0] == r, "the_row")
    exactly(sym, co.the_column(r), b, b[1] == r, "the_column")
    exactly(sym, co.the_box(r), b, b[0] // 3 * 3 + b[1] // 3 == r, "the_box")
    exactly(sym, co.the_part(r), b, b[0] % 3 * 3 + b[1] % 3 == r, "the_part")
    sym.check(co.box_at(r, c) == r // 3 * 3 + c // 3, "box_at")
    sym.reach("end")


def numbered(sym, w, h, again=False):
    """the_row/the_column/the_box/the_part of an arbitrary number."""
    n = w * h
    k = sym.int("k", -2, n + 1)
    b = field(sym, n, "2")
    for f in (co.the_row, co.the_column, co.the_box, co.the_part) * again:
        try:
            f(k, width=h, height=w)
        except ValueError:
            pass
    for f, want in ((co.the_row, b[0]), (co.the_column, b[1]),
                    (co.the_box, b[0] // h * h + b[1] // w),
                    (co.the_part, b[0] % h * w + b[1] % w)):
        try:
            got = f(k, width=w, height=h)
        except ValueError:
            sym.check(k < 0 or k >= n, "%s refuses a number" % f.__name__)
            sym.reach("refused")
        else:
            sym.check(0 <= k < n, "%s accepts a number" % f.__name__)
            if 0 <= k < n:
                exactly(sym, got, b, want == k, f.__name__)
                sym.check(all([0 <= x[0] < n and 0 <= x[1] < n
                               for x in got]), "outside the grid")
            sym.reach("end")


def partition(sym, w, h):
    """Two arbitrary fields: same box index iff same box; every box, part,
    row and column number is in range; iteration visits each field once."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    a = (sym.int("r1", 0, n - 1), sym.int("c1", 0, n - 1))
    b = (sym.int("r2", 0, n - 1), sym.int("c2", 0, n - 1))
    x = s.box_at(a[0], a[1])
    y = s.box_at(b[0], b[1])
    sym.check((x == y) == same_box(w, h, a, b), "box_at")
    sym.check(0 <= x < n, "box_at range")
    sym.check((b in s.surrounding_of(a[0], a[1], include=False)) ==
              (a in s.surrounding_of(b[0], b[1], include=False)),
              "surroundings are not symmetric")
    sym.check([f for f in s] == list(fields(n)), "iteration")
    sym.check(len(s) == n * n, "len")
    sym.reach("end")
