from sudokutools.sudoku import Sudoku
from sudokutools.solve import init_candidates, calc_candidates, bruteforce, dlx
from sudokutools.analyze import find_conflicts, is_unique, rate
from sudokutools import solvers


P = """
003020600
900305001
001806400
008102900
700000008
006708200
002609500
800203009
005010300
"""


def h1(sym):
    s = Sudoku.decode(P)
    init_candidates(s)
    sym.observe("c", s.get_candidates(0, 0))
    sym.observe("enc", s.encode())
    sym.observe("enc", s.encode(include_candidates=True))
    sym.check(s.count() == 32, "count")
    for d in dlx(s):
        sym.observe("sol", d.encode())
    for t in solvers.SOLVERS if hasattr(solvers, 'SOLVERS') else []:
        sym.observe("t", t)
    for x in find_conflicts(s):
        sym.observe("conf", x)
    print(s)
    sym.observe("out", sym.output())
    sym.reach("end")


def h2(sym):
    s = Sudoku((2, 2))
    for r in range(4):
        for c in range(4):
            s[r, c] = sym.int("c%d%d" % (r, c), 0, 4)
    init_candidates(s)
    for r in range(4):
        for c in range(4):
            cs = s.get_candidates(r, c)
            sym.observe("c", cs)
            for k in range(1, 5):
                exp = all(s[i, j] != k for (i, j) in s.surrounding_of(r, c, include=False)) if s[r, c] == 0 else s[r, c] == k
                sym.observe("exp%d%d%d" % (r, c, k), exp)
                sym.observe("al%d%d%d" % (r, c, k), [s[i, j] != k for (i, j) in s.surrounding_of(r, c, include=False)])
                sym.observe("in%d%d%d" % (r, c, k), k in cs)
                sym.check((k in cs) == exp, "cand")
    sym.reach("end")


def h3(sym):
    s = Sudoku((2, 2))
    s[0, 0] = sym.int("a", 0, 1)
    s[0, 1] = sym.int("b", 0, 1)
    cs = calc_candidates(s, 0, 0)
    sym.observe("cs", cs)
    a = [s[i, j] != 1 for (i, j) in s.surrounding_of(0, 0, include=False)]
    sym.observe("a", a)
    sym.observe("all", all(a))
    sym.observe("all", all(s[i, j] != 1 for (i, j) in s.surrounding_of(0, 0, include=False)))
    sym.observe("exp", all(a) if s[0, 0] == 0 else s[0, 0] == 1)
    sym.observe("in", 1 in cs)
    sym.reach("end")
    if s[0, 0] and s[0, 1]:
        sym.reach("11")
    if s[0, 0] and not s[0, 1]:
        sym.reach("10")
    if not s[0, 0] and not s[0, 1]:
        sym.reach("00")


def h4(sym, n):
    xs = [sym.bool("x%d" % i) for i in range(n)]
    a = all(x for x in xs)
    sym.observe("a", a)
    e = True
    for x in xs:
        e = e and x
    sym.observe("e", e)
    sym.check(a == e, "all")


def h5(sym, n):
    xs = [sym.int("x%d" % i, 0, 3) for i in range(n)]
    a = all(x != 2 for x in xs)
    sym.observe("a", a)
    e = True
    for x in xs:
        e = e and x != 2
    sym.observe("e", e)
    sym.check(a == e, "all")
