from sudokutools.solve import calc_candidates, init_candidates
from harness.grids import any_grid, any_candidates, asked, fields, sees, \
    numbers_of, candidates_of, same_numbers, same_candidates


def calc(sym, w, h, again=False):
    """calc_candidates() of every field of an arbitrary grid."""
    n = w * h
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    before = numbers_of(s)
    cands = candidates_of(s)
    asked(again, s, lambda t: [calc_candidates(t, r, c)
                               for r, c in fields(n)])
    for a in fields(n):
        got = calc_candidates(s, a[0], a[1])
        peers = [before[b[0]][b[1]] for b in fields(n) if sees(w, h, a, b)]
        v = before[a[0]][a[1]]
        for k in range(1, n + 1):
            if v:
                want = v == k
            else:
                want = all([p != k for p in peers])
            sym.check((k in got) == want,
                      "candidate %d of field %r" % (k, a))
        sym.check(all([1 <= k <= n for k in got]),
                  "candidates outside 1..%d at %r" % (n, a))
    sym.check(same_numbers(s, before), "numbers changed")
    sym.check(same_candidates(s, cands), "candidates changed")
    sym.observe("c00", calc_candidates(s, 0, 0))
    sym.reach("end")


def init(sym, w, h, again=False):
    n = w * h
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    before = numbers_of(s)
    asked(again, s, init_candidates)
    init_candidates(s)
    for a in fields(n):
        got = s.get_candidates(a[0], a[1])
        peers = [before[b[0]][b[1]] for b in fields(n) if sees(w, h, a, b)]
        v = before[a[0]][a[1]]
        for k in range(1, n + 1):
            if v:
                want = v == k
            else:
                want = all([p != k for p in peers])
            sym.check((k in got) == want,
                      "candidate %d of field %r" % (k, a))
        sym.check(all([1 <= k <= n for k in got]),
                  "candidates outside 1..%d at %r" % (n, a))
    sym.check(same_numbers(s, before), "numbers changed")
    sym.observe("last", s.get_candidates(n - 1, n - 1))
    sym.reach("end")


def init_filled(sym, w, h):
    n = w * h
    s = any_grid(sym, w, h)
    before = numbers_of(s)
    init_candidates(s, filled_only=True)
    for a in fields(n):
        got = s.get_candidates(a[0], a[1])
        v = before[a[0]][a[1]]
        if v:
            sym.check(got == {v}, "filled field %r" % (a,))
        else:
            sym.check(len(got) == 0, "empty field %r has candidates" % (a,))
    sym.check(same_numbers(s, before), "numbers changed")
    sym.reach("end")
