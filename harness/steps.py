from sudokutools.sudoku import Sudoku
from sudokutools import solvers
from oracle.geo import fields, units, peers, rows, columns, boxes, \
    window, live_units, units_with, without, within, combos
from harness.grids import asked, candidates_of, numbers_of


def state(sym, w, h):
    """An arbitrary state on the way to an arbitrary solution: some fields
    are filled, the candidates of every field contain the right number."""
    n = w * h
    sol = sym.solution("sol", w, h)
    s = Sudoku(box_size=(w, h))
    for r, c in fields(n):
        if sym.bool("filled%d.%d" % (r, c)):
            s[r, c] = sol[r][c]
            s.set_candidates(r, c, {sol[r][c]})
        else:
            s.set_candidates(r, c, sym.subset(
                "c%d.%d" % (r, c), range(1, n + 1)) | {sol[r][c]})
    return s, sol


def intact(sym, s, sol, what):
    n = s.box_width * s.box_height
    for r, c in fields(n):
        sym.check(s[r, c] == 0 or s[r, c] == sol[r][c],
                  "%s: wrong number placed at (%d, %d)" % (what, r, c))
        sym.check(sol[r][c] in s.get_candidates(r, c),
                  "%s: solution removed at (%d, %d)" % (what, r, c))


def sound_one(sym, w, h, cls):
    """Any one step found in an arbitrary state keeps the solution."""
    s, sol = state(sym, w, h)
    some = False
    for step in [x for x in getattr(solvers, cls).find(s)]:
        t = s.copy(include_candidates=True)
        step.apply(t)
        intact(sym, t, sol, cls)
        some = True
    intact(sym, s, sol, cls + ".find")
    if some:
        sym.reach("found")
    sym.reach("end")


def sound_all(sym, w, h, cls):
    """Steps that are applied while the search for more goes on."""
    s, sol = state(sym, w, h)
    for step in getattr(solvers, cls).find(s):
        step.apply(s)
        intact(sym, s, sol, cls)
    sym.reach("end")


# ------------------------------------------------- exactness of the search
def loose(sym, w, h, part=None, vals=None):
    """Any numbers and candidates at all; a filled field has its own number
    or nothing as candidates.  Outside of the window: filled, no
    candidates.  vals: the numbers that may be candidates."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    live = window(w, h, part)
    for r, c in fields(n):
        if (r, c) not in live:
            s[r, c] = 1
        elif sym.bool("filled%d.%d" % (r, c)):
            v = sym.int("n%d.%d" % (r, c), 1, n)
            s[r, c] = v
            if sym.bool("own%d.%d" % (r, c)) and (
                    vals is None or v in vals):
                s.set_candidates(r, c, {v})
        else:
            s.set_candidates(r, c, sym.subset(
                "c%d.%d" % (r, c), range(1, n + 1) if vals is None
                else vals))
    return s


def effect(sym, s, step, removed, label):
    """Applying the step removes exactly these candidates and does nothing
    else.  removed: {field: numbers}"""
    n = s.box_width * s.box_height
    t = s.copy(include_candidates=True)
    step.apply(t)
    for a in fields(n):
        old = s.get_candidates(a[0], a[1])
        if a in removed:
            old = old - removed[a]
        sym.check(t[a] == s[a] and t.get_candidates(a[0], a[1]) == old,
                  label + ": wrong effect")


def unchanged(sym, s, nums, cands, label):
    for r, c in fields(len(nums)):
        sym.check(s[r, c] == nums[r][c] and
                  s.get_candidates(r, c) == cands[r][c],
                  label + ".find() changed the sudoku")


def naked(sym, w, h, cls, n, part=None, vals=None, again=False):
    """NakedTuple.find() reports exactly the naked tuples with an effect."""
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(getattr(solvers, cls).find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    reported = {}
    for step in [x for x in getattr(solvers, cls).find(s)]:
        clues = step.clues
        values = set(step.values)
        sym.check(len(clues) == n and len(set(clues)) == n,
                  "%d different clues" % n)
        together = set()
        for r, c in clues:
            together = together | cands[r][c]
        sym.check(values == together and len(values) <= n,
                  "values are the candidates of the clues")
        aff = set(step.affected)
        sym.check(len(aff) == len(step.affected), "no field twice")
        good = False
        for u in units_with(w, h, part, clues):
            want = {a for a in without(u, clues)
                    if not together.isdisjoint(cands[a[0]][a[1]])}
            if want == aff and len(want) > 0:
                good = True
        sym.check(good, "affected fields")
        effect(sym, s, step, {a: values for a in aff}, cls)
        reported[clues] = True
        sym.reach("found")
    for u in live_units(w, h, part):
        for clues in combos(within(u, window(w, h, part)), n):
            together = set()
            for r, c in clues:
                together = together | cands[r][c]
            inst = len(together) <= n and \
                all([len(cands[r][c]) > 1 for r, c in clues]) and \
                any([not together.isdisjoint(cands[r][c])
                     for r, c in without(u, clues)])
            sym.check(not inst or clues in reported,
                      "missing naked tuple %r" % (clues,))
    unchanged(sym, s, nums, cands, cls)
    sym.reach("end")


def hidden(sym, w, h, cls, n, part=None, vals=None, again=False):
    """HiddenTuple.find() reports exactly the hidden tuples with an
    effect."""
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(getattr(solvers, cls).find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    reported = {}
    for step in [x for x in getattr(solvers, cls).find(s)]:
        u = step.clues
        values = step.values
        sym.check(u in units(w, h), "clues are a row, column or box")
        sym.check(len(values) == n and len(set(values)) == n,
                  "%d different numbers" % n)
        vs = set(values)
        has = {a: not cands[a[0]][a[1]].isdisjoint(vs) for a in u}
        other = {a: not cands[a[0]][a[1]].issubset(vs) for a in u}
        sym.check(len([a for a in u if has[a]]) <= n,
                  "more fields than numbers")
        aff = {a: a in step.affected for a in fields(w * h)}
        for a in fields(w * h):
            if a in u:
                sym.check(aff[a] == (has[a] and other[a]),
                          "affected field %r" % (a,))
            else:
                sym.check(not aff[a], "affected field %r" % (a,))
        sym.check(any([aff[a] for a in u]), "no effect")
        effect(sym, s, step, {a: cands[a[0]][a[1]] - vs
                              for a in step.affected}, cls)
        reported[u, values] = True
        sym.reach("found")
    for u in live_units(w, h, part):
        few = {}
        for v in s.numbers:
            k = len([a for a in u if v in cands[a[0]][a[1]]])
            few[v] = 2 <= k <= n
        for values in combos(s.numbers, n):
            vs = set(values)
            has = [not cands[a[0]][a[1]].isdisjoint(vs) for a in u]
            inst = all([few[v] for v in values]) and \
                len([1 for x in has if x]) <= n and \
                any([x and not cands[a[0]][a[1]].issubset(vs)
                     for a, x in zip(u, has)])
            sym.check(not inst or (u, values) in reported,
                      "missing hidden tuple %r in %r" % (values, u))
    unchanged(sym, s, nums, cands, cls)
    sym.reach("end")


def pointing(sym, w, h, cls, n, part=None, vals=None, again=False):
    """A number that occurs in a unit in exactly n fields is removed from
    all other fields that see these n."""
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(getattr(solvers, cls).find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    size = w * h
    gone = {}
    for step in [x for x in getattr(solvers, cls).find(s)]:
        sym.check(len(step.values) == 1, "one number")
        v = step.values[0]
        clue = {a: a in step.clues for a in fields(size)}
        aff = {a: a in step.affected for a in fields(size)}
        has = {a: v in cands[a[0]][a[1]] for a in fields(size)}
        sym.check(len(step.clues) == n, "number of clues")
        good = False
        for x in units(w, h):
            if all([clue[a] == has[a] for a in x]) and \
                    not any([clue[a] for a in without(fields(size), x)]):
                good = True
        sym.check(good, "clues are not all occurrences in a unit")
        for a in fields(size):
            blind = any([clue[b] for b in without(fields(size),
                                                  peers(w, h, a))])
            sym.check(aff[a] == (has[a] and not blind),
                      "affected field %r" % (a,))
            if aff[a]:
                gone[a, v] = True
        sym.check(any([aff[a] for a in fields(size)]), "no effect")
        effect(sym, s, step, {a: {v} for a in step.affected}, cls)
        sym.reach("found")
    for v in s.numbers:
        has = {a: v in cands[a[0]][a[1]] for a in fields(size)}
        for x in live_units(w, h, part):
            inst = len([a for a in x if has[a]]) == n
            for a in without(fields(size), x):
                blind = any([has[b] for b in without(x, peers(w, h, a))])
                sym.check(not inst or blind or not has[a] or (a, v) in gone,
                          "missing: %d pointing at %r" % (v, a))
    unchanged(sym, s, nums, cands, cls)
    sym.reach("end")


def fish(sym, w, h, cls, n, part=None, vals=None, again=False):
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(getattr(solvers, cls).find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    size = w * h
    gone = {}
    for step in [x for x in getattr(solvers, cls).find(s)]:
        sym.check(len(step.values) == 1, "one number")
        v = step.values[0]
        clue = {a: a in step.clues for a in fields(size)}
        aff = {a: a in step.affected for a in fields(size)}
        has = {a: v in cands[a[0]][a[1]] for a in fields(size)}
        good = False
        for lines, others in (rows(w, h), columns(w, h)), \
                (columns(w, h), rows(w, h)):
            base = [any([clue[a] for a in x]) for x in lines]
            cover = [any([clue[a] for a in y]) for y in others]
            ok = len([1 for b in base if b]) == n and \
                len([1 for c in cover if c]) <= n
            for x, b in zip(lines, base):
                for a in x:
                    ok = ok and clue[a] == (has[a] and b)
            for x, b in zip(lines, base):
                for a, c in zip(x, cover):
                    ok = ok and aff[a] == (has[a] and c and not b)
            good = good or ok
        sym.check(good, "not a fish")
        sym.check(any([aff[a] for a in fields(size)]), "no effect")
        effect(sym, s, step, {a: {v} for a in step.affected}, cls)
        for a in fields(size):
            if aff[a]:
                gone[a, v] = True
        sym.reach("found")
    for lines, others in (rows(w, h), columns(w, h)), \
            (columns(w, h), rows(w, h)):
        for v in s.numbers:
            for base in combos(lines, n):
                hit = []
                ok = True
                for x in base:
                    k = len([a for a in x if v in cands[a[0]][a[1]]])
                    ok = ok and 2 <= k <= n
                many = []
                for y in others:
                    k = len([a for x in base for a in within(x, y)
                             if v in cands[a[0]][a[1]]])
                    ok = ok and k != 1
                    many.append(k > 1)
                ok = ok and len([1 for m in many if m]) <= n
                for y, m in zip(others, many):
                    for a in y:
                        if all([a not in x for x in base]):
                            sym.check(not ok or not m or
                                      v not in cands[a[0]][a[1]] or
                                      (a, v) in gone, "missing fish")
    unchanged(sym, s, nums, cands, cls)
    sym.reach("end")


def naked_single(sym, w, h, part=None, vals=None, again=False):
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(solvers.NakedSingle.find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    reported = {}
    for step in [x for x in solvers.NakedSingle.find(s)]:
        a = step.clues[0]
        sym.check(step.clues == (a,) and step.affected == (a,) and
                  len(step.values) == 1, "shape")
        sym.check(s[a] == 0 and
                  cands[a[0]][a[1]] == {step.values[0]},
                  "not a naked single: %r" % (a,))
        placed(sym, s, step, a, step.values[0], w, h)
        reported[a] = reported.get(a, 0) + 1
        sym.reach("found")
    for a in fields(w * h):
        inst = s[a] == 0 and len(cands[a[0]][a[1]]) == 1
        sym.check(reported.get(a, 0) == (1 if inst else 0),
                  "naked single at %r" % (a,))
    unchanged(sym, s, nums, cands, "NakedSingle")
    sym.reach("end")


def placed(sym, s, step, a, v, w, h):
    """Applying the step writes the number, and removes it from the
    candidates of the fields that see it."""
    t = s.copy(include_candidates=True)
    step.apply(t)
    for b in fields(w * h):
        if b == a:
            want = {v}
            num = v
        else:
            want = s.get_candidates(b[0], b[1])
            num = s[b]
            if b in peers(w, h, a):
                want = want - {v}
        sym.check(t[b] == num, "number at %r" % (b,))
        sym.check(t.get_candidates(b[0], b[1]) == want,
                  "candidates at %r" % (b,))


def hidden_single(sym, w, h, part=None, vals=None, again=False):
    s = loose(sym, w, h, part, vals)
    asked(again, s, lambda t: list(solvers.HiddenSingle.find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    reported = {}
    for step in [x for x in solvers.HiddenSingle.find(s)]:
        a = step.clues[0]
        sym.check(step.clues == (a,) and step.affected == (a,) and
                  len(step.values) == 1, "shape")
        v = step.values[0]
        sym.check(s[a] == 0 and v in cands[a[0]][a[1]] and any(
            [all([v not in cands[b[0]][b[1]] for b in without(u, (a,))])
             for u in units_with(w, h, None, (a,))]),
            "not a hidden single: %r" % (a,))
        placed(sym, s, step, a, v, w, h)
        reported[a] = reported.get(a, 0) + 1
        sym.reach("found")
    for a in fields(w * h):
        inst = s[a] == 0 and any(
            [all([v not in cands[b[0]][b[1]] for b in without(u, (a,))])
             and v in cands[a[0]][a[1]]
             for v in s.numbers for u in units_with(w, h, None, (a,))])
        sym.check(reported.get(a, 0) == (1 if inst else 0),
                  "hidden single at %r" % (a,))
    unchanged(sym, s, nums, cands, "HiddenSingle")
    sym.reach("end")


def single_solution(sym, w, h, cls):
    """In a state that contains the solution: a field is reported with its
    right number."""
    s, sol = state(sym, w, h)
    for step in [x for x in getattr(solvers, cls).find(s)]:
        r, c = step.affected[0]
        sym.check(s[r, c] == 0 and step.values == (sol[r][c],),
                  cls + ": wrong number")
        sym.reach("found")
    sym.reach("end")


def calculate(sym, w, h, again=False):
    """CalculateCandidates.find()/apply()."""
    s = loose(sym, w, h)
    asked(again, s, lambda t: list(solvers.CalculateCandidates.find(t)))
    cands = candidates_of(s)
    nums = numbers_of(s)
    reported = {}
    for step in [x for x in solvers.CalculateCandidates.find(s)]:
        a = step.clues[0]
        sym.check(step.clues == (a,) and step.affected == (a,), "shape")
        want = set([v for v in s.numbers if s[a] in (0, v) and
                    (s[a] == v or all([s[b] != v
                                       for b in peers(w, h, a)]))])
        sym.check(set(step.values) == want, "values at %r" % (a,))
        sym.check(len(cands[a[0]][a[1]]) == 0, "field had candidates")
        t = s.copy(include_candidates=True)
        step.apply(t)
        for b in fields(w * h):
            sym.check(t[b] == s[b] and t.get_candidates(b[0], b[1]) == (
                want if a == b else s.get_candidates(b[0], b[1])),
                "effect at %r" % (b,))
        reported[a] = reported.get(a, 0) + 1
    for a in fields(w * h):
        possible = s[a] != 0 or any([
            all([s[b] != v for b in peers(w, h, a)]) for v in s.numbers])
        if len(cands[a[0]][a[1]]) == 0 and possible:
            sym.check(reported.get(a, 0) == 1, "step for %r" % (a,))
            sym.reach("found")
        else:
            sym.check(len(cands[a[0]][a[1]]) == 0 or a not in reported,
                      "step for %r" % (a,))
    unchanged(sym, s, nums, cands, "CalculateCandidates")
    sym.reach("end")
