"""Creating sudokus: every outcome of the random generator."""
import random
from sudokutools import generate as gen
from sudokutools import analyze
from sudokutools.sudoku import Sudoku
from harness.grids import any_grid, any_candidates, numbers_of, \
    candidates_of, same_numbers, same_candidates
from oracle.geo import fields, peers, base


class Dice(object):
    """Stands for the random generator: every outcome is possible."""

    def __init__(self, sym, fixed=None, split=False, stride=1):
        self.sym = sym
        self.fixed = fixed
        self.stride = stride
        self.rolls = 0
        self.split = split

    def name(self, what):
        self.rolls += 1
        return "%s%d" % (what, self.rolls)

    def choice(self, seq):
        seq = list(seq)
        i = self.below(len(seq))
        return seq[i]

    def below(self, n):
        if n == 1:
            return 0
        i = self.sym.int(self.name("pick"), 0, n - 1)
        return self.sym.case(i) if self.split else i

    def shuffle(self, seq):
        """Any order; when fixed is given, only the order of so many
        elements is left open, after visiting them in strides."""
        elems = list(seq)
        n = len(elems)
        if self.stride > 1:
            elems = [elems[i * self.stride % n] for i in range(n)]
            for i in range(n):
                seq[i] = elems[i]
        k = n if self.fixed is None else min(n, self.fixed)
        name = self.name("order")
        got = []
        for i in range(k):
            x = self.sym.int("%s.%d" % (name, i), 0, k - 1)
            if self.split:
                x = self.sym.case(x)
            for y in got:
                self.sym.assume(x != y)
            got.append(x)
        for i in range(k):
            seq[i] = elems[got[i]]

    def sample(self, seq, k):
        seq = list(seq)
        self.shuffle(seq)
        return seq[:k]

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return a + self.below(b - a)

    def randint(self, a, b):
        return a + self.below(b - a + 1)

    def install(self):
        self.sym.stub(random.shuffle, self.shuffle)
        self.sym.stub(random.choice, self.choice)
        self.sym.stub(random.sample, self.sample)
        self.sym.stub(random.randrange, self.randrange)
        self.sym.stub(random.randint, self.randint)


def solved_grid(s, w, h):
    n = w * h
    return all([1 <= s[a] <= n for a in fields(n)]) and \
        all([s[a] != s[b] for a in fields(n) for b in peers(w, h, a)
             if a < b])


def created(sym, w, h, fixed=None, split=False):
    """create_solution with the real solver."""
    Dice(sym, fixed, split).install()
    s = gen.create_solution(box_size=(w, h))
    sym.check(isinstance(s, Sudoku), "not a sudoku")
    sym.check(s.box_size == (w, h), "box size")
    sym.check(solved_grid(s, w, h), "not a solution")
    sym.reach("end")


def image(symmetry, n, a):
    """The group of fields a belongs to, by the meaning of the symmetry."""
    todo = [a]
    group = {a}
    while todo:
        r, c = todo.pop()
        if symmetry == 'rotate-90':
            new = [(c, n - 1 - r)]
        elif symmetry == 'rotate-180':
            new = [(n - 1 - r, n - 1 - c)]
        elif symmetry == 'mirror-x':
            new = [(n - 1 - r, c)]
        elif symmetry == 'mirror-y':
            new = [(r, n - 1 - c)]
        elif symmetry == 'mirror-xy':
            new = [(n - 1 - r, c), (r, n - 1 - c)]
        else:
            new = []
        for b in new:
            if b not in group:
                group.add(b)
                todo.append(b)
    return sorted(group)


class Judge(object):
    """Stands for is_unique: any answers that fit to each other."""

    def __init__(self, sym, solution, n, consistent, usual, odd):
        self.consistent = consistent
        self.usual = usual
        self.odd = odd
        self.sym = sym
        self.solution = solution
        self.n = n
        self.asked = []

    def __call__(self, s):
        mask = {}
        for a in fields(self.n):
            mask[a] = s[a] != 0
            self.sym.check(s[a] == 0 or s[a] == self.solution[a[0]][a[1]],
                           "a number differs from the solution")
        if self.usual is None:
            answer = self.sym.bool("unique%d" % len(self.asked))
        elif self.odd == 0:
            answer = self.usual
        else:
            answer = self.sym.fact(
                self.sym.bool("unique%d" % len(self.asked)))
            if answer != self.usual:
                self.odd -= 1
        if self.consistent:
            for old, was in self.asked:
                # with more fields given, a unique sudoku stays unique
                more = all([mask[a] or not old[a] for a in fields(self.n)])
                less = all([old[a] or not mask[a] for a in fields(self.n)])
                self.sym.assume(not (more and was) or answer)
                self.sym.assume(not (less and not was) or not answer)
        self.sym.assume(answer or not all([mask[a] for a in fields(self.n)]))
        self.asked.append((mask, answer))
        return answer


def solution_for(w, h):
    return [list(row) for row in base(w, h)]


def generated(sym, w, h, symmetry, lo=0, hi=None, fixed=None, split=False,
              real=False, stride=1, consistent=True, usual=None, odd=0):
    """generate with any order of the fields and any answers to the
    question whether the sudoku is unique (or the real answers)."""
    n = w * h
    rows = solution_for(w, h)
    dice = Dice(sym, fixed, split, stride)
    dice.install()
    made = []

    def create(box_size=(3, 3)):
        made.append(box_size)
        s = Sudoku(box_size=box_size)
        for r, c in fields(n):
            s[r, c] = rows[r][c]
        return s

    judge = Judge(sym, rows, n, consistent, usual, odd)
    if not real:
        sym.stub(gen.create_solution, create)
        sym.stub(analyze.is_unique, judge)
    hi = n * n + 1 if hi is None else hi
    least = sym.int("min_count", lo, hi)
    if sym.fact(least > n * n):
        try:
            gen.generate(least, symmetry, (w, h))
            sym.fail("too large a number accepted")
        except ValueError:
            sym.reach("refused")
        return
    s = gen.generate(min_count=least, symmetry=symmetry, box_size=(w, h))
    sym.check(s.box_size == (w, h), "box size")
    if not real:
        for b in made:
            sym.check(b == (w, h), "box size of the solution")
    filled = {}
    for a in fields(n):
        filled[a] = s[a] != 0
    count = len([a for a in fields(n) if filled[a]])
    sym.check(count >= least, "fewer fields than requested")
    groups = {}
    for a in fields(n):
        g = image(symmetry, n, a)
        groups[g[0]] = g
    largest = max([len(g) for g in groups.values()])
    for g in groups.values():
        for a in g:
            sym.check(filled[a] == filled[g[0]], "not symmetric")
    if real:
        sym.check(analyze.is_unique(s), "not unique")
    else:
        for a in fields(n):
            sym.check(s[a] == 0 or s[a] == rows[a[0]][a[1]],
                      "not a part of the solution")
        # known to be unique from what has been asked
        sym.check(all([filled[a] for a in fields(n)]) or any(
            [was and all([filled[a] or not old[a] for a in fields(n)])
             for old, was in judge.asked]), "not known to be unique")
    # emptying one more group is impossible
    if sym.fact(count - largest >= least):
        sym.reach("free")
        for g in groups.values():
            if real:
                if sym.fact(filled[g[0]]):
                    t = s.copy()
                    for a in g:
                        t[a] = 0
                    sym.check(not analyze.is_unique(t),
                              "another group could be emptied")
            else:
                sym.check(not filled[g[0]] or any(
                    [not was and all([(old[a] or not filled[a] or a in g)
                                      for a in fields(n)])
                     for old, was in judge.asked]),
                    "a group was never tried")
    else:
        sym.reach("limited")
    sym.reach("end")


def strange(sym, w, h, names):
    """Symmetries that do not exist."""
    name = sym.choice("symmetry", names)
    least = sym.int("min_count", 0, 3)
    Dice(sym).install()
    try:
        gen.generate(least, name, (w, h))
        sym.fail("unknown symmetry accepted")
    except ValueError:
        sym.reach("end")


def template(sym, w, h, lo, hi, must=3):
    """generate_from_template with any solutions and any answers."""
    n = w * h
    t = any_grid(sym, w, h, "t")
    any_candidates(sym, t)
    nums, cands = numbers_of(t), candidates_of(t)
    tries = sym.int("tries", lo, hi)
    made, asked = [], []

    def create(box_size=(3, 3)):
        sym.check(tuple(box_size) == (w, h), "box size of the solution")
        s = Sudoku(box_size=box_size)
        k = len(made)
        rows = [[sym.int("s%d.%d.%d" % (k, r, c), 1, n) for c in range(n)]
                for r in range(n)]
        for r, c in fields(n):
            s[r, c] = rows[r][c]
        made.append(rows)
        return s

    def unique(s):
        rows = made[-1]
        sym.check(all([s[a] == (rows[a[0]][a[1]] if nums[a[0]][a[1]] else 0)
                       for a in fields(n)]), "asked about another sudoku")
        answer = sym.bool("unique%d" % len(asked))
        if len(asked) + 1 >= must and tries < 0:
            sym.assume(answer)
        asked.append(answer)
        return answer

    sym.stub(gen.create_solution, create)
    sym.stub(analyze.is_unique, unique)
    try:
        s = gen.generate_from_template(t, tries)
    except RuntimeError:
        sym.check(tries >= 0 and len(asked) == tries and len(made) == tries,
                  "another number of tries")
        sym.check(not any(asked), "gave up in spite of a result")
        sym.reach("failed")
    else:
        sym.check(len(asked) > 0 and asked[-1] and not any(asked[:-1]),
                  "not the first unique one")
        sym.check(tries < 0 or len(made) <= tries, "too many tries")
        sym.check(s.box_size == (w, h), "box size")
        rows = made[-1]
        sym.check(all([s[a] == (rows[a[0]][a[1]] if nums[a[0]][a[1]] else 0)
                       for a in fields(n)]), "another sudoku")
        sym.reach("made")
    sym.check(same_numbers(t, nums) and same_candidates(t, cands),
              "template changed")
    sym.reach("end")


def template_real(sym, w, h, tries, fixed=None):
    """generate_from_template with the real solver."""
    n = w * h
    t = any_grid(sym, w, h, "t")
    nums = numbers_of(t)
    Dice(sym, fixed).install()
    try:
        s = gen.generate_from_template(t, tries)
    except RuntimeError:
        sym.reach("failed")
    else:
        sym.check(all([(s[a] == 0) == (nums[a[0]][a[1]] == 0)
                       for a in fields(n)]), "another pattern")
        sym.check(analyze.is_unique(s), "not unique")
        sym.reach("made")
    sym.check(same_numbers(t, nums), "template changed")
    sym.reach("end")
