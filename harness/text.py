"""Sudokus as strings: encoding, decoding, printing."""
from sudokutools.sudoku import Sudoku, view
from harness.grids import any_grid, any_candidates, asked, numbers_of, \
    candidates_of, same_numbers, same_candidates
from oracle.geo import fields, base


def round_trip(sym, w, h, cands=False, sep=None, row_sep="", auto=False,
               back=None, again=False):
    """decode() of encode() gives the sudoku back."""
    s = any_grid(sym, w, h)
    kw = {}
    if cands:
        any_candidates(sym, s)
    nums = numbers_of(s)
    c = candidates_of(s)
    asked(again, s, lambda t: [t.encode(), t.encode(
        row_sep=row_sep, col_sep=sep or "", include_candidates=True)])
    text = s.encode(row_sep=row_sep, col_sep=sep or "",
                    include_candidates=cands)
    if back is not None:
        kw['number_sep'] = back
    if not auto:
        kw['box_size'] = (w, h)
    t = Sudoku.decode(text, **kw)
    sym.check(t.box_size == (w, h), "box size")
    sym.check(same_numbers(t, nums), "numbers")
    sym.check(same_candidates(t, c), "candidates")
    sym.check(same_numbers(s, nums) and same_candidates(s, c),
              "encoding changed the sudoku")
    sym.check(t == s, "not equal to the original")
    sym.reach("end")


SPACES = ["", " ", "\n", "\t", "\r", "\x0b", "\x0c", " \n"]


def spaces(sym, w, h, where, cands=False, empty="0"):
    """Whitespace anywhere in the text is ignored."""
    n = w * h
    s = any_grid(sym, w, h)
    text = ""
    for r, c in fields(n):
        if r * n + c in where:
            text += sym.choice("gap%d.%d" % (r, c), SPACES)
        text += empty if s[r, c] == 0 else str(s[r, c])
    if cands:
        any_candidates(sym, s)
        text += sym.choice("gap|", SPACES) + "|"
        for r, c in fields(n):
            if (r, c) != (0, 0):
                text += ","
            for k in range(1, n + 1):
                if k in s.get_candidates(r, c):
                    if k % 2 and c % 2:
                        text += sym.choice("gap%d.%d.%d" % (r, c, k), SPACES)
                    text += str(k)
            if r == c:
                text += sym.choice("gapend%d" % r, SPACES)
    text += sym.choice("tail", SPACES)
    t = Sudoku.decode(text, empty=empty, box_size=(w, h))
    sym.check(same_numbers(t, numbers_of(s)), "numbers")
    sym.check(same_candidates(t, candidates_of(s)), "candidates")
    sym.reach("end")


def any_text(sym, chars, lo, hi, size=None, empty="0"):
    """Any text: accepted exactly if all characters are digits or the empty
    character and their number fits, with the right numbers."""
    cs = [sym.choice("char%d" % i, chars) for i in range(hi)]
    n = sym.int("length", lo, hi)
    text = "".join([cs[i] for i in range(hi) if i < n])
    body = [i for i in range(hi) if i < n and cs[i] not in " \n\t"]
    ok = [cs[i] == empty or cs[i] in "0123456789" for i in body]
    # what follows the last field is ignored
    good = all(ok[:(size[0] * size[1]) ** 2] if size else ok)
    m = len(body)
    try:
        s = Sudoku.decode(text, empty=empty, box_size=size)
    except ValueError:
        s = None
    if size:
        k = size[0] * size[1]
        fits = True
    else:
        fits = m in (0, 1, 16, 36, 64, 81)
        k = {0: 0, 1: 1, 16: 4, 36: 6, 64: 8, 81: 9}.get(m)
    if s is None:
        sym.check(not (good and fits), "refused")
        sym.reach("refused")
    else:
        sym.check(good, "not a number")
        sym.check(fits, "number of fields")
        sym.check(s.box_size[0] * s.box_size[1] == k, "box size")
        if k == 4:
            sym.check(s.box_size == (2, 2), "square boxes")
        for i in range(k * k):
            v = s[i // k, i % k]
            if i < m:
                x = cs[body[i]]
                sym.check(v == (0 if x == empty else int(x)), "number")
            else:
                sym.check(v == 0, "missing number")
        sym.reach("accepted")


def printed(sym, w, h, cands=True, prefix='*', sep=None, right=True,
            few=(), via=None, vals=None, again=False):
    """Every number and candidate is shown in its place and nothing else."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    for a in fields(n):
        if not few or a in few:
            s[a] = sym.int("n%d.%d" % a, 0, n)
        elif (a[0] + a[1]) % 3:
            s[a] = base(w, h)[a[0]][a[1]]
    if cands:
        for a in fields(n):
            if not few or a in few:
                s.set_candidates(a[0], a[1], sym.subset(
                    "c%d.%d" % a, vals or range(1, n + 1)))
    nums = numbers_of(s)
    c = candidates_of(s)
    digits = len(str(n))
    asked(again, s, lambda t: [view(t), view(t, include_candidates=False)])
    if sep is None:
        sep = "," if n > 9 else ""
    if via == 'str':
        text = str(s)
    elif via == 'default':
        text = view(s)
    else:
        text = view(s, include_candidates=cands, candidate_prefix=prefix,
                    align_right=right, number_sep=sep if via else None)
    sym.check(same_numbers(s, nums) and same_candidates(s, c),
              "printing changed the sudoku")
    lines = text.split("\n")
    size = sym.case(len(lines[0]))
    for line in lines:
        sym.check(len(line) == size, "lines of different width")
    # width of a field: the rest are blanks and bars between them
    m = (size - (n - 1) - 2 * (h - 1)) // n
    sym.check(size == n * m + (n - 1) + 2 * (h - 1), "width of the lines")
    sym.check(m >= digits, "too narrow")
    sym.check(len(lines) == n + w - 1, "number of lines")
    full = False
    for a in fields(n):
        r, k = a
        line = lines[r + r // h]
        at = k * (m + 1) + 2 * (k // w)
        shown = line[at:at + m]
        if k == n - 1:
            sym.check(len(line) == at + m, "text behind the last field")
        elif k % w == w - 1:
            sym.check(line[at + m:at + m + 3] == " | ", "bar")
        else:
            sym.check(line[at + m] == " ", "blank between fields")
        want = ""
        if cands:
            shown_c = ""
            for x in vals or range(1, n + 1):
                if x in c[r][k]:
                    if shown_c and sep:
                        shown_c += sep
                    shown_c += str(x)
            want = prefix + shown_c
            full = full or len(want) == m
        for x in range(1, n + 1):
            if nums[r][k] == x:
                want = str(x)
        got = shown.strip(" ")
        sym.check(got == want, "content of a field")
        if right:
            sym.check(got == "" or shown[m - 1] != " ", "alignment")
        else:
            sym.check(got == "" or shown[0] != " ", "alignment")
    sym.check(full or m == digits, "wider than needed")
    for i in range(w - 1):
        rule = lines[(i + 1) * (h + 1) - 1]
        for k in range(size):
            bar = h > 1 and k % (w * (m + 1) + 2) == w * (m + 1) and \
                k // (w * (m + 1) + 2) < h - 1
            sym.check(rule[k] == ("+" if bar else "-"), "rule")
    sym.reach("end")


def listed(sym, w, h, nsep, ssep, csep, empty, gap="", few=(), vals=None):
    """A text built by hand with its own separators is read as meant."""
    n = w * h
    s = Sudoku(box_size=(w, h))
    nums, cands = [], []
    for a in fields(n):
        if not few or a in few:
            s[a] = sym.int("n%d.%d" % a, 0, n)
        elif (a[0] + a[1]) % 3:
            s[a] = base(w, h)[a[0]][a[1]]
        nums.append(empty if s[a] == 0 else str(s[a]))
        if not few or a in few:
            s.set_candidates(a[0], a[1], sym.subset(
                "c%d.%d" % a, vals or range(1, n + 1)))
        elif a[1] % 2:
            s.set_candidates(a[0], a[1], (1, n))
        t = ""
        for x in range(1, n + 1):
            if x in s.get_candidates(a[0], a[1]):
                if t != "":
                    t += nsep or ""
                t += str(x)
        cands.append(t)
    text = (nsep or "").join(nums) + gap + ssep + gap + csep.join(cands)
    t = Sudoku.decode(text, empty=empty, number_sep=nsep, sudoku_sep=ssep,
                      candidate_sep=csep, box_size=(w, h))
    sym.check(same_numbers(t, numbers_of(s)), "numbers")
    sym.check(same_candidates(t, candidates_of(s)), "candidates")
    sym.reach("end")


def numbers_text(sym, w, h, nsep, toks, auto=False):
    """Any text of numbers between separators: accepted exactly if all are
    numbers."""
    n = w * h
    parts = [sym.choice("tok%d" % i, toks) for i in range(n * n)]
    text = sym.choice("head", SPACES) + nsep.join(parts) + \
        sym.choice("tail", SPACES)
    good = all([p != "" and p != "x" for p in parts])
    try:
        if auto:
            s = Sudoku.decode(text, number_sep=nsep)
        else:
            s = Sudoku.decode(text, number_sep=nsep, box_size=(w, h))
    except ValueError:
        sym.check(not good, "refused")
        sym.reach("refused")
        return
    sym.check(good, "no number")
    sym.check(s.box_size == (w, h), "box size")
    for i in range(n * n):
        for t in toks:
            if t.isdigit() and parts[i] == t:
                sym.check(s[i // n, i % n] == int(t), "number")
    sym.reach("accepted")


def row_lengths(sym, top):
    """The box size found for any number of fields."""
    n = sym.case(sym.int("fields", 0, top))
    d = sym.choice("digit", "0123456789")
    k = [i for i in range(top) if i * i == n]
    try:
        s = Sudoku.decode(d * n)
    except ValueError:
        sym.check(not k or all([k[0] % i for i in range(2, k[0])]) and
                  k[0] > 1, "refused")
        sym.reach("refused")
        return
    sym.check(len(k) == 1, "not a square")
    w, h = s.box_size
    sym.check(w * h == k[0], "box size")
    for i in range(1, top):
        if i * i == k[0]:
            sym.check((w, h) == (i, i), "square box")
    sym.check(k[0] < 2 or w > 1 and h > 1, "box of a single row")
    sym.check(all([s[a] == int(d) for a in fields(k[0])]), "numbers")
    sym.reach("accepted")
