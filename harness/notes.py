"""Coordinates and actions as text."""
from sudokutools.notation import encode, decode, encode_action, decode_action
from sudokutools.actions import SetNumber, RemoveCandidates
from harness.grids import any_grid, any_candidates, numbers_of, \
    candidates_of, same_numbers, same_candidates
from oracle.geo import fields, base


def round_trip(sym, w, h, among=None, boxes=None, sep=",", nsep="",
               order=False, again=False):
    """decode() of encode() gives the fields back."""
    n = w * h
    among = fields(n) if among is None else among
    picked = [a for a in sorted(among) if sym.bool("field %d,%d" % a)]
    sym.assume(len(picked) > 0)
    if again:
        # the same fields in a sudoku with boxes of another shape
        for b in None, True, False:
            decode(encode(picked, h, w, b, sep, nsep), h, w, sep, nsep)
    text = encode(picked, w, h, boxes, sep, nsep)
    got = decode(text, w, h, sep, nsep)
    sym.check(got == tuple(picked), "other fields")
    if order:
        again = encode(picked[::-1], w, h, boxes, sep, nsep)
        sym.check(again == text, "depends on the order")
    sym.reach("end")


def orders(sym, w, h, among, boxes=None, nsep=""):
    """Fields in another order, or given twice, have the same notation."""
    picked = [a for a in sorted(among) if sym.bool("field %d,%d" % a)]
    text = encode(picked, w, h, boxes, ",", nsep)
    again = picked[::-1]
    if sym.bool("twice"):
        again += picked
    sym.check(encode(again, w, h, boxes, ",", nsep) == text,
              "depends on the order")
    sym.check(encode(set(picked), w, h, boxes, ",", nsep) == text,
              "depends on the order")
    sym.reach("end")


def single(sym, w, h, boxes, nsep=""):
    """The documented names of a field, at every place."""
    n = w * h
    r, c = sym.case(sym.int("row", -2, n + 1)), sym.int("col", -2, n + 1)
    inside = 0 <= r < n and 0 <= c < n
    try:
        text = encode([(r, c)], w, h, boxes, ",", nsep)
    except ValueError:
        sym.check(not inside, "field refused")
        text = None
    if text is not None:
        sym.check(inside, "field outside the sudoku accepted")
        b = r // h * h + c // w
        p = r % h * w + c % w
        x = "r" + str(r + 1) + "c" + str(c + 1)
        y = "b" + str(b + 1) + "p" + str(p + 1)
        if boxes is None:
            sym.check(text == (y if len(y) < len(x) else x), "text")
        else:
            sym.check(text == (y if boxes else x), "text")
    sym.reach("end")


def sizes(sym, nums):
    """Sizes that are no positive integers are refused."""
    w, h = sym.choice("width", nums), sym.choice("height", nums)
    good = w >= 1 and h >= 1 and w == w // 1 and h == h // 1
    try:
        encode([(0, 0)], w, h)
        sym.check(good, "size accepted by encode")
    except ValueError:
        sym.check(not good, "size refused by encode")
    try:
        decode("r1c1", w, h)
        sym.check(good, "size accepted by decode")
    except ValueError:
        sym.check(not good, "size refused by decode")
    sym.reach("end")


GAPS = ["", " ", "\t", "\n", "\r", "\x0b", "\x0c", "  \n"]
LETTERS = "rcbp"


def place(letter, r, c, w, h):
    """Number of a field within its row, column, box or part, from 1."""
    if letter == "r":
        return r + 1
    if letter == "c":
        return c + 1
    if letter == "b":
        return r // h * h + c // w + 1
    return r % h * w + c % w + 1


def meaning(sym, w, h, groups, gaps=(), sep=",", nsep="", top=None):
    """A well-formed text names the fields in all parts of a group."""
    n = w * h
    join = nsep or ("," if n > 9 else "")
    text = ""
    wanted = []
    k = 0
    for i in range(len(groups)):
        if i:
            text += sep
        parts = []
        for letter, count in groups[i]:
            numbers = [sym.int("number%d.%s.%d" % (i, letter, j), 1,
                               top or n) for j in range(count)]
            if k in gaps:
                text += sym.choice("gap%d" % k, GAPS)
            text += letter
            for j in range(count):
                k += 1
                if k in gaps:
                    text += sym.choice("gap%d" % k, GAPS)
                if j:
                    text += join
                text += str(numbers[j])
            k += 1
            parts.append((letter, numbers))
        wanted.append(parts)
    if k in gaps:
        text += sym.choice("gap%d" % k, GAPS)
    good = all([x <= n for parts in wanted for _, ns in parts for x in ns])
    try:
        got = decode(text, w, h, sep, nsep)
        sym.check(good, "number outside the sudoku accepted")
    except ValueError:
        sym.check(not good, "refused")
        got = None
    if got is not None:
        sym.check(got == tuple([
            (r, c) for r, c in fields(n)
            if any([all([place(l, r, c, w, h) in ns for l, ns in parts])
                    for parts in wanted])]), "other fields")
    sym.reach("end")


def any_text(sym, w, h, chars, length, nsep=""):
    """Any text at all is either well-formed or refused with ValueError."""
    n = w * h
    cs = [sym.choice("char%d" % i, chars) for i in range(length)]
    size = sym.int("length", 0, length)
    text = "".join([cs[i] for i in range(length) if i < size])
    # group ::= (letter number+)+ with different letters
    good = True
    last = "start"                     # start, letter, number, comma
    used = ""
    for i in range(length):
        if i < size:
            ch = cs[i]
            if ch in " \t\n":
                pass
            elif ch in LETTERS:
                if last == "letter":
                    good = False
                if last == "comma":
                    used = ""
                if ch in used:
                    good = False
                used += ch
                last = "letter"
            elif ch in "0123456789":
                if last == "start" or last == "comma":
                    good = False
                if not 1 <= int(ch) <= n:
                    good = False
                last = "number"
            elif ch == ",":
                if last != "number":
                    good = False
                last = "comma"
            else:
                good = False
    if last != "number":
        good = False
    try:
        got = decode(text, w, h, ",", nsep)
        sym.check(good, "malformed text accepted")
        sym.check(got == tuple(sorted(set(got))), "order")
        sym.reach("accepted")
    except ValueError:
        sym.check(not good, "well-formed text refused")
        sym.reach("refused")
    sym.reach("end")


def action_trip(sym, w, h, among, kind):
    """Actions survive being written and read."""
    n = w * h
    picked = [a for a in sorted(among) if sym.bool("field %d,%d" % a)]
    sym.assume(len(picked) > 0)
    if kind == "set":
        k = sym.int("number", 1, n)
        got = decode_action(encode_action(SetNumber(picked, k), w, h), w, h)
        sym.check(isinstance(got, SetNumber), "another kind of action")
        sym.check(got.number == k, "another number")
    else:
        cs = sym.subset("candidates", range(1, n + 1))
        got = decode_action(encode_action(RemoveCandidates(picked, cs), w, h),
                            w, h)
        sym.check(isinstance(got, RemoveCandidates),
                  "another kind of action")
        sym.check(set(got.candidates) == cs, "other candidates")
    sym.check(set(got.coordinates) == set(picked), "other fields")
    sym.reach("end")


def action_text(sym, w, h, form, letters, gaps=True):
    """The text of an action is read as written."""
    n = w * h
    where = ""
    parts = []
    for l in letters:
        x = sym.int("number " + l, 1, n)
        parts.append((l, x))
        where += l + str(x)
    ds = [sym.int("digit%d" % i, 0, 9)
          for i in range(1 if form == "=" else 3)]
    count = sym.int("digits", 0, len(ds))
    what = "".join([str(ds[i]) for i in range(len(ds)) if i < count])
    gap = [sym.choice("gap%d" % i, ["", " ", "\t"]) if gaps else ""
           for i in range(4)]
    if form == "-":
        text = gap[0] + "-" + what + " " + gap[1] + where + gap[2]
    else:
        text = gap[0] + where + gap[1] + form + what + gap[2]
    try:
        got = decode_action(text, w, h)
    except ValueError:
        got = None
    if got is None:
        sym.check(form == "=" and count == 0, "refused")
    else:
        if form == "=":
            sym.check(isinstance(got, SetNumber) and got.number == ds[0],
                      "number")
        else:
            sym.check(isinstance(got, RemoveCandidates) and set(
                got.candidates) == set([ds[i] for i in range(len(ds))
                                        if i < count]), "candidates")
        sym.check(got.coordinates == tuple([
            (r, c) for r, c in fields(n)
            if all([place(l, r, c, w, h) == x for l, x in parts])]),
            "fields")
    sym.reach("end")


def bad_action(sym, w, h, chars, length):
    """Texts that are no actions are refused with ValueError."""
    cs = [sym.choice("char%d" % i, chars) for i in range(length)]
    size = sym.int("length", 0, length)
    text = "".join([cs[i] for i in range(length) if i < size])
    try:
        got = decode_action(text, w, h)
        sym.check("=" in text or "<>" in text or "-" in text,
                  "no action accepted")
        sym.check(("r" in text or "c" in text) and "1" in text,
                  "no field accepted")
        sym.check(isinstance(got, SetNumber) or
                  isinstance(got, RemoveCandidates), "no action")
        sym.reach("accepted")
    except ValueError:
        sym.reach("refused")
    sym.reach("end")


def applied(sym, w, h, kind):
    """An action changes the named fields in the named way only."""
    n = w * h
    s = any_grid(sym, w, h)
    any_candidates(sym, s)
    nums, cands = numbers_of(s), candidates_of(s)
    picked = [a for a in fields(n) if sym.bool("field %d,%d" % a)]
    k = sym.int("number", 1, n)
    cs = sym.subset("candidates", range(1, n + 1))
    if kind == "set":
        SetNumber(picked, k)(s)
    else:
        RemoveCandidates(picked, cs)(s)
    for r, c in fields(n):
        hit = (r, c) in picked
        if kind == "set":
            sym.check(s[r, c] == (k if hit else nums[r][c]), "number")
            sym.check(s.get_candidates(r, c) ==
                      ({k} if hit else cands[r][c]), "candidates")
        else:
            sym.check(s[r, c] == nums[r][c], "number")
            sym.check(s.get_candidates(r, c) ==
                      (cands[r][c] - cs if hit else cands[r][c]),
                      "candidates")
    sym.reach("end")
