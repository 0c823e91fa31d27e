"""The game shell: moves, undo, redo, hints and reports."""
from sudokutools import shell as sh
from sudokutools import analyze, solvers
from sudokutools.shell import GameShell
from sudokutools.notation import decode_action
from sudokutools.generate import generate
from sudokutools.sudoku import Sudoku
from harness.grids import numbers_of, candidates_of, same_numbers, \
    same_candidates
from oracle.geo import fields, peers, base


def start(sym, w, h, filled):
    """A sudoku with one of the base solution's numbers in some fields."""
    s = Sudoku(box_size=(w, h))
    for a in filled:
        s[a] = base(w, h)[a[0]][a[1]]
    return s


def settled(w, h, s, remove, fill):
    """What the automatic changes lead to."""
    again = True
    while again:
        again = False
        for a in fields(w * h):
            if remove and s[a] != 0:
                for b in peers(w, h, a):
                    if s[a] in s.get_candidates(b[0], b[1]):
                        s.remove_candidates(b[0], b[1], {s[a]})
                        again = True
        for a in fields(w * h):
            if fill and s[a] == 0:
                c = s.get_candidates(a[0], a[1])
                if len(c) == 1:
                    s[a] = max(c)
                    again = True


def all_candidates(w, h, s):
    for a in fields(w * h):
        if s[a] == 0:
            s.set_candidates(a[0], a[1], set(range(1, w * h + 1)) - {
                s[b] for b in peers(w, h, a)})
        else:
            s.set_candidates(a[0], a[1], {s[a]})


def given_only(w, h, s):
    for a in fields(w * h):
        if s[a] != 0:
            s.set_candidates(a[0], a[1], {s[a]})


def state(s):
    return numbers_of(s), candidates_of(s)


def play(sym, w, h, n, menu, filled, first=(), remove=True, fill=False,
         auto=True):
    """After every line the current state is the one the history of moves,
    undos and redos says; nothing else is ever changed or lost."""
    given = start(sym, w, h, filled)
    lines = list(first)
    for i in range(n):
        lines.append(sym.case(sym.choice("line%d" % i, menu)))
    game = GameShell()
    game.settings["autoremove"] = remove
    game.settings["autoset"] = fill
    game.settings["autocandidates"] = auto
    asked = []
    seen = []

    def generated(*args, **kwargs):
        return given.copy(include_candidates=True)

    def rated(s):
        return 1

    def answer(prompt=""):
        seen.append(state(game.sudokus[game.index]))
        if len(asked) == len(lines):
            raise EOFError()
        asked.append(1)
        return lines[len(asked) - 1]

    sym.stub(generate, generated)
    sym.stub(analyze.rate, rated)
    sym.stub(input, answer)
    try:
        game.run()
        sym.fail("left by itself")
    except EOFError:
        pass
    now = given.copy(include_candidates=True)
    if auto:
        all_candidates(w, h, now)
        settled(w, h, now, remove, fill)
    else:
        given_only(w, h, now)
    past = [now]
    at = 0
    nothing = 0
    expected = [state(now)]
    for line in lines:
        if line.strip() == "undo":
            if at > 0:
                at -= 1
        elif line.strip() == "redo":
            if at + 1 < len(past):
                at += 1
        else:
            new = past[at].copy(include_candidates=True)
            if line == "candidates":
                all_candidates(w, h, new)
            elif "=" in line or "<>" in line or line[:1] == "-":
                try:
                    decode_action(line, w, h)(new)
                    settled(w, h, new, remove, fill)
                except ValueError:
                    pass
            if state(new) != state(past[at]):
                past = past[:at + 1] + [new]
                at += 1
        expected.append(state(past[at]))
    sym.check(len(seen) == len(expected), "lines were skipped")
    for i in range(len(expected)):
        sym.check(seen[i][0] == expected[i][0], "another sudoku")
        sym.check(seen[i][1] == expected[i][1], "other candidates")
    sym.reach("end")


def moves(sym, w, h, shape, filled, remove=True, fill=False):
    """Any moves at all (shape: m for a move, u, r for undo, redo)."""
    n = w * h
    given = start(sym, w, h, filled)
    game = GameShell()
    game.settings["autoremove"] = remove
    game.settings["autoset"] = fill
    asked, seen, made = [], [], []

    def generated(*args, **kwargs):
        return given.copy(include_candidates=True)

    def rated(s):
        return 1

    def answer(prompt=""):
        seen.append(state(game.sudokus[game.index]))
        k = len(asked)
        if k == len(shape):
            raise EOFError()
        asked.append(1)
        return {"m": "r1c1=1", "u": "undo", "r": "redo"}[shape[k]]

    def decoded(s, width=3, height=3):
        k = len(made)
        r = sym.int("row%d" % k, 0, n - 1)
        c = sym.int("col%d" % k, 0, n - 1)
        v = sym.int("value%d" % k, 1, n)
        kind = sym.bool("set%d" % k)

        def action(s):
            if kind:
                s.set_number(r, c, v)
                s.set_candidates(r, c, {v})
            else:
                s.remove_candidates(r, c, {v})
        made.append(action)
        return action

    sym.stub(generate, generated)
    sym.stub(analyze.rate, rated)
    sym.stub(input, answer)
    sym.stub(decode_action, decoded)
    try:
        game.run()
        sym.fail("left by itself")
    except EOFError:
        pass
    now = given.copy(include_candidates=True)
    all_candidates(w, h, now)
    settled(w, h, now, remove, fill)
    past = [now]
    at = 0
    k = 0
    expected = [state(now)]
    for x in shape:
        if x == "u":
            at = max(at - 1, 0)
        elif x == "r":
            at = min(at + 1, len(past) - 1)
        else:
            new = past[at].copy(include_candidates=True)
            made[k](new)
            k += 1
            settled(w, h, new, remove, fill)
            if sym.fact(state(new) != state(past[at])):
                past = past[:at + 1] + [new]
                at += 1
        expected.append(state(past[at]))
    for i in range(len(expected)):
        sym.check(seen[i][0] == expected[i][0], "another sudoku")
        sym.check(seen[i][1] == expected[i][1], "other candidates")
    sym.reach("end")


def reports(sym, w, h, n, menu, filled, first=()):
    """What hint, check, conflicts and settings print fits to the current
    state."""
    given = start(sym, w, h, filled)
    lines = list(first)
    for i in range(n):
        lines.append(sym.case(sym.choice("line%d" % i, menu)))
    game = GameShell()
    asked, seen, chunks = [], [], []

    def generated(*args, **kwargs):
        return given.copy(include_candidates=True)

    def rated(s):
        return 1

    def answer(prompt=""):
        chunks.append(sym.output())
        sym.clear_output()
        seen.append(game.sudokus[game.index].copy(include_candidates=True))
        if len(asked) == len(lines):
            raise EOFError()
        asked.append(1)
        return lines[len(asked) - 1]

    sym.stub(generate, generated)
    sym.stub(analyze.rate, rated)
    sym.stub(input, answer)
    try:
        game.run()
        sym.fail("left by itself")
    except EOFError:
        pass
    hinted = None
    told = 0
    for i in range(len(lines)):
        s, text = seen[i], chunks[i + 1]
        line = lines[i]
        marks = len(text.split("[F]")) - 1
        if line == "hint":
            if hinted is None or state(hinted) != state(s):
                hinted = s
                told = 0
            known = [str(x) for x in solvers.hints(hinted)]
            if told < len(known):
                sym.check(text.startswith(known[told] + "\n"),
                          "another hint")
                told += 1
            else:
                sym.check(text.startswith("No more hints available.\n"),
                          "a hint too many")
                sym.reach("no hints")
            sym.reach("hint")
        elif line == "check":
            wrong = 0
            for a in fields(w * h):
                if s[a] != 0 and s[a] != game.solution[a]:
                    wrong += 1
            sym.check(marks == wrong, "number of wrong fields")
            sym.reach("wrong" if wrong else "right")
        elif line == "conflicts":
            found = 0
            for a in fields(w * h):
                for b in peers(w, h, a):
                    if a < b and s[a] != 0 and s[a] == s[b]:
                        found += 1
            sym.check(marks == found, "number of conflicts")
        elif line == "settings":
            for key in game.settings:
                sym.check(key in text, "setting not listed")
        elif line == "undo":
            none = "Nothing to undo." in text
            sym.check(none or state(seen[i + 1]) != state(s), "not undone")
        elif line == "redo":
            none = "Nothing to redo." in text
            sym.check(none or state(seen[i + 1]) != state(s), "not redone")
        elif line == "nonsense":
            sym.check("nonsense" in text, "no message")
    sym.reach("end")
