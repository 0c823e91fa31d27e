"""The command shell: lines, commands, loops, stack, arguments."""
import sys
from ast import literal_eval
from sudokutools import shell as sh
from sudokutools.shell import Shell, Command, Keyword
from sudokutools.sudoku import Sudoku


class Input(object):
    def __init__(self, lines):
        self.lines = list(lines)
        self.taken = 0

    def readline(self):
        if self.taken == len(self.lines):
            return ""
        self.taken += 1
        return self.lines[self.taken - 1]

    def isatty(self):
        return False


class Output(object):
    def __init__(self):
        self.text = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("not a string")
        self.text.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def new_shell(sym, lines=(), interactive=False):
    out = Output()
    shell = Shell(interactive=interactive, infile=Input(lines), outfile=out)
    return shell, out


def letters(sym, name, n, alphabet):
    """A text of n letters."""
    text = ""
    for i in range(n):
        text += sym.choice("%s.%d" % (name, i), alphabet)
    return text


def reading(sym, lengths, alphabet, interactive, leave=False):
    """run() hands over the lines in order, without comments, surrounding
    spaces and wraps; empty ones are left out."""
    lines = []
    for i in range(len(lengths)):
        lines.append(letters(sym, "line%d" % i, lengths[i], alphabet) + "\n")
    shell, out = new_shell(sym, lines, interactive)
    got = []
    stop = [sym.bool("leave%d" % i) for i in range(len(lengths))]

    def execute_line(self, line):
        got.append(line)
        if leave and stop[len(got) - 1]:
            self.running = False

    sym.stub(Shell.execute_line, execute_line)
    shell.run()
    expected = []
    pending = ""
    running = True
    for line in lines:
        if running:
            text = ""
            for x in line[:-1]:
                if x == "#":
                    break
                text += x
            while text[:1] == " ":
                text = text[1:]
            while text[-1:] == " ":
                text = text[:-1]
            if text[-1:] == "\\":
                pending += text[:-1]
            else:
                pending += text
                if pending != "":
                    expected.append(pending)
                    if leave and stop[len(expected) - 1]:
                        running = False
                pending = ""
    sym.check([x.strip() for x in got] == [x.strip() for x in expected],
              "other lines were run")
    if leave and not running:
        sym.reach("left")
    else:
        sym.check(shell.infile.taken == len(lines), "lines not read")
    if not interactive:
        sym.check("".join(out.text) == "", "prompt in a script")
    sym.reach("end")


def splitting(sym, n, alphabet):
    """execute_line() runs the parts between semicolons in order; a part
    that cannot be run does not keep the others from being run."""
    line = letters(sym, "line", n, alphabet)
    shell, out = new_shell(sym, [], True)
    seen, ran, errors = [], [], []

    def parse(s):
        s = s.strip()
        seen.append(s)
        if "k" in s:
            raise KeyError("unknown")
        if "v" in s:
            raise ValueError("malformed")

        def command():
            ran.append(s)
            if "f" in s:
                raise IndexError("failed")
        return command, [], [], {}

    def error(self, s):
        errors.append(s)

    sym.stub(sh.parse, parse)
    sym.stub(Shell.error, error)
    shell.execute_line(line)
    expected = []
    part = ""
    for x in line + ";":
        if x == ";":
            while part[:1] == " ":
                part = part[1:]
            while part[-1:] == " ":
                part = part[:-1]
            expected.append(part)
            part = ""
        else:
            part += x
    sym.check(seen == expected, "other commands")
    sym.check(ran == [p for p in expected if "k" not in p and "v" not in p],
              "other commands were run")
    sym.check(len(errors) == len([p for p in expected if "k" in p or
                                  "v" in p or "f" in p]),
              "errors not reported")
    sym.reach("end")


class Model(object):
    """What a sequence of commands does to a shell with 2x2 sudokus."""

    def __init__(self):
        self.cur = (0, 0, 0, 0)
        self.stack = []
        self.count = 0
        self.body = []
        self.running = True
        self.out = []
        self.errors = 0

    def line(self, s):
        for part in s.split("; "):
            if part == "bogus" or part == "get x":
                self.errors += 1
            elif part == "exit":
                self.running = False
            elif self.count and not part.startswith("loop"):
                self.body.append(part)
            else:
                self.do(part)

    def do(self, s):
        words = s.split(" ")
        if words[0] == "loop":
            if words[1] == "end":
                if not self.count:
                    self.errors += 1
                else:
                    for i in range(self.count):
                        for c in self.body:
                            self.do(c)
                    self.count = 0
                    self.body = []
            elif int(words[1]) <= 0 or self.count:
                self.errors += 1
            else:
                self.count = int(words[1])
        elif words[0] == "push":
            if len(words) > 1:
                self.errors += 1
            else:
                self.stack.append(self.cur)
        elif words[0] == "pop":
            i = int(words[1]) if len(words) > 1 else len(self.stack) - 1
            if 0 <= i < len(self.stack):
                self.cur = self.stack[i]
                del self.stack[i]
            else:
                self.errors += 1
        elif words[0] == "stack":
            self.out.append("stack has %d sudokus\n" % len(self.stack))
        elif words[0] == "new":
            self.cur = (0, 0, 0, 0)
        elif words[0] == "encode":
            self.out.append("".join([str(x) for x in self.cur]) + "\n")
        elif words[0] == "solve":
            i = 0
            for a in (1, 2), (2, 1):
                x = (a[0], a[1], a[1], a[0])
                if all([self.cur[k] in (0, x[k]) for k in range(4)]):
                    i += 1
                    if i == 1:
                        best = x
            if i == 0:
                self.errors += 1
            else:
                self.cur = best
        else:
            k = 2 * int(words[1]) + int(words[2])
            if int(words[1]) > 1 or int(words[2]) > 1:
                self.errors += 1
            elif words[0] == "set":
                self.cur = self.cur[:k] + (int(words[3]),) + self.cur[k + 1:]
            else:
                self.out.append("%d\n" % self.cur[k])


def numbers(s):
    return tuple([s[r, c] for r in (0, 1) for c in (0, 1)])


def session(sym, n, menu, first=(), interactive=True, run=False):
    """Sequences of n lines behave as the model says."""
    lines = list(first)
    for i in range(n):
        lines.append(sym.case(sym.choice("line%d" % i, menu)))
    shell, out = new_shell(sym, [x + "\n" for x in lines], interactive)
    shell.sudoku = Sudoku(box_size=(2, 1))
    model = Model()
    sys_err = sys.stderr
    err = Output()
    sys.stderr = err
    left = False
    try:
        if run:
            shell.run()
        else:
            for x in lines:
                shell.execute_line(x)
    except SystemExit as e:
        left = True
        sym.check(e.code != 0, "left without an error")
    finally:
        sys.stderr = sys_err
    for x in lines:
        if (model.running or not run) and (interactive or not model.errors):
            model.line(x)
    problems = len([x for x in err.text if x.startswith("Error:")])
    if interactive:
        sym.check(not left, "left because of an error")
        sym.check(problems == model.errors, "number of errors")
        sym.check(numbers(shell.sudoku) == model.cur, "another sudoku")
        sym.check(shell.running == model.running, "running")
        sym.check([numbers(s) for s in shell.stack] == model.stack, "stack")
        if not run:
            sym.check("".join(out.text) == "".join(model.out),
                      "another output")
    else:
        sym.check(left == (model.errors > 0), "an error ends a script")
        sym.check(problems == (1 if model.errors else 0),
                  "number of errors")
        if not left:
            sym.check("".join(out.text) == "".join(model.out),
                      "another output")
            sym.check(numbers(shell.sudoku) == model.cur, "another sudoku")
            sym.check([numbers(s) for s in shell.stack] == model.stack,
                      "stack")
    if model.errors:
        sym.reach("error")
    else:
        sym.reach("fine")
    sym.reach("end")


# -------------------------------------------------------------- arguments
def arguments(sym, lengths, alphabet, name):
    """parse() for arguments of any letters; values of literals are taken
    from literal_eval."""
    words = [letters(sym, "word%d" % i, lengths[i], alphabet)
             for i in range(len(lengths))]
    line = name
    for x in words:
        line += " " + x

    def value_of(text):
        if "?" in text:
            raise SyntaxError("no literal")
        if "!" in text:
            raise ValueError("no literal")
        return "value of", text

    sym.stub(literal_eval, value_of)
    args, named, bad = [], [], False
    for x in words:
        before, eq, after = x.partition("=")
        if eq == "=":
            bad = bad or "?" in after or "!" in after
            named.append((before, ("value of", after)))
        else:
            bad = bad or "?" in x or "!" in x
            args.append(("value of", x))
    try:
        func, special, got, kwargs = sh.parse(line)
    except ValueError:
        sym.check(bad, "line refused")
        sym.reach("refused")
    except KeyError:
        sym.check(name not in sh.COMMANDS, "command not known")
        sym.reach("unknown")
    else:
        sym.check(name in sh.COMMANDS, "unknown command")
        sym.check(not bad, "malformed line accepted")
        sym.check((func,) + tuple(special) == sh.COMMANDS[name],
                  "another command")
        sym.check(got == args, "other arguments")
        last = {}
        for k, v in named:
            last[k] = v
        sym.check(kwargs == last, "other named arguments")
        sym.reach("accepted")
    sym.reach("end")


LITERALS = {"1": 1, "-3": -3, "None": None, "2,3": (2, 3), "'a'": "a",
            "True": True, "[]": [], "0.5": 0.5, "(1,2)": (1, 2),
            "{1}": {1}, "''": ""}


def literals(sym, n, menu):
    """parse() with real literals, commands and keywords."""
    words = [sym.case(sym.choice("word%d" % i, menu)) for i in range(n)]
    name = sym.case(sym.choice("command", ["set", "exit", "bogus", "",
                                           "generate"]))
    args, named, bad = [], {}, False
    for x in words:
        before, eq, after = x.partition("=")
        v = after if eq else x
        if not eq and x in sh.COMMANDS:
            args.append(Command(x))
        elif not eq and x == "end":
            args.append(Keyword(x))
        elif v not in LITERALS:
            bad = True
        elif eq:
            named[before] = LITERALS[v]
        else:
            args.append(LITERALS[v])
    try:
        func, special, got, kwargs = sh.parse(" ".join([name] + words))
    except ValueError:
        sym.check(bad, "line refused")
        sym.reach("refused")
    except KeyError:
        sym.check(name not in sh.COMMANDS, "command not known")
        sym.reach("unknown")
    else:
        sym.check(name in sh.COMMANDS, "unknown command")
        sym.check(not bad, "malformed line accepted")
        sym.check((func,) + tuple(special) == sh.COMMANDS[name],
                  "another command")
        sym.check(got == args, "other arguments")
        sym.check([x.__class__ for x in got] == [x.__class__ for x in args],
                  "other kinds of arguments")
        sym.check(kwargs == named, "other named arguments")
        sym.reach("accepted")
    sym.reach("end")


def passing(sym, npos, nspecial, names):
    """execute() calls the command once, with everything in order, and its
    sudoku becomes the current one."""
    shell, out = new_shell(sym, [], True)
    mine = shell.sudoku
    args = [sym.int("arg%d" % i, -5, 5) for i in range(npos)]
    kwargs = {}
    for k in names:
        kwargs[k] = sym.int("named " + k, -5, 5)
    special = [sym.choice("special%d" % i, ["sudoku", "shell"])
               for i in range(nspecial)]
    calls = []
    kind = sym.case(sym.choice("result", ["sudoku", "none", "text", "int",
                                          "set", "error"]))
    other = Sudoku(box_size=(2, 1))

    def func(*a, **kw):
        calls.append((a, kw))
        if kind == "error":
            raise IndexError("failed")
        return {"sudoku": other, "none": None, "text": "abc", "int": 7,
                "set": frozenset([3])}[kind]

    errors = []

    def error(self, s):
        errors.append(s)

    sym.stub(Shell.error, error)
    shell.execute(func, special, args, kwargs)
    sym.check(len(calls) == 1, "not called once")
    a, kw = calls[0]
    sym.check(len(a) == npos + nspecial, "number of arguments")
    for i in range(nspecial):
        sym.check((a[i] is mine) == (special[i] == "sudoku") and
                  (a[i] is shell) == (special[i] == "shell"),
                  "another object")
    sym.check(list(a[nspecial:]) == args, "other arguments")
    sym.check(kw == kwargs, "other named arguments")
    sym.check(shell.sudoku is (other if kind == "sudoku" else mine),
              "another sudoku")
    sym.check("".join(out.text) == {"text": "abc\n", "int": "7\n",
                                    "set": "frozenset({3})\n"}.get(kind, ""),
              "another output")
    sym.check(len(errors) == (1 if kind == "error" else 0), "errors")
    sym.reach("end")


class Shapes(object):
    """Functions with all kinds of parameter lists."""
    def m0(self):
        pass

    def m1(self, a, b=(1, 2)):
        pass

    @classmethod
    def c1(cls, x, y='q'):
        pass


def f0():
    pass


def f1(a):
    pass


def f2(a, b=3):
    pass


def f3(a=None):
    pass


def f4(a, b, c='x', d=4):
    pass


def f5(a, b, c, d=1.5):
    pass


def f6(a, b=1, c=2, d=3):
    pass


SHAPES = [(f0, ""), (f1, "a"), (f2, "a b=3"), (f3, "a=None"),
          (f4, "a b c='x' d=4"), (f5, "a b c d=1.5"), (f6, "a b=1 c=2 d=3"),
          (Shapes.m0, "self"), (Shapes.m1, "self a b=(1, 2)"),
          (Shapes().m0, ""), (Shapes().m1, "a b=(1, 2)"),
          (Shapes.c1, "x y='q'")]


def signatures(sym):
    """The signature names every parameter with its own default."""
    i = sym.case(sym.int("function", 0, len(SHAPES) - 1))
    func, expected = SHAPES[i]
    sym.check(sh.signature_str(func) == expected, "another signature")
    sym.reach("end")


def helping(sym):
    """There is help for every command, and it has the signature."""
    names = sorted(sh.COMMANDS)
    name = sym.case(sym.choice("command", names))
    shell, out = new_shell(sym, [], True)
    errors = []

    def error(self, s):
        errors.append(s)

    sym.stub(Shell.error, error)
    shell.execute_line("help " + name)
    text = "".join(out.text)
    func = sh.COMMANDS[name][0]
    if isinstance(func, type):
        func = func.__init__
    sym.check(not errors, "no help")
    sym.check(text.startswith(name + " " + sh.signature_str(func) + ": "),
              "another signature")
    out.text = []
    shell.execute_line("help")
    whole = "".join(out.text)
    sym.check(name + " " + sh.signature_str(func) + ": " in whole,
              "missing in the list")
    sym.check(not errors, "no list of commands")
    sym.reach("end")
