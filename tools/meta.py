#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness import tasks       # noqa: E402

PROPS = []
S = 'sudokutools/'


def P(id, title, statement, over, text, tests, files, mechanism, state=(),
      observe=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': tests,
        'anchors': {
            'files': [S + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m))
                          for m in mechanism],
            'observe_at': list(observe)}})


SUD, CO, SOLVE, DLX, STEPS, ANA, GEN, NOT, ACT, SHELL = (
    'sudoku.py', 'coordinates.py', 'solve.py', 'dlx.py', 'solvers.py',
    'analyze.py', 'generate.py', 'notation.py', 'actions.py', 'shell.py')
NUMS = ('numbers', 'number of every field, 0 = empty', 'sudoku.py Sudoku')
CANDS = ('candidates', 'candidate set of every field', 'sudoku.py Sudoku')

P('C01', 'Calculated candidates are exactly the numbers still possible',
  'For an empty field the calculated candidates are exactly the numbers 1..N '
  'held by no other field of its row, column or box; for a filled field '
  'exactly its own number. Initialising the candidates of a sudoku stores '
  'exactly these sets in all fields (in the filled fields only, if asked '
  'so), whatever was stored before, and changes no number.',
  ['inputs', 'configurations'],
  'all grids (partially filled, full, conflicting), all previous candidate '
  'sets, all box sizes',
  'The tests calculate the candidates of a few fields of a few 9x9 sudokus; '
  'there are 10^81 grids and every box shape.',
  [SOLVE, SUD, CO],
  [('calc_candidates', 'solve.py'), ('init_candidates', 'solve.py'),
   ('surrounding_of', 'sudoku.py')], [NUMS, CANDS],
  ['calc_candidates()', 'init_candidates()'])

P('C02', 'Rows, columns, boxes and surroundings are the right fields',
  'For every box size and every field, the row, column, box and surrounding '
  'of the field consist of exactly the fields that share its row, column, '
  'box or any of these, each listed once, with the field itself left out or '
  'kept as asked. Boxes are numbered from left to right and top to bottom, '
  'rows, columns, boxes and parts looked up by number are the fields with '
  'this number, and numbers outside the sudoku are refused.',
  ['inputs', 'configurations'],
  'all fields and numbers, both values of the include flag, all box widths '
  'and heights, square or not, including 1',
  'The tests compare 9x9 and one or two rectangular grids at a few fields.',
  [CO, SUD], [('row_of, column_of, box_of, surrounding_of, box_at',
               'coordinates.py, sudoku.py'),
              ('the_row, the_column, the_box, the_part', 'coordinates.py')],
  [], ['return values'])

P('C03', 'Conflicts are reported exactly and decide whether it is solved',
  'Searching a sudoku, or some of its fields, for conflicts reports a pair '
  'of fields and a number if and only if both fields hold this number and '
  'lie in a common row, column or box, and the first one was searched. A '
  'sudoku counts as solved if and only if it has no empty field and no '
  'conflict.',
  ['inputs', 'configurations'],
  'all grids, all collections of fields to search, all box sizes',
  'The tests look at four or five hand-written 9x9 grids.',
  [ANA, SUD], [('find_conflicts', 'analyze.py'), ('is_solved',
                                                 'analyze.py')], [NUMS],
  ['find_conflicts()', 'is_solved()'])

_STEP = ('all numbers and candidate sets of all fields (also contradictory '
         'and partly missing candidates), all box sizes')
_STEPT = ('The tests search one prepared 9x9 sudoku per method and compare '
          'with the steps found there; absence of wrong steps and of missed '
          'steps over all candidate states is out of reach.')

P('C04', 'Naked and hidden singles are found exactly and set correctly',
  'A naked (hidden) single is reported for an empty field if and only if it '
  'has exactly one candidate (a candidate no other field of a common row, '
  'column or box has), with a number the field has as a candidate. Applying '
  'a single sets the number, leaves it as the only candidate of the field, '
  'removes it from the candidates of all fields that share a row, column or '
  'box, and changes nothing else. If the candidates of a sudoku contain a '
  'solution, the number is the one of this solution.',
  ['inputs', 'configurations'], _STEP, _STEPT, [STEPS, SUD],
  [('NakedSingle.find, HiddenSingle.find', 'solvers.py'),
   ('_SingleFieldStep.build_actions, SolveStep.apply', 'solvers.py')],
  [NUMS, CANDS], ['find()', 'apply()'])

P('C05', 'Naked tuples are found exactly and only remove what they may',
  'A naked tuple of size n is reported exactly for n fields of a row, column '
  'or box with at most n candidates in unison (at least two each), if '
  'another field of it has one of these. Applying it removes exactly these '
  'candidates from the other fields of that row, column or box that have '
  'them, and nothing else. No step removes a number that a solution within '
  'the candidates has in this field.',
  ['inputs', 'configurations'], _STEP, _STEPT, [STEPS, SUD],
  [('NakedTuple.find, build_actions', 'solvers.py')], [NUMS, CANDS],
  ['find()', 'apply()'])

P('C06', 'Hidden tuples are found exactly and only remove what they may',
  'A hidden tuple of size n is reported exactly for n numbers which are '
  'candidates of (two to n each and) in unison at most n fields of a row, '
  'column or box that has an empty field, if one of these fields has '
  'further candidates. Applying it leaves these fields only those of the n '
  'numbers they had before, and changes nothing else. No step removes a '
  'number that a solution within the candidates has in this field.',
  ['inputs', 'configurations'], _STEP, _STEPT, [STEPS, SUD],
  [('HiddenTuple.find, build_actions', 'solvers.py')], [NUMS, CANDS],
  ['find()', 'apply()'])

P('C07', 'Pointing tuples are found exactly and only remove what they may',
  'A pointing tuple of size n is reported exactly for a number that is a '
  'candidate of n fields of a box which all lie in one row or column (or of '
  'n fields of a row or column which all lie in one box), if another field '
  'of that row or column (of that box) has it as a candidate. Applying it '
  'removes this number from exactly those other fields, and nothing else. '
  'No step removes a number that a solution within the candidates has in '
  'this field.',
  ['inputs', 'configurations'], _STEP, _STEPT, [STEPS, SUD, CO],
  [('PointingTuple.find, build_actions', 'solvers.py')], [NUMS, CANDS],
  ['find()', 'apply()'])

P('C08', 'Fish are found exactly and only remove what they may',
  'A fish (x-wing, swordfish, jellyfish: n = 2, 3, 4) is reported exactly '
  'for a number and n rows (columns) which have it as a candidate in two to '
  'n fields each, that lie in at most n columns (rows) with at least two '
  'each, if these columns (rows) have it in another field. Applying it '
  'removes the number from the candidates of exactly these other fields, '
  'and nothing else. No step removes a number that a solution within the '
  'candidates has in this field.',
  ['inputs', 'configurations'], _STEP, _STEPT, [STEPS, SUD, CO],
  [('BasicFish.find, build_actions', 'solvers.py')], [NUMS, CANDS],
  ['find()', 'apply()'])

P('C09', 'The exact cover solver yields exactly the solutions, once each',
  'For every sudoku the dancing links solver yields every completion '
  '(filling all empty fields without conflicts and keeping the given '
  'numbers), yields no completion twice and yields nothing else; a sudoku '
  'with conflicts has none. Each yielded sudoku has the box size of the '
  'original.',
  ['inputs', 'configurations'],
  'all numbers of all given fields and all sets of given fields, including '
  'conflicting, unsolvable, under-determined and full sudokus; all box '
  'sizes',
  'The tests solve a few 9x9 sudokus with one solution and count two '
  'solutions once.',
  [DLX, SOLVE, SUD], [('do_dlx, exact_cover, solve, select, deselect',
                       'dlx.py'), ('dlx', 'solve.py')],
  [('X, Y', 'constraints left and options covering them', 'dlx.py')],
  ['dlx()'])

P('C10', 'The backtracking solver yields exactly the solutions, once each',
  'For every sudoku the brute force solver yields every completion (filling '
  'all empty fields without conflicts and keeping the given numbers), yields '
  'no completion twice and yields nothing else; a sudoku with conflicts has '
  'none. It does not depend on candidates stored in the sudoku.',
  ['inputs', 'configurations'],
  'all numbers of all given fields and all sets of given fields, including '
  'conflicting, unsolvable, under-determined and full sudokus; all stored '
  'candidates; all box sizes',
  'The tests solve a few 9x9 sudokus with one solution and count two '
  'solutions once.',
  [SOLVE, SUD], [('bruteforce, _do_bruteforce', 'solve.py')],
  [NUMS, ('saved candidates', 'candidates to restore on the way back',
          'solve.py _do_bruteforce')], ['bruteforce()'])

P('C11', 'Uniqueness means exactly one solution',
  'A sudoku is called unique if and only if there is exactly one way to '
  'complete it: unsolvable, conflicting and ambiguous sudokus are not '
  'unique, full correct ones are.',
  ['inputs', 'configurations'], 'all grids, all box sizes',
  'The tests check a handful of 9x9 sudokus.',
  [ANA, SOLVE, DLX], [('is_unique', 'analyze.py'), ('dlx', 'solve.py')],
  [NUMS], ['is_unique()'])

P('C12', 'Step by step solving ends, and with the solution if there is one',
  'Solving a sudoku step by step terminates for every sudoku, keeps all '
  'given numbers, and returns a completion if there is one, the only one if '
  'it is unique. It leaves its argument alone, reports every step before it '
  'is applied, and applying the reported steps in order to a copy leads to '
  'the returned sudoku.',
  ['inputs', 'configurations'],
  'all grids (unsolvable and conflicting ones as well), all stored '
  'candidates, all box sizes',
  'The tests solve one 9x9 sudoku that has a solution; on one without the '
  'loop over the solve methods used to run forever.',
  [STEPS, SOLVE], [('solve', 'solvers.py'), ('SOLVERS', 'solvers.py')],
  [NUMS, CANDS], ['solve()'])

P('C13', 'Rating and score reflect the steps taken and stay in range',
  'The rating of a sudoku is the highest and its score the sum of the '
  'ratings of the steps that solve it step by step (0 if there are none), '
  'so the rating lies between 0 and 10, and only sudokus that need no '
  'setting or removing step rate 0. Both terminate for every sudoku and '
  'leave it alone.',
  ['inputs', 'configurations'], 'all grids, all box sizes',
  'The tests rate two or three 9x9 sudokus.',
  [ANA, STEPS], [('rate, score, RATINGS', 'analyze.py'),
                 ('solve', 'solvers.py')], [], ['rate()', 'score()'])

P('C14', 'Generated sudokus are unique, symmetric and full enough',
  'Whatever the random choices, a generated sudoku has exactly one solution, '
  'has at least the requested number of filled fields, and the set of its '
  'filled fields is invariant under the requested symmetry; unless it is '
  'limited by the requested number, no further symmetric group of fields '
  'that was tried could have been emptied. An unknown symmetry or a number '
  'larger than the sudoku is refused.',
  ['inputs', 'configurations', 'histories'],
  'all outcomes of the random generator, all symmetries, all minimal '
  'counts, all box sizes',
  'The tests generate a few random sudokus per symmetry: one random history '
  'out of 81! orders.',
  [GEN, ANA], [('generate, SYMMETRY', 'generate.py'), ('is_unique',
                                                       'analyze.py')],
  [NUMS], ['generate()'])

P('C15', 'Created solutions are solved, templates are matched',
  'Whatever the random choices, a created solution is completely filled '
  'without conflicts in the requested box size. A sudoku created from a '
  'template is unique and filled exactly where the template is; if that '
  'fails in the given number of tries, an error is raised after exactly so '
  'many tries, and the template is never changed.',
  ['inputs', 'configurations', 'histories'],
  'all outcomes of the random generator, all templates, all numbers of '
  'tries, all box sizes',
  'The tests create a few random 9x9 solutions and one from a template.',
  [GEN, DLX], [('create_solution, generate_from_template', 'generate.py')],
  [NUMS], ['create_solution()', 'generate_from_template()'])

P('C16', 'Encoding a sudoku and decoding it gives it back',
  'For every sudoku up to 9 numbers, decoding its default encoding, with or '
  'without candidates, gives back all numbers and (if included) all '
  'candidates, with or without blanks and line breaks as separators; with '
  'a number separator the same holds for the numbers of every size. Two '
  'sudokus of such a size with different contents so have different '
  'encodings.',
  ['inputs', 'configurations'],
  'all numbers and candidate sets of all fields, all box sizes, all '
  'separators',
  'The tests round trip two or three 9x9 sudokus.',
  [SUD], [('encode, decode', 'sudoku.py')], [NUMS, CANDS],
  ['encode()', 'decode()'])

P('C17', 'Decoding accepts the documented format and nothing else',
  'Decoding ignores whitespace around the text (anywhere in it, if no number '
  'separator is given), '
  'takes the given text for empty fields, honours the given separators and '
  'box size, and reads numbers, then candidates, field by field, row by row. '
  'Without a box size it finds the square one or, failing that, one with '
  'more than one row and column; a number of fields that fits no such '
  'sudoku, and a field that is no number, is refused with a ValueError.',
  ['inputs', 'configurations'],
  'all strings up to a length, all empty characters and separators',
  'The tests decode a few strings with blanks and line breaks between '
  'digits.',
  [SUD], [('decode', 'sudoku.py')], [], ['Sudoku.decode()'])

P('C18', 'The printed sudoku shows every number and candidate in its place',
  'Printing a sudoku shows every number (a blank for an empty field) and, if '
  'asked for, the candidates of every field, in order and in the right row '
  'and column, for every box size: fields of a row in one line, a line of '
  'dashes between boxes above each other, a bar between boxes next to each '
  'other. All lines of a print have the same width, fields are as wide as '
  'the widest content and aligned as asked, and the prefix and separator '
  'given for candidates are used.',
  ['inputs', 'configurations'],
  'all numbers and candidates of all fields, all box sizes',
  'The tests compare the print of two 9x9 sudokus.',
  [SUD], [('view, __str__', 'sudoku.py')], [NUMS, CANDS], ['view()', 'str()'])

P('C19', 'Fields are independent; copies, comparison and counting are exact',
  'Writing a number or candidates of a field changes this field only, in '
  'this sudoku only: copies, copied with their candidates or without, start '
  'equal and are independent in both directions. Iteration, length, empty '
  'and filled fields, counting, equality and difference describe exactly the '
  'numbers stored; sudokus of different sizes are never equal.',
  ['inputs', 'histories', 'configurations'],
  'all grids and candidate states, all sequences of reads and writes, all '
  'box sizes',
  'The tests write a few fields of a 9x9 sudoku.',
  [SUD], [('Sudoku container methods', 'sudoku.py')], [NUMS, CANDS],
  ['Sudoku methods'])

P('C20', 'Coordinate notation names exactly the given fields',
  'Encoding any set of fields (at least one) in row/column or box/part '
  'notation and decoding it with the same box size and separators gives '
  'back exactly these fields, each once. The notation does not depend on '
  'the order in which the fields are given, nor on repetitions; a single '
  'field is called by its row and column or its box and part, counted from '
  '1, by default whichever is shorter. Fields outside the sudoku and box '
  'sizes that are no positive whole numbers are refused with a ValueError.',
  ['inputs', 'configurations'],
  'all sets of fields, all box sizes, all separators',
  'The tests encode about twenty small sets and round trip none of them.',
  [NOT], [('encode, decode', 'notation.py')], [], ['encode()', 'decode()'])

P('C21', 'Coordinate notation is read as documented, the rest is refused',
  'A text of the notation, its groups separated by the separator, names the '
  'fields that lie in all parts of at least one group: a part is r, c, b or '
  'p (row, column, box, position in the box) followed by one or more numbers '
  'from 1, of which any may match; no letter occurs twice in a group. '
  'Whitespace anywhere is ignored (unless a separator contains some). Every '
  'other text - unknown characters, missing numbers or letters, empty '
  'groups, numbers outside the sudoku - is refused with a ValueError, never '
  'accepted silently and never answered with another error.',
  ['inputs', 'configurations'],
  'all texts up to a length over the characters of the notation, all box '
  'sizes',
  'The tests decode a few dozen well-formed texts without whitespace, and '
  'no malformed one.',
  [NOT, CO], [('decode, _decode_single', 'notation.py'),
              ('the_row, the_column, the_box, the_part', 'coordinates.py')],
  [], ['decode()'])

P('C22', 'Action notation and actions mean the same change',
  'Writing an action (setting a number or removing candidates from 1 to 9, '
  'in any fields) in action notation and reading it gives back the same '
  'kind of action with the same fields, number or candidates. "F=N", '
  '"F<>CC" and "-CC F" are read as setting N and removing the candidates CC '
  'in the fields F; a text that is no action is refused with a ValueError. '
  'Applying an action sets the number and makes it the only candidate (or '
  'removes the candidates) in exactly the named fields and changes nothing '
  'else.',
  ['inputs', 'histories', 'configurations'],
  'all fields, numbers and candidate sets, all sudoku states, all texts up '
  'to a length', 'The tests neither encode nor decode any action.',
  [NOT, ACT], [('encode_action, decode_action', 'notation.py'),
               ('SetNumber, RemoveCandidates', 'actions.py')], [NUMS, CANDS],
  ['encode_action()', 'decode_action()', 'calling an action'])

P('C23', 'The shell runs each command once, in order, and reports errors',
  'The shell hands every non-empty line of its input, without comments, '
  'surrounding spaces and joined where a line ends with a backslash, in '
  'order to execution, up to the end of the input or until left. Each '
  'command of a line is run exactly once with its arguments, in order; its '
  'result is printed or, if a sudoku, becomes the current one. Commands '
  'inside a loop run as often as the loop says when it ends, push and pop '
  'treat the sudokus as a stack of copies. Unknown or failing commands are '
  'reported and change nothing; an interactive shell goes on, a script ends '
  'with an error code.',
  ['inputs', 'histories'],
  'all sequences of input lines, commands and arguments',
  'The tests execute one line at a time and only look whether there was an '
  'error, with printing and reporting replaced.',
  [SHELL], [('Shell', 'shell.py')], [NUMS],
  ['Shell.run()', 'Shell.execute_line()', 'Shell.execute()'])

P('C24', 'Command lines are split into command and arguments as written',
  'Parsing a command line yields the named command and every argument, in '
  'order, with the value its literal denotes (commands and keywords as '
  'such), named arguments under their names. A line with an unknown command '
  'or an argument that is no literal is refused and nothing is run. The help '
  'of every command shows all its parameters with their own default values.',
  ['inputs'],
  'all lines of arguments up to a length, all signatures',
  'The tests parse two lines and count the commands with help.',
  [SHELL], [('parse, signature_str', 'shell.py')], [],
  ['parse()', 'signature_str()', 'help'])

P('C25', 'Undo and redo walk through exactly the states of the game',
  'In the game shell, after any sequence of lines, undoing k moves restores '
  'the numbers and candidates before them, redoing restores them again, and '
  'a new move discards the undone ones only; lines that change nothing add '
  'nothing, undoing or redoing beyond the ends changes nothing. After a '
  'move the numbers are removed from the candidates of the fields seeing '
  'them as the settings say. Hints, conflicts and checks reported are those '
  'of the current state.',
  ['histories', 'configurations'],
  'all sequences of moves, undos, redos and other lines up to a length',
  'The game shell has no tests.',
  [SHELL, ACT], [('GameShell', 'shell.py'),
                 ('SetNumber, RemoveCandidates', 'actions.py')],
  [NUMS, CANDS], ['GameShell.run()'])

P('C26', 'Asking changes nothing, and answers stay as they were',
  'Solving, searching steps or conflicts, rating, checking for uniqueness, '
  'encoding, printing and comparing leave the numbers and candidates of the '
  'sudoku as they were. Solutions that were yielded stay as they are while '
  'further ones are computed or the original changes.',
  ['inputs', 'histories', 'configurations'],
  'all grids and candidate states, every query, also abandoned half-way',
  'The tests compare no sudoku before and after a query.',
  [SOLVE, STEPS, ANA, SUD], [('copy before solving', 'solve.py, solvers.py, '
                                                     'analyze.py')],
  [NUMS, CANDS], ['queries'])

P('C27', 'Hints are valid steps in the order of difficulty',
  'The hints for a sudoku are exactly the steps its step methods find, in '
  'the order from easy to hard and without guesses; applying any sequence '
  'of hints to a sudoku whose candidates contain a solution keeps this '
  'solution. Steps compare equal exactly if fields and values agree and are '
  'ordered consistently.',
  ['inputs', 'histories', 'configurations'],
  'all grids and candidate states, all box sizes, all sequences of hints up '
  'to a length',
  'The tests look at the hints of one sudoku.',
  [STEPS], [('hints, SOLVERS, CalculateCandidates', 'solvers.py'),
            ('SolveStep ordering', 'solvers.py')], [NUMS, CANDS],
  ['hints()', 'step comparison'])

NOT_APPLICABLE = {}
NOTE = ('The real code is executed symbolically from its current source '
        '(our own guarded symbolic executor for Python, engine/); every '
        'assertion is decided by a SAT/SMT solver for all inputs within the '
        'bounds; counterexamples and witnesses are replayed on the real '
        'code. Trusted: executor and its models of Python builtins '
        '(self-tested against CPython), MiniSat, z3. Bounds: ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        pid = p['id']
        assert len(p['title']) <= 80, p['title']
        if pid in NOT_APPLICABLE or pid not in tasks.TASKS:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
                pid, 'its check is not built yet')})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'symbolic execution of the Python source; '
                         'assertions decided by a SAT/SMT solver',
            'level': 'model_checking',
            'level_note': NOTE + tasks.bounds_for(pid, 'quick')})
    m = {'version': 1,
         'setup_cmd': 'python3-vt -m engine.selftest',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
