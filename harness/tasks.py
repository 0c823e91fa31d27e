"""Which harness runs, with which bounds, decide which property."""

TASKS = {}      # property -> list of task dicts
INFO = {}       # property -> {'bounds': text, 'assume': [..]}


def T(pid, harness, tier='quick', cost=1, budget=None, core=True,
      reach=('end',), timeout=30, mem=None, opts=None, **params):
    """tier 'quick': run in both tiers; 'thorough': thorough only."""
    TASKS.setdefault(pid, []).append(dict(
        harness=harness, params=params, tier=tier, cost=cost,
        budget=budget or (600 if tier == 'quick' else 7200), core=core,
        reach=list(reach), timeout=timeout, mem=mem or (
            6 if tier == 'quick' else 10), opts=opts or {}))


def info(pid, bounds, assume=()):
    INFO[pid] = {'bounds': bounds, 'assume': list(assume)}


def tasks_for(pid, tier):
    return [dict(t) for t in TASKS[pid]
            if tier == 'thorough' or t['tier'] == 'quick']


def bounds_for(pid, tier):
    return INFO[pid]['bounds']


COMMON = [
    'sets of small integers iterate in ascending order in the encoding '
    '(CPython: hash order)',
    'the engine models the Python builtins it meets (list, dict, set, str, '
    'range, sorted, itertools, ...); self-test and witness replay compare '
    'the models with CPython',
]


def assumptions_for(pid):
    return INFO[pid]['assume'] + COMMON


# sizes by (box width, box height)
SMALL = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)]
MID = [(4, 2), (2, 4), (3, 3), (5, 2), (2, 5), (1, 5), (7, 1), (4, 3),
       (3, 4)]
BIG = [(4, 4), (2, 7), (7, 2), (5, 3), (3, 5), (6, 3), (1, 16), (8, 2)]


def each(pid, harness, sizes, tier='quick', exp=2, **kw):
    for w, h in sizes:
        T(pid, harness, tier, cost=(w * h) ** exp, w=w, h=h, **kw)


# ------------------------------------------------------------------ C01
for _f in 'calc', 'init', 'init_filled':
    each('C01', 'candidates:' + _f, SMALL + MID)
    each('C01', 'candidates:' + _f, BIG[:3])
    each('C01', 'candidates:' + _f, BIG[3:], 'thorough')
info('C01', 'every grid (all fields 0..N, conflicting ones included, '
     'arbitrary stale candidates) of the box sizes 1x1 ... 4x4 and 2x7 '
     '(N <= 16; thorough: also 5x3, 6x3, 8x2, 1x16: N <= 18)')

# ------------------------------------------------------------------ C02
each('C02', 'geometry:methods', SMALL + MID + BIG)
each('C02', 'geometry:partition', SMALL + MID + BIG)
each('C02', 'geometry:numbered', SMALL + MID + BIG,
     reach=['end', 'refused'])
T('C02', 'geometry:defaults', cost=50)
info('C02', 'every field (row, column and the include flag symbolic) of '
     'every listed box size up to N = 18; row/column/box/part numbers '
     '-2..N+1')

# ------------------------------------------------------------------ C03
each('C03', 'conflicts:whole', SMALL[3:] + MID + BIG[:1], exp=3,
     reach=['end', 'conflict'])
each('C03', 'conflicts:at', SMALL[3:] + MID, exp=3,
     reach=['end', 'conflict'])
each('C03', 'conflicts:at', BIG[:1], 'thorough', exp=3,
     reach=['end', 'conflict'])
each('C03', 'conflicts:solved', SMALL + MID + BIG[:1], exp=3,
     reach=['solved', 'unsolved'])
info('C03', 'every grid (all fields 0..N) and every collection of fields '
     'to examine, box sizes up to 4x3 and 4x4 (N <= 16)')

# ------------------------------------------------------------- C04 .. C08
FOUND = ['end', 'found']


def step(pid, fn, cost, tier, w, h, reach=FOUND, **kw):
    T(pid, 'steps:' + fn, tier, cost=cost, reach=reach, w=w, h=h, **kw)


Q, D = 'quick', 'thorough'
# singles
for _w, _h, _t in (2, 2, Q), (3, 2, Q), (2, 3, Q), (4, 1, Q), (3, 3, D), \
        (4, 2, D), (5, 2, D):
    step('C04', 'naked_single', (_w * _h) ** 3, _t, _w, _h)
    step('C04', 'hidden_single', (_w * _h) ** 3, _t, _w, _h)
step('C04', 'naked_single', 700, Q, 3, 3)
step('C04', 'hidden_single', 800, Q, 3, 3, part=(4, 5, 6))
step('C04', 'hidden_single', 800, Q, 2, 4, part=(6, None, 3))
step('C04', 'hidden_single', 900, D, 4, 3, part=(6, 10, 7))
for _c in 'NakedSingle', 'HiddenSingle':
    for _w, _h, _t in (2, 2, Q), (3, 2, Q), (1, 4, Q), (3, 3, Q), \
            (2, 4, D), (5, 2, D), (4, 3, D):
        step('C04', 'single_solution', (_w * _h) ** 3, _t, _w, _h, cls=_c)
    for _w, _h, _t in (2, 2, Q), (3, 1, Q), (3, 2, D), (2, 3, D):
        step('C04', 'sound_all', (_w * _h) ** 3, _t, _w, _h, ['end'],
             cls=_c)
info('C04', 'every state (numbers and candidates of all fields) of 4x4, 6x6 '
     'and, for naked singles, 9x9 sudokus, of one row, column and box of 8x8 '
     'and 9x9 ones; correctness against a solution: all states that contain '
     'the solution, up to 9x9; thorough: up to 12x12',
     ['filled fields have their own number or nothing as candidates'])

TUPLES = [('Pair', 2), ('Triple', 3), ('Quad', 4), ('Quint', 5)]
for _k, _n in TUPLES:
    _c = 'Naked' + _k
    if _n < 4:
        step('C05', 'naked', 400, Q, 2, 2, cls=_c, n=_n)
        step('C05', 'sound_one', 300, Q, 2, 2, cls=_c)
        step('C05', 'sound_all', 400, Q, 2, 2, ['end'], cls=_c)
    step('C05', 'naked', 2000, Q, 3, 2, cls=_c, n=_n)
    step('C05', 'naked', 2000, Q, 2, 3, cls=_c, n=_n)
    step('C05', 'naked', 1800, Q if _n < 4 else D, 3, 3, cls=_c, n=_n,
         part=(4, None, None))
    step('C05', 'naked', 1900, D if _n < 4 else Q, 3, 3, cls=_c, n=_n,
         part=(None, None, 5))
    step('C05', 'naked', 1900, D, 3, 3, cls=_c, n=_n, part=(None, 7, None))
    step('C05', 'naked', 9900, D, 3, 3, cls=_c, n=_n, part=(1, 4, 3))
    step('C05', 'sound_one', 2500, D, 3, 2, cls=_c)
    step('C05', 'sound_all', 2500, D, 2, 3, ['end'], cls=_c)
info('C05', 'every state of 4x4 and 6x6 sudokus (all candidate sets of all '
     'fields), of single rows, columns and boxes of 9x9 ones; correctness '
     'against a solution: all 4x4 states (thorough: 6x6)',
     ['filled fields have their own number or nothing as candidates'])

for _k, _n in TUPLES:
    _c = 'Hidden' + _k
    if _n < 4:
        step('C06', 'hidden', 400, Q, 2, 2, cls=_c, n=_n)
        step('C06', 'sound_one', 300, Q, 2, 2, cls=_c)
        step('C06', 'sound_all', 1500, Q, 2, 2, ['end'], cls=_c)
        step('C06', 'hidden', 4000, D, 3, 3, cls=_c, n=_n,
             part=(5, None, None), vals=(1, 2, 5, 8))
    step('C06', 'hidden', 2000, Q if _n != 4 else D, 3, 2, cls=_c, n=_n,
         part=(3, None, None))
    step('C06', 'hidden', 1900, D if _n in (2, 5) else Q, 2, 3, cls=_c,
         n=_n, part=(None, 2, None))
    step('C06', 'hidden', 1900, Q if _n in (2, 5) else D, 3, 2, cls=_c,
         n=_n, part=(None, None, 3))
    step('C06', 'hidden', 9000, D, 3, 2, cls=_c, n=_n)
    step('C06', 'sound_one', 9500, D, 2, 3, cls=_c)
info('C06', 'every state of 4x4 sudokus, of single rows, columns and boxes '
     'of 6x6 ones (thorough: whole 6x6 states and 9x9 rows with four '
     'different candidates); correctness against a solution: all 4x4 '
     'states (thorough: 6x6)',
     ['filled fields have their own number or nothing as candidates'])

for _k, _n in TUPLES[:2]:
    _c = 'Pointing' + _k
    if _n < 3:
        step('C07', 'pointing', 400, Q, 2, 2, cls=_c, n=_n)
        step('C07', 'sound_one', 300, Q, 2, 2, cls=_c)
        step('C07', 'sound_all', 400, Q, 2, 2, ['end'], cls=_c)
    step('C07', 'pointing', 3000, Q, 3, 2, cls=_c, n=_n, vals=(1, ))
    step('C07', 'pointing', 3000, Q, 2, 3, cls=_c, n=_n, vals=(6, ))
    step('C07', 'pointing', 2000, Q, 3, 3, cls=_c, n=_n,
         part=(4, None, 3), vals=(2, 9))
    step('C07', 'pointing', 2000, Q, 3, 3, cls=_c, n=_n,
         part=(None, 4, 7), vals=(1, 8))
    step('C07', 'pointing', 6000, D, 3, 2, cls=_c, n=_n, vals=(1, 4))
    step('C07', 'pointing', 9000, D, 3, 3, cls=_c, n=_n, part=(4, 4, 4))
    step('C07', 'pointing', 5000, D, 4, 2, cls=_c, n=_n,
         part=(5, None, 5), vals=(2, 8))
    step('C07', 'pointing', 5000, D, 2, 4, cls=_c, n=_n,
         part=(None, 5, 3), vals=(3, 7))
    step('C07', 'sound_one', 9500, D, 2, 3, cls=_c)
info('C07', 'every state of 4x4 sudokus; all placements of one candidate in '
     '6x6 sudokus, of two candidates in a row (column) and box of 9x9 ones; '
     'correctness against a solution: all 4x4 states (thorough: 6x6)',
     ['filled fields have their own number or nothing as candidates'])

for _c, _n in ('XWing', 2), ('Swordfish', 3), ('Jellyfish', 4):
    if _n < 4:
        step('C08', 'fish', 400, Q, 2, 2, cls=_c, n=_n)
        step('C08', 'sound_one', 300, Q, 2, 2, cls=_c)
        step('C08', 'sound_all', 300, Q, 2, 2, ['end'], cls=_c)
        step('C08', 'sound_one', 900, Q, 3, 2, cls=_c)
    step('C08', 'fish', 2500, Q, 3, 2, cls=_c, n=_n)
    step('C08', 'fish', 2500, Q if _n == 2 else D, 2, 3, cls=_c, n=_n)
    step('C08', 'sound_one', 950, Q if _n == 4 else D, 2, 3, cls=_c)
    step('C08', 'sound_all', 2500, D, 3, 2, ['end'], cls=_c)
    step('C08', 'fish', 9500, D, 3, 3, cls=_c, n=_n, vals=(4,))
    step('C08', 'fish', 5000, D, 4, 2, cls=_c, n=_n, vals=(3, ))
info('C08', 'every state of 4x4 and 6x6 sudokus (thorough: all placements '
     'of one candidate in 8x8 and 9x9 sudokus); correctness against a '
     'solution: all 4x4 and 6x6 states',
     ['filled fields have their own number or nothing as candidates'])

# ------------------------------------------------------------- C09 .. C11
def _grid(n, keep):
    return [(r, c) for r in range(n) for c in range(n) if (r, c) not in keep]


_ALL2 = _grid(2, ())
_ROWS2 = [(0, c) for c in range(4)] + [(1, c) for c in range(4)]
_CROSS = _grid(4, ((0, 0), (1, 2), (2, 1), (3, 3)))
_WIDE6 = [(0, c) for c in range(6)] + [(2, c) for c in range(4)]
ANY = ['end', 'found', 'none']


def complete(pid, name, slow):
    def t(w, h, tier='quick', cost=100, reach=ANY, **kw):
        T(pid, 'complete:exact', tier, cost=cost, reach=reach, w=w, h=h,
          name=name, **kw)
    t(2, 1, empty=[], maybe=_ALL2)
    t(1, 2, empty=[], maybe=_ALL2)
    t(1, 1, empty=[], maybe=[(0, 0)], reach=['end', 'found'])
    t(3, 1, empty=[], free=[], maybe=_grid(3, ((0, 2), (1, 2), (2, 2))))
    t(1, 3, empty=[], free=[], maybe=_grid(3, ((0, 2), (1, 2), (2, 2))))
    t(2, 2, empty=_ROWS2, cost=900)
    t(2, 2, D if slow else Q, empty=[(0, 0), (1, 1), (2, 2), (3, 3)],
      stale=True, cost=900 + slow)
    t(2, 2, empty=[(0, 0), (1, 1), (3, 3)], stale=True, cost=800)
    t(2, 2, empty=_CROSS, cost=900)
    t(3, 2, empty=[(0, 0), (0, 1), (1, 1)],
      free=[(0, 2), (0, 4), (2, 0), (2, 1)])
    t(2, 3, empty=[(0, 0), (0, 1), (1, 1)], free=[],
      maybe=[(0, 2), (2, 0), (2, 1)], stale=True)
    t(2, 3, empty=_WIDE6, free=[(5, 5)], maybe=[(4, 1), (3, 4)])
    t(3, 2, empty=_WIDE6, free=[(5, 5)], maybe=[(4, 1), (3, 4)])
    t(3, 3, empty=[(0, 0), (0, 1), (1, 1), (4, 5)], free=[(5, 5)],
      maybe=[(0, 2), (2, 0)])
    t(4, 2, empty=[(0, 0), (1, 4), (0, 3), (5, 2), (2, 2)], free=[(5, 5)],
      maybe=[(4, 1), (3, 4)])
    t(5, 2, empty=[(0, 0), (1, 4), (0, 3), (5, 2), (2, 2)], free=[],
      maybe=[(4, 1), (3, 9)])
    t(2, 4, empty=[(0, 0), (1, 4), (0, 3), (5, 2), (2, 2)], free=[],
      maybe=[(4, 1), (3, 4)])
    t(4, 3, empty=[(0, 0), (0, 1), (11, 11), (7, 2)], free=[(5, 5)],
      maybe=[(4, 1)])
    t(3, 1, 'thorough', 9000, empty=[], maybe=_grid(3, ()))
    t(1, 3, 'thorough', 9000, empty=[], maybe=_grid(3, ()))
    t(2, 2, 'thorough', 5000, empty=_grid(4, (
        (0, 0), (1, 2), (2, 1), (3, 3), (0, 1), (2, 3))))
    t(2, 2, 'thorough', 5000, empty=[(0, 0), (0, 1), (1, 1), (1, 2), (2, 2),
                                     (3, 3)])
    t(2, 2, 'thorough', 4000, empty=[], maybe=_grid(4, (
        (0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (2, 3), (1, 3), (3, 0))),
        free=[])
    t(3, 2, 'thorough', 5000, empty=[(0, 0), (0, 1), (3, 3)])
    t(3, 3, 'thorough', 3000, empty=[(0, 0), (0, 1), (1, 1), (4, 5)],
      free=[(5, 5)], maybe=[(0, 2), (2, 0), (8, 8), (4, 4), (1, 2)])


complete('C09', 'dlx', 600)
complete('C10', 'bf', 0)
for _p in 'C09', 'C10':
    info(_p, 'every filling of all fields of 1x1, 2x1 and 1x2 boxes, of six '
         'fields for 3x1 and 1x3 (thorough: all nine); 4x4 sudokus with '
         'three sets of 4, 8 and 12 empty fields and all values of the '
         'others; 6x6 to 12x12 sudokus with 3 to 10 empty fields, 1 to 3 '
         'fields with any number or none, 0 to 4 fields with any number, the '
         'others from one solution')

UN = ['unique', 'not unique']
for _w, _h, _e, _f, _t, _c in (
        (2, 1, [], None, Q, 1), (1, 2, [(0, 0), (1, 1)], None, Q, 1),
        (2, 1, [(0, 0)], None, Q, 1), (1, 2, _ALL2, None, Q, 1),
        (3, 1, [(0, 0), (0, 1), (1, 1), (1, 0), (0, 2)], None, Q, 50),
        (2, 2, [], None, Q, 100),
        (2, 2, [(0, 0), (1, 1), (0, 1), (1, 0)], None, Q, 500),
        (2, 2, [(0, 0), (0, 2), (1, 0), (1, 2)], None, Q, 800),
        (2, 2, [(0, 0), (3, 0), (1, 0), (2, 2)], None, Q, 900),
        (3, 2, [(0, 0), (1, 1), (0, 1), (1, 0)], [(0, 2), (2, 0)], Q, 99),
        (2, 3, [(0, 0), (3, 0), (1, 0), (2, 2)],
         [(5, 5), (4, 4), (0, 1), (3, 1)], Q, 99),
        (3, 3, [(0, 0), (3, 0), (0, 3)], [(5, 5), (3, 3), (1, 0)], Q, 99),
        (4, 2, [(0, 0), (3, 0), (1, 0)], [(5, 5), (4, 4)], Q, 99),
        (2, 2, [(0, 0), (1, 1), (2, 2), (3, 3)], None, D, 5000)):
    _r = ['not unique'] if len(_e) == 4 and _w * _h == 2 else UN
    T('C11', 'complete:unique', _t, cost=_c, reach=_r, w=_w, h=_h, empty=_e,
      free=_f)
info('C11', 'sudokus of 2x2 to 9x9 fields with up to five empty fields; all '
     'numbers of the other fields (up to 4x4; six to eight fields of larger '
     'ones)')

# ------------------------------------------------------------- C16 .. C19
for _w, _h in SMALL + [(3, 3), (2, 4), (4, 2), (1, 5), (7, 1)]:
    _sq = _w == _h
    T('C16', 'text:round_trip', cost=_w * _h, w=_w, h=_h, cands=True,
      auto=_sq)
    T('C16', 'text:round_trip', cost=_w * _h, w=_w, h=_h, sep=' ',
      row_sep='\n', auto=_sq)
    T('C16', 'text:round_trip', cost=_w * _h, w=_w, h=_h, auto=_sq)
for _w, _h, _s, _r, _t in (
        (2, 2, ',', ',', Q), (3, 3, ' ', '\n', Q), (5, 2, ' ', ' ', Q),
        (2, 6, ';', ';', Q), (4, 3, ':', ':', Q), (4, 2, '  ', '  ', Q), (4, 4, ' ', '\n', Q),
        (7, 2, '/', '/', Q), (5, 5, ',', ',', D), (1, 18, ' ', '\n', D)):
    T('C16', 'text:round_trip', _t, cost=(_w * _h) ** 2, w=_w, h=_h, sep=_s,
      row_sep=_r, back=_s, auto=_w == _h)
info('C16', 'every filling (also conflicting) and all candidates of all '
     'fields for 1x1 to 9x9 sudokus, with no separators and with blanks and '
     'line breaks; with number separators every filling up to 16x16 '
     '(thorough: 25x25)')

for _w, _h, _g, _e in ((2, 2, range(16), '0'), (3, 2, range(0, 36, 3), '.'),
                       (2, 3, range(1, 36, 3), '_'), (2, 2, range(8), '○'),
                       (3, 3, range(2, 81, 5), '-'), (4, 1, range(16), 'xx')):
    T('C17', 'text:spaces', cost=50, w=_w, h=_h, where=list(_g),
      empty=_e[:1])
T('C17', 'text:spaces', cost=50, w=2, h=2, where=[0, 3, 5, 15], cands=True)
T('C17', 'text:spaces', cost=50, w=2, h=3, where=[0, 35], cands=True,
  empty='*')
_AR = ['accepted', 'refused']
T('C17', 'text:any_text', cost=90, chars='01234x. \n', lo=16, hi=16,
  size=(2, 2), reach=_AR)
T('C17', 'text:any_text', cost=90, chars='09x.- \n', lo=14, hi=18,
  size=(2, 2), empty='.', reach=_AR)
T('C17', 'text:any_text', cost=90, chars='01234x. \n', lo=0, hi=17,
  size=None, reach=_AR)
T('C17', 'text:any_text', cost=400, chars='0149x.,', lo=34, hi=39,
  size=None, empty='.', reach=_AR)
T('C17', 'text:any_text', D, cost=900, chars='0123456789_ ', lo=60, hi=66,
  size=None, empty='_', reach=_AR)
T('C17', 'text:row_lengths', cost=90, top=150, reach=_AR)
T('C17', 'text:row_lengths', D, cost=900, top=700, reach=_AR)
for _w, _h, _n, _k, _a in (
        (2, 2, ' ', ['0', '1', '4', 'x'], True),
        (2, 2, ',', ['0', '12', '4', 'x', ''], False),
        (5, 2, '/', ['0', '9', '10', 'x'], False),
        (4, 4, ' ', ['0', '9', '16', '10'], True)):
    T('C17', 'text:numbers_text', cost=50, w=_w, h=_h, nsep=_n, toks=_k,
      auto=_a, reach=_AR if 'x' in _k else ['accepted'])
for _k in (dict(w=2, h=2, nsep=None, ssep='/', csep=';', empty='.'),
           dict(w=3, h=3, nsep=None, ssep='\n', csep=';', empty='◦'),
           dict(w=2, h=2, nsep=' ', ssep='/', csep=';', empty='.',
                few=[(0, 0), (3, 2)]),
           dict(w=2, h=3, nsep=',', ssep='|', csep=';', empty='-',
                few=[(0, 0), (5, 5)], vals=(1, 3, 4)),
           dict(w=2, h=2, nsep=' ', ssep='|', csep=',', empty='·', gap=' ',
                few=[(3, 3), (3, 2)]),
           dict(w=5, h=2, nsep=' ', ssep='|', csep=',', empty='--',
                few=[(0, 0), (4, 3)], vals=(1, 10))):
    T('C17', 'text:listed', cost=90, **_k)
info('C17', 'every filling of 4x4, 6x6 and 9x9 sudokus with any of eight '
     'whitespace strings at up to 17 places; all texts of up to 18 (39; '
     'thorough: 66) characters from alphabets of 7 to 12; all numbers of '
     'fields up to 150 (thorough: 700); all numbers between separators from '
     'lists of up to five')

for _k in (dict(w=2, h=2), dict(w=2, h=2, prefix='', right=False),
           dict(w=2, h=3, few=[(0, 0), (1, 1), (2, 5), (5, 3)]),
           dict(w=3, h=2, few=[(0, 0), (1, 1), (2, 5), (5, 3)], prefix='??'),
           dict(w=1, h=2), dict(w=2, h=1), dict(w=1, h=1), dict(w=3, h=1),
           dict(w=1, h=4, few=[(0, 0), (3, 3), (2, 1)]),
           dict(w=3, h=3, few=[(0, 0), (3, 4), (8, 8)]),
           dict(w=3, h=3, few=[(0, 8), (3, 4), (8, 2)], via='default'),
           dict(w=2, h=2, sep='/', via='sep'),
           dict(w=3, h=2, few=[(0, 0), (1, 1)], sep=', ', via='sep'),
           dict(w=5, h=2, few=[(0, 0), (3, 4)], vals=(1, 5, 10)),
           dict(w=2, h=5, few=[(9, 9), (3, 4)], vals=(2, 9, 10), via='sep',
                sep='|'),
           dict(w=4, h=3, few=[(0, 0), (3, 4)], vals=(1, 10, 12)),
           dict(w=2, h=4, few=[(0, 0), (3, 4)]),
           dict(w=4, h=2, few=[(0, 0), (3, 4)], right=False)):
    T('C18', 'text:printed', cost=(_k['w'] * _k['h']) ** 2, **_k)
for _w, _h in SMALL + MID + [(4, 4), (2, 7), (3, 5)]:
    T('C18', 'text:printed', cost=_w * _h, w=_w, h=_h, cands=False)
    T('C18', 'text:printed', cost=_w * _h, w=_w, h=_h, cands=False,
      via='str')
for _k in (dict(w=2, h=3), dict(w=3, h=2, right=False),
           dict(w=4, h=4, few=[(15, 0), (2, 3)], vals=(1, 8, 10, 16)),
           dict(w=5, h=3, few=[(7, 8)], vals=(3, 9, 11, 12, 15))):
    T('C18', 'text:printed', D, cost=(_k['w'] * _k['h']) ** 2, **_k)
info('C18', 'every number of every field without candidates for boxes of '
     '1x1 to 4x4 fields; with candidates every state of 4x4 sudokus and all '
     'numbers and candidates of two to four fields of larger ones (up to '
     '12x12), three kinds of prefixes, separators, both alignments '
     '(thorough: every state of 6x6 sudokus, some of 15x15 and 16x16)')

for _w, _h in SMALL + [(3, 3), (5, 2)]:
    _c = (_w * _h) ** 2
    _t = Q if _w * _h < 9 else D
    T('C19', 'container:writes', _t, cost=_c, w=_w, h=_h,
      steps=2 if _w * _h <= 4 else 1)
    T('C19', 'container:copies', Q if _w < 5 else D, cost=_c, w=_w, h=_h,
      back=_w < 5, steps=2 if _w * _h <= 4 else 1)
    T('C19', 'container:copies', _t, cost=_c, w=_w, h=_h, back=False,
      steps=2 if _w * _h <= 4 else 1)
    T('C19', 'container:fresh', cost=_c, w=_w, h=_h)
    T('C19', 'container:queries', cost=_c, w=_w, h=_h)
    T('C19', 'container:comparison', cost=_c, w=_w, h=_h,
      reach=['end', 'equal'])
T('C19', 'container:writes', D, cost=999, w=3, h=2, steps=3)
T('C19', 'container:copies', D, cost=999, w=2, h=3, steps=3, back=True)
for _a in ((2, 2, 3, 3), (3, 2, 2, 2), (1, 2, 3, 1), (2, 2, 2, 3)):
    T('C19', 'container:sizes', cost=5, w=_a[0], h=_a[1], w2=_a[2], h2=_a[3])
info('C19', 'every state (numbers and candidates) of 1x1 to 10x10 sudokus; '
     'one or two (thorough: three) arbitrary writes; all pairs of states of '
     'one size, four pairs of sizes')

# ------------------------------------------------------------- C12, C13
_THIRD6 = [(r, c) for r in range(6) for c in range(6) if (r + 2 * c) % 3]
_THIRD9 = [(r, c) for r in range(9) for c in range(9) if (r + 2 * c) % 3]
_HARD9 = _grid(9, [(r, c) for r in range(9) for c in range(9)
                   if (r * 7 + c * 4) % 10 in (0, 1, 3)])
SR = ['end', 'solved', 'unsolved']


def stepwise(pid, fn, reach):
    def t(w, h, tier='quick', cost=100, reach=reach, **kw):
        T(pid, 'stepwise:' + fn, tier, cost=cost, reach=reach, w=w, h=h,
          **kw)
    r2 = reach if fn == 'solved' else ['end', 'none', 'work']
    r3 = reach if fn == 'solved' else ['end', 'work']
    r4 = reach if fn == 'solved' else ['end', 'work', 'guess']
    t(2, 1, empty=[], maybe=_ALL2, reach=r2)
    t(1, 2, empty=[], maybe=_ALL2, reach=r2)
    t(3, 1, empty=[], free=[], maybe=[(0, 0), (0, 1), (1, 0), (1, 1)],
      cost=500, reach=r2)
    t(1, 3, D, empty=[], free=[], maybe=_grid(3, ((0, 2), (1, 2), (2, 2))),
      cost=5000, reach=r2)
    t(2, 2, Q if fn == 'solved' else D, empty=[], free=[],
      maybe=[(0, 0), (0, 1), (1, 1), (3, 2)], cost=900, reach=r2)
    t(2, 2, empty=[], free=[], maybe=[(0, 0), (0, 1), (3, 2)], cost=400,
      reach=r2)
    t(2, 2, empty=[(0, 0), (0, 1), (1, 0)], free=[(1, 1), (2, 0)],
      reach=r3)
    t(2, 2, empty=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3)],
      free=[(2, 0), (2, 1), (0, 2)], cost=400, reach=r3)
    t(2, 2, empty=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3), (3, 0),
                   (3, 1), (3, 2)], free=[(1, 2), (0, 2)], maybe=[(0, 3)],
      cost=400, reach=r4)
    t(2, 2, empty=_CROSS, free=[(0, 0), (1, 2), (3, 3)], cost=400, reach=r4)
    t(3, 2, empty=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3), (3, 0),
                   (3, 1)], free=[(5, 5), (0, 2)], cost=300, reach=r3)
    t(2, 3, empty=_THIRD6, free=[(0, 0)], maybe=[(3, 3)], cost=500,
      reach=r4)
    t(3, 3, empty=_THIRD9, free=[(0, 0)], cost=700,
      reach=['end', 'solved'] if fn == 'solved' else ['end', 'work'])
    t(2, 2, D, empty=_CROSS, free=None, cost=3000, reach=r4)
    t(2, 2, D, empty=_ROWS2, free=[(2, 0), (2, 1), (3, 2)],
      maybe=[(3, 3), (2, 2)], cost=3000, reach=r4)
    t(3, 2, D, empty=_THIRD6, free=[(0, 0), (2, 2)],
      maybe=[(3, 3), (5, 5)], cost=8000, reach=r4)
    t(3, 3, D, empty=_HARD9, free=[(0, 0)], maybe=[(4, 5)], cost=9000,
      reach=['end'])


stepwise('C12', 'solved', SR)
stepwise('C13', 'rated', ['end', 'guess', 'work'])
T('C12', 'stepwise:solved', cost=300, reach=SR, w=3, h=2, merge=True,
  empty=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (2, 3), (3, 0), (3, 1)],
  free=[(5, 5), (0, 2), (4, 4)])
T('C13', 'stepwise:table', cost=50)
for _p in 'C12', 'C13':
    info(_p, '2x2 sudokus: every filling; 3x3 and 4x4: all values (or none) '
         'of two to four fields with none to twelve fields empty; 6x6 and '
         '9x9: all values of one to three fields, 8 to 54 fields empty; at '
         'most 400 rounds of the search for steps')

# ------------------------------------------------------------- C14, C15
_SYMS = [None, 'rotate-90', 'rotate-180', 'mirror-x', 'mirror-y',
         'mirror-xy']
_G4 = ['end', 'free', 'limited', 'refused']


def gen(tier, w, h, s, cost=50, reach=_G4, **kw):
    T('C14', 'creating:generated', tier, cost=cost, reach=reach, w=w, h=h,
      symmetry=s, **kw)


for _s in _SYMS:
    gen(Q, 1, 1, _s)
    gen(Q, 2, 1, _s)
    gen(Q, 1, 2, _s)
    gen(Q, 3, 1, _s, fixed=3, split=True, cost=300)
    gen(Q, 1, 3, _s, fixed=3, split=True, stride=2, cost=300)
    gen(D, 3, 1, _s, fixed=4, split=True, stride=4, cost=3000)
    # the real solver decides about uniqueness
    gen(Q, 2, 1, _s, real=True, split=True,
        fixed=4 if _s is None else None, cost=1000)
    gen(D, 3, 1, _s, real=True, split=True, fixed=2, stride=2, cost=4000)
    gen(D, 1, 3, _s, real=True, split=True, fixed=2, stride=5, cost=4000)
    gen(D, 2, 2, _s, real=True, split=True, fixed=1, stride=3, cost=4000,
        lo=8 if _s in (None,) else 0)
    # at most `odd` answers differ from the usual one
    for _u in False, True:
        gen(Q, 2, 2, _s, fixed=1, split=True, stride=5, consistent=False,
            usual=_u, odd=1 if _s is None and _u else 2, cost=500)
        gen(D, 2, 2, _s, fixed=2, split=True, stride=3, consistent=False,
            usual=_u, odd=3, cost=8000)
        gen(Q, 3, 2, _s, fixed=1, split=True, stride=5, consistent=False,
            usual=_u, odd=1, lo=5, hi=9, cost=400, reach=[
                'end', 'limited'] if _u else ['end', 'free'])
        gen(D, 2, 3, _s, fixed=2, split=True, stride=7, consistent=False,
            usual=_u, odd=2, lo=4, hi=7, cost=8000, reach=[
                'end', 'limited'] if _u else ['end', 'free'])
        gen(D if _s is None else Q, 3, 3, _s, fixed=0, stride=17,
            consistent=False, usual=_u, odd=1, lo=20, hi=22, cost=900,
            split=True, reach=[
                'end', 'limited'] if _u else ['end', 'free'])
    gen(D if _s is None else Q, 3, 3, _s, fixed=0, split=True, stride=17,
        consistent=False, lo=0, hi=0, cost=300, reach=['end', 'free'])
    gen(Q, 2, 3, _s, fixed=0, split=True, stride=5, consistent=False, lo=0,
        hi=0, cost=200, reach=['end', 'free'])
gen(Q, 3, 3, None, fixed=0, split=True, stride=17, consistent=False, lo=0,
    hi=0, usual=True, odd=1, cost=300, reach=['end', 'free', 'limited'])
gen(Q, 7, 1, None, fixed=0, split=True, stride=11, consistent=False, lo=0,
    hi=0, cost=300, reach=['end', 'free'])
T('C14', 'creating:strange', cost=10, w=2, h=2, names=[
    'rotate-45', '', 'mirror-yx', 0, True, 'None'])
info('C14', 'with the real test for uniqueness: 2x2 sudokus, every order of '
     'the fields; thorough: 3x3 and 4x4, order of two fields. With arbitrary '
     'answers to that test: 1x1 and 2x2 completely; 3x3: order of three '
     '(four) fields; 4x4, 6x6 and 9x9: order of at most two fields, and '
     'either no minimal count or at most one to three unusual answers (9x9 '
     'without symmetry: one; 7x1: any); all '
     'minimal counts (6x6, 9x9: three to five of them)',
     ['larger sizes: is_unique answers as C09 and C10 show',
      'create_solution yields a solution (C15)'])

for _w, _h in (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2):
    T('C15', 'creating:created', cost=100, reach=['end'], w=_w, h=_h)
for _w, _h in (3, 2), (2, 3), (4, 1), (1, 4):
    T('C15', 'creating:created', cost=200, reach=['end'], w=_w, h=_h,
      fixed=4)
    T('C15', 'creating:created', D, cost=2000, reach=['end'], w=_w, h=_h,
      fixed=5)
T('C15', 'creating:created', cost=200, reach=['end'], w=3, h=3, fixed=3)
T('C15', 'creating:created', D, cost=2000, reach=['end'], w=3, h=3, fixed=5)
T('C15', 'creating:created', D, cost=2000, reach=['end'], w=4, h=2, fixed=4)
T('C15', 'creating:created', D, cost=2000, reach=['end'], w=4, h=3, fixed=3)
_TR = ['end', 'failed', 'made']
for _w, _h in SMALL + [(3, 3)]:
    T('C15', 'creating:template', cost=(_w * _h) ** 2, reach=_TR, w=_w, h=_h,
      lo=-1, hi=3)
    T('C15', 'creating:template', D, cost=(_w * _h) ** 3, reach=_TR, w=_w,
      h=_h, lo=-2, hi=7, must=8)
T('C15', 'creating:template_real', cost=200, reach=_TR, w=2, h=1, tries=2)
T('C15', 'creating:template_real', cost=200, reach=_TR, w=1, h=2, tries=2)
T('C15', 'creating:template_real', cost=900, reach=_TR, w=3, h=1, tries=2,
  fixed=2)
T('C15', 'creating:template_real', D, cost=5000, reach=_TR, w=1, h=3,
  tries=2)
info('C15', 'create_solution: sizes up to 4x4 every outcome; up to 12x12 '
     'the order of three to five numbers; templates: every pattern up to '
     '9x9 with 0 to 3 (thorough: 7) tries and arbitrary solutions and '
     'answers, every 2x2 and 3x3 pattern with the real solver; a negative '
     'number of tries is followed until the third (eighth) try')

# ------------------------------------------------------------- C23 .. C25
for _k, _a in ((([4], 'ab #\\'), ([3, 2], 'a #\\'), ([1, 1, 1, 1], 'a#\\'),
                ([2, 1, 2], 'a#\\'))):
    for _i in False, True:
        T('C23', 'shells:reading', cost=50, reach=['end'], lengths=_k,
          alphabet=_a, interactive=_i)
T('C23', 'shells:reading', cost=50, reach=['end', 'left'], lengths=[1, 2, 2],
  alphabet='a#\\', interactive=True, leave=True)
T('C23', 'shells:reading', cost=50, reach=['end', 'left'], lengths=[1, 1, 1],
  alphabet='a \\', interactive=False, leave=True)
T('C23', 'shells:reading', D, cost=2000, reach=['end'], lengths=[3, 3, 3],
  alphabet='a #\\', interactive=False)
T('C23', 'shells:reading', D, cost=2000, reach=['end'], lengths=[7],
  alphabet='ab #\\', interactive=True)
T('C23', 'shells:splitting', cost=50, n=5, alphabet='a ;k')
T('C23', 'shells:splitting', cost=50, n=5, alphabet='f;v')
T('C23', 'shells:splitting', D, cost=2000, n=7, alphabet='af ;vk')
T('C23', 'shells:splitting', D, cost=2000, n=9, alphabet='a;f')
_LOOP = ['set 0 0 1', 'get 0 0', 'loop 2', 'loop end', 'exit', 'bogus']
_STACK = ['push', 'pop', 'pop 0', 'set 0 0 1', 'set 1 1 2', 'stack',
          'encode', 'solve']
_MIX = ['push', 'pop 1', 'set 0 1 1; get 0 1', 'get 3 0', 'encode',
        'exit; get 0 0', 'loop 2; push', 'loop end', 'loop 0', 'get x',
        'new (2,1)', 'push 1', 'set 1 1 2; set 0 0 2; solve']
_SE = ['end', 'error', 'fine']
for _m, _n in (_LOOP, 3), (_STACK, 3), (_MIX, 2):
    T('C23', 'shells:session', cost=200, reach=_SE, n=_n, menu=_m)
    T('C23', 'shells:session', cost=200, reach=_SE, n=_n, menu=_m,
      interactive=False)
    T('C23', 'shells:session', cost=100, reach=['end', 'fine'], n=2, menu=_m,
      run=True, first=['push', 'set 0 0 2'])
    T('C23', 'shells:session', D, cost=5000, reach=_SE, n=_n + 1, menu=_m,
      run=True, interactive=False)
    T('C23', 'shells:session', D, cost=9000, reach=_SE, n=_n + 2, menu=_m)
T('C23', 'shells:session', cost=200, reach=_SE, n=2, menu=_STACK + _LOOP,
  first=['set 0 0 2', 'loop 3', 'push', 'get 0 0'])
T('C23', 'shells:session', cost=200, reach=_SE, n=2, menu=_STACK + _LOOP,
  first=['push', 'set 0 0 2', 'push', 'set 1 0 1', 'push'])
for _i in True, False:
    T('C23', 'shells:session', cost=200, reach=_SE, n=2,
      menu=_LOOP + ['push', 'loop 1; stack'], interactive=_i,
      first=['loop 2', 'push', 'stack', 'loop end'])
T('C23', 'shells:session', D, cost=9000, reach=_SE, n=4, interactive=False,
  menu=_LOOP + ['push', 'loop 1; stack'],
  first=['loop 2', 'push', 'stack', 'loop end'])
T('C23', 'shells:session', D, cost=9000, reach=_SE, n=3, menu=_STACK + _LOOP,
  first=['push', 'set 0 0 2', 'push', 'set 1 0 1', 'push'])
for _p, _s, _n in (0, 0, []), (2, 2, ['a', 'b']), (3, 1, []), (0, 2, ['x']):
    T('C23', 'shells:passing', cost=50, npos=_p, nspecial=_s, names=_n)
info('C23', 'input of one to four (thorough: longer) lines of up to four '
     '(thorough: seven) letters, comments, spaces, wraps and semicolons; '
     'sequences of two or three (thorough: five) commands of three lists of '
     '6 to 14, after none to five fixed ones, on 2x2 sudokus; commands with '
     'up to three arguments, two of the objects of the shell and two named '
     'arguments')

for _n, _k, _a in (('set', [2, 3], 'a=?!'), ('set', [4], 'ab=?'),
                   ('generate', [1, 1, 1, 1], 'a=!'), ('exit', [], 'a'),
                   ('bogus', [1], 'a='), ('get', [3, 2], 'ab=')):
    T('C24', 'shells:arguments', cost=50, lengths=_k, alphabet=_a, name=_n,
      reach=['unknown'] if _n == 'bogus' else ['accepted'])
T('C24', 'shells:arguments', D, cost=900, lengths=[4, 3, 2],
  alphabet='a=?!', name='set', reach=['accepted', 'refused'])
_WORDS = ['1', '-3', 'set', 'end', 'x=1', 'x', '{[]:1}', 'x=end', "'a'",
          '2,3', '', 'x=', 'y=None', '[]', '1+', 'x==1', 'loop']
for _n in 0, 1, 2:
    T('C24', 'shells:literals', cost=100, n=_n, menu=_WORDS,
      reach=['accepted', 'unknown'] + (['refused'] if _n else []))
T('C24', 'shells:literals', D, cost=3000, n=3, menu=_WORDS,
  reach=['accepted', 'unknown', 'refused'])
T('C24', 'shells:signatures', cost=20)
T('C24', 'shells:helping', cost=50)
info('C24', 'one to four arguments of up to four letters with arbitrary '
     'values of literals; up to two (thorough: three) arguments of a list '
     'of 17 with the real values; 12 parameter lists; all commands')

_MOVES = ['r1c1=1', 'r2c1<>1', 'undo', 'redo', 'r1c2=2']
_OTHER = ['candidates', 'hint', 'check', 'conflicts', 'settings', '', 'undo',
          'r1c1=1', 'x', ' redo', '-2 r1c2,r2c2']
T('C25', 'game:play', cost=300, w=2, h=1, n=3, menu=_MOVES, filled=[])
T('C25', 'game:play', cost=300, w=2, h=1, n=2, menu=_MOVES, filled=[],
  first=['r2c2=1', 'r1c2=2', 'undo'])
T('C25', 'game:play', cost=300, w=1, h=2, n=3, menu=_MOVES, filled=[],
  remove=False)
T('C25', 'game:play', cost=300, w=1, h=2, n=2, menu=_OTHER, filled=[],
  fill=True, first=['r1c1=2', 'r1c1=1', 'undo'])
T('C25', 'game:play', cost=300, w=2, h=1, n=2, menu=_OTHER,
  filled=[(0, 0)], auto=False)
T('C25', 'game:play', cost=400, w=2, h=2, n=2, menu=_MOVES + [
    'r3c3=5', 'r1c2=', 'r9c9=1'], filled=[(0, 2)], first=['r4c4=1'])
T('C25', 'game:play', D, cost=9000, w=2, h=1, n=5, menu=_MOVES, filled=[])
T('C25', 'game:play', D, cost=9000, w=2, h=1, n=3, menu=_OTHER, filled=[],
  first=['r2c2=1', 'r1c2=2', 'undo'])
T('C25', 'game:play', D, cost=9000, w=2, h=2, n=4, menu=_MOVES,
  filled=[(0, 2), (1, 1)])
for _s in 'mm', 'mmuu', 'mum', 'mmur', 'mumr', 'u', 'rm', 'mmuumr':
    T('C25', 'game:moves', cost=100, w=2, h=1, shape=_s, filled=[])
for _s in 'mmumur', 'mmmuuum', 'mmurmur':
    T('C25', 'game:moves', D, cost=2000, w=2, h=1, shape=_s, filled=[])
T('C25', 'game:moves', cost=100, w=1, h=2, shape='mmum', filled=[(0, 0)],
  fill=True)
T('C25', 'game:moves', D, cost=900, w=2, h=2, shape='mm', filled=[(0, 0)])
T('C25', 'game:moves', cost=100, w=2, h=2, shape='mumu', filled=[(0, 0)],
  remove=False)
T('C25', 'game:reports', cost=200, w=2, h=1, n=2, first=['r1c2=2'],
  menu=['hint', 'check', 'conflicts', 'settings', 'undo', 'r1c1=1', 'redo',
        'nonsense', 'r1c2=1'], filled=[(0, 0)],
  reach=['end', 'hint', 'right', 'wrong'])
T('C25', 'game:reports', cost=200, w=2, h=2, n=3, first=['hint'],
  menu=['hint', 'r1c2<>3', 'r1c2=2', 'undo'], reach=['end', 'hint'],
  filled=[(0, 0), (1, 2), (2, 3)])
T('C25', 'game:reports', D, cost=4000, w=2, h=2, n=4, first=['hint'],
  menu=['hint', 'r1c2<>3', 'r2c1<>4', 'undo'], reach=['end', 'hint'],
  filled=[(0, 0), (1, 2), (2, 3)])
info('C25', 'two or three (thorough: five) lines out of 5 to 11 after none '
     'to three fixed ones; ten (thorough: fourteen) orders of up to six '
     '(seven) moves, undos and redos with arbitrary numbers set or '
     'candidates removed in arbitrary fields; 2x2 and 4x4 sudokus',
     ['the sudoku to start with, its rating and the lines typed in are given '
      'by stand-ins for generate(), rate() and input()'])

# ------------------------------------------------------------- C26, C27
for _w, _h in SMALL + [(3, 3)]:
    T('C26', 'asking:reading', cost=(_w * _h) ** 2, w=_w, h=_h)
    T('C26', 'asking:answers', cost=(_w * _h) ** 2, w=_w, h=_h)
for _n in (['CalculateCandidates', 'NakedSingle', 'HiddenSingle'],
           ['NakedPair'], ['HiddenPair'], ['NakedTriple', 'HiddenTriple'],
           ['PointingPair', 'PointingTriple'],
           ['XWing', 'Swordfish', 'Jellyfish'],
           ['NakedQuad', 'HiddenQuad', 'NakedQuint', 'HiddenQuint']):
    T('C26', 'asking:searching', cost=300, w=2, h=2, names=_n)
    T('C26', 'asking:searching', cost=100, w=3, h=1, names=_n)
for _n in ('PointingPair', 'XWing', 'NakedPair'):
    T('C26', 'asking:searching', D, cost=900, w=3, h=2, names=[_n])
for _n in ('is_unique', 'rate', 'score', 'solve', 'hints', 'first hint',
           'Bruteforce'):
    T('C26', 'asking:solving', Q if _n != 'first hint' else D, cost=100,
      w=2, h=2, what=_n, empty=[(0, 0), (0, 1), (1, 0)],
      free=[(1, 1), (2, 0)])
    T('C26', 'asking:solving', cost=100, w=2, h=1, what=_n, empty=[],
      maybe=_ALL2)
    if _n == 'first hint':
        T('C26', 'asking:solving', cost=150, w=3, h=1, what=_n,
          empty=[], maybe=[(0, 0), (0, 1), (1, 0)])
    T('C26', 'asking:solving', D, cost=500, w=2, h=3, what=_n,
      empty=[(0, 0), (0, 1), (1, 0), (2, 4)], free=[(1, 1), (2, 0)])
for _n in 'dlx', 'bf':
    for _f, _r in ('yielded', ['end', 'several']), ('abandoned', FOUND):
        T('C26', 'asking:' + _f, cost=300, reach=_r, w=2, h=2, name=_n,
          empty=_CROSS, free=[(0, 0), (1, 2), (3, 3)])
        T('C26', 'asking:' + _f, cost=300, reach=_r, w=2, h=3, name=_n,
          empty=_THIRD6, free=[(0, 0)], maybe=[(3, 3)])
        T('C26', 'asking:' + _f, cost=300, reach=_r, w=2, h=1, name=_n,
          empty=[], maybe=_ALL2)
info('C26', 'reading: every state up to 9x9; searching steps: every state '
     'of 3x3 and 4x4 sudokus; solving, rating, hints: all values of two to '
     'four fields and all stored candidates of 2x2 and 4x4 sudokus; '
     'solutions: 4x4 and 6x6 sudokus with up to three open givens')

for _w, _h in SMALL + [(3, 3), (2, 4), (5, 2)]:
    T('C27', 'steps:calculate', cost=(_w * _h) ** 2, reach=FOUND, w=_w,
      h=_h)
for _o, _v, _t in (([(0, 0), (0, 1), (1, 0), (2, 1)], (1, 2, 3), Q),
                   ([(0, 0), (0, 1), (2, 0), (3, 0)], (1, 2, 4), Q),
                   ([(0, 0), (1, 1), (2, 2), (3, 3), (0, 1)], (1, 2), Q),
                   ([(0, 0), (0, 2), (2, 0), (2, 2), (3, 2)], (1, 3), Q),
                   ([(0, 0), (0, 1), (0, 3), (0, 2)], (1, 2, 3, 4), D)):
    T('C27', 'hinting:listing', _t, cost=200, reach=['end', 'several'],
      w=2, h=2, open_=_o, vals=_v)
T('C27', 'hinting:listing', cost=200, reach=['end', 'several'], w=3, h=2,
  open_=[(0, 0), (0, 1), (0, 3), (2, 1)], vals=(1, 2, 4))
T('C27', 'hinting:listing', D, cost=200, reach=['end', 'several'], w=3,
  h=3, open_=[(0, 0), (0, 1), (0, 3), (2, 1)], vals=(1, 2, 4))
for _o, _v, _s, _p, _t in (
        ([(0, 0), (0, 1), (2, 1)], (1, 2), 2, 5, Q),
        ([(0, 0), (0, 1), (2, 1), (1, 0)], (1, 2, 3, 4), 1, 9, Q),
        ([(0, 0), (0, 2), (2, 0), (2, 2)], (1, 3), 2, 4, Q),
        ([(0, 0), (0, 1), (2, 1)], (1, 2, 3, 4), 3, 3, D)):
    T('C27', 'hinting:following', _t, cost=300, w=2, h=2,
      reach=['end'] + ['hint %d' % (i + 1) for i in range(_s)],
      open_=_o, vals=_v, steps=_s, top=_p)
T('C27', 'hinting:comparing', cost=50, reach=['end', 'equal'],
  kinds=['NakedPair', 'XWing'])
T('C27', 'hinting:comparing', cost=50, reach=['chain', 'end', 'equal'],
  kinds=['PointingPair'], three=True)
info('C27', 'calculating candidates: every state up to 10x10; lists of '
     'hints: every set of two to four candidates in four or five open '
     'fields of 4x4 and 6x6 sudokus; any one or two hints (thorough: three) '
     'one after another; comparing: steps with two clues, one affected '
     'field and two values')

# ------------------------------------------------------------- C20 to C22
def _block(rows, cols):
    return [(r, c) for r in rows for c in cols]


for _w, _h in (1, 1), (2, 1), (1, 2), (3, 1), (1, 3):
    for _b in None, True, False:
        T('C20', 'notes:round_trip', w=_w, h=_h, boxes=_b)
for _b in True, False:
    T('C20', 'notes:round_trip', cost=30, w=2, h=2, boxes=_b)
    T('C20', 'notes:orders', cost=5, w=2, h=2, boxes=_b,
      among=_block((0, 1, 3), (0, 2, 3)))
T('C20', 'notes:orders', cost=5, w=3, h=1, boxes=None,
  among=_block((0, 1), (0, 1)) + [(2, 2)])
T('C20', 'notes:orders', cost=5, w=3, h=3, boxes=None,
  among=_block((0, 5), (0, 4, 8)))
T('C20', 'notes:orders', cost=5, w=2, h=5, boxes=None,
  among=_block((0, 9), (0, 9)))
T('C20', 'notes:round_trip', cost=50, w=3, h=3, boxes=False,
  among=_block((0, 1, 2), range(9)))
T('C20', 'notes:round_trip', cost=90, w=3, h=3, boxes=True,
  among=_block(range(6), range(6)))
T('C20', 'notes:round_trip', cost=60, w=3, h=3,
  among=_block((0, 1), range(9)))
T('C20', 'notes:round_trip', cost=60, w=3, h=2, boxes=False,
  among=_block((0, 2, 4, 5), range(6)))
T('C20', 'notes:round_trip', cost=140, w=5, h=2, boxes=False,
  among=_block((0, 8, 9), (0, 3, 8, 9)))
T('C20', 'notes:round_trip', cost=60, w=4, h=3, boxes=True,
  among=_block((0, 8), (0, 3, 9)))
for _s in ';', ' ', ', ', '/', '  ', '\n':
    T('C20', 'notes:round_trip', cost=20, w=2, h=2, sep=_s,
      among=_block((0, 1), (0, 1)) + [(3, 3)])
for _s in '.', ';', ' ':
    T('C20', 'notes:round_trip', cost=20, w=2, h=2, nsep=_s,
      among=_block((0, 1), (0, 1)) + [(3, 3)])
    T('C20', 'notes:round_trip', cost=40, w=2, h=5, nsep=_s, sep=';',
      among=_block((0, 9), (0, 9)) + [(3, 3)])
for _w, _h in (3, 3), (2, 5), (4, 2), (1, 4):
    for _b in None, True, False:
        T('C20', 'notes:single', cost=10, w=_w, h=_h, boxes=_b)
T('C20', 'notes:sizes', nums=[-1, 0, 1, 2, 2.5, 0.5])
T('C20', 'notes:round_trip', D, cost=900, w=3, h=2, boxes=True,
  among=_block((0, 1, 2, 3), range(6)) + [(4, 0), (4, 5)])
T('C20', 'notes:round_trip', D, cost=900, w=2, h=2)
T('C20', 'notes:round_trip', D, cost=900, w=4, h=3, boxes=True,
  among=_block((0, 8, 9), (0, 3, 8, 9)))
T('C20', 'notes:orders', D, cost=900, w=2, h=2, boxes=None,
  among=_block((0, 1, 2, 3), (0, 1, 3)))
info('C20', 'every set of fields of sudokus with two, three and four rows; '
     'every set out of up to 36 fields (in up to four rows or boxes) of 6x6, '
     '9x9, 10x10 and 12x12 sudokus; separators of one or two characters; '
     'every single field, also outside the sudoku')

_RC, _BP = [('r', 2), ('c', 1)], [('b', 1), ('p', 2)]
for _w, _h, _g, _k in (
        (3, 3, [_RC], {}), (3, 3, [_BP], {}), (2, 3, [_RC, _BP], {}),
        (3, 2, [[('p', 2), ('r', 1)], [('c', 1), ('b', 2)]], {}),
        (3, 3, [[('r', 2), ('c', 2), ('b', 2), ('p', 2)]], {}),
        (2, 3, [[('r', 2), ('p', 1)], [('b', 1)], [('c', 2)]], {'top': 7}),
        (3, 3, [[('c', 3), ('p', 3)], [('b', 2), ('r', 3)]],
         {'sep': ';', 'nsep': '.'}),
        (3, 3, [_RC], {'gaps': list(range(7))}),
        (3, 3, [[('r', 1)], [('p', 1), ('b', 2)]],
         {'gaps': list(range(9))}),
        (3, 3, [[('r', 1)], [('p', 1), ('b', 2)]], {'sep': ', '}),
        (5, 2, [_RC, _BP], {'top': 11, 'nsep': '/'}),
        (4, 3, [_RC, [('p', 2)]], {'gaps': [1, 3]})):
    T('C21', 'notes:meaning', cost=20, w=_w, h=_h, groups=_g, **_k)
T('C21', 'notes:meaning', D, cost=200, w=4, h=4, gaps=[0, 2, 5],
  groups=[[('r', 2), ('c', 2)], [('b', 1), ('p', 2)]])
T('C21', 'notes:meaning', D, cost=200, w=3, h=3, gaps=[0, 1, 2, 3, 5, 8],
  groups=[_RC, _BP, [('p', 1)], [('c', 1), ('r', 3)]])
for _w, _h, _c, _l, _t in (
        (2, 2, 'rcbp,125 x', 4, Q), (2, 2, 'rc,12 ', 6, Q),
        (3, 3, 'rp,90=\n', 5, Q), (2, 1, 'bp,12', 5, Q),
        (2, 2, 'r,1', 7, Q), (2, 2, 'rcbp,125 x', 6, D),
        (2, 2, 'rb,1', 9, D), (1, 2, 'rcbp3,', 7, D),
        (3, 3, 'rcb,19', 7, D)):
    T('C21', 'notes:any_text', _t, cost=90, w=_w, h=_h, chars=_c,
      length=_l, reach=['end', 'refused', 'accepted'])
info('C21', 'well-formed texts: every number in up to four groups of up to '
     'four parts with up to three numbers, whitespace of every kind in up '
     'to nine gaps, up to 16x16; any text of up to 4 (all kinds of '
     'characters) or 7 characters (thorough: 6 or 9)')

for _w, _h, _a in ((2, 2, _block((0, 1), (0, 1))),
                   (3, 3, [(0, 0), (0, 1), (1, 1), (0, 8)]),
                   (1, 3, _block((0, 1, 2), (0, 2)))):
    T('C22', 'notes:action_trip', cost=20, w=_w, h=_h, kind='set', among=_a)
for _w, _h, _a in ((2, 2, _block((0, 3), (0, 1))),
                   (2, 3, [(0, 0), (0, 1), (5, 5)])):
    T('C22', 'notes:action_trip', cost=50, w=_w, h=_h, kind='remove',
      among=_a)
T('C22', 'notes:action_trip', D, cost=90, w=3, h=3, kind='remove',
  among=[(0, 0), (0, 1), (8, 8)])
T('C22', 'notes:action_trip', D, cost=90, w=5, h=2, kind='set',
  among=_block((0, 9), (0, 9)))
for _f in '=', '<>', '-':
    for _l in 'rc', 'bp', 'b', 'pr':
        T('C22', 'notes:action_text', cost=5, w=3, h=3, form=_f, letters=_l)
    T('C22', 'notes:action_text', cost=5, w=2, h=3, form=_f, letters='rb')
for _c in 'r1=', 'r1<>', 'r1- =', 'r1c=x':
    T('C22', 'notes:bad_action', cost=20, w=2, h=2, chars=_c, length=6,
      reach=['end', 'refused', 'accepted'])
for _k in 'set', 'remove':
    for _w, _h in SMALL + [(3, 3)]:
        T('C22', 'notes:applied', cost=9, w=_w, h=_h, kind=_k)
info('C22', 'every number and candidate set for every set of three to six '
     'fields of sudokus up to 9x9; texts: one field or several, every number '
     'and up to three digits, blanks around; any text of up to six '
     'characters; applying: every state and every set of fields up to 9x9')


# ------------------------------------------- whatever has been asked before
def asked_before(pid, harness, *sizes, reach=('end', ), cost=200, **kw):
    for w, h in sizes:
        T(pid, harness, cost=cost, reach=reach, w=w, h=h, again=True, **kw)


for _f in 'calc', 'init':
    asked_before('C01', 'candidates:' + _f, (2, 3), (3, 2), (2, 2))
for _f in 'methods', 'numbered':
    asked_before('C02', 'geometry:' + _f, (2, 3), (3, 2), (4, 2), (1, 3))
asked_before('C03', 'conflicts:whole', (3, 2), (2, 1), (1, 3))
asked_before('C03', 'conflicts:solved', (2, 3), (2, 2),
             reach=['solved', 'unsolved'])
asked_before('C04', 'steps:naked_single', (2, 3), (1, 3), reach=FOUND)
asked_before('C04', 'steps:hidden_single', (3, 1), (2, 2), reach=FOUND)
asked_before('C05', 'steps:naked', (3, 1), (2, 2), reach=FOUND,
             cls='NakedPair', n=2)
asked_before('C05', 'steps:naked', (1, 4), reach=FOUND, cls='NakedTriple',
             n=3)
asked_before('C06', 'steps:hidden', (3, 1), (2, 2), reach=FOUND,
             cls='HiddenPair', n=2)
asked_before('C07', 'steps:pointing', (2, 2), reach=FOUND,
             cls='PointingPair', n=2)
asked_before('C08', 'steps:fish', (3, 1), (2, 2), reach=FOUND,
             cls='XWing', n=2)
asked_before('C08', 'steps:fish', (1, 4), reach=FOUND, cls='Swordfish', n=3)
for _p, _n in ('C09', 'dlx'), ('C10', 'bf'):
    asked_before(_p, 'complete:exact', (2, 1), (1, 2), reach=ANY, name=_n,
                 empty=[], maybe=_ALL2)
    asked_before(_p, 'complete:exact', (3, 2), (2, 3), reach=ANY, name=_n,
                 empty=[(0, 0), (0, 1)], free=[(0, 2)])
    asked_before(_p, 'complete:exact', (2, 2), reach=ANY, name=_n,
                 empty=_CROSS, free=[(0, 0), (3, 3)])
asked_before('C11', 'complete:unique', (2, 1), reach=UN, empty=[(0, 0)])
asked_before('C11', 'complete:unique', (3, 2), (2, 3), reach=UN,
             empty=[(0, 0), (1, 1)], free=[(0, 2)])
for _p, _f, _r in ('C12', 'solved', SR), ('C13', 'rated', ['end', 'work']):
    asked_before(_p, 'stepwise:' + _f, (2, 1), reach=_r, empty=[],
                 maybe=_ALL2)
    asked_before(_p, 'stepwise:' + _f, (3, 2), (2, 3), reach=_r,
                 empty=[(0, 0), (0, 1)], free=[(0, 2)])
for _k in (dict(), dict(cands=True), dict(sep=' ', row_sep='\n')):
    asked_before('C16', 'text:round_trip', (2, 3), (3, 1), **_k)
asked_before('C18', 'text:printed', (2, 3), (3, 2), few=[(0, 0), (4, 5)],
             vals=(1, 2, 6))
asked_before('C20', 'notes:round_trip', (3, 2), (1, 3),
             among=[(0, 0), (0, 1), (1, 2), (2, 1)])
asked_before('C27', 'steps:calculate', (3, 2), (1, 3), reach=FOUND)
asked_before('C27', 'hinting:listing', (3, 2), reach=['end', 'several'],
             open_=[(0, 0), (0, 1), (0, 3)], vals=(1, 2))

for _p in sorted({_t for _t in TASKS for _k in TASKS[_t]
                  if _k['params'].get('again')}):
    INFO[_p]['bounds'] += (
        '; small sudokus also after the same questions about a sudoku with '
        'boxes of the other shape and about the same one with another first '
        'field')
