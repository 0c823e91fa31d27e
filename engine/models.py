"""Models of the builtins and library functions the code uses."""
import builtins
import collections
import functools
import itertools
import math
import operator
import re
import string as _string
import types

from .aig import simp, and2, or2, ite, iff, or_all, and_all, under
from .values import (
    R, K, Union, SBool, Seq, PSet, PDict, PObj, PMethod, PFunc, BMethod,
    PSuper, is_concrete, lift_bool, mkbool, merge, merge_many, mkseq, akey)
from . import rt
from .rt import (
    Unsupported, MODELS, METHODS, PGen, PView, PIter, PairSrc, Loop, Frame,
    call, callm, truth, eq, lt, drain, each, throw, decide_here, definite,
    concretize, hostify, wrap, keys, m_len, attr, cls_lookup, MISSING,
    concat_str, union_str, source, SRC_CLASSES, host_key, set_bin,
    set_assign, rel, list_append, list_extend, list_pop, dict_set, dict_get,
    dict_del, dict_copy, dict_update, set_add, set_discard, NOTHING,
    seqkind, seq_pairs, pytype, tname, mkcount, lift_call, setlike)


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


def method(kind, *names):
    def deco(m):
        for k in kind.split():
            for n in names or (m.__name__.split('_', 1)[1],):
                METHODS.setdefault(k, {})[n] = m
        return m
    return deco


MODELS[len] = m_len
NODEF = object()


# ------------------------------------------------------------ constructors
def pair_list(pairs, kind='list'):
    items = [x for _, x in pairs]
    guards = [g for g, _ in pairs]
    if kind == 'list':
        s = Seq('list', items,
                None if all(g == 1 for g in guards) else guards)
        if s.guards is not None:
            rt.norm_list(s)
        return s
    return mkseq(kind, items, guards)


@model(list)
def m_list(v=()):
    return pair_list(drain(v))


@model(tuple)
def m_tuple(v=()):
    if v.__class__ is tuple:
        return v
    if v.__class__ is Union and all(
            isinstance(x, tuple) or x.__class__ is Seq and x.kind == 'tuple'
            for _, x in v.alts):
        return v
    return pair_list(drain(v), 'tuple')


@model(set)
def m_set(v=()):
    s = PSet()
    set_fill(s, v)
    return s


def set_fill(s, v):
    if v.__class__ is PSet:
        s.e = {k: p for k, p in v.e.items() if p}
        return
    for g, x in drain(v):
        if g:
            for l, k in keys(x):
                gl = and2(g, l)
                if gl:
                    s.e[k] = or2(s.e.get(k, 0), gl)


@model(frozenset)
def m_frozenset(v=()):
    if v.__class__ is PSet and v.frozen:
        return v
    s = PSet(frozen=True)
    if v.__class__ is Union and all(
            setlike(x) is not None for _, x in v.alts):
        for l, x in v.alts:
            for k, p in setlike(x).e.items():
                q = and2(l, p)
                if q:
                    s.e[k] = or2(s.e.get(k, 0), q)
        return s
    set_fill(s, v)
    return s


@model(dict)
def m_dict(v=None, **kw):
    d = PDict()
    if v is not None:
        dict_update(d, v)
    for k, x in kw.items():
        dict_set(d, k, x)
    return d


@model(collections.OrderedDict)
def m_odict(v=None, **kw):
    d = m_dict(v, **kw)
    d.cls = collections.OrderedDict
    return d


@model(collections.defaultdict)
def m_defaultdict(factory=None, v=None, **kw):
    d = m_dict(v, **kw)
    d.cls = collections.defaultdict
    d.factory = factory
    return d


rt.COUNTER = collections.Counter


@model(collections.Counter)
def m_counter(v=None):
    d = PDict(cls=collections.Counter)
    if v is not None:
        counter_update(d, v)
    return d


def counter_update(d, v):
    if v.__class__ is PDict:
        raise Unsupported("Counter from a mapping")
    g = R.g
    for p, x in drain(v):
        R.g = and2(g, p)
        if R.g:
            dict_set(d, x, rt.bo_add(rt.dict_getitem(d, x), 1))
    R.g = g


@model(collections.deque)
def m_deque(v=(), maxlen=None):
    if maxlen is not None:
        raise Unsupported("deque(maxlen)")
    s = pair_list(drain(v))
    s.kind = 'deque'
    return s


@model(bool)
def m_bool(v=False):
    return mkbool(truth(v))


@model(int)
def m_int(v=0, base=NODEF):
    c = v.__class__
    if base is not NODEF:
        return lift_call(int, (v, base), None)
    if c is int:
        return v
    if c is bool or c is SBool:
        return rt.as_int(v)
    if c is Union:
        return each(v, m_int)
    if c is str or c is float:
        try:
            return int(v)
        except ValueError as e:
            throw(ValueError(*e.args))
    if c is Seq and v.kind == 'str':
        ks = str_alts(v, 200)
        if ks is None:
            return m_int(concretize(v))
        return each(Union(ks), m_int)
    if c is PObj:
        f = cls_lookup(c, '__int__')
        if f is not MISSING:
            return call(f, (v,))
    throw(TypeError("int() argument must be a string, a bytes-like object or "
                    "a real number, not '%s'" % tname(v)))


@model(float)
def m_float(v=0.0):
    return lift_call(float, (v,), None)


def str_alts(v, limit):
    """Alternatives of a short symbolic string, or None if too many."""
    out = [(1, '')]
    for g, x in v.pairs():
        xs = keys(x)
        new = []
        for l, t in out:
            for m, k in xs:
                p = and2(l, and2(g, m))
                if p:
                    new.append((p, t + k))
            if g != 1:
                p = and2(l, g ^ 1)
                if p:
                    new.append((p, t))
        out = new
        if len(out) > limit:
            return None
    m = {}
    for l, t in out:
        m[t] = or2(m.get(t, 0), l)
    return [(l, t) for t, l in m.items()]


@model(str)
def m_str(v=''):
    c = v.__class__
    if c is str:
        return v
    if c is Seq and v.kind == 'str':
        return v
    if is_concrete(v) and not isinstance(v, tuple):
        return str(v)
    if c is Union:
        return each(v, m_str)
    if c is SBool:
        return Union([(v.lit, 'True'), (v.lit ^ 1, 'False')])
    if c is PObj:
        f = cls_lookup(v.cls, '__str__')
        if f.__class__ in (types.FunctionType, PFunc):
            return call(f, (v,))
        return m_repr(v)
    if isinstance(v, BaseException):
        return exc_str(v)
    return m_repr(v)


def exc_str(e):
    a = e.args
    if isinstance(e, KeyError) and len(a) == 1:
        return m_repr(a[0])
    if not a:
        return ''
    if len(a) == 1:
        return m_str(a[0])
    return m_repr(a)


@model(repr)
def m_repr(v):
    c = v.__class__
    if is_concrete(v) and not isinstance(v, tuple) and c is not frozenset:
        return repr(v)
    if c is Union:
        return each(v, m_repr)
    if c is SBool:
        return Union([(v.lit, 'True'), (v.lit ^ 1, 'False')])
    if c is Seq and v.kind == 'str':
        return repr(concretize(v))
    if c is PObj:
        f = cls_lookup(v.cls, '__repr__')
        if f.__class__ in (types.FunctionType, PFunc):
            return call(f, (v,))
        return '<%s object>' % v.cls.__name__
    if isinstance(v, tuple) or c is Seq:
        if isinstance(v, tuple) and c is not tuple:
            f = cls_lookup(c, '__repr__')
            if hasattr(c, '_fields'):
                parts = [c.__name__ + '(']
                for i, (n, x) in enumerate(zip(c._fields, v)):
                    parts.append('%s%s=' % (', ' if i else '', n))
                    parts.append(m_repr(x))
                return concat_str(parts + [')'])
        lst = c is Seq and v.kind in ('list', 'deque')
        v = definite(v)
        items = v.items if v.__class__ is Seq else v
        parts = ['[' if lst else '(']
        for i, x in enumerate(items):
            if i:
                parts.append(', ')
            parts.append(m_repr(x))
        if not lst and len(items) == 1:
            parts.append(',')
        parts.append(']' if lst else ')')
        return concat_str(parts)
    if c is PSet or c is PDict:
        return repr(hostify(v))
    if isinstance(v, BaseException):
        parts = [v.__class__.__name__, '(']
        for i, x in enumerate(v.args):
            parts += [', ' if i else '', m_repr(x)]
        return concat_str(parts + [')'])
    if isinstance(v, (type, types.ModuleType)) or c is types.FunctionType:
        return repr(v)
    return '<%s>' % tname(v)


@model(type)
def m_type(*a):
    if len(a) != 1:
        raise Unsupported("type() with three arguments at run time")
    if a[0].__class__ is Union:
        return each(a[0], m_type)
    return pytype(a[0])


@model(object)
def m_object():
    return PObj(object)


@model(slice)
def m_slice(*a):
    return slice(*a)


@model(range)
def m_range(*a):
    a = [concretize(rt.as_int(x)) for x in a]
    for x in a:
        if x.__class__ is not int:
            throw(TypeError("'%s' object cannot be interpreted as an integer"
                            % tname(x)))
    try:
        return range(*a)
    except ValueError as e:
        throw(e)


# -------------------------------------------------------------- iteration
def pgen(gen, name):
    return PGen(gen, name)


@model(iter)
def m_iter(v):
    if v.__class__ in (PGen, PIter):
        return v
    if v.__class__ is PObj:
        f = cls_lookup(v.cls, '__iter__')
        if f is not MISSING:
            r = call(f, (v,))
            return m_iter(r)
    return PIter(source(v))


def firstof(f, it, default):
    """next(it, default) where it is not used again."""
    if f is not next or it.__class__ is not PGen or it.state:
        return call(f, (it, default))
    v = call(PRELUDE['first'], (it, default))
    it.state = 3
    return v


rt.NS['firstof'] = firstof


@model(next)
def m_next(it, default=NODEF):
    if it.__class__ is Union:
        return each(it, lambda x: m_next(x, default))
    if it.__class__ is PGen:
        # the generator must be suspended at one point for every path that
        # can still reach this call
        if R.g != 1:
            g = R.g
            if it.state == 1 and it.gy != g or it.birth != g:
                if not rt.decide(g):
                    raise K
                R.g = simp(R.g)
        g = R.g
        if it.state == 1:
            it.back(g)
        while True:
            live = R.g
            l1 = len(R.losts)
            r = it.step(g)
            if len(R.losts) != l1:
                for l in R.losts[l1:]:
                    g = and2(g, l ^ 1)
            R.g = g
            if not g:
                raise K
            if r is None:
                if default is not NODEF:
                    return default
                throw(StopIteration())
            gy, v = r
            gy = simp(gy)
            if gy == g or under(g, gy) == 1:
                it.gy = g
                return v
            if not gy:
                it.back(0)
                continue
            if decide_here(gy):
                g = R.g
                it.gy = g
                return v
            g = R.g
            it.back(0)
    if it.__class__ is PIter:
        while True:
            r = it.src.nxt()
            if r is None:
                if default is not NODEF:
                    return default
                throw(StopIteration())
            p, x = r
            if p == 1 or p and decide_here(p):
                return x
    if it.__class__ is PObj:
        f = cls_lookup(it.cls, '__next__')
        if f is not MISSING:
            return call(f, (it,))
    throw(TypeError("'%s' object is not an iterator" % tname(it)))


@method('gen', '__next__')
def g_next(it):
    return m_next(it)


@method('gen', 'close')
def g_close(it):
    it.state = 2


def lazy(name):
    """A host generator following the protocol of generated twins."""
    def deco(f):
        @functools.wraps(f)
        def make(*a, **k):
            return PGen(f(*a, **k), name)
        return make
    return deco


def loop_over(v):
    F = Frame()
    return Loop(F, v if v.__class__ in SRC_CLASSES else source(v))


def emit(v):
    """yield helper: use as  R.g = (yield R.g, v) or ..."""


@model(enumerate)
def m_enumerate(v, start=0):
    if v.__class__ is not PGen and not (v.__class__ is PObj):
        pairs = drain(v)
        out = []
        if all(g == 1 for g, _ in pairs):
            return PIter(PairSrc([(1, (i + start, x)) for i, (_, x) in
                                  enumerate(pairs)]))
        cnt = [1]
        for g, x in pairs:
            alts = [(l, k + start) for k, l in enumerate(cnt) if l]
            i = alts[0][1] if len(alts) == 1 else Union(alts)
            out.append((g, (i, x)))
            new = [0] * (len(cnt) + 1)
            for k in range(len(new)):
                new[k] = ite(g, cnt[k - 1] if k else 0,
                             cnt[k] if k < len(cnt) else 0)
            cnt = new
        return PIter(PairSrc(out))
    return call(PRELUDE['enumerate'], (v, start))


@model(map)
def m_map(f, *its):
    if len(its) == 1:
        return call(PRELUDE['map'], (f, its[0]))
    return call(PRELUDE['starmap'], (f, m_zip(*its)))


@model(filter)
def m_filter(f, it):
    if f is None:
        f = bool
    return call(PRELUDE['filter'], (f, it))


@model(itertools.starmap)
def m_starmap(f, it):
    return call(PRELUDE['starmap'], (f, it))


@model(itertools.chain)
def m_chain(*its):
    return call(PRELUDE['chain'], its)


@model(itertools.chain.from_iterable)
def m_chain_from(its):
    return call(PRELUDE['chain_from'], (its,))


@model(itertools.dropwhile)
def m_dropwhile(f, it):
    return call(PRELUDE['dropwhile'], (f, it))


@model(itertools.accumulate)
def m_accumulate(it, func=operator.add):
    return call(PRELUDE['accumulate'], (it, func))


@model(itertools.takewhile)
def m_takewhile(f, it):
    return call(PRELUDE['takewhile'], (f, it))


@model(itertools.islice)
def m_islice(it, *a):
    a = [concretize(x) for x in a]
    s = slice(*a)
    if s.step not in (None, 1):
        raise Unsupported("islice step")
    if it.__class__ is PGen:
        return call(PRELUDE['islice'], (it, s.start or 0, s.stop))
    lst = m_list(it)
    return PIter(source(rt.slice_of(lst, s)))


@model(itertools.count)
def m_count(start=0, step=1):
    return call(PRELUDE['count'], (start, step))


@model(itertools.repeat)
def m_repeat(x, n):
    return PIter(PairSrc([(1, x)] * concretize(n)))


@model(itertools.groupby)
def m_groupby(it, key=None):
    return call(PRELUDE['groupby'], (it, key))


@model(zip)
def m_zip(*its, strict=False):
    ps = [drain(i) for i in its]
    if any(g != 1 for p in ps for g, _ in p):
        ps = [[(1, x) for g, x in p if g == 1 or g and decide_here(g)]
              for p in ps]
    return PIter(PairSrc([(1, tuple(x for _, x in t)) for t in zip(*ps)]))


@model(itertools.zip_longest)
def m_zip_longest(*its, fillvalue=None):
    ps = [[x for g, x in drain(i) if g == 1 or g and decide_here(g)]
          for i in its]
    return PIter(PairSrc([(1, t) for t in itertools.zip_longest(
        *ps, fillvalue=fillvalue)]))


@model(reversed)
def m_reversed(v):
    return PIter(PairSrc(list(reversed(drain(v)))))


def combos(name):
    f = getattr(itertools, name)

    def m(v, r=None):
        pairs = [x for x in drain(v) if x[0]]
        if r is None:
            r = len(pairs)
        r = concretize(r)
        if r < 0:
            throw(ValueError("r must be non-negative"))
        n = len(pairs)

        def gen():
            for ix in f(range(n), r):
                g = 1
                for i in ix:
                    g = and2(g, pairs[i][0])
                    if not g:
                        break
                else:
                    yield g, tuple(pairs[i][1] for i in ix)
        return PIter(PairSrc(gen()))
    return m


MODELS[itertools.combinations] = combos('combinations')
MODELS[itertools.combinations_with_replacement] = combos(
    'combinations_with_replacement')
_perm = combos('permutations')


@model(itertools.permutations)
def m_permutations(v, r=None):
    if r is None:
        v = m_list(v)
        definite(v)
    return _perm(v, r)


@model(itertools.product)
def m_product(*its, repeat=1):
    ps = [[x for x in drain(i) if x[0]] for i in its] * repeat

    def gen():
        if all(g == 1 for p in ps for g, _ in p):
            for t in itertools.product(*[[x for _, x in p] for p in ps]):
                yield 1, t
            return
        for t in itertools.product(*ps):
            g = and_all([x[0] for x in t])
            if g:
                yield g, tuple(x[1] for x in t)
    return PIter(PairSrc(gen()))


# -------------------------------------------------------------- reductions
@model(any)
def m_any(v):
    if v.__class__ is PGen:
        return call(PRELUDE['any'], (v,))
    return mkbool(or_all([and2(g, truth_of(g, x)) for g, x in drain(v)]))


@model(all)
def m_all(v):
    if v.__class__ is PGen:
        return call(PRELUDE['all'], (v,))
    return mkbool(and_all([and2(g, truth_of(g, x) ^ 1) ^ 1
                           for g, x in drain(v)]))


def truth_of(g, x):
    return rt.truth_in(g, x)


@model(sum)
def m_sum(v, start=0):
    pairs = drain(v)
    if start == 0 and all(lift_bool(x) is not None or x.__class__ is int and
                          x in (0, 1) for _, x in pairs):
        return mkcount([and2(g, rt.truth(x)) for g, x in pairs])
    if start.__class__ is Seq and start.kind == 'list' and all(
            x.__class__ is Seq and x.kind == 'list' for _, x in pairs):
        items = list(start.items)
        guards = [l for l, _ in start.pairs()]
        for g, x in pairs:
            for l, y in x.pairs():
                l = and2(g, l)
                if l:
                    items.append(y)
                    guards.append(l)
        return Seq('list', items, None if all(l == 1 for l in guards)
                   else guards)
    acc = start
    for g, x in pairs:
        if g == 1:
            acc = rt.bo_add(acc, x)
        elif g:
            save = R.g
            R.g = and2(save, g)
            if R.g:
                try:
                    t = rt.bo_add(acc, x)
                except K:
                    R.g = 0
                    t = acc
            else:
                t = acc
            R.g = save
            acc = merge(g, t, acc)
    return acc


def _minmax(op):
    def m(*a, key=None, default=NODEF):
        vals = drain(a[0]) if len(a) == 1 else [(1, x) for x in a]
        if not vals:
            if default is not NODEF:
                return default
            throw(ValueError("%s() iterable argument is empty" % op))
        if key is None and all(g == 1 and x.__class__ is int
                               for g, x in vals):
            return (min if op == 'min' else max)(x for _, x in vals)
        have = 0
        best = bk = None
        if R.fork:
            vals = [(1, x) for g, x in vals if g == 1 or decide_here(g)]
            for g, x in vals:
                k = x if key is None else call(key, (x,))
                if have == 0 or decide_here(lt(
                        k, bk, 'lt' if op == 'min' else 'gt')):
                    have, best, bk = 1, x, k
            if have:
                return best
            if default is not NODEF:
                return default
            throw(ValueError("%s() iterable argument is empty" % op))
        g0 = R.g
        for g, x in vals:
            if not g:
                continue
            gg = and2(g0, g)
            if not gg:
                continue
            R.g = gg
            try:
                k = x if key is None else call(key, (x,))
                if have == 0:
                    have, best, bk = g, x, k
                    R.g = g0
                    continue
                better = lt(k, bk, 'lt' if op == 'min' else 'gt')
            except K:
                R.g = g0
                continue
            R.g = g0
            take = and2(g, or2(have ^ 1, better))
            best = merge(take, x, best)
            bk = merge(take, k, bk)
            have = or2(have, g)
        R.g = g0
        miss = under(R.g, have ^ 1)
        if miss:
            if default is not NODEF:
                return merge(miss, default, best)
            throw(ValueError("%s() iterable argument is empty" % op),
                  miss if have else 1)
        return best
    return m


MODELS[min] = _minmax('min')
MODELS[max] = _minmax('max')


def sort_pairs(pairs, key=None, reverse=False):
    pairs = [p for p in pairs if p[0]]
    reverse = bool(concretize(reverse))
    if R.fork:
        pairs = [(1, x) for g, x in pairs if g == 1 or decide_here(g)]
    g0 = R.g
    ks = []
    for g, x in pairs:
        if key is None:
            ks.append(x)
            continue
        R.g = and2(g0, g)
        if not R.g:
            ks.append(0)
            continue
        try:
            ks.append(call(key, (x,)))
        except K:
            ks.append(None)
        R.g = g0
    R.g = g0
    if all(is_concrete(k) for k in ks):
        try:
            order = sorted(range(len(ks)), key=lambda i: ks[i],
                           reverse=reverse)
            return [pairs[i] for i in order]
        except TypeError as e:
            if all(g == 1 for g, _ in pairs):
                throw(TypeError(*e.args))
            # perhaps never present together: compare pair by pair
    n = len(pairs)
    if n == 1:
        return pairs
    if R.fork:
        op = 'gt' if reverse else 'lt'
        out = []
        for i in range(n):
            j = len(out)
            while j and decide_here(lt(ks[i], ks[out[j - 1]], op)):
                j -= 1
            out.insert(j, i)
        return [pairs[i] for i in out]
    # before[i][j]: element i comes before element j (when both present)
    before = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            both = and2(pairs[i][0], pairs[j][0])
            if not both:
                continue
            R.g = and2(g0, both)
            if not R.g:
                R.g = g0
                continue
            # j is earlier in the input; stable
            try:
                l = lt(ks[i], ks[j], 'gt' if reverse else 'lt')
            except K:
                l = 0
            R.g = g0
            before[i][j] = l
            before[j][i] = l ^ 1
    out_alts = [[] for _ in range(n)]
    for i in range(n):
        cnt = rt.counter([and2(pairs[j][0], before[j][i])
                          for j in range(n) if j != i])
        for k, l in enumerate(cnt):
            p = and2(pairs[i][0], l)
            if p and and2(g0, p):
                out_alts[k].append((p, pairs[i][1]))
    out = []
    total = rt.counter([g for g, _ in pairs])
    for k in range(n):
        if out_alts[k]:
            p = or_all(total[k + 1:])
            out.append((p, merge_many(out_alts[k])))
    return out


@model(sorted)
def m_sorted(v, key=None, reverse=False):
    return pair_list(sort_pairs(drain(v), key, reverse))


@model(abs)
def m_abs(v):
    return lift_call(abs, (v,), None)


for _f in (round, divmod, ord, chr, pow, bin, hex, math.sqrt, math.floor,
           math.ceil, math.log, format):
    MODELS[_f] = (lambda _f: lambda *a: lift_call(_f, a, None))(_f)
if hasattr(math, 'isqrt'):
    MODELS[math.isqrt] = lambda v: lift_call(math.isqrt, (v,), None)
    MODELS[math.comb] = lambda *v: lift_call(math.comb, v, None)


@model(hash)
def m_hash(v):
    raise Unsupported("hash()")


@model(id)
def m_id(v):
    return id(v)


@model(print)
def m_print(*args, **kw):
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(kw.get('sep', ' '))
        parts.append(m_str(a))
    parts.append(kw.get('end', '\n'))
    f = kw.get('file')
    text = concat_str(parts)
    if f is not None and f.__class__ is PObj:
        call(attr(f, 'write'), (text,))
        return None
    R.out.append((R.g, text))


@model(callable)
def m_callable(v):
    return v.__class__ in (PFunc, PMethod, BMethod) or callable(v) and \
        not isinstance(v, (Seq, PSet, PDict, PObj, Union)) or \
        v.__class__ is PObj and cls_lookup(v.cls, '__call__') is not MISSING


@model(isinstance)
def m_isinstance(v, t):
    if v.__class__ is Union:
        return mkbool(or_all([and2(l, truth(m_isinstance(x, t)))
                              for l, x in v.alts]))
    if t.__class__ is tuple:
        return any(m_isinstance(v, x) for x in t)
    if t.__class__ is Seq:
        return any(m_isinstance(v, x) for x in t.items)
    try:
        if v.__class__ in (PFunc, PMethod) and t is collections.abc.Callable:
            return True
        return issubclass(pytype(v), t)
    except TypeError as e:
        throw(e)


@model(issubclass)
def m_issubclass(c, t):
    if c.__class__ is Union:
        return each(c, lambda x: m_issubclass(x, t))
    if not isinstance(c, type):
        throw(TypeError("issubclass() arg 1 must be a class"))
    try:
        return issubclass(c, t)
    except TypeError as e:
        throw(e)


@model(getattr)
def m_getattr(o, name, default=NODEF):
    name = concretize(name)
    if default is NODEF:
        return attr(o, name)
    x = m_hasattr(o, name)
    if x is True:
        return attr(o, name)
    if x is False:
        return default
    return call(PRELUDE['getattr'], (o, name, default))


@model(hasattr)
def m_hasattr(o, name):
    name = concretize(name)
    if o.__class__ is PObj:
        if o.attrs.get(name).__class__ is rt.Hist:
            return call(PRELUDE['hasattr'], (o, name))
        return name in o.attrs or cls_lookup(o.cls, name) is not MISSING
    if o.__class__ is Union:
        return each(o, lambda x: m_hasattr(x, name))
    if isinstance(o, (type, types.ModuleType)):
        return hasattr(o, name)
    return hasattr(pytype(o), name)


@model(setattr)
def m_setattr(o, name, v):
    rt.setattr_(o, concretize(name), v)


@model(super)
def m_super(cls=None, obj=None):
    if cls is None:
        raise Unsupported("super()")
    return PSuper(cls, obj)


@model(functools.partial)
def m_partial(f, *a, **k):
    return functools.partial(f, *a, **k)


@model(functools.reduce)
def m_reduce(f, it, init=NODEF):
    if init is NODEF:
        return call(PRELUDE['reduce1'], (f, m_list(it)))
    return call(PRELUDE['reduce'], (f, it, init))


class CmpKey(object):
    pass


@model(functools.cmp_to_key)
def m_cmp_to_key(f):
    raise Unsupported("cmp_to_key")


for _nm in ('add', 'sub', 'mul', 'floordiv', 'mod', 'or_', 'and_', 'xor'):
    MODELS[getattr(operator, _nm)] = rt.OPS[_nm]
for _nm in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    MODELS[getattr(operator, _nm)] = getattr(rt, 'c_' + _nm)
MODELS[operator.contains] = lambda a, b: rt.c_in(b, a)
MODELS[operator.getitem] = rt.getitem
MODELS[operator.not_] = rt.not_
MODELS[operator.truth] = m_bool


@model(operator.itemgetter)
def m_itemgetter(*idx):
    if len(idx) == 1:
        return PFunc(lambda o: rt.getitem(o, idx[0]), 'itemgetter')
    return PFunc(lambda o: tuple(rt.getitem(o, i) for i in idx), 'itemgetter')


@model(operator.attrgetter)
def m_attrgetter(name):
    def f(o):
        for n in name.split('.'):
            o = attr(o, n)
        return o
    return PFunc(f, 'attrgetter')


@model(operator.methodcaller)
def m_methodcaller(name, *a, **k):
    return PFunc(lambda o: callm(o, name, a, k), 'methodcaller')


# ------------------------------------------------------------ list methods
@method('list deque', 'append')
def l_append(s, x):
    list_append(s, x)


@method('list deque', 'extend')
def l_extend(s, v):
    list_extend(s, v)


@method('list deque', 'pop')
def l_pop(s, i=-1):
    return list_pop(s, i)


@method('deque', 'popleft')
def d_popleft(s):
    return list_pop(s, 0)


@method('deque', 'appendleft')
def d_appendleft(s, x):
    l_insert(s, 0, x)


@method('list deque', 'insert')
def l_insert(s, i, x):
    i = concretize(i)
    r = rel(s.birth)
    if s.guards is None and r == 1:
        s.items.insert(i, x)
        return
    if i == 0:
        if s.guards is None:
            s.guards = [1] * len(s.items)
        s.items.insert(0, x)
        s.guards.insert(0, r)
        return
    if not rt.decide(R.g):
        raise K
    definite(s)
    s.items.insert(i, x)


def positions(s, x):
    """[(literal: the first occurrence of x is here, index)] and 'none'"""
    out = []
    rest = 1
    for i, (g, y) in enumerate(seq_pairs(s)):
        h = and2(rest, and2(g, eq(x, y)))
        if h:
            out.append((h, i))
            rest = and2(rest, h ^ 1)
            if not rest:
                break
    return out, rest


@method('list deque', 'remove')
def l_remove(s, x):
    hit, miss = positions(s, x)
    m = under(R.g, miss)
    if m:
        throw(ValueError("list.remove(x): x not in list"), m if hit else 1)
    r = rel(s.birth)
    if s.guards is None:
        if r == 1 and len(hit) == 1 and hit[0][0] == 1:
            del s.items[hit[0][1]]
            return
        s.guards = [1] * len(s.items)
    for l, i in hit:
        s.guards[i] = and2(s.guards[i], and2(r, l) ^ 1)
    rt.norm_list(s)


@method('list tuple deque', 'index')
def l_index(s, x, *a):
    if a:
        raise Unsupported("index with bounds")
    hit, miss = positions(s, x)
    m = under(R.g, miss)
    if m:
        throw(ValueError("not in list"), m if hit else 1)
    pairs = seq_pairs(s)
    if all(g == 1 for g, _ in pairs):
        return merge_many(hit)
    return merge_many([(l, mkcount([g for g, _ in pairs[:i]]))
                       for l, i in hit])


@method('list tuple deque', 'count')
def l_count(s, x):
    return mkcount([and2(g, eq(x, y)) for g, y in seq_pairs(s)])


@method('list deque', 'sort')
def l_sort(s, key=None, reverse=False):
    p = sort_pairs(s.pairs(), key, reverse)
    list_assign(s, p)


def list_assign(s, p):
    r = rel(s.birth)
    if r == 1:
        s.items = [x for _, x in p]
        s.guards = [g for g, _ in p]
        rt.norm_list(s)
        return
    if s.guards is None and all(g == 1 for g, _ in p) and \
            len(p) == len(s.items):
        s.items = [merge(r, x, y) for (_, x), y in zip(p, s.items)]
        return
    q = [(and2(g, r ^ 1), x) for g, x in s.pairs()] + \
        [(and2(g, r), x) for g, x in p]
    s.items = [x for _, x in q]
    s.guards = [g for g, _ in q]
    rt.norm_list(s)


@method('list deque', 'reverse')
def l_reverse(s):
    list_assign(s, list(reversed(s.pairs())))


@method('list deque', 'copy')
def l_copy(s):
    return Seq(s.kind, list(s.items),
               None if s.guards is None else list(s.guards))


@method('list deque', 'clear')
def l_clear(s):
    list_assign(s, [])


# ------------------------------------------------------------- set methods
def as_sets(vs):
    out = []
    for v in vs:
        s = setlike(v)
        out.append(s if s is not None else m_set(v))
    return out


def _setm(name, op, inplace):
    def m(s, *vs):
        e = PSet(dict(s.e), s.frozen)
        for v in as_sets(vs):
            e = set_bin(op, e, v)
        if inplace:
            set_assign(s, e.e)
            return None
        e.frozen = s.frozen
        return e
    METHODS.setdefault('set', {})[name] = m
    return m


for _n, _o in (('union', 'or_'), ('intersection', 'and_'),
               ('difference', 'sub'), ('symmetric_difference', 'xor')):
    _setm(_n, _o, False)
for _n, _o in (('update', 'or_'), ('intersection_update', 'and_'),
               ('difference_update', 'sub'),
               ('symmetric_difference_update', 'xor')):
    _setm(_n, _o, True)


def mutable(s, n):
    if s.frozen:
        throw(AttributeError("'frozenset' object has no attribute '%s'" % n))


@method('set', 'add')
def s_add(s, x):
    mutable(s, 'add')
    set_add(s, x)


@method('set', 'discard')
def s_discard(s, x):
    mutable(s, 'discard')
    set_discard(s, x)


@method('set', 'remove')
def s_remove(s, x):
    mutable(s, 'remove')
    p = rt.contains(x, s)
    m = under(R.g, p ^ 1)
    if m:
        throw(KeyError(x), m if p else 1)
    set_discard(s, x)


@method('set', 'pop')
def s_pop(s):
    mutable(s, 'pop')
    pairs = [(p, k) for k, p in s.e.items() if p]
    # the element taken is arbitrary: the first in iteration order
    rest = 1
    alts = []
    for p, k in pairs:
        h = and2(rest, p)
        if h:
            alts.append((h, host_key(k)))
            rest = and2(rest, p ^ 1)
    m = under(R.g, rest)
    if m:
        throw(KeyError('pop from an empty set'), m if alts else 1)
    v = merge_many(alts)
    set_discard(s, v)
    return v


@method('set', 'clear')
def s_clear(s):
    mutable(s, 'clear')
    set_assign(s, {})


@method('set', 'copy')
def s_copy(s):
    return PSet(dict(s.e), s.frozen)


@method('set', 'issubset')
def s_issubset(s, v):
    return rt.c_le(s, as_sets([v])[0])


@method('set', 'issuperset')
def s_issuperset(s, v):
    return rt.c_ge(s, as_sets([v])[0])


@method('set', 'isdisjoint')
def s_isdisjoint(s, v):
    return mkbool(truth(set_bin('and_', s, as_sets([v])[0])) ^ 1)


# ------------------------------------------------------------ dict methods
@method('dict', 'get')
def d_get(d, k, default=None):
    return dict_get(d, k, lambda m, key: default)


@method('dict', 'setdefault')
def d_setdefault(d, k, default=None):
    def miss(m, key):
        g = R.g
        R.g = and2(g, m)
        if R.g:
            dict_set(d, key, default)
        R.g = g
        return default
    return dict_get(d, k, miss)


@method('dict', 'pop')
def d_pop(d, k, default=NODEF):
    out, m = dict_del(d, k, default is not NODEF)
    if m and default is not NODEF:
        out = list(out) + [(m, default)]
        # present alternatives first: exclusive literals
        pres = or_all([l for l, _ in out[:-1]])
        out = [(and2(l, m ^ 1), v) for l, v in out[:-1]] + [(m, default)]
    return merge_many(out)


@method('dict', 'popitem')
def d_popitem(d):
    ks = [k for k, e in d.d.items() if e[0]]
    for k in reversed(ks):
        e = d.d[k]
        if e[0] == 1 or decide_here(e[0]):
            v = e[1]
            dict_del(d, host_key(k))
            return (host_key(k), v)
    throw(KeyError('popitem(): dictionary is empty'))


@method('dict', 'keys')
def d_keys(d):
    return PView(d, 'keys')


@method('dict', 'values')
def d_values(d):
    return PView(d, 'values')


@method('dict', 'items')
def d_items(d):
    return PView(d, 'items')


@method('dict', 'update')
def d_update(d, v=None, **kw):
    if d.cls is collections.Counter:
        counter_update(d, v)
        return
    if v is not None:
        dict_update(d, v)
    for k, x in kw.items():
        dict_set(d, k, x)


@method('dict', 'copy')
def d_copy(d):
    return dict_copy(d)


@method('dict', 'clear')
def d_clear(d):
    for k in list(d.d):
        dict_del(d, host_key(k), True)


@method('dict', 'fromkeys')
def d_fromkeys(d, it, v=None):
    r = PDict()
    g = R.g
    for p, k in drain(it):
        R.g = and2(g, p)
        if R.g:
            dict_set(r, k, v)
    R.g = g
    return r


MODELS[dict.fromkeys] = lambda it, v=None: d_fromkeys(None, it, v)


@method('dict', 'most_common')
def d_most_common(d, n=None):
    p = [(e[0], (k, e[1])) for k, e in d.d.items()]
    s = pair_list(sort_pairs(p, PFunc(lambda t: rt.getitem(t, 1), 'k'), True))
    if n is None:
        return s
    return rt.slice_of(s, slice(0, n))


# --------------------------------------------------------- string methods
def all_str(v):
    return v.__class__ is str


def alts_of_char(c):
    return [x for _, x in c.alts] if c.__class__ is Union else [c]


@method('str', 'join')
def st_join(sep, it):
    pairs = drain(it)
    if sep.__class__ is str and all(
            g == 1 and x.__class__ is str for g, x in pairs):
        return sep.join(x for _, x in pairs)
    if all(g == 1 for g, _ in pairs):
        parts = []
        for i, (_, x) in enumerate(pairs):
            if i and not (sep.__class__ is str and not sep):
                parts.append(sep)
            parts.append(x)
        return concat_str(parts)
    # guarded pieces
    items, guards = [], []
    seen = 0
    for g, x in pairs:
        if not g:
            continue
        if sep.__class__ is not str:
            sep = concretize(sep)
        sg = and2(seen, g)
        if sg:
            for ch in sep:
                items.append(ch)
                guards.append(sg)
        if x.__class__ is Union:
            x = union_str(x)
        if seqkind(x) != 'str':
            throw(TypeError("sequence item: expected str instance"), g)
            continue
        for p, ch in seq_pairs(x):
            items.append(ch)
            guards.append(and2(g, p))
        seen = or2(seen, g)
    return mkseq('str', items, guards)


def str_host(name):
    """Methods of symbolic strings without a structural model: lifted over a
    few alternatives, else the string is made concrete by forking."""
    def m(s, *a, **k):
        if s.__class__ is str:
            a = [x if x.__class__ is not Seq or x.kind != 'str'
                 else concretize(x) for x in a]
            return lift_call(lambda *b, **c: getattr(s, name)(*b, **c),
                             tuple(a), k)
        al = str_alts(s, 24)
        if al is not None:
            return each(Union(al), lambda x: m(x, *a, **k))
        return m(concretize(s), *a, **k)
    return m


for _n in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'isalpha',
           'isalnum', 'isspace', 'isupper', 'islower', 'isidentifier',
           'rsplit', 'rpartition', 'splitlines', 'expandtabs', 'zfill',
           'rfind', 'rindex', 'casefold', 'encode', 'isascii', 'translate',
           'removeprefix', 'removesuffix', 'isprintable', 'istitle'):
    METHODS.setdefault('str', {})[_n] = str_host(_n)

MODELS[str.maketrans] = lambda *a: hostify_result(
    str.maketrans(*[hostify(x) for x in a]))


def hostify_result(d):
    return rt.wrap_result(d)


def charpred(name):
    host = getattr(str, name)

    def m(s):
        if s.__class__ is str:
            return host(s)
        pairs = s.pairs()
        bad = or_all([and2(g, or_all([l for l, k in keys(c)
                                      if not host(k)])) for g, c in pairs])
        some = or_all([g for g, _ in pairs])
        return mkbool(and2(some, bad ^ 1))
    METHODS['str'][name] = m


for _n in ('isdigit', 'isdecimal', 'isnumeric'):
    charpred(_n)


def lit_char_in(c, chars):
    """literal: character c (str or Union) is one of chars"""
    if c.__class__ is str:
        return 1 if c in chars else 0
    return or_all([l for l, k in keys(c) if k in chars])


def _strip(left, right):
    def m(s, chars=None):
        if s.__class__ is str and (chars is None or chars.__class__ is str):
            return (str.strip if left and right else
                    str.lstrip if left else str.rstrip)(s, chars)
        chars = concretize(chars)
        test = WS if chars is None else chars
        pairs = seq_pairs(s)
        guards = [g for g, _ in pairs]
        hit = [lit_char_in(c, test) for _, c in pairs]
        n = len(pairs)
        if left:
            inside = 0
            for i in range(n):
                inside = or2(inside, and2(guards[i], hit[i] ^ 1))
                guards[i] = and2(guards[i], inside)
                if inside == 1:
                    break
        if right:
            inside = 0
            for i in range(n - 1, -1, -1):
                inside = or2(inside, and2(guards[i], hit[i] ^ 1))
                guards[i] = and2(guards[i], inside)
                if inside == 1:
                    break
        return mkseq('str', [c for _, c in pairs], guards)
    return m


WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
METHODS['str']['strip'] = _strip(True, True)
METHODS['str']['lstrip'] = _strip(True, False)
METHODS['str']['rstrip'] = _strip(False, True)


@method('str', 'replace')
def st_replace(s, old, new, count=-1):
    old, new = concretize(old), concretize(new)
    if old.__class__ is not str or new.__class__ is not str:
        throw(TypeError("replace() argument must be str, not %s" % tname(
            new if old.__class__ is str else old)))
    if s.__class__ is str:
        return s.replace(old, new, count)
    pairs = s.pairs()
    # impossible?
    possible = set()
    for _, c in pairs:
        possible.update(alts_of_char(c))
    if any(ch not in possible for ch in old):
        return s
    if len(old) == 1 and count == -1:
        items, guards = [], []
        for g, c in pairs:
            h = lit_char_in(c, old)
            if h == 0:
                items.append(c)
                guards.append(g)
                continue
            keep = and2(g, h ^ 1)
            if keep:
                rest = [(l, k) for l, k in keys(c) if k != old]
                items.append(merge_many(rest))
                guards.append(keep)
            for ch in new:
                items.append(ch)
                guards.append(and2(g, h))
        return mkseq('str', items, guards)
    return st_replace(concretize(s), old, new, count)


def definite_at(s, chars):
    """Fork until it is known where the characters chars occur in s."""
    items, guards = [], []
    for g, c in s.pairs():
        h = lit_char_in(c, chars)
        if h and g:
            if decide_here(and2(g, h)):
                c = merge_many([(l, k) for l, k in keys(c) if k in chars])
                g = 1
            elif h == 1:
                continue
            else:
                c = merge_many([(l, k) for l, k in keys(c)
                                if k not in chars])
        if g:
            items.append(c)
            guards.append(g)
    return items, guards


@method('str', 'split')
def st_split(s, sep=None, maxsplit=-1):
    sep, maxsplit = concretize(sep), concretize(maxsplit)
    if s.__class__ is str:
        try:
            return Seq('list', s.split(sep, maxsplit))
        except ValueError as e:
            throw(e)
    if sep == '':
        throw(ValueError("empty separator"))
    if sep is None:
        al = str_alts(s, 1)
        return st_split(concretize(s), sep, maxsplit)
    if len(sep) == 1:
        items, guards = definite_at(s, sep)
        out = []
        cur, cg = [], []
        for c, g in zip(items, guards):
            if c.__class__ is str and c == sep and (
                    maxsplit < 0 or len(out) < maxsplit):
                out.append(mkseq('str', cur, cg))
                cur, cg = [], []
            else:
                cur.append(c)
                cg.append(g)
        out.append(mkseq('str', cur, cg))
        return Seq('list', out)
    possible = set()
    for _, c in s.pairs():
        possible.update(alts_of_char(c))
    if any(ch not in possible for ch in sep):
        return Seq('list', [s])
    if maxsplit < 0 and not any(sep[:k] == sep[-k:]
                                for k in range(1, len(sep))):
        return split_many(s, sep)
    # fork until the characters of the separator are placed
    items, guards = s.items, s.guards
    for ch in sorted(set(sep)):
        t = Seq('str', items, guards)
        items, guards = definite_at(t, ch)
    if any(g != 1 for g in guards):
        d = definite(Seq('str', items, guards))
        if d.__class__ is str:
            return st_split(d, sep, maxsplit)
        items = d.items
    out = []
    cur = []
    i = 0
    while i < len(items):
        if (maxsplit < 0 or len(out) < maxsplit) and \
                items[i:i + len(sep)] == list(sep) if all(
                    x.__class__ is str for x in items[i:i + len(sep)]) \
                else False:
            out.append(mkseq('str', cur, None))
            cur = []
            i += len(sep)
        else:
            cur.append(items[i])
            i += 1
    out.append(mkseq('str', cur, None))
    return Seq('list', out)


def split_many(s, sep):
    """Split at several characters no two occurrences of which overlap;
    forks on where they stand."""
    ps = [(g, c) for c, g in zip(*definite_at(s, sep[-1]))]
    ends = {}
    drop = set()

    def rest(a, j, k):
        # sep[:k] was matched where a holds; the place of its last character
        while j < len(ps) and a:
            g, c = ps[j]
            m = and2(and2(a, g), lit_char_in(c, sep[k]))
            if m:
                if k + 1 == len(sep):
                    r = j if decide_here(m) else None
                else:
                    r = rest(m, j + 1, k + 1)
                if r is not None:
                    return r
            a = simp(and2(a, g ^ 1))
            j += 1

    for i, (g, c) in enumerate(ps):
        a = and2(simp(g), lit_char_in(c, sep[0]))
        if not a or i in drop:
            continue
        j = rest(a, i + 1, 1)
        if j is not None:
            ends[i] = j
            drop.update(range(i, j + 1))
    out = []
    cur, cg = [], []
    for i, (g, c) in enumerate(ps):
        if i in ends:
            out.append(mkseq('str', cur, cg))
            cur, cg = [], []
        if i in drop:
            continue
        g = simp(g)
        if g:
            cur.append(c)
            cg.append(g)
    out.append(mkseq('str', cur, cg))
    return Seq('list', out)


@method('str', 'partition')
def st_partition(s, sep):
    r = st_split(s, sep, 1).items
    if len(r) == 1:
        return (r[0], '', '')
    return (r[0], sep, r[1])


@method('str', 'startswith')
def st_startswith(s, p, *a):
    if a:
        return str_host('startswith')(s, p, *a)
    if p.__class__ is tuple:
        return mkbool(or_all([truth(st_startswith(s, x)) for x in p]))
    if s.__class__ is str and p.__class__ is str:
        return s.startswith(p)
    p = concretize(p)
    if s.__class__ is Seq and s.guards is not None:
        h = rt.slice_of(s, slice(0, len(p)))
    else:
        h = rt.slice_of(s, slice(0, len(p)))
    return mkbool(eq(h, p))


@method('str', 'endswith')
def st_endswith(s, p, *a):
    if p.__class__ is tuple:
        return mkbool(or_all([truth(st_endswith(s, x)) for x in p]))
    if s.__class__ is str and p.__class__ is str:
        return s.endswith(p, *a)
    p = concretize(p)
    s = definite(s)
    if s.__class__ is str:
        return s.endswith(p)
    if not p:
        return True
    return mkbool(eq(mkseq('str', s.items[-len(p):], None), p))


@method('str', 'find')
def st_find(s, x, *a):
    if a or seqkind(x) != 'str' or x.__class__ is not str or len(x) != 1:
        return str_host('find')(s, x, *a)
    if s.__class__ is str:
        return s.find(x)
    hit, miss = positions(s, x)
    pairs = s.pairs()
    out = [(l, mkcount([g for g, _ in pairs[:i]])) for l, i in hit]
    if miss:
        out.append((miss, -1))
    return merge_many(out)


@method('str', 'index')
def st_index(s, x, *a):
    if s.__class__ is str:
        return str_host('index')(s, x, *a)
    r = st_find(s, x, *a)
    bad = eq(r, -1)
    if under(R.g, bad):
        throw(ValueError("substring not found"), bad)
    return r


@method('str', 'count')
def st_count(s, x, *a):
    if s.__class__ is str or a or x.__class__ is not str or len(x) != 1:
        return str_host('count')(s, x, *a)
    return mkcount([and2(g, eq(c, x)) for g, c in s.pairs()])


def _just(name):
    def m(s, width, fill=' '):
        if s.__class__ is str:
            if width.__class__ is Union:
                return each(width, lambda w: m(s, w, fill))
            return getattr(s, name)(width, concretize(fill))
        width = concretize(width)
        if name == 'center':
            return getattr(concretize(s), name)(width, fill)
        return just_sym(name, s, width, fill)
    METHODS['str'][name] = m


def just_sym(name, s, width, fill):
    """Position by position, if s is known to fit; else with optional
    padding."""
    pairs = s.pairs()
    guards = [g for g, _ in pairs]
    cnt = rt.counter(guards)
    over = under(R.g, or_all(cnt[width + 1:]))
    if over and rt.known(over) != 0:
        pads = [or_all(cnt[:width - i]) for i in range(width)]
        items = [fill] * width
        if name == 'rjust':
            return mkseq('str', items + [c for _, c in pairs], pads + guards)
        return mkseq('str', [c for _, c in pairs] + items, guards + pads)
    if name == 'rjust':
        pairs = pairs[::-1]
    items = []
    for i in range(width):
        hits, miss = rt.kth_present(pairs, i)
        alts = [(l, pairs[k][1]) for l, k in hits]
        if miss:
            alts.append((miss, fill))
        items.append(merge_many(alts))
    if name == 'rjust':
        items.reverse()
    return mkseq('str', items, None)


for _n in ('rjust', 'ljust', 'center'):
    _just(_n)


@method('str', '__len__')
def st_len(s):
    return m_len(s)


@method('str', 'format')
def st_format(s, *a, **k):
    s = concretize(s)
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        name = re.match(r'[^.\[]*', field).group(0)
        if name == '':
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        for acc in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', field):
            if acc[0]:
                v = attr(v, acc[0])
            else:
                v = rt.getitem(v, int(acc[1]) if acc[1].isdigit()
                               else acc[1])
        parts.append(format_value(v, conv, spec or ''))
    return concat_str(parts)


def format_value(v, conv, spec):
    if conv == 'r' or conv == 114:
        v = m_repr(v)
    elif conv == 's' or conv == 115:
        v = m_str(v)
    if spec == '':
        return m_str(v)
    spec = concretize(spec)
    if v.__class__ is Union:
        return each(v, lambda x: format_value(x, None, spec))
    if v.__class__ is SBool:
        return format_value(m_str(v), None, spec)
    m = re.match(r'^([<>])?(\d+)s?$', spec)
    if v.__class__ is Seq and v.kind == 'str' and m:
        return METHODS['str']['rjust' if m.group(1) == '>' else 'ljust'](
            v, int(m.group(2)))
    try:
        return format(hostify(v), spec)
    except (K, Unsupported):
        raise
    except Exception as e:
        throw(e)


def fmtvalue(v, conv, spec):
    return format_value(v, None if conv == -1 else chr(conv), spec)


def fstring(parts):
    return concat_str(parts)


_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def format_percent(fmt, args):
    if args.__class__ is Union and all(isinstance(x, tuple)
                                       for _, x in args.alts):
        return each(args, lambda a: format_percent(fmt, a))
    parts = []
    pos = 0
    i = 0
    mapping = args.__class__ is PDict
    tup = args if isinstance(args, tuple) else \
        definite_tuple(args) if args.__class__ is Seq and \
        args.kind == 'tuple' else (args,)
    for m in _PCT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            parts.append('%')
            continue
        if width == '*':
            raise Unsupported("%* format")
        if name is not None:
            v = rt.getitem(args, name)
        else:
            if i >= len(tup):
                throw(TypeError("not enough arguments for format string"))
            v = tup[i]
            i += 1
        if ty == 's':
            v = m_str(v)
        elif ty == 'r':
            v = m_repr(v)
        elif ty in 'di':
            v = int_str(v)
        else:
            v = lift_call(lambda x, t='%' + ty: t % x, (v,), None)
        if width:
            w = int(width)
            v = union_str(v) if v.__class__ is Union else v
            v = METHODS['str']['ljust' if '-' in flags else 'rjust'](
                v, w, '0' if '0' in flags and ty in 'di' else ' ')
        parts.append(v)
    if not mapping and i < len(tup):
        throw(TypeError("not all arguments converted during string "
                        "formatting"))
    parts.append(fmt[pos:])
    return concat_str(parts)


def definite_tuple(v):
    v = definite(v)
    return v if isinstance(v, tuple) else tuple(v.items)


def int_str(v):
    if v.__class__ is Union:
        return each(v, int_str)
    if v.__class__ is SBool:
        v = rt.as_int(v)
        return each(v, int_str)
    if v.__class__ not in (int, bool, float):
        throw(TypeError("%%d format: a real number is required, not %s"
                        % tname(v)))
    return '%d' % v


PRELUDE = {}


def load_prelude():
    from . import prelude
    for k, f in vars(prelude).items():
        if isinstance(f, types.FunctionType):
            PRELUDE[k.rstrip('_')] = f


rt.NS['fstring'] = fstring
rt.NS['fmtvalue'] = fmtvalue


# ------------------------------------------------------- ast and inspect
import ast as _ast
import inspect as _inspect


def m_ismethod(f):
    return f.__class__ in (PMethod, BMethod) or _inspect.ismethod(f)


def m_isclass(f):
    if f.__class__ is Union:
        return rt.each(f, m_isclass)
    return isinstance(f, type)


def m_isfunction(f):
    return f.__class__ is PFunc or isinstance(f, types.FunctionType)


def m_getspec(f):
    if f.__class__ is Union:
        return rt.each(f, m_getspec)
    if f.__class__ is PMethod:
        f = f.func
    if f.__class__ is PFunc:
        raise rt.Unsupported("signature of a nested function")
    try:
        s = _inspect.getfullargspec(f)
    except TypeError as e:
        rt.throw(e)
    return _inspect.FullArgSpec(*[rt.wrap_result(x) for x in s])


MODELS[_inspect.ismethod] = m_ismethod
MODELS[_inspect.isclass] = m_isclass
MODELS[_inspect.isfunction] = m_isfunction
MODELS[_inspect.getfullargspec] = m_getspec
rt.HOST_OK.add(_ast.literal_eval)


def m_exit(code=None):
    rt.throw(SystemExit(code))


import sys as _sys
MODELS[_sys.exit] = m_exit
