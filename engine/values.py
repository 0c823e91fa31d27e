"""Symbolic values, guards, and the merging of values."""
from . import aig
from .aig import and2, or2, ite, or_all, under
from .compiler import Unsupported


class K(BaseException):
    """The current guard became false: unwind to the nearest boundary."""


class Run(object):
    g = 1            # guard under which code is being executed
    n = 0            # statements executed


R = Run()


class Union(object):
    """One of finitely many values; the literals are mutually exclusive."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % ', '.join('%d:%r' % a for a in self.alts[:9])

    def __eq__(self, o):
        raise Unsupported("host comparison of a symbolic value")

    def __hash__(self):
        raise Unsupported("host hash of a symbolic value")

    def __bool__(self):
        raise Unsupported("host truth of a symbolic value")


class SBool(object):
    __slots__ = ('lit',)

    def __init__(self, lit):
        self.lit = lit

    def __repr__(self):
        return 'SBool(%d)' % self.lit

    __eq__ = Union.__eq__
    __hash__ = Union.__hash__
    __bool__ = Union.__bool__


class Seq(object):
    """A list, or a tuple/str some of whose elements are guarded/symbolic."""
    __slots__ = ('kind', 'items', 'guards', 'birth')

    def __init__(self, kind, items, guards=None, birth=None):
        self.kind = kind
        self.items = items
        self.guards = guards         # None: every element is present
        self.birth = R.g if birth is None else birth

    def pairs(self):
        if self.guards is None:
            return [(1, x) for x in self.items]
        return list(zip(self.guards, self.items))

    def __repr__(self):
        if self.guards is None:
            return '%s%r' % (self.kind, self.items)
        return '%s%r' % (self.kind, list(zip(self.guards, self.items)))


class PSet(object):
    __slots__ = ('e', 'frozen', 'birth', 'ver')

    def __init__(self, e=None, frozen=False, birth=None):
        self.e = {} if e is None else e      # element -> presence literal
        self.frozen = frozen
        self.birth = R.g if birth is None else birth
        self.ver = 0

    def __repr__(self):
        return '%s%r' % ('frozenset' if self.frozen else 'set', self.e)


class PDict(object):
    __slots__ = ('d', 'factory', 'birth', 'cls', 'ver')

    def __init__(self, factory=None, birth=None, cls=dict):
        self.d = {}                 # key -> [presence literal, value]
        self.factory = factory
        self.birth = R.g if birth is None else birth
        self.cls = cls
        self.ver = 0

    def __repr__(self):
        return 'dict%r' % self.d


class PObj(object):
    __slots__ = ('cls', 'attrs', 'birth', 'data')

    def __init__(self, cls, birth=None):
        self.cls = cls
        self.attrs = {}
        self.birth = R.g if birth is None else birth
        self.data = None

    def __repr__(self):
        return '<%s obj>' % self.cls.__name__


class PMethod(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return 'PMethod(%r, %r)' % (self.func, self.self)


class PFunc(object):
    __slots__ = ('code', 'name')

    def __init__(self, code, name):
        self.code = code
        self.name = name

    def __repr__(self):
        return 'PFunc(%s)' % self.name


class BMethod(object):
    """A method of a modelled builtin object, e.g. list.append of a Seq."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class PSuper(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PRange(object):
    pass


class Hist(object):
    """A variable written under several guards: oldest entry first."""
    __slots__ = ('entries', 'cg', 'cv', 'limit')

    def __init__(self, entries, limit=24):
        self.entries = entries
        self.limit = limit
        self.cg = -1
        self.cv = None


UNDEF = Hist([])


def add_entry(h, g, v):
    """A new Hist: h overwritten by v under g."""
    if h.__class__ is Hist:
        if h is UNDEF:
            return Hist([(g, v)])
        ent = h.entries
        if ent and ent[-1][0] == g:
            return Hist(ent[:-1] + [(g, v)], h.limit)
        limit = h.limit
        if len(ent) > limit:
            ent = [(eg, ev) for eg, ev in ent if under(eg, g) != 1]
            limit = max(24, 2 * len(ent))
        return Hist(ent + [(g, v)], limit)
    return Hist([(1, h), (g, v)])


ATOMS = (int, str, bool, type(None), float, bytes)


def is_concrete(v):
    """A host value with no symbolic part and no modelled container."""
    c = v.__class__
    if c in _CONC:
        return True
    if isinstance(v, tuple):
        for x in v:
            if not is_concrete(x):
                return False
        return True
    return c is frozenset or c is slice or c is range


_CONC = {int, str, bool, type(None), float, bytes, type, complex,
         type(Ellipsis)}


def akey(v):
    """Key under which equal atoms are merged, or None."""
    c = v.__class__
    if c in _CONC:
        return (c, v) if c is not float else (c, repr(v))
    if isinstance(v, tuple) and is_concrete(v):
        return (c, tkey(v))
    return None


def tkey(v):
    return tuple((x.__class__, tkey(x) if isinstance(x, tuple) else x)
                 for x in v)


def lift_bool(v):
    """literal of a bool-ish value or None"""
    if v is True:
        return 1
    if v is False:
        return 0
    if v.__class__ is SBool:
        return v.lit
    return None


def mkbool(lit):
    if lit == 1:
        return True
    if lit == 0:
        return False
    return SBool(lit)


def merge(c, a, b):
    """a under c, b otherwise."""
    if a is b or c == 1:
        return a
    if c == 0:
        return b
    ca = a.__class__
    if ca is b.__class__ and (ca is int or ca is str) and a == b:
        return a
    return merge_many([(c, a), (c ^ 1, b)])


def mk_tuple_like(proto, items):
    cls = proto.__class__
    if cls is tuple:
        return tuple(items)
    return tuple.__new__(cls, items)


def merge_many(alts):
    """Merge of (literal, value) pairs whose literals are exclusive and cover
    the guard at which the result is used."""
    flat = []
    for l, v in alts:
        if l == 0:
            continue
        if v.__class__ is Union:
            for l2, v2 in v.alts:
                l3 = and2(l, l2)
                if l3:
                    flat.append((l3, v2))
        else:
            flat.append((l, v))
    if not flat:
        raise K
    if len(flat) == 1:
        return flat[0][1]
    first = flat[0][1]
    for _, v in flat:
        if v is not first:
            break
    else:
        return first
    # only booleans?
    bools = [(l, lift_bool(v)) for l, v in flat]
    if all(b is not None for _, b in bools):
        # exhaustive alternatives: anything outside is a don't care
        if len(bools) == 2:
            (l1, b1), (l2, b2) = bools
            if l1 ^ l2 == 1:
                return mkbool(ite(l1, b1, b2))
        if all(b == 1 for _, b in bools):
            return True
        return mkbool(or_all([and2(l, b) for l, b in bools]))
    groups = {}
    order = []
    for (l, v), (_, b) in zip(flat, bools):
        if b is not None:
            if b != 0:
                lb = and2(l, b)
                if lb:
                    key = (bool, True)
                    if key not in groups:
                        groups[key] = []
                        order.append(key)
                    groups[key].append((lb, True))
            if b != 1:
                lb = and2(l, b ^ 1)
                if lb:
                    key = (bool, False)
                    if key not in groups:
                        groups[key] = []
                        order.append(key)
                    groups[key].append((lb, False))
            continue
        key = akey(v)
        if key is None:
            if v.__class__ is PSet and v.frozen:
                key = PSet
            elif isinstance(v, tuple):
                key = (tuple, v.__class__, len(v))
            elif v.__class__ is Seq and v.kind == 'str':
                key = (Seq, 'str')
            elif v.__class__ is Seq and v.kind == 'tuple':
                key = (Seq, 'tuple')
            elif v.__class__ is PMethod:
                f = v.func
                key = (PMethod, id(f), id(v.self))
            else:
                key = (id(v),)
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append((l, v))
    # concrete strings/tuples join a symbolic group of their kind
    if (Seq, 'str') in groups:
        for k in list(order):
            if k[0] is str:
                groups[(Seq, 'str')] += groups.pop(k)
                order.remove(k)
    if (Seq, 'tuple') in groups:
        for k in list(order):
            if isinstance(groups[k][0][1], tuple) and \
                    groups[k][0][1].__class__ is tuple:
                groups[(Seq, 'tuple')] += groups.pop(k)
                order.remove(k)
    out = []
    for k in order:
        grp = groups[k]
        lit = grp[0][0] if len(grp) == 1 else or_all([l for l, _ in grp])
        if lit == 0:
            continue
        v = grp[0][1]
        if len(grp) > 1 and k is PSet:
            v = merge_sets(grp)
        elif len(grp) > 1 and k[0] is tuple and len(k) == 3:
            n = k[2]
            v = mk_tuple_like(v, [
                merge_many([(l, t[i]) for l, t in grp]) for i in range(n)])
        elif len(grp) > 1 and k[0] is Seq:
            v = merge_seqs(k[1], grp)
        out.append((lit, v))
    if len(out) == 1:
        return out[0][1]
    if len(out) == 2 and out[0][0] == 1 or out and out[0][0] == 1:
        return out[0][1]
    return Union(out)


def merge_sets(grp):
    keys = {}
    for l, s in grp:
        for e, p in s.e.items():
            keys.setdefault(e, []).append((l, p))
    n = len(grp)
    e = {}
    for k, lps in keys.items():
        if len(lps) == n and all(p == 1 for _, p in lps):
            e[k] = 1
        elif len(lps) == 2 and n == 2 and lps[0][0] ^ lps[1][0] == 1:
            e[k] = ite(lps[0][0], lps[0][1], lps[1][1])
        else:
            e[k] = or_all([and2(l, p) for l, p in lps])
    return PSet(e, True)


def seq_of(v):
    """(guards or None, items) of a tuple/str/Seq."""
    if v.__class__ is Seq:
        return v.guards, v.items
    return None, list(v)


def merge_seqs(kind, grp):
    """Concatenate guarded elements; aligned elements are merged."""
    data = [(l,) + seq_of(v) for l, v in grp]
    if all(g is None for _, g, _ in data) and \
            len(set(len(it) for _, _, it in data)) == 1:
        n = len(data[0][2])
        items = [merge_many([(l, it[i]) for l, _, it in data])
                 for i in range(n)]
        return mkseq(kind, items, None)
    # common concrete prefix is shared
    items = []
    guards = []
    _, g0, it0 = data[0]
    k = 0
    top = min([len(it) for _, _, it in data])
    while k < top:
        x = it0[k]
        gx = 1 if g0 is None else g0[k]
        if not all([(it[k] is x or x.__class__ is str and
                     it[k].__class__ is str and it[k] == x) and
                    gx == (1 if g is None else g[k]) for _, g, it in data]):
            break
        items.append(x)
        guards.append(gx)
        k += 1
    rest = []
    for l, g, it in data:
        more = [(and2(l, g[i] if g is not None else 1), it[i])
                for i in range(k, len(it))]
        rest = align(rest, [p for p in more if p[0]])
    for gx, x in rest:
        guards.append(gx)
        items.append(x)
    # merge alternatives position by position while all are unguarded
    if all(g is None for _, g, _ in data):
        m = max(len(it) for _, _, it in data)
        items = []
        guards = []
        for i in range(m):
            here = [(l, it[i]) for l, _, it in data if len(it) > i]
            items.append(merge_many(here))
            guards.append(1 if len(here) == len(data)
                          else or_all([l for l, _ in here]))
    return mkseq(kind, items, guards)


def same_item(x, y):
    return x is y or x.__class__ is str and y.__class__ is str and x == y


def align(a, b):
    """Two exclusive guarded sequences as one; a longest common subsequence
    is shared."""
    n, m = len(a), len(b)
    if not n or not m or n * m > 4096:
        return a + b
    best = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        x = a[i][1]
        row, below = best[i], best[i + 1]
        for j in range(m - 1, -1, -1):
            row[j] = below[j + 1] + 1 if same_item(x, b[j][1]) else max(
                below[j], row[j + 1])
    out = []
    i = j = 0
    while i < n and j < m:
        if same_item(a[i][1], b[j][1]):
            out.append((or_all([a[i][0], b[j][0]]), a[i][1]))
            i += 1
            j += 1
        elif best[i + 1][j] >= best[i][j + 1]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    return out + a[i:] + b[j:]


def mkseq(kind, items, guards):
    """A str/tuple Seq, or the host value when nothing is symbolic."""
    if guards is not None:
        if 0 in guards:
            keep = [i for i, g in enumerate(guards) if g]
            items = [items[i] for i in keep]
            guards = [guards[i] for i in keep]
        if all(g == 1 for g in guards):
            guards = None
    if guards is None:
        if kind == 'tuple':
            return tuple(items)
        if kind == 'str' and all(x.__class__ is str for x in items):
            return ''.join(items)
    return Seq(kind, items, guards)
