"""Small functions covering the constructs the encoder models; selftest.py
compares encoding and CPython on every input."""
from collections import defaultdict, namedtuple, deque, Counter, OrderedDict
from functools import total_ordering, partial, reduce
from itertools import combinations, product, chain, permutations, islice, groupby, zip_longest, count, repeat, accumulate, takewhile, dropwhile
import operator
import string

P = namedtuple("P", ["x", "y"])


def f_if(a, b, c):
    if a > b:
        r = a
    elif a == b:
        r = c
    else:
        r = 10 + b
    return r


def f_ret(a, b, c):
    for i in range(4):
        if i == a:
            return i * 10 + b
        if i == b:
            continue
        c += 1
    return c


def f_brk(a, b, c):
    out = []
    for i in range(a + 2):
        if i == b:
            break
        out.append(i)
    else:
        out.append('else')
    return out


def f_while(a, b, c):
    n = 0
    while a < 6:
        a += b + 1
        n += 1
        if n == c:
            break
    else:
        n += 100
    return n, a


def f_while2(a, b, c):
    l = [a, b, c]
    s = 0
    while l:
        x = l.pop()
        if x == 0:
            continue
        s += x
        if x == 3:
            l.append(1)
    return s


def f_try(a, b, c):
    try:
        l = [1, 2, 3]
        x = l[a]
        y = {1: 5, 2: 6}[b]
        z = 10 // c
        return x + y + z
    except IndexError:
        return 'index'
    except (KeyError, ZeroDivisionError) as e:
        return type(e).__name__
    finally:
        a = 3


def f_try2(a, b, c):
    r = []
    try:
        if a == 1:
            raise ValueError("a")
        r.append(1)
    except ValueError as e:
        r.append(str(e))
    else:
        r.append('else')
    finally:
        r.append('fin')
        if b == 2:
            r.append('b')
    if c == 0:
        raise KeyError(c)
    return r


def f_raise(a, b, c):
    if a > b:
        raise ValueError("x%d" % a)
    if c == 2:
        raise TypeError
    return [1, 2][b]


def f_nest(a, b, c):
    r = []
    for i in range(3):
        for j in range(3):
            if i == a and j == b:
                break
            if j == c:
                continue
            r.append((i, j))
        else:
            r.append('e')
            if i == c:
                break
    return r


def f_sets(a, b, c):
    s = {a, b}
    t = {b, c, 2}
    s.add(c)
    t.discard(a)
    u = s & t
    v = s | {9}
    w = s - t
    x = s ^ t
    return (len(s), sorted(u), sorted(v), sorted(w), sorted(x), s <= v,
            u < s, a in t, s == t, bool(u))


def f_sets2(a, b, c):
    s = set(range(4))
    s -= {a}
    s.remove(b)
    s |= {7, c}
    s.update([a, 8], (b,))
    f = frozenset(s)
    return sorted(f), len(f), f == s, s.issubset(f), s.isdisjoint({a})


def f_dict(a, b, c):
    d = {}
    d[a] = 1
    d[b] = d.get(b, 5) + 1
    d.setdefault(c, []) if c not in d else None
    e = dict((k, v) for k, v in d.items() if k != a)
    return sorted(d.keys()), len(d), sorted(e), a in d, d.get(3, 'no'), d.pop(b)


def f_dd(a, b, c):
    d = defaultdict(lambda: set())
    d[a].add(b)
    d[b].add(c)
    d[0]
    n = defaultdict(int)
    for x in (a, b, c):
        n[x] += 1
    return {k: sorted(v) for k, v in sorted(d.items())}, sorted(n.items()), min(n.values()), max(n.values())


def f_dict2(a, b, c):
    d = {0: 'a', 1: 'b', 2: 'c'}
    del d[a]
    r = []
    for k in list(d):
        if k == b:
            d.pop(k)
        r.append(k)
    return r, sorted(d.items()), list(d.values())


def f_comp(a, b, c):
    l = [x * y for x in range(3) if x != a for y in (a, b, c) if y]
    return l, {x for x in l if x > b}, sum(x for x in l), any(x == c for x in l), all(x > 0 for x in l)


def gen(n, a):
    i = 0
    while i < n:
        if i == a:
            i += 2
            continue
        yield i
        i += 1


def rgen(n, a):
    if n == 0:
        yield ()
        return
    for x in range(2):
        if x == a and n == 2:
            continue
        for r in rgen(n - 1, a):
            yield (x,) + r


def f_gen(a, b, c):
    r = []
    for x in gen(4, a):
        if x == b:
            break
        r.append(x)
    return r, list(gen(c, 1)), list(rgen(3, a))


def f_next(a, b, c):
    g = gen(a, b)
    try:
        x = next(g)
    except StopIteration:
        return 'empty'
    y = next(g, 'none')
    return x, y, list(g)


def yf(a, b):
    yield 'start'
    yield from gen(a, b)
    yield 'end'


def f_yf(a, b, c):
    return list(yf(a, b)), [x for x in yf(c, a) if x != b]


def f_sort(a, b, c):
    l = [a, b, c]
    l.sort()
    m = sorted([(b, 'x'), (a, 'y'), (c, 'z')], key=lambda t: t[0])
    n = sorted({a, b, c}, reverse=True)
    return l, m, n, min(a, b, c), max([a, b], key=lambda v: -v), min(m, key=lambda t: t[1])


def f_list(a, b, c):
    l = [0, 1, 2, 3, a]
    l.remove(b)
    l.insert(1, c)
    x = l.pop(a)
    l.extend([a, b])
    l[0] = 'q'
    l += (7,)
    del l[1]
    return l, x, l.index(3) if 3 in l else -1, l.count(a), l[1:3], l[-1], l[::-1]


def f_str(a, b, c):
    s = "%d-%s" % (a, b) + str(c)
    t = "".join([str(x) for x in range(4) if x != a])
    u = ",".join(str(x + 1) for x in sorted({a, b, c}))
    return s, t, u, s.split("-"), t.rjust(5), t.ljust(5) + '|', len(t), s[0], s[a % 3], '1' in t, t.replace('1', 'xx'), s == t, u.count(',')


def f_fmt(a, b, c):
    return "{} {:>3} {x}".format(a, b, x=c), f"{a}-{b:02d}-{c!r}", "%5s|%-5s|%03d" % (a, 'x' * b, c), repr((a, 'b', [c, None])), str({'k': a}), str([a, (b,), "q'"])


def f_str2(a, b, c):
    s = "r%dc%d" % (a, b)
    out = []
    cur = ''
    num = ''
    for ch in s:
        if ch in 'rc':
            if cur:
                out.append((cur, num))
            cur = ch
            num = ''
        elif ch in string.digits:
            num += ch
    out.append((cur, num))
    return out, int(num) if num else None, s.startswith('r1'), s.partition('c'), s.upper(), s.strip('r')


class A(object):
    k = 5

    def __init__(self, v):
        self.v = v
        self.__p = [v]

    def inc(self, n=1):
        self.v += n
        self.__p.append(n)
        return self

    @property
    def tot(self):
        return sum(self.__p)

    @classmethod
    def make(cls, v):
        return cls(v)

    @staticmethod
    def st(x):
        return x + 1

    def __eq__(self, o):
        return self.v == o.v

    def __getitem__(self, i):
        return self.__p[i]

    def __setitem__(self, i, x):
        self.__p[i] = x

    def __len__(self):
        return len(self.__p)

    def __iter__(self):
        for x in self.__p:
            yield x

    def __contains__(self, x):
        return x in self.__p

    def __call__(self, q):
        return self.v + q


class B(A):
    k = 6

    def inc(self, n=2):
        super().inc(n)
        return super(B, self).inc(n + 1)


def f_cls(a, b, c):
    x = A.make(a)
    y = B(b)
    if a == 1:
        x.inc(c)
    y.inc()
    x[0] = y
    return x.v, y.v, y.tot, x == y, len(x), A.st(c), y.k, list(y), b in y, y(3), [x, y][a % 2].v, isinstance(y, A)


@total_ordering
class O(object):
    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return self.a == o.a

    def __lt__(self, o):
        return self.a < o.a


def f_ord(a, b, c):
    l = sorted([O(a), O(b), O(c)])
    return [o.a for o in l], O(a) <= O(b), O(a) > O(c), min(l).a


def f_nt(a, b, c):
    p = P(a, b)
    x, y = p
    q = P(c, p.y)
    return p.x + q.x, p == (a, b), x, y, p < q, q[1], tuple(p)


def f_closure(a, b, c):
    n = 0

    def add(x):
        nonlocal n
        if x > b:
            n += x
        return n
    for i in range(3):
        add(i + a)
    fs = [lambda q, k=k: q + k for k in range(3)]
    return n, [f(c) for f in fs], (lambda *z, **w: (z, sorted(w)))(a, *[b, c], k=1)


def f_itertools(a, b, c):
    l = [x for x in range(4) if x != a]
    return (list(combinations(l, 2)), list(product([a, b], repeat=2)),
            list(chain([a], [b, c])), list(zip(l, 'abcd')),
            list(enumerate(l, 1)), list(islice(l, b)),
            list(map(lambda v: v + c, l)), list(filter(lambda v: v > b, l)),
            list(reversed(l)), [list(x) for x in permutations(l[:2])],
            reduce(operator.add, l), list(accumulate(l)))


def f_itertools2(a, b, c):
    l = [a, b, c]
    return (list(takewhile(lambda v: v > 0, l)), list(dropwhile(lambda v: v > 0, l)),
            [(k, len(list(g))) for k, g in groupby(sorted(l))],
            list(zip_longest([1, 2, 3][:a], [4, 5], fillvalue=0)),
            sorted(Counter(l).items()), sum(1 for _ in l), divmod(a + 5, b + 1), abs(a - b), pow(a, 2), round(a / 2 + 1))


def f_bool(a, b, c):
    x = a and b
    y = a or b or c
    z = not a
    w = a if b else c
    return x, y, z, w, a < b < c, a == b != c, (a > 1) == (b > 1), (a > 1) + (b > 1), (a == 1) & (b == 1), bool(c), a is None, int(a > b)


def f_arith(a, b, c):
    return a * b + c - 1, a // (b + 1), a % (c + 1), -a, a ** 2, a << b, (a | b) & c, ~a, a ^ b, a / 2, min(a, 2), divmod(a, b + 2)


def f_unpack(a, b, c):
    x, (y, z) = a, (b, c)
    x, y = y, x
    h, *t = [a, b, c][:2 + (a == 1)]
    l = [0] * 3
    l[a % 3], l[1] = b, c
    return x, y, z, h, t, l


def f_alias(a, b, c):
    l = [[], [], [], []]
    m = l[a]
    m.append(b)
    l[b].append(c)
    k = m
    k += [9]
    n = m[:]
    n.append(1)
    return l, m, n, m is l[a], l[a] is l[b]


def f_del(a, b, c):
    l = list(range(4))
    del l[a]
    if b == 1:
        del l[0:2]
    l[c:] = [5]
    return l


def f_state(a, b, c):
    r = []
    state = 'x'
    for v in (a, b, c):
        if state == 'x' and v:
            state = 'y' if v > 1 else 'z'
        elif state == 'y':
            state = 'x'
            r.append(v)
        r.append(state)
    return r


def f_rec(a, b, c):
    def fact(n):
        if n <= 1:
            return 1
        return n * fact(n - 1)
    return fact(a + b), fact(c)


def f_excflow(a, b, c):
    r = []
    for x in (a, b, c):
        try:
            if x == 1:
                continue
            if x == 2:
                break
            r.append([4][x])
        except IndexError:
            r.append('I')
        finally:
            r.append('f')
    return r


def f_setpop(a, b, c):
    s = {a}
    x = s.pop()
    d = deque([a, b])
    d.appendleft(c)
    y = d.pop()
    z = d.popleft()
    return x, y, z, len(d), len(s)


def f_mut(a, b, c):
    d = {}
    for i, x in enumerate((a, b, c)):
        d.setdefault(x, []).append(i)
    e = {}
    for k, v in d.items():
        key = tuple(v)
        if len(key) > 1:
            e[key] = k
    return sorted((k, v) for k, v in d.items()), sorted(e.items())


def f_setofsets(a, b, c):
    d = {}
    for k, v in ((0, {a}), (1, {b}), (2, {c, 1})):
        for kk, vv in d.items():
            if vv == v:
                d[kk] = vv
                break
        else:
            d[k] = v
    return sorted(d), {frozenset([a, b]), frozenset([b, c])} == {frozenset([a, b])}, set.intersection(*[{a, b}, {b, c}])


def f_print(a, b, c):
    print(a, b, sep='-', end='!')
    if c:
        print("c", c)
    return None


def f_kw(a, b, c):
    def g(x, y=2, *z, k=3, **w):
        return x, y, z, k, sorted(w.items())
    return g(a), g(a, b), g(a, b, c), g(y=a, x=b), g(a, k=c, q=b), g(*[a, b], **{'k': c})


def f_none(a, b, c):
    x = None
    if a == 2:
        x = b
    if x is None:
        return 'none'
    return x + c


def f_undef(a, b, c):
    if a:
        y = b
    if a == 1:
        return y
    if a == 2:
        return y + c
    return 0


def f_unbound(a, b, c):
    if a != 1:
        y = b
    return y


def f_assert(a, b, c):
    assert a < 3, "big"
    assert b
    return c


def f_neg(a, b, c):
    l = [1, 2, 3]
    return l[a - b], l[-1 - c % 3], "abc"[a - 1], (1, 2, 3)[:a - 1]


def f_cmpl(a, b, c):
    return [a, b] < [b, c], (a, b) >= (c,), [a] == [b], (a, b) in [(0, 1), (1, c)], [a, b].index(b), 'a' * a < 'aa', sorted([[b, a], [a, c]])


def f_count(a, b, c):
    n = 0
    for i in count(a):
        if i > 5:
            break
        n += i
    for i in repeat(b, 3):
        n += i
    return n, "".join(chr(97 + x) for x in (a, b, c)), ord('a') + a, [str(a), "x"][b % 2].isdigit()


def f_reraise(a, b, c):
    try:
        try:
            if a == 1:
                raise KeyError('k')
            if a == 2:
                raise ValueError('v')
        except KeyError:
            if b == 1:
                raise
            raise TypeError('t')
    except TypeError as e:
        return 'T' + str(e)
    except ValueError:
        return 'V'
    return c


def f_int(a, b, c):
    s = "0x1 "[a]
    try:
        return int(s)
    except ValueError:
        return -1


def f_dictget(a, b, c):
    d = {'x': 1, 'y': [2]}
    k = 'xyz'[a % 3]
    try:
        return d[k], list(d), sorted(d.items(), key=lambda t: t[0])
    except KeyError as e:
        return e.args[0]


def f_flow(a, b, c):
    out = []
    items = [a, b, c]
    i = 0
    while True:
        if i >= len(items):
            break
        if items[i] == 3:
            items = items[:i]
            out.append('cut')
            continue
        for j in items[i + 1:]:
            if j == items[i]:
                break
        else:
            out.append(items[i])
        i += 1
    return out, items


def f_unpackset(a, b, c):
    try:
        x, = {a, b}
        return x, 'one'
    except ValueError:
        pass
    try:
        x, y = [v for v in (a, b, c) if v > 1]
    except ValueError:
        return 'other'
    return x, y


def _pairs(items):
    for i, x in enumerate(items):
        for y in items[i + 1:]:
            yield x, y, len(items)


def f_queue(a, b, c):
    queue = []
    for k in (a, b, c):
        part = [[1, 2], [2, 3, k], [4]][k % 3]
        if part not in queue:
            queue.append(part)
    out = []
    i = 0
    while i < len(queue):
        part = queue[i]
        i += 1
        out.extend(_pairs(part))
    while queue:
        part = queue.pop(0)
        for x, y, _ in _pairs(part):
            out.append(x + y)
            part[-1] = 9
    return out


def f_sumlists(a, b, c):
    parts = [[v, v + 1] for v in (a, b, c) if v % 2]
    return sum(parts, []), sum([[v] for v in (a, b)], [c]), sum(
        [x for x in ([], [a]) if x or b], [])
