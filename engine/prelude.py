"""Lazy builtins written in Python; they are run by the engine like any other
function."""


def enumerate_(it, start):
    n = start
    for x in it:
        yield n, x
        n += 1


def map_(f, it):
    for x in it:
        yield f(x)


def filter_(f, it):
    for x in it:
        if f(x):
            yield x


def starmap_(f, it):
    for x in it:
        yield f(*x)


def chain_(*its):
    for it in its:
        for x in it:
            yield x


def chain_from_(its):
    for it in its:
        for x in it:
            yield x


def takewhile_(f, it):
    for x in it:
        if not f(x):
            break
        yield x


def islice_(it, start, stop):
    n = 0
    if stop is None or stop > 0:
        for x in it:
            if n >= start:
                yield x
            n += 1
            if stop is not None and n >= stop:
                break


def count_(start, step):
    n = start
    while True:
        yield n
        n += step


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def reduce_(f, it, acc):
    for x in it:
        acc = f(acc, x)
    return acc


def reduce1_(f, lst):
    acc = lst[0]
    for x in lst[1:]:
        acc = f(acc, x)
    return acc


def dropwhile_(f, it):
    drop = True
    for x in it:
        if drop and f(x):
            continue
        drop = False
        yield x


def accumulate_(it, f):
    first = True
    t = None
    for x in it:
        if first:
            t = x
            first = False
        else:
            t = f(t, x)
        yield t


def groupby_(it, key):
    first = True
    last = None
    group = []
    for x in it:
        k = x if key is None else key(x)
        if first or k != last:
            if not first:
                yield last, iter(group)
            group = []
            last = k
            first = False
        group.append(x)
    if not first:
        yield last, iter(group)


def first_(it, default):
    for x in it:
        return x
    return default


def lru_cached_(memo, f, args, kw):
    key = args, tuple(kw.items())
    if key in memo:
        return memo[key]
    value = f(*args, **kw)
    memo[key] = value
    return value


def cached_property_(o, name, func):
    try:
        return own_attribute(o, name)
    except AttributeError:
        value = func(o)
        setattr(o, name, value)
        return value


def getattr_(o, name, default):
    try:
        return getattr(o, name)
    except AttributeError:
        return default


def hasattr_(o, name):
    try:
        getattr(o, name)
    except AttributeError:
        return False
    return True


class Own(object):
    _host_api_ = True

    def attribute(self, o, name):
        """The value of an attribute of the object itself."""
        from engine import rt
        return rt.own_attribute(o, name)


own_attribute = Own().attribute
