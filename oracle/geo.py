"""Rows, columns and boxes of a sudoku, stated independently of the code
under test.  Everything here is concrete (no symbolic values) and returns
tuples; harnesses call it through the engine natively."""
from functools import lru_cache


@lru_cache(None)
def fields(n):
    return tuple((r, c) for r in range(n) for c in range(n))


@lru_cache(None)
def same_box(w, h, a, b):
    return a[0] // h == b[0] // h and a[1] // w == b[1] // w


@lru_cache(None)
def sees(w, h, a, b):
    """a and b are different fields of one row, column or box."""
    return a != b and (
        a[0] == b[0] or a[1] == b[1] or same_box(w, h, a, b))


@lru_cache(None)
def peers(w, h, a):
    return tuple(b for b in fields(w * h) if sees(w, h, a, b))


@lru_cache(None)
def rows(w, h):
    n = w * h
    return tuple(tuple((i, j) for j in range(n)) for i in range(n))


@lru_cache(None)
def columns(w, h):
    n = w * h
    return tuple(tuple((j, i) for j in range(n)) for i in range(n))


@lru_cache(None)
def boxes(w, h):
    n = w * h
    return tuple(tuple((y + i, x + j) for i in range(h) for j in range(w))
                 for y in range(0, n, h) for x in range(0, n, w))


@lru_cache(None)
def units(w, h):
    """All rows, columns and boxes, each a tuple of coordinates."""
    return rows(w, h) + columns(w, h) + boxes(w, h)


@lru_cache(None)
def combos(items, n):
    """Sublists of n items, in order."""
    if n == 0:
        return ((),)
    return tuple((items[i],) + rest for i in range(len(items))
                 for rest in combos(items[i + 1:], n - 1))


@lru_cache(None)
def window(w, h, part):
    """The fields that are not fixed: everything, or one row, column and
    box (their numbers; None: no such)."""
    n = w * h
    if part is None:
        return fields(n)
    r, c, b = part
    box = () if b is None else boxes(w, h)[b]
    return tuple(a for a in fields(n)
                 if a[0] == r or a[1] == c or a in box)


@lru_cache(None)
def live_units(w, h, part):
    live = window(w, h, part)
    return tuple(u for u in units(w, h)
                 if len([a for a in u if a in live]) > 1)


@lru_cache(None)
def units_with(w, h, part, items):
    return tuple(u for u in live_units(w, h, part)
                 if all(x in u for x in items))


@lru_cache(None)
def without(items, drop):
    return tuple(x for x in items if x not in drop)


@lru_cache(None)
def within(items, keep):
    return tuple(x for x in items if x in keep)



@lru_cache(None)
def base(w, h):
    """A solved grid."""
    n = w * h
    return tuple(tuple((r * w + r // h + c) % n + 1 for c in range(n))
                 for r in range(n))
