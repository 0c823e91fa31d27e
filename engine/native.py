"""The native side of the harness API: runs the same harness on CPython, with
the real code, on concrete values taken from a solver model."""
import importlib
import io
import json
import signal
import sys
import traceback


class Violation(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class Timeout(BaseException):
    pass


class Native(object):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.labels = set()
        self.undo = []
        self.buf = None

    def int(self, name, lo, hi):
        v = self.values.get(name, lo)
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        return list(options)[self.values.get(name, 0)]

    def subset(self, name, elems):
        return set(tuplify(x) for x in self.values.get(name, ()))

    def solution(self, name, w, h):
        return [list(r) for r in self.values[name]]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def reach(self, label):
        self.labels.add(label)

    def observe(self, label, value):
        self.observed.append([label, norm(value)])

    def output(self):
        return sys.stdout.getvalue()

    def clear_output(self):
        sys.stdout.seek(0)
        sys.stdout.truncate()

    def stub(self, func, repl):
        f = getattr(func, '__func__', func)
        done = False
        for mod in list(sys.modules.values()):
            nm = getattr(mod, '__name__', '')
            if not (nm.startswith('sudokutools') or nm == func.__module__):
                continue
            for owner in [mod] + [c for c in vars(mod).values()
                                  if isinstance(c, type)]:
                for k, v in list(vars(owner).items()):
                    if v is f or v is func:
                        self.undo.append((owner, k, v))
                        setattr(owner, k, repl)
                        done = True
                    elif isinstance(v, (staticmethod, classmethod)) and \
                            v.__func__ is f:
                        self.undo.append((owner, k, v))
                        setattr(owner, k, type(v)(repl))
                        done = True
        # methods of module-level instances, e.g. random.shuffle
        nm = getattr(func, '__name__', None)
        slf = getattr(func, '__self__', None)
        if slf is not None and not done:
            for mod in list(sys.modules.values()):
                for k, v in list(getattr(mod, '__dict__', {}).items()):
                    if v == func and getattr(v, '__name__', 0) == nm:
                        self.undo.append((mod, k, v))
                        setattr(mod, k, repl)

    def case(self, v):
        return v

    def fact(self, v):
        return bool(v)

    def forking(self, on):
        pass

    def loop_limit(self, n):
        pass

    def log(self, *a):
        pass


def tupled(v):
    return tuple(tupled(x) for x in v) if isinstance(v, list) else v


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((norm(x) for x in v), key=repr)
    if isinstance(v, dict):
        return ['dict'] + [[norm(k), norm(x)] for k, x in v.items()]
    if isinstance(v, type):
        return v.__name__
    if v is None or isinstance(v, (int, str, bool)):
        return v
    if hasattr(v, '__iter__') and hasattr(v, '__next__'):
        return '<PGen>'
    return '<%s>' % type(v).__name__


def run_one(item):
    """item: {harness: 'module:function', params, values, timeout}"""
    mod, fn = item['harness'].split(':')
    f = getattr(importlib.import_module('harness.' + mod), fn)
    n = Native(item['values'])

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(item.get('timeout', 20))
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            f(n, **{k: tupled(v) for k, v in item['params'].items()})
            res = 'ok'
        except Violation as e:
            res = 'check: %s' % e
        except AssumeFailed:
            res = 'assume'
        except Timeout:
            res = 'timeout'
        except RecursionError as e:
            res = 'exception: RecursionError'
        except Exception as e:
            res = 'exception: %s: %s' % (type(e).__name__, e)
            n.trace = traceback.format_exc()
    finally:
        signal.alarm(0)
        sys.stdout = out
        for owner, k, v in reversed(n.undo):
            setattr(owner, k, v)
    return {'result': res, 'observed': n.observed,
            'labels': sorted(n.labels), 'trace': getattr(n, 'trace', '')}


def main():
    sys.dont_write_bytecode = True
    repo, here = sys.argv[1], sys.argv[2]
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    items = json.load(sys.stdin)
    json.dump([run_one(i) for i in items], sys.stdout)


if __name__ == '__main__':
    main()
