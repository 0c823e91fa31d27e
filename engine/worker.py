"""Runs one symbolic task: python worker.py REPO < task.json > report.json"""
import importlib
import json
import os
import resource
import sys


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = sys.argv[1]
    task = json.load(sys.stdin)
    out = os.dup(1)
    os.dup2(2, 1)
    lim = task.get('mem', 6) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    from engine import driver

    def go():
        driver.setup(repo)
        mod, fn = task['harness'].split(':')
        f = getattr(importlib.import_module('harness.' + mod), fn)
        return driver.run_task(f, task['params'], task.get('opts', {}))
    rep = driver.big_stack(go)
    with os.fdopen(out, 'w') as f:
        json.dump(rep, f)
        f.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
