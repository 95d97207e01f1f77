#!/usr/bin/env python3
"""Renames functions and attributes of the package one at a time and lists the checks that raise an alarm (none should).

    python3 -m tools.rename [name ...]
"""
import ast
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from tools.refactor import judge, sources    # noqa: E402
from sa import names as N                     # noqa: E402


def one(job):
    src, n = job
    over = {}
    new = n + '_now'
    for rel, s in src.items():
        if n in s:
            t = N.Rename({n: new}).visit(ast.parse(s))
            over[rel] = ast.unparse(t) + '\n'
    try:
        return n, judge('/repo', over, set())
    except Exception as e:
        return n, {'error': ('broken', repr(e)[:200])}


def main():
    src = sources('/repo')
    trees = {r: ast.parse(s) for r, s in src.items()}
    todo = set()
    for v in N.defined(trees).values():
        todo |= {n for k in 'fa' for n in v[k] if not (n.startswith('__') and n.endswith('__')) and not n.startswith('visit_')}
    todo = sys.argv[1:] or sorted(todo)
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        for n, r in ex.map(one, [(src, n) for n in todo]):
            r = {p: v for p, v in r.items() if v[0] != 'undecided'}
            if r:
                print(n, {p: (v[0], v[1][:150]) for p, v in r.items()}, flush=True)
    print('renamed', len(todo))


if __name__ == '__main__':
    main()
