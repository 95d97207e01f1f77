#!/usr/bin/env python3
"""Single edits of all analysed functions that no rule reports.   python3 -m tools.blind [C05 ...] > out"""
import ast
import os
import sys
from concurrent.futures import ProcessPoolExecutor
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import selftest                             # noqa: E402
from sa.registry import RULES                       # noqa: E402
from sa.spec import Ctx                             # noqa: E402
from sa.world import World                          # noqa: E402


def one(job):
    pids, base, root, rel, q, first, i, k = job
    text = open(os.path.join(root, rel), encoding='utf-8').read()
    try:
        new, line = selftest.source(text, first, q, i, k)
    except Exception as e:
        return '%s:%d %s: %s !! %s' % (rel, first, q, k, e)
    where = '%s:%d %s: %s' % (rel, line, q, k)
    try:
        w = World(root, overlay={rel: new})
    except Exception as e:
        return where + ' !! ' + str(e)[:80]
    und = []
    for p in pids:
        ctx = Ctx(w)
        ctx.tier = 'quick'
        try:
            for fn in RULES[p]:
                ctx.run(fn)
        except Exception as e:
            und.append(p + ' ' + str(e)[:60])
            continue
        if any(f.key() not in base[p] for f in ctx.findings):
            return None
        if ctx.undecided:
            und.append(p)
    return where + (' ?? ' + ','.join(und) if und else ' [%s]' % ','.join(pids))


def main(want):
    root = '/repo'
    w = World(root)
    fns, base = {}, {}
    for p in sorted(RULES):
        ctx = Ctx(w)
        ctx.tier = 'quick'
        for fn in RULES[p]:
            ctx.run(fn)
        base[p] = {f.key() for f in ctx.findings}
        for q in ctx.functions:
            fns.setdefault(q, []).append(p)
    jobs = []
    for m in w.modules.values():
        tree = ast.parse(open(os.path.join(root, m.rel), encoding='utf-8').read())
        todo = [(tree, '')]
        while todo:
            node, q = todo.pop()
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    todo.append((n, n.name + '.'))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ps = fns.get(q + n.name, [])
                    if ps and (not want or set(ps) & set(want)):
                        for i, k in selftest.sites(n):
                            jobs.append((ps, base, root, m.rel, q + n.name, n.lineno, i, k))
                else:
                    todo.append((n, q))
    print(len(jobs), 'edits', flush=True)
    with ProcessPoolExecutor(7) as ex:
        for r in ex.map(one, jobs, chunksize=8):
            if r:
                print(r, flush=True)
    print('done')


if __name__ == '__main__':
    main(sys.argv[1:])
