"""How sharp the rules of a property are: single edits of the functions they analyse, and which of them they report.

Every edit is made in memory on a copy of the current source and analysed like the source itself; nothing is run.  The
edits the rules do not report are listed in the evidence: many of them change nothing a user can observe (log lines,
caches, dead code), and the others show where a rule is blind.  The outcome of a check does not depend on this."""
import ast
import copy
import os
import random
import time
from concurrent.futures import ProcessPoolExecutor

QUIET = ('log', 'logging', 'logger', 'warnings')
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
        ast.And: ast.Or, ast.Or: ast.And}


def quiet(st):
    if isinstance(st, ast.Expr):
        if isinstance(st.value, ast.Constant):
            return True
        f = getattr(st.value, 'func', None)
        while isinstance(f, ast.Attribute):
            f = f.value
        return isinstance(f, ast.Name) and f.id in QUIET + ('print',)
    return isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef))


def sites(fn):
    """(index of node in walk order, kind) of every edit of a function"""
    out = []
    skip = set()
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.stmt) and quiet(n) and n is not fn:
            for k in ast.walk(n):
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    skip.add(id(k))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for k in ast.walk(n):
                if k is not n:
                    skip.add(id(k))
        if isinstance(n, (ast.arguments, ast.JoinedStr)):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.AnnAssign):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
    for d in fn.decorator_list + [fn.returns] * (fn.returns is not None):
        for k in ast.walk(d):
            skip.add(id(k))
    for i, n in enumerate(ast.walk(fn)):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Return)):
            if isinstance(n, ast.Return) and n.value is None:
                continue
            out.append((i, 'drop'))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, 'negate'))
        if isinstance(n, ast.If) and n.orelse:
            out.append((i, 'no else'))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            out.append((i, 'operator'))
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            out.append((i, 'operator'))
        if isinstance(n, ast.BoolOp):
            out.append((i, 'operator'))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((i, 'constant'))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            out.append((i, 'arguments'))
        if isinstance(n, ast.For):
            out.append((i, 'once'))
    return out


def edit(fn, i, kind):
    n = list(ast.walk(fn))[i]
    line = n.lineno
    if kind == 'drop':
        for p in ast.walk(fn):
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(p, field, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    elif kind == 'negate':
        n.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=n.test), n.test)
    elif kind == 'no else':
        n.orelse = []
    elif kind == 'operator':
        if isinstance(n, ast.Compare):
            n.ops[0] = SWAP[type(n.ops[0])]()
        else:
            n.op = SWAP[type(n.op)]()
    elif kind == 'constant':
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind == 'arguments':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'once':
        n.body.append(ast.copy_location(ast.Break(), n.body[-1]))
    return line


def source(text, first, qual, i, kind):
    tree = ast.parse(text)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno == first:
            line = edit(n, i, kind)
            return ast.unparse(ast.fix_missing_locations(tree)), line
    return None, None


def one(job):
    pid, root, rel, qual, first, i, kind, base = job
    from .registry import RULES
    from .spec import Ctx
    from .world import World
    with open(os.path.join(root, rel), encoding='utf-8') as fh:
        text = fh.read()
    new, line = source(text, first, qual, i, kind)
    if new is None:
        return None
    where = '%s:%d %s' % (rel, line, qual)
    try:
        ctx = Ctx(World(root, overlay={rel: new}))
        ctx.tier = 'quick'
        for fn in RULES[pid]:
            ctx.run(fn)
    except Exception as e:
        return 'no answer', kind, where, str(e)[:120]
    if any(f.key() not in base for f in ctx.findings):
        return 'reported', kind, where, ''
    if ctx.undecided:
        return 'undecided', kind, where, ctx.undecided[0][0]
    return 'not reported', kind, where, ''


def run(pid, root, seed=None, limit=400, seconds=500):
    from .registry import RULES
    from .spec import Ctx
    from .world import World
    world = World(root)
    ctx = Ctx(world)
    ctx.tier = 'quick'
    for fn in RULES[pid]:
        ctx.run(fn)
    base = {f.key() for f in ctx.findings}
    jobs, seen = [], set()
    for m in world.modules.values():
        tree = ast.parse(open(os.path.join(root, m.rel), encoding='utf-8').read())
        todo = [(tree, '')]
        while todo:
            node, q = todo.pop()
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    todo.append((n, n.name + '.'))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if q + n.name in ctx.functions and (m.rel, n.lineno) not in seen:
                        seen.add((m.rel, n.lineno))
                        jobs += [(pid, root, m.rel, q + n.name, n.lineno, i, k, base) for i, k in sites(n)]
                else:
                    todo.append((n, q))
    total = len(jobs)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed)
    rnd.shuffle(jobs)
    jobs = jobs[:limit]
    t0 = time.time()
    out = {}
    done = 0
    missed, open_ = [], []
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        for a in range(0, len(jobs), 32):
            if time.time() - t0 > seconds:
                break
            for r in ex.map(one, jobs[a:a + 32]):
                if r is None:
                    continue
                done += 1
                out[r[0]] = out.get(r[0], 0) + 1
                if r[0] == 'not reported':
                    missed.append('%s: %s' % (r[2], r[1]))
                elif r[0] != 'reported':
                    open_.append('%s: %s (%s)' % (r[2], r[1], r[3]))
    return {'edits_possible': total, 'edits_tried': done, 'functions': len(seen), 'outcome': out,
            'not_reported': sorted(missed), 'no_decision': sorted(open_)}
