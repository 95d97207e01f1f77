"""Functions and attributes that were renamed since the rules were written.

The rules refer to functions and attributes of the package by name.  names.json lists the names each class and module
defined then, with what their bodies use.  If one of them is gone from a class or module, nothing refers to it any
more, and the same class or module has a new name with much the same contents, the new name stands for the old one:
the syntax trees are read as if nothing had been renamed.
"""
import ast
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def tokens(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, bytes):
            out.add(repr(n.value)[:40])
        elif isinstance(n, ast.keyword) and n.arg:
            out.add(n.arg + '=')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            out.add(n.func.id + '()')
        elif isinstance(n, (ast.For, ast.While, ast.If, ast.Raise, ast.With, ast.Try)):
            out.add(type(n).__name__)
    return out


def defined(trees):
    """{(file, class): {'f': {function: tokens}, 'a': {attribute: tokens}}}"""
    out = {}
    for rel, tree in trees.items():
        scopes = [('', tree.body)] + [(c.name, c.body) for c in ast.walk(tree) if isinstance(c, ast.ClassDef)]
        for cls, body in scopes:
            fs, at = {}, {}
            for st in body:
                if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                fs[st.name] = fs.get(st.name, set()) | tokens(ast.Module(body=st.body, type_ignores=[]))
                me = st.args.args[0].arg if cls and st.args.args else None
                for n in ast.walk(st):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                at.setdefault(t.attr, set()).update({st.name + ':'} | tokens(n.value))
            if fs or at:
                out[rel, cls] = {'f': fs, 'a': at}
    return out


def used(trees):
    """how often a name is used, and how often it is defined as a function"""
    use, defs = {}, {}
    for t in trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute):
                use[n.attr] = use.get(n.attr, 0) + 1
            elif isinstance(n, ast.Name):
                use[n.id] = use.get(n.id, 0) + 1
            elif isinstance(n, ast.alias):
                use[n.name] = use.get(n.name, 0) + 1
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs[n.name] = defs.get(n.name, 0) + 1
    return use, defs


def renamed(trees):
    if not os.path.exists(FILE):
        return {}
    base = json.load(open(FILE, encoding='utf-8'))
    every = {n for v in base.values() for k in 'fa' for n in v[k]}
    now = defined(trees)
    use, defs = used(trees)
    out = {}
    for key, old in base.items():
        rel, _, cls = key.partition('::')
        new = now.get((rel, cls))
        if new is None:
            continue
        for k in 'fa':
            gone = [n for n in old[k] if n not in new[k] and not (n.startswith('__') and n.endswith('__'))]
            fresh = [n for n in new[k] if n not in every and not (n.startswith('__') and n.endswith('__'))]
            for g in gone:
                if use.get(g) and not (k == 'f' and defs.get(g)):
                    continue
                best = None
                for f in fresh:
                    a, b = set(old[k][g]), new[k][f]
                    s = len(a & b) / max(1, len(a | b)) if a | b else 0.5 if len(gone) == len(fresh) == 1 else 0
                    if s >= 0.5 and (best is None or s > best[0]):
                        best = (s, f)
                if best:
                    out[best[1]] = g
                    fresh.remove(best[1])
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit(self, n):
        self.generic_visit(n)
        if isinstance(n, ast.Attribute) and n.attr in self.m:
            n.attr = self.m[n.attr]
        elif isinstance(n, ast.Name) and n.id in self.m:
            n.id = self.m[n.id]
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in self.m:
            n.name = self.m[n.name]
        elif isinstance(n, ast.alias) and n.name in self.m:
            n.name = self.m[n.name]
        return n


def restore(modules):
    """read the trees of all modules with the names the rules know"""
    trees = {m.rel: m.tree for m in modules}
    m = renamed(trees)
    if m:
        for x in modules:
            Rename(m).visit(x.tree)
    return m


def main():
    import sys
    root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
    trees = {}
    for d, ds, fs in os.walk(os.path.join(root, 'numerous')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                trees[os.path.relpath(p, root)] = ast.parse(open(p, encoding='utf-8').read())
    out = {'%s::%s' % k: {x: {n: sorted(t) for n, t in sorted(v[x].items())} for x in 'fa'} for k, v in sorted(defined(trees).items())}
    with open(FILE, 'w', encoding='utf-8') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)


if __name__ == '__main__':
    main()
