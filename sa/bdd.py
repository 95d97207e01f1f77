"""Tiny reduced ordered BDDs over interned atoms.

Guards of program points are boolean combinations of syntactic conditions ("atoms").  A canonical
representation makes "these two guards are the same condition however it was written" an equality test.
No solver is involved: atoms are uninterpreted except for the few built-in exclusions in `theory`.
"""

import ast

FALSE, TRUE = 0, 1


NODES = {n: c for n, c in vars(ast).items() if isinstance(c, type) and issubclass(c, ast.AST)}
BUILTIN = {'str': str, 'list': list, 'dict': dict, 'tuple': tuple, 'int': int, 'float': float}


def runtime_class(t):
    """classes of the language whose instances cannot also be instances of one another"""
    if not isinstance(t, tuple) or len(t) != 2:
        return None
    if t[0] == 'ext' and t[1].startswith('ast.'):
        return NODES.get(t[1][4:])
    if t[0] == 'builtin':
        return BUILTIN.get(t[1])
    return None


class BDD:
    def __init__(self):
        self.nodes = [(None, None, None), (None, None, None)]
        self.unique = {}
        self.atom_ix = {}
        self.atoms = []
        self.cache = {}
        self.constraint_cache = {}

    def atom(self, term):
        ix = self.atom_ix.get(term)
        if ix is None:
            ix = len(self.atoms)
            self.atom_ix[term] = ix
            self.atoms.append(term)
        return self._mk(ix, FALSE, TRUE)

    def _mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.unique[k] = n
        return n

    def polarity(self, f):
        """the value of f when every atom is false"""
        while f > 1:
            f = self.nodes[f][1]
        return f == TRUE

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x <= 1 or self.nodes[x][0] != v:
                return x
            return self.nodes[x][2] if b else self.nodes[x][1]
        r = self._mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.cache[k] = r
        return r

    def and_(self, *xs):
        r = TRUE
        for x in xs:
            r = self.ite(r, x, FALSE)
        return r

    def or_(self, *xs):
        r = FALSE
        for x in xs:
            r = self.ite(r, TRUE, x)
        return r

    def not_(self, x):
        return self.ite(x, FALSE, TRUE)

    def support(self, f, seen=None):
        out, todo, seen = set(), [f], set()
        while todo:
            x = todo.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.atoms[v])
            todo += [lo, hi]
        return out

    def restrict(self, f, term, val):
        ix = self.atom_ix.get(term)
        if ix is None:
            return f
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            if v == ix:
                r = hi if val else lo
            else:
                r = self._mk(v, go(lo), go(hi)) if v < ix else x
            memo[x] = r
            return r
        return go(f)

    def theory(self, atoms):
        """Constraint excluding impossible valuations of the given atoms."""
        key = frozenset(atoms)
        if key in self.constraint_cache:
            return self.constraint_cache[key]
        c = TRUE
        atoms = sorted(atoms, key=lambda t: self.atom_ix[t])
        consts = {}
        for t in atoms:
            if isinstance(t, tuple) and t[0] == '==':
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if isinstance(b, tuple) and b[0] in ('const', 'enum'):
                        consts.setdefault(a, []).append((t, b))
                        break
            if isinstance(t, tuple) and t[0] == 'isnone':
                consts.setdefault(t[1], []).append((t, ('const', None)))
                tr = ('truthy', t[1])
                if tr in key:
                    c = self.and_(c, self.not_(self.and_(self.atom(t), self.atom(tr))))
            if isinstance(t, tuple) and t[0] == '<':
                rev = ('<', t[2], t[1])
                if rev in key:
                    c = self.and_(c, self.not_(self.and_(self.atom(t), self.atom(rev))))
                for eq in (('==', t[1], t[2]), ('==', t[2], t[1])):
                    if eq in key:
                        c = self.and_(c, self.not_(self.and_(self.atom(t), self.atom(eq))))
        kinds = {}
        for t in atoms:
            if isinstance(t, tuple) and t[0] == 'isinstance':
                cls = runtime_class(t[2])
                if cls is not None:
                    kinds.setdefault(t[1], []).append((t, cls))
        for a, lst in kinds.items():
            for i in range(len(lst)):
                for j in range(i):
                    x, y = lst[i][1], lst[j][1]
                    if issubclass(x, y):
                        c = self.and_(c, self.or_(self.not_(self.atom(lst[i][0])), self.atom(lst[j][0])))
                    elif issubclass(y, x):
                        c = self.and_(c, self.or_(self.not_(self.atom(lst[j][0])), self.atom(lst[i][0])))
                    else:
                        c = self.and_(c, self.not_(self.and_(self.atom(lst[i][0]), self.atom(lst[j][0]))))
        for a, lst in consts.items():
            for i in range(len(lst)):
                for j in range(i):
                    if lst[i][1] != lst[j][1]:
                        c = self.and_(c, self.not_(self.and_(self.atom(lst[i][0]), self.atom(lst[j][0]))))
        self.constraint_cache[key] = c
        return c

    def sat(self, f):
        if f <= 1:
            return f == TRUE
        return self.and_(f, self.theory(self.support(f))) != FALSE

    def implies(self, f, g):
        d = self.and_(f, self.not_(g))
        return not self.sat(d)

    def equiv(self, f, g):
        return self.implies(f, g) and self.implies(g, f)

    def show(self, f, fmt=str):
        if f == TRUE:
            return 'always'
        if f == FALSE:
            return 'never'
        cubes = []

        def go(x, acc):
            if len(cubes) > 6:
                return
            if x == TRUE:
                cubes.append(list(acc))
                return
            if x == FALSE:
                return
            v, lo, hi = self.nodes[x]
            go(hi, acc + [fmt(self.atoms[v])])
            go(lo, acc + ['not(' + fmt(self.atoms[v]) + ')'])
        go(f, [])
        return ' or '.join(' and '.join(c) for c in cubes[:6]) + (' or ...' if len(cubes) > 6 else '')
