"""A value between the points of a table."""
import itertools
from fractions import Fraction

from ..bdd import FALSE, TRUE
from ..spec import spec_trace

BILINEAR = '''
def bilinear_interpolation(ix, x, y, data_def, data):
    at = data_def[ix]
    nx, ny = data[at], data[at + 1]
    xs = at + 6
    ys = xs + np.int64(nx)
    qs = ys + np.int64(ny)

    u = x if data[at + 3] == data[at + 2] else (x - data[at + 2]) / (data[at + 3] - data[at + 2])
    v = y if data[at + 5] == data[at + 4] else (y - data[at + 4]) / (data[at + 5] - data[at + 4])
    i1, i2 = np.int64(np.floor(u * (nx - 1))), np.int64(np.ceil(u * (nx - 1)))
    j1, j2 = np.int64(np.floor(v * (ny - 1))), np.int64(np.ceil(v * (ny - 1)))
    i1 = 0 if i1 < 0 else np.int64(nx) - 1 if i1 >= nx else i1
    i2 = 0 if i2 < 0 else np.int64(nx) - 1 if i2 >= nx else i2
    j1 = 0 if j1 < 0 else np.int64(ny) - 1 if j1 >= ny else j1
    j2 = 0 if j2 < 0 else np.int64(ny) - 1 if j2 >= ny else j2
    return (nx, ny, data[i1 + xs], data[i2 + xs], data[j1 + ys], data[j2 + ys],
            data[qs + i1 + np.int64(nx) * j1], data[qs + i1 + np.int64(nx) * j2],
            data[qs + i2 + np.int64(nx) * j1], data[qs + i2 + np.int64(nx) * j2])
'''


class Algebra:
    """terms as quotients of polynomials over what cannot be taken apart, under given equalities"""

    def __init__(self, interp, given=(), whole=()):
        self.I, self.B = interp, interp.B
        self.given = given
        self.whole = whole              # values that are whole numbers
        self.memo = {}
        self.same = {}

    def guard(self, b):
        if b <= 1:
            return b
        if ('g', b) not in self.memo:
            v, lo, hi = self.B.nodes[b]
            a = self.atom(self.B.atoms[v])
            for x, val in self.given:
                a = self.B.restrict(a, x, val)
            self.memo['g', b] = self.B.ite(a, self.guard(hi), self.guard(lo))
        return self.memo['g', b]

    def atom(self, a):
        if a[0] == '==' and len(a) == 3:
            return self.B.atom(equality(self.key(a[1]), self.key(a[2])))
        if a[0] == '<' and len(a) == 3:
            n, d = self.quotient(('op', '-', a[1], a[2]))
            k = freeze(n, d)
            if set(d) == {()} and all(c.denominator == 1 and all(self.is_whole(x) for x, e in m) for m, c in n.items()):
                # of whole numbers, a < b is not b - 1 < a
                k2 = freeze(plus({m: -c for m, c in n.items()}, {(): Fraction(1)}, -1), d)
                if repr(k2) < repr(k):
                    return self.B.not_(self.B.atom(('<', k2)))
            return self.B.atom(('<', k))
        return self.B.atom((a[0],) + tuple(self.key(x) if isinstance(x, tuple) else x for x in a[1:]))

    def is_whole(self, x):
        return x in self.whole or x[0] == 'call' and x[1] in ('int64', 'int', 'len')

    def leaves(self, t, g=TRUE):
        """value -> condition"""
        out = {}
        if t[0] == 'ite':
            c = self.guard(t[1])
            for x, gx in ((t[2], self.B.and_(g, c)), (t[3], self.B.and_(g, self.B.not_(c)))):
                if gx != FALSE:
                    for k, v in self.leaves(x, gx).items():
                        out[k] = self.B.or_(out.get(k, FALSE), v)
        else:
            out[self.key(t)] = g
        return out

    def key(self, t):
        """the quotient, as a value that is equal for equal quotients"""
        if t not in self.memo:
            n, d = self.quotient(t)
            self.memo[t] = freeze(n, d)
        return self.memo[t]

    def quotient(self, t):
        if t[0] == 'const' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return {(): Fraction(t[1])} if t[1] else {}, {(): Fraction(1)}
        if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-', '*', '/'):
            (a, b), (c, d) = self.quotient(t[2]), self.quotient(t[3])
            if t[1] == '*':
                return times(a, c), times(b, d)
            if t[1] == '/':
                return times(a, d), times(b, c)
            return plus(times(a, d), times(c, b), 1 if t[1] == '+' else -1), times(b, d)
        if t[0] == 'ite':
            ls = self.leaves(t)
            if len(ls) == 1:
                return thaw(next(iter(ls)))
            x = ('cases', frozenset(ls.items()))
        elif t[0] == 'param':
            x = t
        elif t[0] == 'call':
            x = ('call', t[1].split('.')[-1], self.key(t[2]) if t[2] else None, tuple(self.key(y) for y in t[3]),
                 tuple((n, self.key(y)) for n, y in t[4]))
        else:
            x = t[:1] + tuple(self.key(y) if isinstance(y, tuple) else y for y in t[1:])
        x = self.same.get(x, x)
        return {((x, 1),): Fraction(1)}, {(): Fraction(1)}

    def put(self, k):
        """a quotient, with one of two equal values in place of the other"""
        return tuple({} if not p else total(p, self.same) for p in thaw(k))


def total(p, same):
    out = {}
    for m, c in p.items():
        n = {}
        for x, e in m:
            x = same.get(x, x)
            n[x] = n.get(x, 0) + e
        m = tuple(sorted(n.items(), key=repr))
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def plus(a, b, f=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + f * c
    return {m: c for m, c in out.items() if c}


def times(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            k = tuple(sorted(e.items(), key=repr))
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def freeze(n, d):
    if d:
        c = d[min(d, key=repr)]
        n, d = {m: v / c for m, v in n.items()}, {m: v / c for m, v in d.items()}
    return frozenset(n.items()), frozenset(d.items())


def thaw(k):
    return dict(k[0]), dict(k[1])


def equality(a, b):
    return ('==',) + tuple(sorted((a, b), key=repr))


def atom_of(k):
    (m, c), = k[0]
    (x, e), = m
    return x


def C34(ctx):
    """The formula of the interpolated value, as a quotient of polynomials, in each case of the position of the point in its
    cell, and the indices of the cell."""
    r, entry = 'bilinear', 'bilinear_interpolation'
    code = ctx.trace(entry)
    spec = spec_trace(ctx, code, BILINEAR)
    I = code.interp
    base = Algebra(I)
    whole = [atom_of(base.key(t)) for t in spec.result[1:3]]
    base = Algebra(I, (), whole)
    corners = [base.key(t) for t in spec.result[3:]]
    x, y = base.key(('param', 'x')), base.key(('param', 'y'))
    x1, x2, y1, y2, q11, q12, q21, q22 = corners
    where = ctx.w.func(entry).where()
    cases = [c for c in itertools.product((True, False), repeat=3) if sum(c) != 2]
    names = ('the lower side', 'the upper side', 'a flat cell')
    for cx in cases:
        for cy in cases:
            given = [(equality(a, b), v) for (a, b), v in zip(((x, x1), (x, x2), (x1, x2), (y, y1), (y, y2), (y1, y2)), cx + cy)]
            A = Algebra(I, given, whole)
            weights = []
            for p, lo, hi, c in ((x, x1, x2, cx), (y, y1, y2, cy)):
                p, lo, hi = (thaw(k)[0] for k in (p, lo, hi))
                one, zero, d = {(): Fraction(1)}, {}, plus(hi, lo, -1)
                weights.append(((one, zero), one) if c[0] or c[2] else ((zero, one), one) if c[1] else
                               ((plus(hi, p, -1), plus(p, lo, -1)), d))
            want = {}
            for i, j, q in ((0, 0, q11), (0, 1, q12), (1, 0, q21), (1, 1, q22)):
                want = plus(want, times(times(weights[0][0][i], weights[1][0][j]), thaw(q)[0]))
            down = times(weights[0][1], weights[1][1])
            for p, lo, hi, c in ((x, x1, x2, cx), (y, y1, y2, cy)):
                for a, b, v in ((lo, p, c[0]), (hi, p, c[1]), (hi, lo, c[2] and not c[1])):
                    if v:
                        A.same[atom_of(a)] = atom_of(b)
            if cx[2]:
                A.same.update({atom_of(q21): atom_of(q11), atom_of(q22): atom_of(q12)})
            if cy[2]:
                A.same.update({atom_of(q12): atom_of(q11), atom_of(q22): atom_of(q11 if cx[2] else q21)})
            want, down = total(want, A.same), total(down, A.same)
            same, A.same = A.same, {}
            found = A.leaves(code.result)
            A.same = same
            good = bool(found)
            for k in found:
                n, d = A.put(k)
                good = good and bool(d) and times(n, down) == times(want, d)
            at = ' and '.join('%s of the %s' % (names[c.index(True)], s) if any(c) else 'inside of the %s' % s
                              for c, s in ((cx, 'x axis'), (cy, 'y axis')))
            ctx.check(good, r, 'the value at %s' % at, where, 'the interpolated value is not that of the cell at ' + at)
