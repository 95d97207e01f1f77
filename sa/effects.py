"""Canonical effects of a guarded event trace and their comparison with an effect specification.

A specification is a small function written in the same language as the code.  It is interpreted by the same
abstract interpreter, which reduces both sides to canonical effects: what is written, called, returned or
rejected, with which value (an access-path term), in which iteration space and under which condition.  Two
effects are the same when their canonical forms coincide, whatever the statements looked like.
"""
import ast

from .bdd import TRUE, FALSE
from .interp import Interp, Loop, is_const, NONE, const
from .world import Func, AnalysisError
from .show import show, guard as show_guard

ANY = ('name', 'ANY')
IDEMPOTENT = ('store', 'setitem', 'delitem')
IGNORED_CALLS = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'print', 'warn', 'isEnabledFor'}
# calls whose term carries no behaviour of its own
TRANSPARENT = {'list', 'tuple', 'iter'}


class SpecInterp(Interp):
    """interprets specification functions; repository functions are leaves"""

    def __init__(self, *a, **k):
        self.inline_only = k.pop('inline', ())
        super().__init__(*a, **k)

    def can_inline(self, f):
        if len(self.stack) > 12 or f in self.stack:
            return False
        if getattr(f, 'is_spec', False) or getattr(f.node, 'is_spec', False):
            return True
        if f.qual in self.opaque:
            return False
        return f.qual in self.inline_only or f.name in self.inline_only

    def lookup(self, name, frame):
        r = super().lookup(name, frame)
        if r == ('name', name) and name != 'ANY':
            try:
                c = self.w.cls(name, optional=True)
            except AnalysisError:
                c = None
            if c is not None:
                return ('class', c.name)
            f = self.w.unique_callable(name)
            if f is not None and f.cls is None:
                return ('gfunc', f.module.name, f.name)
        return r


class Effect:
    __slots__ = ('kind', 'key', 'guard', 'event', 'pos', 'text', 'barrier', 'unknown', 'name', 'norm')

    def __init__(self, kind, key, guard, event, pos, name):
        self.kind, self.key, self.guard, self.event, self.pos, self.name = kind, key, guard, event, pos, name
        self.unknown = False


def has_ite(x):
    if not isinstance(x, tuple):
        return False
    if x[:1] == ('ite',):
        return True
    if x[:1] in (('newc',), ('bool',), ('closure',), ('objc',)):
        return False
    return any(has_ite(y) for y in x)


def one_of(alts):
    """a conditional value from its alternatives"""
    vs = sorted(alts, key=repr)
    if not vs:
        return ('never',)
    out = vs[-1]
    for v in reversed(vs[:-1]):
        out = ('ite', alts[v], v, out)
    return out


class Side:
    """canonicaliser for one trace"""

    def __init__(self, trace, world, alias=None):
        self.tr, self.I, self.w = trace, trace.interp, world
        self.B = self.I.B
        self.memo = {}
        self.rel = self.rel0 = TRUE
        self.unders = {}
        self.each_of = {}
        self.stored = {}
        self.ctor = {}
        self.stop = {}
        self.alias = alias or {}
        self.drop = getattr(trace, 'drop', None) or {}
        for e in trace.events:
            if e.kind in ('store', 'setattr') and isinstance(e.value, tuple) and e.value and e.value[0] == 'new':
                self.stored.setdefault(e.value[2], ('attr', e.base, e.name))
            if e.kind == 'call' and isinstance(e.result, tuple) and e.result and e.result[0] == 'obj' and \
                    not (e.target and e.target[0] == 'repo'):
                self.ctor.setdefault(e.result[2], e)
            if e.kind == 'return':
                for L in e.loops:
                    lo = self.I.loops.get(L)
                    if lo is not None and e.func is lo.func:
                        self.stop[L] = self.B.or_(self.stop.get(L, FALSE), e.guard)
        for L, lo in self.I.loops.items():
            if lo.brk != FALSE:
                self.stop[L] = self.B.or_(self.stop.get(L, FALSE), lo.brk)

    # -- terms
    def bind(self, name, args, kw, target=None):
        """positional form of the arguments of a repository function"""
        f = None
        without = ()
        if isinstance(name, str) and name.split('.')[-1] in self.drop:
            # arguments that only label what is made
            n, names = self.drop[name.split('.')[-1]]
            if n is None:
                without = names
        if isinstance(name, str) and name.split('.')[-1] in self.drop and not without:
            kw = {k: v for k, v in dict(kw).items() if k not in names}
            args = tuple(args)[:n]
            fields = getattr(getattr(ast, name.split('.')[-1], None), '_fields', ())
            if not any(a and a[0] == 'star' for a in args):
                while args and len(args) <= len(fields):
                    kw.setdefault(fields[len(args) - 1], args[-1])
                    args = args[:-1]
            return args, tuple(sorted(kw.items()))
        if target is not None and target[0] == 'init':
            f = target[1]
        if target is not None and target[0] == 'repo':
            f = self.w.func_or_none(target[1])
        if f is None:
            f = self.w.unique_callable(name)
        args = list(args)
        kw = {k: v for k, v in dict(kw).items() if k not in without}
        if f is None:
            if kw and isinstance(name, str):
                for p in self.w.common_params(name, kw)[len(args):]:
                    if p not in kw:
                        break
                    args.append(kw.pop(p))
            return tuple(args), tuple(sorted(kw.items()))
        ps = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and not f.is_static:
            ps = ps[1:]
        if any(a and a[0] == 'star' for a in args):
            return tuple(args), tuple(sorted(kw.items()))
        defaults = f.node.args.defaults
        dv = {}
        allp = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        for p, d in zip(allp[len(allp) - len(defaults):], defaults):
            if isinstance(d, ast.Constant):
                dv[p] = const(d.value) if not isinstance(d.value, bool) else ('bool', TRUE if d.value else FALSE)
        for p in ps[len(args):]:
            if p in kw:
                args.append(kw.pop(p))
            elif p in dv:
                args.append(dv[p])
            else:
                break
        for i, p in enumerate(ps[:len(args)]):
            if p in without:
                args[i] = dv.get(p, const(None))
        # trailing defaults are dropped
        while args and len(args) <= len(ps) and ps[len(args) - 1] in dv and args[-1] == dv[ps[len(args) - 1]]:
            args.pop()
        return tuple(args), tuple(sorted(kw.items()))

    def init_of(self, t):
        """the constructor of an object"""
        c = self.I.objs.get(t[2]) if isinstance(t, tuple) and t[:1] == ('obj',) else None
        f = self.w.find_method(c, '__init__') if c is not None else None
        return ('init', f) if f is not None else None

    def canon(self, t, lm, contents, busy=()):
        if not isinstance(t, tuple) or not t:
            return t
        c = lambda x: self.canon(x, lm, contents, busy)
        k = t[0]
        if k == 'const' or k in ('enum', 'class', 'builtin', 'param', 'ANY', 'name', 'mod'):
            return t
        if k == 'elem':
            return ('elem', c(t[1]), lm.get(t[2], t[2] if t[2] < 0 else ('stale', self.loop_sig(t[2], contents, busy))))
        if k == 'idx':
            return ('idx', lm.get(t[1], t[1] if not isinstance(t[1], int) or t[1] < 0 else ('stale', self.loop_sig(t[1], contents, busy))))
        if k == 'phi':
            return self.phi(t, lm, contents, busy)
        if k == 'exists':
            return ('exists', tuple(c(x) for x in t[1]), self.cg(self.under(t[2]), lm, contents, busy), t[3])
        if k == 'bool':
            return ('bool', self.cg(self.under(t[1]), lm, contents, busy))
        if k == 'ite':
            if self.rel != TRUE:
                if self.B.implies(self.rel, t[1]):
                    return c(t[2])
                if self.B.and_(self.rel, t[1]) == FALSE:
                    return c(t[3])
            cond, rel, B = self.cg(self.under(t[1]), lm, contents, busy), self.rel, self.B
            self.rel = B.and_(rel, t[1])
            yes = c(t[2])
            self.rel = B.and_(rel, B.not_(t[1]))
            no = c(t[3])
            self.rel = rel
            return self.cases(self.I.ite(cond, yes, no))
        if k == 'new':
            return self.container(t, lm, contents, busy)
        if k == 'obj':
            e = self.ctor.get(t[2])
            if e is None or t in busy:
                return ('objc', t[1])
            a, kw = self.bind(t[1], e.args, e.kwargs, self.init_of(t))
            b2 = busy + (t,)
            return ('objc', t[1], tuple(self.canon(x, lm, contents, b2) for x in a),
                    tuple((n, self.canon(x, lm, contents, b2)) for n, x in kw))
        if k == 'call':
            a, kw = self.bind(t[1], t[3], t[4])
            nm = t[1].split('.')[-1] if t[2] is None else t[1]
            nm = self.alias.get(nm, nm)
            if nm in TRANSPARENT and t[2] is None and len(a) == 1 and not kw:
                return c(a[0])
            return ('call', nm, c(t[2]) if t[2] is not None else None, tuple(c(x) for x in a),
                    tuple((n, c(x)) for n, x in kw))
        if k == 'func':
            fv = self.I.funcs.get(t[1])
            return ('closure', self.closure(t, fv, lm, contents, busy))
        if k == 'obj':
            return t
        if k == 'star':
            return ('star', c(t[1]))
        if k == 'item':
            return flat_item(c(t[1]), c(t[2]))
        return tuple(c(x) if isinstance(x, tuple) else x for x in t)

    def cases(self, t):
        """one form for conditional values, however the conditions are nested or negated"""
        if t[0] != 'ite':
            return t
        B = self.B
        by = {}

        def walk(x, g):
            if x[0] == 'ite':
                walk(x[2], B.and_(g, x[1]))
                walk(x[3], B.and_(g, B.not_(x[1])))
            elif g != FALSE:
                by[x] = B.or_(by.get(x, FALSE), g)
        walk(t, TRUE)
        if len(by) == 1:
            return next(iter(by))
        last = [x for x, g in by.items() if B.polarity(g)]
        rest = sorted((x for x in by if x not in last), key=repr)
        out = last[0]
        for x in reversed(rest):
            out = ('ite', by[x], x, out)
        return out

    def closure(self, t, fv, lm, contents, busy):
        if fv is None:
            return '?'
        return 'fn'

    def loop_sig(self, L, contents, busy):
        lo = self.I.loops.get(L)
        if lo is None or ('L', L) in busy:
            return '?'
        return self.canon(lo.coll, {L: 'self'}, contents, busy + (('L', L),))

    def phi(self, t, lm, contents, busy):
        lo = self.I.loops.get(t[1])
        key = ('phi', t[1], t[2])
        if lo is None:
            return ('phi?',)
        if key in busy:
            return ('phi^', len(busy) - busy.index(key))
        p = lo.phis.get(('env', t[2])) or lo.phis.get(t[2])
        if p is None:
            return ('phi?',)
        inside = t[1] in lm
        m = dict(lm)
        m.setdefault(t[1], ('p', len([b for b in busy if b and b[0] == 'phi'])))
        b2 = busy + (key,)
        sig = self.loop_sig(t[1], contents, busy)
        stop = self.stop.get(t[1], FALSE)
        if stop != FALSE and self.B.implies(lo.guard, stop):
            sig = ('first', sig)        # always left after the first round
        rel = self.rel, self.rel0
        inner = {x for x, o in self.I.loops.items() if x == t[1] or t[1] in o.parents}
        self.rel, self.rel0 = self.elsewhere(rel[0], inner), self.elsewhere(rel[1], inner)
        step = self.canon(p[1], m, contents, b2) if isinstance(p[1], tuple) else None
        self.rel, self.rel0 = rel
        if inside and p[0] is not None and p[0][0] == 'const' and isinstance(p[1], tuple) and p[1][0] == 'ite' and sticky(p[1], t):
            # set in some rounds, and still that in those that do not set it
            return ('carried', sig, p[0], own_round(step))
        return ('phi', sig, self.canon(p[0], lm, contents, b2), step)

    def elsewhere(self, g, loops):
        """what is left of a condition in another iteration of the loops"""
        for a in self.B.support(g) if g > 1 else ():
            if self.I.mentions_loop(a, loops):
                g = self.B.or_(self.B.restrict(g, a, True), self.B.restrict(g, a, False))
        return g

    def container(self, t, lm, contents, busy):
        if t in busy:
            return ('new^', t[1])
        segs = contents.get(t[2])
        b2 = busy + (t,)
        if segs is None:
            return ('newh', t[1], self.history(t, lm, contents, b2))
        out, last = [], None
        for g in segs:
            if t[1] != 'dict':
                g = self.one_by_one(g)
            m = dict(lm)
            ls = []
            born = self.I.made.get(t[2])
            for L in g[2]:
                if L in lm and (born is None or L in born):
                    continue
                nm = ('c', len(b2), len(ls))
                m[L] = nm
                entry = self.loop_entry(L, m, contents, b2)
                # made before the loop, used inside of it: what all rounds have put there
                ls.append(('rounds', entry) if L in lm else entry)
            g1 = self.nonempty(g[1], g[2])
            sg = TRUE if self.rel != TRUE and self.B.implies(self.rel, g1) else self.cg(self.under(g1), m, contents, b2)
            row = (g[0], sg, tuple(ls)) + tuple(self.canon(x, m, contents, b2) for x in g[3:])
            if g[0] == 'item':
                same = bool(out) and last is not None and last[0] == g[2] and \
                    (bool(g[2]) or sg != TRUE) and self.B.and_(last[1], sg) == FALSE
                alts = last[2] if same else {}
                self.alternatives(row[3], sg, alts)
                sg = self.B.or_(last[1], sg) if same else sg
                if same:
                    out.pop()
                last = (g[2], sg, alts)
                row = row[:1] + (sg,) + row[2:3] + (one_of(alts),) + row[4:]
            else:
                last = None
            out.append(row)
        if t[1] in ('set', 'dict') or all(x[0] == 'kv' for x in out) and out:
            out = sorted(out, key=repr)
        return ('newc', t[1], tuple(out))

    def one_by_one(self, g):
        """extending by a collection is adding every element of it"""
        if g[0] != 'ext' or len(g) != 4 or g[3][0] in ('ite', 'const', 'phi'):
            return g
        L = self.each_of.get(g)
        if L is None:
            L = self.each_of[g] = self.I.fresh()
            c, e = self.I.elem_of(g[3], L)
            lo = self.I.loops[L] = Loop(L, c, None, None, g[1], g[2], 'for')
            lo.el = e
        return ('item', g[1], g[2] + (L,), self.I.loops[L].el)

    def history(self, t, lm, contents, busy):
        """all that is done to a container whose contents are not known piece by piece"""
        out = []
        for e in self.tr.events:
            if e.base != t or e.kind not in ('append', 'extend', 'update', 'setitem', 'delitem', 'pop', 'call') or e.inlined:
                continue
            m, ls = dict(lm), []
            for L in e.loops:
                if L not in lm:
                    m[L] = ('c', len(busy), len(ls))
                    ls.append(self.loop_entry(L, m, contents, busy))
            g = self.nonempty(e.guard, e.loops)
            g = TRUE if self.rel != TRUE and self.B.implies(self.rel, g) else self.cg(self.under(g), m, contents, busy)
            v = e.value if e.kind == 'extend' else None
            one = v[1:] if v and v[0] == 'tuple' else None
            if v and v[0] == 'new' and v[1] in ('list', 'tuple'):
                one = contents.get(v[2])
                one = None if one is None or any(x[:3] != ('item', TRUE, ()) for x in one) else [x[3] for x in one]
            if one is not None:         # extending by what is written out is adding each of it
                out += [('append', g, tuple(ls), self.canon(x, m, contents, busy)) for x in one]
                continue
            out.append((e.kind, g, tuple(ls)) + tuple(self.canon(x, m, contents, busy) for x in (
                (e.name, e.value) if e.kind in ('setitem', 'delitem') else tuple(e.args) if e.kind == 'call' else
                (e.value,)) if isinstance(x, tuple)))
        runs = []
        for x in out:       # of several that exclude each other, the order says nothing
            if runs and all(y[2] == x[2] and self.B.and_(y[1], x[1]) == FALSE for y in runs[-1]):
                runs[-1].append(x)
            else:
                runs.append([x])
        return tuple(x for run in runs for x in sorted(run, key=repr))

    def alternatives(self, x, g, alts):
        if g == FALSE:
            return
        if isinstance(x, tuple) and x[:1] == ('ite',):
            self.alternatives(x[2], self.B.and_(g, x[1]), alts)
            self.alternatives(x[3], self.B.and_(g, self.B.not_(x[1])), alts)
        else:
            for v, gv in self.expand(x, g).items():
                alts[v] = self.B.or_(alts.get(v, FALSE), gv)

    def expand(self, x, g):
        """conditional operands as alternatives of the whole value"""
        if not isinstance(x, tuple) or not has_ite(x):
            return {x: g}
        if x[0] == 'ite':
            out = {}
            self.alternatives(x, g, out)
            return out
        if x[0] == 'call':
            parts = [x[2]] + list(x[3]) + [v for k, v in x[4]]
        elif x[0] in ('attr', 'item'):
            parts = [y for y in x[1:] if isinstance(y, tuple)]
        else:
            return {x: g}
        combos = [((), g)]
        for p in parts:
            new = []
            for done, g0 in combos:
                for v, gv in self.expand(p, g0).items():
                    if gv != FALSE:
                        new.append((done + (v,), gv))
            combos = new
            if len(combos) > 12:
                return {x: g}
        out = {}
        for vals, gv in combos:
            if x[0] == 'call':
                n = len(x[3])
                v = ('call', x[1], vals[0], vals[1:1 + n], tuple((k, y) for (k, _), y in zip(x[4], vals[1 + n:])))
            else:
                it = iter(vals)
                v = x[:1] + tuple(next(it) if isinstance(y, tuple) else y for y in x[1:])
            out[v] = self.B.or_(out.get(v, FALSE), gv)
        return out

    def loop_entry(self, L, m, contents, busy=()):
        lo = self.I.loops.get(L)
        if lo is None:
            return ('?',)
        stop = self.stop.get(L, FALSE)
        gl = lo.guard
        s = self.cg(self.B.and_(stop, TRUE), m, contents, busy) if stop != FALSE else FALSE
        alts = tuple(sorted((repr(self.canon(k[1], m, contents, busy)) for k in lo.phis
                             if isinstance(k, tuple) and k[0] == 'also')))
        # left early never, sometimes, or always: then only the first element is looked at
        early = 0 if s == FALSE else 2 if self.B.implies(gl, stop) else 1
        return (self.canon(lo.coll, m, contents, busy), early, 'unordered' if lo.unordered else lo.kind == 'while')

    def known(self, g):
        """a guard, where some conditions are known to be constant"""
        for a, v in self.tr.given.items():
            g = self.B.restrict(g, a, v)
        return g

    def under(self, g):
        """a guard inside a term, given what holds where the term is used"""
        if self.rel == TRUE or g <= 1:
            return g
        r = self.unders.get((g, self.rel))
        if r is None:
            B, rel, memo = self.B, self.rel, {}

            def go(x):
                if x <= 1:
                    return x
                if x not in memo:
                    v, lo, hi = B.nodes[x]
                    a = B.atom(B.atoms[v])
                    if B.implies(rel, a):
                        memo[x] = go(hi)
                    elif B.and_(rel, a) == FALSE:
                        memo[x] = go(lo)
                    else:
                        memo[x] = B.ite(a, go(hi), go(lo))
                return memo[x]
            r = self.unders[(g, self.rel)] = go(g)
        return r

    def cg(self, g, lm, contents, busy):
        """canonical guard"""
        if g <= 1:
            return g
        key = (g, tuple(sorted(lm.items(), key=repr)), id(contents), busy, self.rel0)
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        B, rel = self.B, self.rel
        self.rel = self.rel0        # a condition reads the same wherever in a term it is used
        order = {}

        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = B.nodes[x]
            a = B.atoms[v]
            ca = self.atom(a, lm, contents, busy)
            r = B.ite(ca, go(hi), go(lo))
            memo[x] = r
            return r
        r = go(g)
        self.rel = rel
        self.memo[key] = (r, contents)
        return r

    def atom(self, a, lm, contents, busy):
        k = a[0]
        I = self.I
        c = lambda x: self.canon(x, lm, contents, busy)
        if k == 'truthy':
            x = c(a[1])
            if x[0] in ('newc', 'objc', 'newh'):
                return I.B.atom(('truthy', x))
            return I.cond(x)
        if k == 'isnone':
            x = c(a[1])
            if x[0] in ('newc', 'objc', 'closure', 'newh'):
                return FALSE
            return I.isnone(x)
        if k == '==':
            return I.eq(c(a[1]), c(a[2]))
        return I.B.atom(self.canon(a, lm, contents, busy))

    # -- effects
    def is_local(self, b):
        """base is a container/object created here that is not visible elsewhere"""
        return isinstance(b, tuple) and b and b[0] == 'new'

    def effects(self, watch=None, exact=False):
        I, B = self.I, self.B
        out = []
        reject = FALSE
        for e in self.tr.events:
            if e.kind == 'raise' and not e.exc:
                g = e.guard
                ls = tuple(e.loops)
                if ls:
                    g = I.exists(ls, g)
                reject = B.or_(reject, self.cg(g, {}, self.tr.contents, ()))
        self.reject = reject
        dead = self.dead_stores()
        looped = [r for r in self.tr.events if r.kind == 'raise' and not r.exc and r.loops]
        for e in self.tr.events:
            k = e.kind
            if k not in ('store', 'setattr', 'delattr', 'setitem', 'delitem', 'append', 'extend', 'update', 'call', 'pop'):
                continue
            name = e.name
            if k in ('append', 'extend', 'update', 'setitem', 'delitem', 'pop'):
                if self.is_local(e.base):
                    continue
                name = target_name(e.base)
            if e.ctor is not None and root_obj(e.base):
                continue        # an object under construction sets up itself
            if e.ctor is not None and k == 'call' and not (e.target and e.target[0] == 'repo'):
                continue
            if k == 'call' and isinstance(e.result, tuple) and e.result[:1] == ('obj',) and \
                    (watch is None or (k, name) not in watch):
                if self.I.objs.get(e.result[2]) is not None and e.inlined:
                    continue
            if k == 'call':
                if name in IGNORED_CALLS or e.inlined:
                    continue
                name = self.alias.get(name, name)
            if watch is not None and (k, name) not in watch and (k, '*') not in watch:
                continue
            m = {}
            ls = []
            live = self.known(e.guard)
            if live == FALSE:
                continue
            self.rel = self.rel0 = B.and_(live, *[B.atom(a) if v else B.not_(B.atom(a)) for a, v in self.tr.given.items()])
            cont = e.contents if k == 'call' else self.tr.contents
            cont = {**self.tr.contents, **cont} if k == 'call' else cont
            for i, L in enumerate(e.loops):
                m[L] = ('l', i)
                ls.append(self.loop_entry(L, m, cont))
            c = lambda x: self.canon(x, m, cont, ()) if isinstance(x, tuple) else x
            if id(e) in dead:
                live = B.and_(live, B.not_(dead[id(e)]))
                if live == FALSE:
                    continue
            g = self.cg(self.nonempty(live, e.loops), m, cont, ())
            if k == 'call':
                a, kw = self.bind(e.name, e.args, e.kwargs, self.init_of(e.result) or e.target)
                parts = [c(e.base) if e.base is not None else None] + [c(x) for x in a] + \
                        [('kw', n, c(x)) for n, x in kw]
            elif k in ('setitem', 'delitem'):
                x = flat_item(c(e.base), c(e.name))
                parts = [x[1], x[2], c(e.value)]
            elif k in ('store', 'setattr', 'delattr'):
                parts = [c(e.base), c(e.value)]
            else:
                parts = [c(e.base), c(e.value)]
            nm = TRUE
            for r in looped:
                if r.loops[0] in m and all(L in m for L in r.loops):
                    nm = B.and_(nm, B.not_(self.cg(r.guard, {L: m[L] for L in r.loops}, cont, ())))
            for gg, ps in self.split(parts, g):
                f = Effect(k, (k, name if isinstance(name, str) else c(name), tuple(ls), tuple(ps)), gg, e,
                           e.pos, name)
                f.norm = nm
                out.append(f)
        self.rel = self.rel0 = TRUE
        return out

    def dead_stores(self):
        """store event -> condition under which a later store replaces its value before anything can see it"""
        B = self.B
        out = {}
        last = {}
        for e in self.tr.events:
            if e.kind == 'raise':
                last.clear()
            elif e.kind == 'call' and not e.inlined:
                if e.name in IGNORED_CALLS:
                    continue
                seen = [e.base] + list(e.args or ()) + [v for _, v in (e.kwargs.items() if isinstance(e.kwargs, dict)
                                                                       else e.kwargs or ())]
                for k in list(last):
                    if any(isinstance(x, tuple) and (contains(x, lambda y: y == k[0]) or prefix(k[0], x)
                                                     or contains(x, lambda y: y[0] in ('func', 'bound'))) for x in seen):
                        del last[k]
            elif e.kind == 'store' and isinstance(e.name, str):
                k = (e.base, e.name)
                for p in last.get(k, ()):
                    if tuple(p.loops[:len(e.loops)]) == tuple(e.loops) and len(p.loops) >= len(e.loops):
                        out[id(p)] = B.or_(out.get(id(p), FALSE), e.guard)
                last[k] = last.get(k, ()) + (e,)
            elif e.kind in ('setattr', 'yield'):
                last.clear()
        return out

    def nonempty(self, g, loops):
        """a collection that is being iterated has elements"""
        if g <= 1:
            return g
        for L in loops:
            lo = self.I.loops.get(L)
            if lo is not None and lo.kind != 'while':
                g = self.B.restrict(g, ('truthy', lo.coll), True)
        return g

    def split(self, parts, g, budget=24):
        """case split over conditional values"""
        todo = [(g, list(parts))]
        done = []
        while todo:
            g, ps = todo.pop()
            if g == FALSE or not self.B.sat(g):
                continue
            c = None
            if len(todo) + len(done) < budget:
                for p in ps:
                    c = inner_condition(p)
                    if c is not None:
                        break
            if c is None:
                done.append((g, ps))
                continue
            for h in (self.B.and_(g, c), self.B.and_(g, self.B.not_(c))):
                if h != FALSE and self.B.sat(h):
                    todo.append((h, [self.assume(p, h) for p in ps]))
        return done

    def assume(self, t, g):
        """the term under condition g"""
        if not isinstance(t, tuple) or not t or t[0] in OWN_SCOPE:
            return t
        if t[0] == 'ite':
            if self.B.implies(g, t[1]):
                return self.assume(t[2], g)
            if self.B.implies(g, self.B.not_(t[1])):
                return self.assume(t[3], g)
            return ('ite', t[1], self.assume(t[2], g), self.assume(t[3], g))
        if not has_ite(t):
            return t
        return tuple(self.assume(x, g) for x in t)

    def results(self):
        self.rel = self.rel0 = self.tr.exit
        r = self.canon(self.tr.result, {}, self.tr.contents, ())
        self.rel = self.rel0 = TRUE
        g = self.cg(self.tr.exit, {}, self.tr.contents, ())
        out = []
        for gg, ps in self.split([r], g):
            if ps[0][0] == 'bool':      # a condition that is handed out: true where it holds, false elsewhere
                out += [(h, const(v)) for h, v in ((self.B.and_(gg, ps[0][1]), True),
                                                   (self.B.and_(gg, self.B.not_(ps[0][1])), False)) if h != FALSE]
            else:
                out.append((gg, ps[0]))
        return out


OWN_SCOPE = {'newc', 'phi', 'exists', 'closure', 'bool', 'const'}


def has_ite(t):
    return isinstance(t, tuple) and bool(t) and t[0] not in OWN_SCOPE and (t[0] == 'ite' or any(has_ite(x) for x in t))


def inner_condition(t):
    """condition of the first conditional value in the term that is not under a binder"""
    if not isinstance(t, tuple) or not t or t[0] in OWN_SCOPE:
        return None
    if t[0] == 'ite':
        return t[1]
    for x in t:
        c = inner_condition(x)
        if c is not None:
            return c
    return None


def prefix(t, x):
    """x is t or an object t is reached through"""
    while isinstance(t, tuple) and t:
        if t == x:
            return True
        t = t[1] if t[0] in ('attr', 'item', 'elem') else None
    return False


def root_obj(b):
    while isinstance(b, tuple) and b:
        if b[0] == 'obj':
            return True
        if b[0] in ('attr', 'item', 'elem'):
            b = b[1]
            continue
        return False
    return False


def is_slice(k):
    return k[0] == 'slice'


def flat_item(b, k):
    """a[i][j] and a[i, j] are the same element; an element of a plain copy is the element"""
    while b[0] == 'newc' and b[1] in ('list', 'tuple') and len(b[2]) == 1 and b[2][0][:2] == ('item', TRUE) and \
            len(b[2][0][2]) == 1 and not b[2][0][2][0][1] and not b[2][0][2][0][2] and \
            b[2][0][3][0] == 'elem' and b[2][0][3][1] == b[2][0][2][0][0] and k[0] == 'const':
        b = b[2][0][2][0][0]
    if b[0] == 'item' and not is_slice(b[2]) and not (b[2][0] == 'tuple' and any(is_slice(x) for x in b[2][1:])):
        first = b[2][1:] if b[2][0] == 'tuple' else (b[2],)
        rest = k[1:] if k[0] == 'tuple' else (k,)
        return ('item', b[1], ('tuple',) + tuple(first) + tuple(rest))
    return ('item', b, k)


def target_name(b):
    while isinstance(b, tuple) and b:
        if b[0] == 'attr':
            return b[2]
        if b[0] == 'param':
            return 'param'
        if b[0] in ('item', 'elem'):
            b = b[1]
            continue
        if b[0] == 'call':
            return b[1].split('.')[-1] + '()'
        break
    return '?'


def contains(t, pred):
    if isinstance(t, tuple):
        if t and pred(t):
            return True
        return any(contains(x, pred) for x in t)
    return False


UNK = {'phi', 'phi?', 'phi^', 'newh', 'new^', 'missing'}


def own_round(x):
    if isinstance(x, tuple) and x:
        return ('before',) if x[0] == 'phi^' else tuple(own_round(y) for y in x)
    return x


def sticky(v, me):
    if v[0] == 'ite':
        return sticky(v[2], me) and sticky(v[3], me)
    return v == me or not contains(v, lambda x: x[0] == 'phi')


def unknown(t):
    return contains(t, lambda x: isinstance(x[0], str) and x[0] in UNK)


def match(p, t):
    if p == ANY:
        return True
    if p == t:
        return True
    if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
        return all(match(a, b) for a, b in zip(p, t))
    return False


def has_any(p):
    return contains(p, lambda x: x == ANY)
