"""Syntax-directed abstract interpreter.

It walks the source of one entry point, inlining calls into the package, and produces a *guarded event
trace*: the ordered list of effects (attribute stores, container updates, calls, raises, returns) each with
the condition under which it happens (a BDD over syntactic conditions) and the loops it sits in.  Values are
access-path terms (where does this value come from), containers built locally are tracked segment by segment,
and a loop over a locally built list is fused with the loop that built it.  Nothing is executed, nothing is
given to a solver; every loop body is interpreted for one generic iteration.
"""
import ast
import builtins

from .bdd import BDD, TRUE, FALSE
from .world import Func, Class, Module, AnalysisError, BUILTIN_METHODS

PURE_BUILTINS = {'len', 'str', 'int', 'float', 'bool', 'min', 'max', 'abs', 'sum', 'sorted', 'type', 'round', 'range',
                 'enumerate', 'zip', 'reversed', 'repr', 'ord', 'chr', 'hash', 'id', 'issubclass', 'callable', 'iter',
                 'frozenset', 'divmod', 'pow', 'hasattr', 'isinstance', 'any', 'all', 'slice', 'vars', 'dir', 'format'}
PURE_METHODS = {'startswith', 'endswith', 'split', 'rsplit', 'join', 'replace', 'format', 'keys', 'values', 'items',
                'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'index', 'count', 'get', 'reshape', 'astype', 'any',
                'all', 'sum', 'tolist', 'removeprefix', 'find', 'isdigit', 'min', 'max', 'as_pointer', 'copy'}
MUTATORS = {'append', 'extend', 'insert', 'update', 'pop', 'remove', 'clear', 'add', 'discard', 'setdefault',
            'popitem', 'sort', 'reverse', 'appendleft', 'popleft'}
# enumerations of third-party packages: different members are different values
DICTLIKE = {'_DictWrapper'}
EXT_ENUMS = {'SolveEvent'}
BUILTINS = set(dir(builtins))
BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
         ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
UNOP = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}


def const(v):
    return ('const', v, type(v).__name__)


NONE = const(None)
CTRUE, CFALSE = ('bool', TRUE), ('bool', FALSE)


def is_const(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'const'


def fold_items(t):
    return t[1:]


class Event:
    __slots__ = ('kind', 'base', 'name', 'value', 'args', 'kwargs', 'guard', 'loops', 'node', 'func', 'stack',
                 'pos', 'contents', 'result', 'inlined', 'target', 'heap', 'exc', 'ctor')

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))
        if self.args is None:
            self.args = ()
        if self.kwargs is None:
            self.kwargs = {}

    def where(self):
        return '%s (in %s)' % (self.func.where(self.node), self.func.qual) if self.func else '?'

    def __repr__(self):
        return '<%s %s@%s>' % (self.kind, self.name, self.where())


EARLIER = '<added in an earlier round> '


class Loop:
    def __init__(self, uid, coll, node, func, guard, parents, kind):
        self.uid, self.coll, self.node, self.func = uid, coll, node, func
        self.guard, self.parents, self.kind = guard, parents, kind
        self.phis = {}
        self.brk = FALSE
        self.unordered = False
        self.grown = ()          # containers from before the loop that its body adds to
        self.cond = None
        self.current = None      # (list, its element in this iteration)


class FuncVal:
    def __init__(self, func, frame, defaults, kwdefaults):
        self.func, self.frame, self.defaults, self.kwdefaults = func, frame, defaults, kwdefaults


class Frame:
    def __init__(self, func, cls, parent, module):
        self.func, self.cls, self.parent, self.module = func, cls, parent, module
        self.env = {}
        self.returns = []
        self.loopctx = []
        self.gen = None
        self.self_term = None


class Trace:
    def __init__(self):
        self.events = []
        self.loops = {}
        self.inlined = set()
        self.opaque = {}
        self.truncated = False
        self.given = {}            # conditions that other rules show to be constant
        self.exit = TRUE
        self.result = NONE
        self.interp = None


class Interp:
    def __init__(self, world, opaque=(), max_depth=9, max_events=30000, stop=None, types=None, intrinsics=None):
        self.w = world
        self.constructing = None
        self.B = BDD()
        self.uid = 0
        self.funcs = {}
        self.origin = {}
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.max_events = max_events
        self.heap = {}
        self.contents = {}
        self.live = TRUE
        self.loopstack = ()
        self.made = {}
        self.loops = {}
        self.stack = []
        self.events = []
        self.inlined = set()
        self.types = dict(types or {})
        self.intrinsics = intrinsics or {}
        self.nothing = set()      # results of calls to functions that return nothing
        self.globals_cache = {}
        self.truncated = False
        self.gen_depth = 0
        self.objs = {}
        self.new_names = {}
        self.opaque_calls = {}
        self.lclasses = {}
        self.lobjs = {}

    # ------------------------------------------------------------------ basics
    def fresh(self):
        self.uid += 1
        return self.uid

    def emit(self, kind, node, frame, **kw):
        if self.live == FALSE:
            return None
        if len(self.events) > self.max_events:
            self.truncated = True
            return None
        e = Event(kind, node=node, func=frame.func, guard=self.live, loops=self.loopstack,
                  stack=tuple(f.qual for f in self.stack), contents=self.contents, **kw)
        e.pos = len(self.events)
        e.ctor = self.constructing
        self.events.append(e)
        return e

    current = ()        # (dictionary, key, value) of the local dictionaries being iterated

    def new(self, kind, segs=()):
        t = ('new', kind, self.fresh())
        self.made[t[2]] = self.loopstack
        self.contents = {**self.contents, t[2]: tuple(segs)}
        return t

    def expand(self, t):
        """what iterating t yields, when t is (a view of) a collection built here: 'item' / 'ext' segments;
        entries of a dictionary carry (dictionary, key, value)"""
        if t[0] == 'tuple':
            return tuple(('item', TRUE, (), x) for x in t[1:])
        if t[0] == 'call' and t[2] is None and len(t[3]) == 1 and not t[4]:
            if t[1] in ('list', 'tuple', 'iter'):
                return self.expand(t[3][0])
            if t[1] == 'enumerate':
                s = self.expand(t[3][0])
                if s is None or not all(g[0] == 'item' for g in s):
                    return None
                return tuple(g[:3] + (('tuple', ('idx', g[2][-1]) if g[2] else const(i), g[3]),) + g[4:] for i, g in enumerate(s))
            if t[1] == 'reversed':
                s = self.expand(t[3][0])
                return s[::-1] if s is not None else None
        view = None
        if t[0] == 'call' and t[1] in ('items', 'keys', 'values') and t[2] is not None and t[2][0] == 'new' and not t[3]:
            view, t = t[1], t[2]
        s = self.segs(t)
        if s is None:
            return None
        if t in self.origin:
            o = self.expand(self.origin[t])
            if o is not None and tuple(g[:4] for g in o) == s:
                return o
        out = []
        for g in s:
            if g[0] == 'kv':
                x = g[3] if view in (None, 'keys') else g[4] if view == 'values' else ('tuple', g[3], g[4])
                out.append(('item', g[1], g[2], x, (t, g[3], g[4])))
            elif g[0] == 'ext':
                n = None if view else self.expand(g[3])
                if n is None:
                    out.append(g if view is None else ('ext', g[1], g[2], ('call', view, g[3], (), (), 0)))
                else:
                    for h in n:
                        out.append((h[0], self.B.and_(g[1], h[1]), g[2] + tuple(x for x in h[2] if x not in g[2])) + h[3:])
            else:
                out.append(g)
        return tuple(out)

    def segs(self, t):
        if isinstance(t, tuple) and t[0] == 'new':
            return self.contents.get(t[2])
        return None

    def add_seg(self, t, seg):
        c = self.contents.get(t[2])
        if c is None:
            return
        self.contents = {**self.contents, t[2]: c + (seg,)}

    # ------------------------------------------------------------------ conditions
    def ite(self, c, a, b):
        if a == b:
            return a
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a[0] == 'bool' and b[0] == 'bool':
            return ('bool', self.B.ite(c, a[1], b[1]))
        if a[0] == 'ite' and a[1] == c:
            a = a[2]
        if b[0] == 'ite' and b[1] == c:
            b = b[3]
        if a == b:
            return a
        if b[0] == 'ite' and b[2] == a:
            return self.ite(self.B.or_(c, b[1]), a, b[3])
        if a[0] == 'ite' and a[3] == b:
            return self.ite(self.B.and_(c, a[1]), a[2], b)
        return ('ite', c, a, b)

    def cond(self, t):
        B = self.B
        k = t[0]
        if k == 'bool':
            return t[1]
        if k == 'const':
            return TRUE if t[1] else FALSE
        if k == 'ite':
            return B.ite(t[1], self.cond(t[2]), self.cond(t[3]))
        if k == 'new':
            s = self.segs(t)
            if s is not None:
                r = FALSE
                for g in s:
                    if g[0] == 'ext':
                        r = B.or_(r, B.and_(g[1], B.atom(('truthy', g[3]))))
                    elif not g[2]:
                        r = B.or_(r, g[1])
                    else:
                        r = B.or_(r, self.exists(g[2], g[1]))
                return r
        if k in ('obj', 'func', 'class', 'bound', 'mod'):
            return TRUE
        if k == 'tuple':
            return TRUE if len(t) > 1 else FALSE
        if k == 'call' and t[1] == 'len' and len(t[3]) == 1:
            return self.cond(t[3][0])
        if k == 'call' and t[1] in ('sorted', 'list', 'tuple', 'set', 'keys', 'values', 'items', 'reversed') \
                and (len(t[3]) == 1 or (t[2] is not None and not t[3])):
            return self.cond(t[3][0] if t[3] else t[2])
        return B.atom(('truthy', t))

    def exists(self, loops, g, cut=False):
        for a in self.B.support(g):
            if a[0] == 'in' and a[2][0] == 'param' and a[2][1].startswith(EARLIER):
                # there is one exactly if there is a first one
                g = self.B.restrict(g, a, False)
        if g == FALSE:
            return FALSE
        L = loops[-1]
        lo = self.loops.get(L)
        # elements behind a break are not looked at
        cut = {x: self.loops[x].brk for x in loops if x in self.loops and self.loops[x].brk != FALSE} if cut else {}
        if cut:
            lo = None
        if g == TRUE and lo is not None and len(loops) == 1:
            return self.B.atom(('truthy', lo.coll))
        dep = any(self.mentions_loop(a, loops) for a in self.B.support(g))
        if not dep and lo is not None and len(loops) == 1:
            return self.B.and_(g, self.B.atom(('truthy', lo.coll)))
        # canonical bound variables: -(depth), so that the same quantified condition is the same atom
        d = self.exists_depth(g)
        m, colls = {}, []
        for i, x in enumerate(loops):
            m[x] = -(d + 1 + i)
        for x in loops:
            o = self.loops.get(x)
            colls.append(self.subst(o.coll, m) if o is not None else ('?',))
            if x in cut:
                colls[-1] = ('prefix', colls[-1], ('bool', self.subst_b(cut[x], m)))
            self.loops.setdefault(m[x], Loop(m[x], ('bound',), None, None, TRUE, (), 'bound'))
        return self.B.atom(('exists', tuple(colls), self.subst_b(g, m), tuple(m[x] for x in loops)))

    def exists_depth(self, g):
        d = 0
        for a in self.B.support(g):
            for t in self.subterms(a):
                if t[0] == 'exists':
                    d = max(d, -min(t[3]))
        return d

    def subterms(self, t, seen=None):
        if not isinstance(t, tuple) or not t:
            return
        if isinstance(t[0], str):
            yield t
        if t[0] in ('ite', 'bool'):
            for a in self.B.support(t[1]):
                yield from self.subterms(a)
            rest = t[2:]
        elif t[0] == 'exists':
            for c in t[1]:
                yield from self.subterms(c)
            for a in self.B.support(t[2]):
                yield from self.subterms(a)
            return
        else:
            rest = t[1:] if isinstance(t[0], str) else t
        for x in rest:
            if isinstance(x, tuple):
                yield from self.subterms(x)

    def mentions_loop(self, t, loops):
        if isinstance(t, tuple):
            if t and t[0] in ('elem', 'idx') and t[-1] in loops:
                return True
            if t and t[0] == 'phi' and t[1] in loops:
                return True
            if t and t[0] == 'exists':
                return any(self.mentions_loop(x, loops) for x in t[1]) or \
                    any(self.mentions_loop(a, loops) for a in self.B.support(t[2]))
            if t and t[0] in ('ite', 'bool'):
                if any(self.mentions_loop(a, loops) for a in self.B.support(t[1])):
                    return True
                return any(self.mentions_loop(x, loops) for x in t[2:]) if t[0] == 'ite' else False
            return any(self.mentions_loop(x, loops) for x in t if isinstance(x, tuple))
        return False

    def eq(self, a, b):
        B = self.B
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            return TRUE if a[1] == b[1] else FALSE
        if a[0] == 'ite' and (b[0] in ('const', 'enum', 'class')):
            return B.ite(a[1], self.eq(a[2], b), self.eq(a[3], b))
        if b[0] == 'ite' and (a[0] in ('const', 'enum', 'class')):
            return B.ite(b[1], self.eq(a, b[2]), self.eq(a, b[3]))
        if a[0] == 'enum' and b[0] == 'enum':
            return FALSE
        if a[0] == 'class' and b[0] == 'class':
            return FALSE
        if is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(b):
            if b[1] is None:
                return self.isnone(a)
            if b[1] is True:
                return self.cond(a) if a[0] in ('bool',) else B.atom(('truthy', a))
            if b[1] is False:
                return B.not_(self.cond(a)) if a[0] in ('bool',) else B.not_(B.atom(('truthy', a)))
            if a[0] == 'call' and a[1] == 'len' and b[1] == 0:
                return B.not_(self.cond(a))
            if a[0] == 'tuple':
                return FALSE
            if a[0] == 'bool':
                return B.atom(('==', a, b))
        if a[0] == 'bool' and b[0] == 'bool':
            return B.ite(a[1], b[1], B.not_(b[1]))
        if a[0] == 'tuple' and b[0] == 'tuple':
            if len(a) != len(b):
                return FALSE
            return B.and_(*[self.eq(x, y) for x, y in zip(a[1:], b[1:])])
        if not is_const(b) and repr(a) > repr(b):
            a, b = b, a
        return B.atom(('==', a, b))

    def isnone(self, a):
        if is_const(a):
            return TRUE if a[1] is None else FALSE
        if a[0] in ('obj', 'new', 'func', 'class', 'bound', 'tuple', 'bool', 'enum', 'cat', 'mod', 'builtin'):
            return FALSE
        if a[0] == 'ite':
            return self.B.ite(a[1], self.isnone(a[2]), self.isnone(a[3]))
        return self.B.atom(('isnone', a))

    def lin(self, t):
        """linear form {term: coeff}, key 1 for the constant"""
        if is_const(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return {1: t[1]}
        if t[0] == 'op' and t[1] in '+-' and len(t) == 4:
            a, b = self.lin(t[2]), self.lin(t[3])
            s = 1 if t[1] == '+' else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v != 0}
        if t[0] == 'op' and t[1] == '*':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if is_const(x) and isinstance(x[1], (int, float)):
                    return {k: v * x[1] for k, v in self.lin(y).items() if v * x[1] != 0}
        if t[0] == 'uop' and t[1] == '-':
            return {k: -v for k, v in self.lin(t[2]).items()}
        return {t: 1}

    def unlin(self, d):
        items = sorted((kv for kv in d.items() if kv[0] != 1), key=lambda kv: repr(kv[0]))
        out = None
        for k, v in items:
            x = k if v == 1 else ('op', '*', const(v), k)
            out = x if out is None else ('op', '+', out, x)
        c = d.get(1, 0)
        if out is None:
            return const(c)
        if c != 0:
            out = ('op', '+', out, const(c))
        return out

    def lt(self, a, b):
        B = self.B
        if is_const(a) and is_const(b):
            try:
                return TRUE if a[1] < b[1] else FALSE
            except TypeError:
                return B.atom(('<', a, b))
        if a == b:
            return FALSE
        if a[0] == 'ite' and is_const(b):
            return B.ite(a[1], self.lt(a[2], b), self.lt(a[3], b))
        if b[0] == 'ite' and is_const(a):
            return B.ite(b[1], self.lt(a, b[2]), self.lt(a, b[3]))
        if is_const(a) and a[1] == 0 and b[0] == 'call' and b[1] == 'len':
            return self.cond(b)
        if is_const(b) and b[1] == 1 and a[0] == 'call' and a[1] == 'len':
            return B.not_(self.cond(a))
        d = self.lin(('op', '-', a, b))
        ts = sorted((k for k in d if k != 1), key=repr)
        if ts and all(k[0] == 'call' and k[1] == 'len' for k in ts) and all(isinstance(v, int) for v in d.values()):
            # whole numbers: one way to write a bound
            if d[ts[0]] < 0:
                e = {k: -v for k, v in d.items()}
                e[1] = e.get(1, 0) - 1
                return B.not_(self.lt(self.unlin({k: v for k, v in e.items() if k != 1}), const(-e[1])))
            if len(ts) == 1 and d[ts[0]] == 1 and d.get(1, 0) >= 0:
                return FALSE
            if len(ts) == 1 and d[ts[0]] == 1 and d[1] == -1:
                return B.not_(self.cond(ts[0]))
        pos = {k: v for k, v in d.items() if v > 0}
        neg = {k: -v for k, v in d.items() if v < 0}
        return B.atom(('<', self.unlin(pos), self.unlin(neg)))

    def contains(self, x, coll):
        B = self.B
        s = self.segs(coll)
        if s is not None:
            r = FALSE
            for g in s:
                if g[0] == 'ext':
                    r = B.or_(r, B.and_(g[1], B.atom(('in', x, g[3]))))
                elif g[0] in ('item', 'kv'):
                    e = B.and_(g[1], self.eq(x, g[3]))
                    if g[2]:
                        if e == FALSE:
                            continue
                        lp = self.loops.get(g[2][-1])
                        val = g[3]
                        if lp is not None and val == ('elem', lp.coll, g[2][-1]) and g[1] == lp.guard and len(g[2]) == 1:
                            e = B.and_(lp.guard, B.atom(('in', x, lp.coll)))
                        else:
                            e = self.exists(g[2], e)
                    r = B.or_(r, e)
            if coll[0] == 'new' and any(coll[2] in self.loops[L].grown for L in self.loopstack if L in self.loops):
                # an earlier round may have put it there
                r = B.or_(r, B.atom(('in', x, ('param', EARLIER + coll[1]))))
            return r
        if coll[0] == 'tuple':
            return B.or_(*[self.eq(x, y) for y in coll[1:]])
        if coll[0] == 'call' and coll[1] in ('keys', 'list', 'set', 'tuple', 'sorted') and not coll[4]:
            if coll[1] == 'keys' and coll[2] is not None:
                if self.dictlike(coll[2]):
                    return B.atom(('in', x, coll[2]))
                return self.contains(x, coll[2])
            if len(coll[3]) == 1:
                return self.contains(x, coll[3][0])
        if self.dictlike(coll):
            return B.atom(('in', x, ('call', 'values', coll, (), (), 0)))
        if coll[0] == 'ite':
            return B.ite(coll[1], self.contains(x, coll[2]), self.contains(x, coll[3]))
        if is_const(coll) and isinstance(coll[1], str) and is_const(x) and isinstance(x[1], str):
            return TRUE if x[1] in coll[1] else FALSE
        return B.atom(('in', x, coll))

    # ------------------------------------------------------------------ types
    def typeof(self, t):
        if not isinstance(t, tuple):
            return None
        if t in self.types:
            return self.types[t]
        if t[0] == 'obj':
            return self.objs.get(t[2])
        if t[0] == 'attr':
            b = self.typeof(t[1])
            if b is not None:
                r = self.w.attr_type(b, t[2])
                if r is not None:
                    return r
                p = self.w.find_method(b, t[2])
                if p is not None and p.is_property and p.node.returns is not None:
                    return self.w._ann_class(p.module, p.node.returns)
            return None
        if t[0] == 'ite':
            a, b = self.typeof(t[2]), self.typeof(t[3])
            if a is b:
                return a
            if a is None and t[2] == NONE:
                return b
            if b is None and t[3] == NONE:
                return a
            return None
        if t[0] == 'enum':
            return None
        return None

    # ------------------------------------------------------------------ running
    def run(self, func, self_cls=None, args=None):
        """Interpret `func` as an entry point with symbolic parameters."""
        frame = Frame(func, self_cls or func.cls, None, func.module)
        self.stack.append(func)
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            t = ('param', p.arg)
            if args and p.arg in args:
                t = args[p.arg]
            elif i == 0 and func.cls is not None and not func.is_static:
                t = ('param', 'self') if not func.is_classmethod else ('class', (self_cls or func.cls).name)
                if not func.is_classmethod:
                    self.types.setdefault(t, self_cls or func.cls)
                frame.self_term = t
            elif p.annotation is not None and t not in self.types:
                r = self.w._ann_class(func.module, p.annotation)
                if r is not None:
                    self.types[t] = r
            frame.env[p.arg] = t
        if a.vararg:
            frame.env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
        if a.kwarg:
            frame.env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
        self.inlined.add(func.qual)
        res = self.exec_body(func, frame)
        self.stack.pop()
        tr = Trace()
        tr.events, tr.loops, tr.inlined, tr.truncated = self.events, self.loops, self.inlined, self.truncated
        tr.exit, tr.result, tr.interp, tr.entry = self.live, res, self, func
        tr.heap, tr.contents = self.heap, self.contents
        return tr

    def exec_body(self, func, frame):
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(func.node))
        if is_gen:
            frame.gen = self.new('list')
        if isinstance(func.node, ast.Lambda):
            return self.ev(func.node.body, frame)
        entry_live = self.live
        self.block(func.node.body, frame)
        # collect returns
        res = NONE
        live = self.live
        for g, v in reversed(frame.returns):
            res = self.ite(self.rel(g, entry_live), v, res) if res is not None else v
        # if nothing falls through, the last return's guard need not be tested
        if live == FALSE and frame.returns:
            res = frame.returns[-1][1]
            for g, v in reversed(frame.returns[:-1]):
                res = self.ite(self.rel(g, entry_live), v, res)
        tot = live
        for g, v in frame.returns:
            tot = self.B.or_(tot, g)
        self.live = tot
        if frame.gen is not None:
            return frame.gen
        return res

    def rel(self, g, base):
        """g relative to base: drop literals implied by base (generalised cofactor for conjunctions)."""
        if base == TRUE:
            return g
        # constrain: g | base -- valid wherever base holds
        return self.constrain(g, base)

    def constrain(self, f, c, depth=0):
        if c == TRUE or f <= 1:
            return f
        if c == FALSE:
            return f
        if f == c:
            return TRUE
        nodes = self.B.nodes
        key = ('constrain', f, c)
        r = self.B.cache.get(key)
        if r is not None:
            return r
        v = min(nodes[x][0] for x in (f, c) if x > 1)

        def co(x, b):
            if x <= 1 or nodes[x][0] != v:
                return x
            return nodes[x][2] if b else nodes[x][1]
        c0, c1 = co(c, 0), co(c, 1)
        if nodes[f][0] != v:
            r = self.constrain(f, self.B.or_(c0, c1))
        elif c0 == FALSE:
            r = self.constrain(co(f, 1), c1)
        elif c1 == FALSE:
            r = self.constrain(co(f, 0), c0)
        else:
            r = self.B._mk(v, self.constrain(co(f, 0), c0), self.constrain(co(f, 1), c1))
        self.B.cache[key] = r
        return r

    # ------------------------------------------------------------------ state save / merge
    def save(self, frame):
        envs = []
        f = frame
        while f is not None:
            envs.append((f, dict(f.env)))
            f = f.parent
        return (envs, self.heap, self.contents, self.live)

    def restore(self, st):
        for f, e in st[0]:
            f.env.clear()
            f.env.update(e)
        self.heap, self.contents, self.live = st[1], st[2], st[3]

    def merge(self, c, st_before, a, b):
        """merge branch states a (under c) and b (under not c) into the current state"""
        la, lb = a[3], b[3]
        if la == FALSE:
            self.restore(b)
            self.contents = self.merge_contents(st_before[2], a[2], b[2])
            return
        if lb == FALSE:
            self.restore(a)
            self.contents = self.merge_contents(st_before[2], a[2], b[2])
            return
        for (f, ea), (_, eb) in zip(a[0], b[0]):
            m = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k), eb.get(k)
                if va is None:
                    m[k] = vb
                elif vb is None:
                    m[k] = va
                else:
                    m[k] = va if va == vb else self.ite(c, va, vb)
            f.env.clear()
            f.env.update(m)
        ha, hb = a[1], b[1]
        if ha is not hb:
            h = {}
            for k in list(ha) + [k for k in hb if k not in ha]:
                va = ha.get(k) or self.heap_default(k)
                vb = hb.get(k) or self.heap_default(k)
                h[k] = va if va == vb else self.ite(c, va, vb)
            self.heap = h
        else:
            self.heap = ha
        self.contents = self.merge_contents(st_before[2], a[2], b[2])
        self.live = self.B.or_(la, lb)

    def heap_default(self, k):
        return ('attr', k[1], k[2]) if k[0] == 'a' else ('item', k[1], k[2])

    def merge_contents(self, base, a, b):
        if a is b:
            return a
        out = dict(a)
        for k, sb in b.items():
            if k not in a:
                out[k] = sb
            elif a[k] is not sb and a[k] != sb:
                pre = base.get(k)
                sa = a[k]
                if pre is not None and sa is not None and sb is not None and sa[:len(pre)] == pre \
                        and sb[:len(pre)] == pre:
                    out[k] = sa + sb[len(pre):]
                else:
                    out[k] = None
        return out

    # ------------------------------------------------------------------ statements
    def block(self, body, frame):
        for st in body:
            if self.live == FALSE:
                return
            self.stmt(st, frame)

    def stmt(self, st, frame):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(st):
                if isinstance(n, ast.expr):
                    self.ev(n, frame)
            return
        m(st, frame)

    def s_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value, frame)
            return
        before = len(self.events)
        v = self.ev(st.value, frame)
        self.emit('expr', st, frame, value=v, args=(before,))

    def s_Pass(self, st, frame):
        pass

    def s_Import(self, st, frame):
        for a in st.names:
            frame.env[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, frame):
        for a in st.names:
            mod = st.module or ''
            r = None
            if mod in self.w.modules:
                r = self.w.resolve_name(self.w.modules[mod], a.name)
            frame.env[a.asname or a.name] = self.from_resolved(r, frame) if r is not None \
                else ('ext', mod + '.' + a.name)

    def s_Global(self, st, frame):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, st, frame):
        f = Func(frame.module, st, None, frame.func.qual + '.' + st.name)
        f.nested = True
        defaults = [self.ev(d, frame) for d in st.args.defaults]
        kwd = [self.ev(d, frame) if d is not None else None for d in st.args.kw_defaults]
        u = self.fresh()
        self.funcs[u] = FuncVal(f, frame, defaults, kwd)
        frame.env[st.name] = ('func', u)

    def s_ClassDef(self, st, frame):
        bases = [self.ev(b, frame) for b in st.bases]
        for d in st.decorator_list:
            self.ev(d, frame)
        u = self.fresh()
        attrs = {}
        for x in st.body:
            if isinstance(x, ast.FunctionDef):
                f = Func(frame.module, x, None, frame.func.qual + '.' + st.name + '.' + x.name)
                f.nested = True
                k = self.fresh()
                self.funcs[k] = FuncVal(f, frame, [self.ev(d, frame) for d in x.args.defaults],
                                        [self.ev(d, frame) if d is not None else None for d in x.args.kw_defaults])
                attrs[x.name] = ('func', k)
            elif isinstance(x, ast.Assign):
                v = self.ev(x.value, frame)
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        attrs[t.id] = v
        self.lclasses[u] = (bases, attrs)
        frame.env[st.name] = ('localclass', st.name, u)

    def local_attr(self, cls, name):
        """attribute of a class defined inside a function: value, or None"""
        if cls[0] == 'localclass':
            bases, attrs = self.lclasses[cls[2]]
            if name in attrs:
                return attrs[name]
            return self.local_bases(bases, name)
        if cls[0] == 'class':
            c = self.class_of_term(cls)
            if c is not None and self.w.find_method(c, name) is not None:
                return ('umeth', c.name, name)
        return None

    def base_construct(self, bases, o, args, kwargs, node, frame):
        """the constructor an object of a local class inherits from a class outside the package"""
        for i, b in enumerate(bases):
            if b[0] == 'ite':
                rest = bases[i + 1:]
                self.branch(b[1], lambda: self.base_construct([b[2]] + rest, o, args, kwargs, node, frame),
                            lambda: self.base_construct([b[3]] + rest, o, args, kwargs, node, frame), frame)
                return True
            if b[0] == 'localclass':
                if self.base_construct(self.lclasses[b[2]][0], o, args, kwargs, node, frame):
                    return True
            elif b[0] in ('ext', 'name'):
                if b[1].split('.')[-1] == 'object':
                    continue
                self.emit('call', node, frame, name='construct_' + b[1].split('.')[-1], base=None, args=tuple(args),
                          kwargs=dict(kwargs), result=o, target=b)
                return True
        return False

    def local_bases(self, bases, name):
        for i, b in enumerate(bases):
            if b[0] == 'ite':
                x = self.local_bases([b[2]] + bases[i + 1:], name)
                y = self.local_bases([b[3]] + bases[i + 1:], name)
                if x is None and y is None:
                    return None
                none = ('extmeth', name)
                return self.ite(b[1], x or none, y or none)
            v = self.local_attr(b, name)
            if v is not None:
                return v
        return None

    def s_Return(self, st, frame):
        v = self.ev(st.value, frame) if st.value is not None else NONE
        self.emit('return', st, frame, value=v)
        frame.returns.append((self.live, v))
        self.live = FALSE

    def s_Raise(self, st, frame):
        v = self.ev(st.exc, frame) if st.exc is not None else NONE
        name = None
        if v[0] == 'obj':
            name = v[1]
        elif v[0] == 'call':
            name = v[1]
        elif v[0] in ('ext', 'builtin', 'class'):
            name = v[1]
        self.emit('raise', st, frame, value=v, name=name)
        self.raise_guard = self.B.or_(getattr(self, 'raise_guard', FALSE), self.live)
        self.live = FALSE

    def s_Assert(self, st, frame):
        c = self.cond(self.ev(st.test, frame))
        sv = self.live
        self.live = self.B.and_(sv, self.B.not_(c))
        self.emit('raise', st, frame, value=('builtin', 'AssertionError'), name='AssertionError')
        self.live = self.B.and_(sv, c)

    def s_Delete(self, st, frame):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, frame)
                k = self.ev(t.slice, frame)
                self.emit('delitem', t, frame, base=b, name=k)
                self.invalidate_items(b)
                if b[0] == 'new':
                    self.contents = {**self.contents, b[2]: None}
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, frame)
                self.emit('delattr', t, frame, base=b, name=t.attr)
            elif isinstance(t, ast.Name):
                frame.env.pop(t.id, None)

    def s_If(self, st, frame):
        c = self.cond(self.ev(st.test, frame))
        self.branch(c, lambda: self.block(st.body, frame), lambda: self.block(st.orelse, frame), frame)

    def branch(self, c, fa, fb, frame):
        before, nev = self.save(frame), len(self.events)
        la, lb = self.B.and_(self.live, c), self.B.and_(self.live, self.B.not_(c))
        # condition already decided on this path
        if not self.B.sat(la):
            la = FALSE
        if not self.B.sat(lb):
            lb = FALSE
        if la == FALSE:
            self.live = lb
            fb()
            return
        if lb == FALSE:
            self.live = la
            fa()
            return
        self.live = la
        fa()
        sa = self.save(frame)
        self.restore(before)
        self.contents = before[2]
        self.live = lb
        fb()
        sb = self.save(frame)
        self.merge(c, before, sa, sb)
        self.rounds(before[1], nev)

    def s_Assign(self, st, frame):
        if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and \
                isinstance(st.value, (ast.Tuple, ast.List)) and \
                len(st.value.elts) == len(st.targets[0].elts) and \
                not any(isinstance(x, ast.Starred) for x in st.value.elts + st.targets[0].elts):
            vals = [self.ev(x, frame) for x in st.value.elts]
            for t, v in zip(st.targets[0].elts, vals):
                self.assign(t, v, frame, st)
            return
        v = self.ev(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame, st)

    def s_AnnAssign(self, st, frame):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, frame), frame, st)
            if isinstance(st.target, ast.Name):
                r = self.w._ann_class(frame.module, st.annotation)
                v = frame.env.get(st.target.id)
                if r is not None and v is not None and self.typeof(v) is None and v[0] in ('call', 'item', 'attr'):
                    self.types.setdefault(v, r)

    def s_AugAssign(self, st, frame):
        op = BINOP.get(type(st.op), '?')
        cur = self.ev(_as_load(st.target), frame)
        rhs = self.ev(st.value, frame)
        if op == '+' and cur[0] == 'new' and cur[1] == 'list':
            self.extend(cur, rhs, st, frame)
            return
        if op == '|' and cur[0] == 'new':
            self.extend(cur, rhs, st, frame)
            return
        v = self.binop(op, cur, rhs)
        self.assign(st.target, v, frame, st, aug=(op, rhs))

    def assign(self, t, v, frame, st, aug=None):
        if isinstance(t, ast.Name):
            f = frame
            if not isinstance(frame.func.node, ast.Lambda):
                for n in walk_own(frame.func.node):
                    if isinstance(n, ast.Nonlocal) and t.id in n.names:
                        f = frame.parent or frame
                        while f.parent is not None and t.id not in f.env:
                            f = f.parent
                        break
            f.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, frame)
            self.store_attr(b, t.attr, v, st, frame, aug)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, frame)
            k = self.ev(t.slice, frame)
            self.set_item(b, k, v, st, frame, aug)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            parts = self.unpack(v, n) if not star else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ('item', v, ('slice', const(i), NONE, NONE)), frame, st)
                elif parts is not None:
                    self.assign(x, parts[i], frame, st)
                else:
                    ix = i if not star or i < star[0] else i - n
                    self.assign(x, ('item', v, const(ix)), frame, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame, st)

    def unpack(self, v, n):
        if v[0] == 'tuple' and len(v) == n + 1:
            return list(v[1:])
        s = self.segs(v)
        if s is not None and len(s) == n and all(x[0] == 'item' and not x[2] for x in s):
            return [x[3] for x in s]
        if v[0] == 'ite':
            a, b = self.unpack(v[2], n), self.unpack(v[3], n)
            return [self.ite(v[1], x, y) for x, y in zip(a, b)]
        return [self.get_item(v, const(i)) for i in range(n)]

    def store_attr(self, b, name, v, node, frame, aug=None):
        c = self.typeof(b)
        if c is not None:
            s = self.w.find_setter(c, name)
            if s is not None and len(self.stack) < self.max_depth and s.qual not in self.opaque \
                    and s not in self.stack:
                self.emit('store', node, frame, base=b, name=name, value=v, args=aug or (), inlined=True)
                self.call_func(s, [b, v], {}, node, frame, c)
                return
        self.emit('store', node, frame, base=b, name=name, value=v, args=aug or ())
        h = dict(self.heap)
        h[('a', b, name)] = v
        self.heap = h

    def set_item(self, b, k, v, node, frame, aug=None):
        self.emit('setitem', node, frame, base=b, name=k, value=v, args=aug or ())
        self.invalidate_items(b, k)
        h = dict(self.heap)
        h[('i', b, k)] = v
        self.heap = h
        if b[0] == 'new':
            if b[1] == 'dict':
                self.add_seg(b, ('kv', self.live, self.loopstack, k, v))
            elif b[1] == 'list':
                s = self.segs(b)
                if s is not None and is_const(k) and isinstance(k[1], int) and all(
                        x[0] == 'item' and not x[2] for x in s) and 0 <= k[1] < len(s):
                    s = list(s)
                    s[k[1]] = ('item', s[k[1]][1], (), self.ite(self.live, v, s[k[1]][3]))
                    self.contents = {**self.contents, b[2]: tuple(s)}
                else:
                    self.contents = {**self.contents, b[2]: None}

    def invalidate_items(self, b, k=None):
        drop = [x for x in self.heap if x[0] == 'i' and x[1] == b and not (
            k is not None and is_const(x[2]) and is_const(k) and x[2] != k)]
        if drop:
            h = dict(self.heap)
            for x in drop:
                del h[x]
            self.heap = h

    def settle(self, b, k, v):
        """what is found under k is made here in the first round that meets k, and found in the later ones"""
        if v[0] != 'ite' or b[:2] != ('new', 'dict'):
            return v
        raw = ('item', b, k)
        x = v[3] if v[2] == raw else v[2] if v[3] == raw else None
        if x is None or x[0] != 'new':
            return v
        first = self.B.restrict(v[1], ('in', k, ('param', EARLIER + 'dict')), False)
        return x if first == (FALSE if v[2] == raw else TRUE) else v

    def rounds(self, before, nev):
        """what later rounds add to a value, next to what the first one makes"""
        for hk, v in self.heap.items():
            if hk[0] == 'i' and v[0] == 'ite' and before.get(hk) != v:
                x = self.settle(hk[1], hk[2], v)
                if x is v:
                    continue
                raw = ('item', hk[1], hk[2])
                for e in self.events[nev:]:
                    if e.kind == 'append' and e.base == raw:
                        e.base = x
                        s = self.contents.get(x[2])
                        g = ('item', e.guard, e.loops, e.value)
                        if s is None:
                            continue
                        same = [y for y in s if y[0] == 'item' and y[3] == e.value]
                        s = tuple(y for y in s if y not in same)
                        for y in same:
                            g = ('item', self.B.or_(y[1], g[1]), g[2], g[3])
                        self.contents = {**self.contents, x[2]: s + (g,)}

    def get_item(self, b, k):
        if k[0] == 'slice':
            return ('item', b, k)
        if b[0] == 'ite':
            return self.ite(b[1], self.get_item(b[2], k), self.get_item(b[3], k))
        if b[0] == 'bool' and k[0] == 'idx':
            return self.elementwise(b, k)
        v = self.heap.get(('i', b, k))
        if v is not None:
            return self.settle(b, k, v)
        for d, x, v in reversed(self.current):
            if d == b and x == k:
                return v
        if b[0] == 'item' and b[2][0] == 'slice' and is_const(k) and isinstance(k[1], int) and k[1] >= 0:
            lo, hi, step = b[2][1:]
            ok = lambda x, d: d if x == NONE else x[1] if is_const(x) and isinstance(x[1], int) and x[1] >= 0 else None
            a, st = ok(lo, 0), ok(step, 1)
            if a is not None and st and (hi == NONE or ok(hi, 0) is not None and a + k[1] * st < hi[1]):
                return self.get_item(b[1], const(a + k[1] * st))
        if b[0] == 'tuple' and is_const(k) and isinstance(k[1], int):
            try:
                return b[1:][k[1]]
            except IndexError:
                pass
        s = self.segs(b)
        if s is not None:
            if b[1] in ('list',) and is_const(k) and isinstance(k[1], int) and all(
                    x[0] == 'item' and not x[2] and x[1] == TRUE for x in s):
                try:
                    return s[k[1]][3]
                except IndexError:
                    pass
            if b[1] == 'dict':
                hit = [x for x in s if x[0] == 'kv' and x[3] == k]
                if hit and hit[-1] is s[-1] or (hit and all(
                        x[0] == 'kv' and is_const(x[3]) for x in s) and is_const(k)):
                    return hit[-1][4]
                # dict built by a foreach: look up with the same element
        if k[0] == 'idx':
            lp = self.loops.get(k[1])
            if lp is not None and lp.current is not None and lp.current[0] == b:
                return lp.current[1]
            if lp is not None and s is not None and len(s) == 1 and s[0][1] == TRUE and b[1] == 'list':
                # a list that was filled once per element of the collection the loop runs over
                g = s[0]
                if g[0] == 'item' and g[2] and g[2][-1] in self.loops and self.loops[g[2][-1]].coll == lp.coll \
                        and set(g[2][:-1]) <= set(self.loopstack):
                    return self.subst(g[3], {g[2][-1]: k[1]})
                if g[0] == 'ext':
                    c, e = self.elem_of(g[3], k[1])
                    if c == lp.coll:
                        return e
            if lp is not None and (lp.coll == b or ('also', b) in lp.phis):
                return ('elem', b, k[1])
        return ('item', b, k)

    # ---- loops
    def s_For(self, st, frame):
        coll = self.ev(st.iter, frame)
        self.iterate(coll, st, frame, lambda el: (self.assign(st.target, el, frame, st), self.block(st.body, frame)),
                     frame, st.orelse)

    s_AsyncFor = s_For

    def s_While(self, st, frame):
        L = self.fresh()
        lp = Loop(L, ('while',), st, frame.func, self.live, self.loopstack, 'while')
        self.loops[L] = lp

        def once():
            c = self.cond(self.ev(st.test, frame))
            lp.cond = c
            self.live = self.B.and_(self.live, c)
            self.block(st.body, frame)
        self.loop_body(lp, once, frame)
        if st.orelse:
            self.block(st.orelse, frame)

    def dictlike(self, t):
        """the system description's dictionaries with attribute access iterate over their values"""
        if not isinstance(t, tuple) or not t or t[0] not in ('attr', 'obj', 'param'):
            return False
        c = self.typeof(t)
        return c is not None and c.name in DICTLIKE

    def elem_of(self, coll, L):
        """(canonical collection, element term) for a generic iteration L over coll"""
        k = coll[0]
        if self.dictlike(coll):
            return coll, self.get_item(coll, ('elem', coll, L))
        if k == 'call' and coll[1] == 'items' and coll[2] is not None:
            d = coll[2]
            e = ('elem', d, L)
            return d, ('tuple', e, self.get_item(d, e))
        if k == 'call' and coll[1] == 'values' and coll[2] is not None:
            d = coll[2]
            e = ('elem', d, L)
            return d, self.get_item(d, e)
        if k == 'call' and coll[1] == 'keys' and coll[2] is not None:
            return coll[2], ('elem', coll[2], L)
        if k == 'call' and coll[1] == 'enumerate' and coll[2] is None:
            c, e = self.elem_of(coll[3][0], L)
            i = ('idx', L)
            st = coll[3][1] if len(coll[3]) > 1 else dict(coll[4]).get('start')
            if st is not None and st != const(0):
                i = ('op', '+', i, st)
            return c, ('tuple', i, e)
        if k == 'call' and coll[1] == 'zip' and coll[2] is None and coll[3]:
            es = [self.elem_of(x, L) for x in coll[3]]
            return es[0][0], ('tuple',) + tuple(e for _, e in es)
        if k == 'call' and coll[1] == 'range' and coll[2] is None:
            a = coll[3]
            if len(a) == 1 and a[0][0] == 'call' and a[0][1] == 'len':
                return self.elem_of(a[0][3][0], L)[0], ('idx', L)
            if len(a) == 2 and a[0] == const(0) and a[1][0] == 'call' and a[1][1] == 'len':
                return self.elem_of(a[1][3][0], L)[0], ('idx', L)
            if len(a) == 1:
                return coll, ('idx', L)
            return coll, ('elem', coll, L)
        if k == 'call' and coll[1] in ('list', 'tuple', 'iter') and coll[2] is None and len(coll[3]) == 1:
            return self.elem_of(coll[3][0], L)
        return coll, ('elem', coll, L)

    def mask_of(self, t):
        """(mask, flat): t enumerates the positions at which mask is true"""
        if t[0] == 'call':
            n = t[1].split('.')[-1]
            if n == 'argwhere' and len(t[3]) == 1:
                return t[3][0], False
            if n == 'flatnonzero' and len(t[3]) == 1:
                return t[3][0], True
            if n == 'flatten' and t[2] is not None:
                m, f = self.mask_of(t[2])
                return m, True
        if t[0] == 'item' and t[2] == const(0) and t[1][0] == 'call' and len(t[1][3]) == 1 and \
                t[1][1].split('.')[-1] in ('where', 'nonzero'):
            return t[1][3][0], True
        return None, False

    def mask_base(self, m):
        if m[0] == 'bool':
            for a in sorted(self.B.support(m[1]), key=repr):
                if a[0] in ('==', '<', '<='):
                    xs = [x for x in a[1:] if isinstance(x, tuple) and not is_const(x)]
                    return xs[-1] if xs else m
        return m

    def elementwise(self, m, i):
        """(m)[i] for an elementwise comparison of arrays"""
        if m[0] == 'bool':
            at = lambda x: x if is_const(x) else self.get_item(x, i)
            memo = {}

            def go(x):
                if x <= 1:
                    return x
                if x not in memo:
                    v, lo, hi = self.B.nodes[x]
                    a = self.B.atoms[v]
                    if a[0] == '==':
                        c = self.eq(at(a[1]), at(a[2]))
                    else:
                        c = self.B.atom((a[0],) + tuple(at(y) if isinstance(y, tuple) else y for y in a[1:]))
                    memo[x] = self.B.ite(c, go(hi), go(lo))
                return memo[x]
            return ('bool', go(m[1]))
        return self.get_item(m, i)

    def subst(self, t, m):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == 'elem':
            return ('elem', self.subst(t[1], m), m.get(t[2], t[2]))
        if k == 'idx':
            return ('idx', m.get(t[1], t[1]))
        if k == 'phi':
            return ('phi', m.get(t[1], t[1])) + t[2:]
        if k == 'ite':
            return self.ite(self.subst_b(t[1], m), self.subst(t[2], m), self.subst(t[3], m))
        if k == 'bool':
            return ('bool', self.subst_b(t[1], m))
        if k == 'exists':
            return ('exists', tuple(self.subst(c, m) for c in t[1]), self.subst_b(t[2], m), t[3])
        if k in ('const', 'new', 'obj', 'func', 'class', 'ext', 'param', 'enum', 'builtin', 'mod'):
            return t
        return tuple(self.subst(x, m) if isinstance(x, tuple) else x for x in t)

    def subst_b(self, b, m):
        if b <= 1:
            return b
        B = self.B
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = B.nodes[x]
            a = B.atoms[v]
            r = B.ite(B.atom(self.subst(a, m)), go(hi), go(lo))
            memo[x] = r
            return r
        return go(b)

    def now_current(self, pairs):
        """d[k] is x in this iteration, whatever the loop that filled d left behind for the same key"""
        self.current = self.current + pairs
        old = [('i', d, k) for d, k, x in pairs if self.heap.get(('i', d, k), x) != x]
        if old:
            self.heap = {a: v for a, v in self.heap.items() if a not in old}

    def iterate(self, coll, node, frame, body, ctxframe, orelse=()):
        """run body(element) for a generic iteration of coll (or each known element)"""
        src = coll
        wrap = None
        # look through list()/items()/enumerate()/reversed() around a locally built collection
        inner = coll
        while inner[0] == 'call' and inner[2] is None and inner[1] in ('list', 'tuple', 'iter') and len(inner[3]) == 1:
            inner = inner[3][0]
        if inner[0] == 'call' and inner[1] == 'enumerate' and inner[2] is None and len(inner[3]) == 1:
            wrap, inner = 'enumerate', inner[3][0]
        elif inner[0] == 'call' and inner[1] == 'range' and inner[2] is None:
            a = inner[3][1:] if len(inner[3]) == 2 and inner[3][0] == const(0) else inner[3]
            if len(a) == 1 and a[0][0] == 'call' and a[0][1] == 'len' and len(a[0][3]) == 1 and \
                    self.expand(a[0][3][0]) is not None:
                wrap, inner = 'index', a[0][3][0]
        unordered = inner[0] == 'new' and inner[1] == 'set'
        s = self.expand(inner)
        if s is None and inner[0] == 'call' and inner[1] == 'range' and inner[2] is None and inner[3] and \
                all(is_const(x) and type(x[1]) is int for x in inner[3]) and (len(inner[3]) < 3 or inner[3][2][1]):
            ks = range(*[x[1] for x in inner[3]])
            if len(ks) <= 4:
                s = [('item', TRUE, (), const(i)) for i in ks]
        if s is not None and len(s) <= 12 and not (self.loopstack and any(
                x[2] and x[2][:1] != () and set(x[2]) & set(self.loopstack) and inner[0] == 'new' and False
                for x in s)):
            if not s:
                if orelse:
                    self.block(orelse, frame)
                return
            seq = list(s)
            outer = self.loopstack
            brk = FALSE
            cur0 = self.current
            for i, g in enumerate(seq):
                if self.live == FALSE:
                    break
                loops = tuple(x for x in g[2] if x not in outer) if g[0] != 'ext' else \
                    tuple(x for x in g[2] if x not in outer)
                m = {}
                newloops = []
                for x in loops:
                    n = self.fresh()
                    m[x] = n
                    newloops.append(n)
                extra = None
                if g[0] == 'ext':
                    extra = self.fresh()
                if not newloops and extra is None:
                    def el():
                        if wrap == 'index':
                            return const(i)
                        return ('tuple', const(i), g[3]) if wrap == 'enumerate' else g[3]
                    saved = self.save(frame)
                    sat = self.B.and_(self.live, g[1])
                    if not self.B.sat(sat):
                        continue
                    lctx = {'brk': FALSE, 'cont': FALSE, 'left': []}
                    frame.loopctx.append(lctx)
                    e = el()
                    self.now_current(tuple((d, k, x) for d, k, x in g[4:]))
                    if wrap == 'index':
                        self.current += ((inner, e, g[3]),)
                    self.branch(g[1], lambda: body(e), lambda: None, frame)
                    self.current = cur0
                    frame.loopctx.pop()
                    self.live = self.B.or_(self.live, lctx['cont'])
                    brk = self.B.or_(brk, lctx['brk'])
                    continue
                for x in loops:
                    o = self.loops.get(x)
                    n = m[x]
                    pl = self.subst(o.coll, m) if o else ('?',)
                    nl = Loop(n, pl, node, frame.func, self.live, self.loopstack, 'for')
                    nl.unordered = unordered or o is not None and o.unordered
                    if o:
                        nl.phis.update({k: v for k, v in o.phis.items() if k[0] == 'also'})
                        nl.fused = x
                        # what the first loop did not get to is not there
                        nl.brk = self.subst_b(o.brk, m)
                    self.loops[n] = nl
                    self.loopstack = self.loopstack + (n,)
                if extra is not None:
                    c, e0 = self.elem_of(self.subst(g[3], m), extra)
                    nl = Loop(extra, c, node, frame.func, self.live, self.loopstack, 'for')
                    nl.unordered = unordered
                    self.loops[extra] = nl
                    self.loopstack = self.loopstack + (extra,)
                    e = e0
                    if wrap in ('enumerate', 'index'):
                        nl.current = (inner, e)
                        e = ('idx', extra) if wrap == 'index' else ('tuple', ('idx', extra), e)
                else:
                    e = self.subst(g[3], m)
                    if wrap in ('enumerate', 'index'):
                        self.loops[newloops[-1]].current = (inner, e)
                        e = ('idx', newloops[-1]) if wrap == 'index' else ('tuple', ('idx', newloops[-1]), e)
                gg = self.subst_b(g[1], m)
                lp = self.loops[self.loopstack[-1]]
                keep = self.loopstack
                self.loopstack = outer
                self.now_current(tuple((d, self.subst(k, m), self.subst(x, m)) for d, k, x in g[4:]))
                left = lp.brk
                self.loop_body(lp, lambda: self.branch(gg, lambda: body(e), lambda: None, frame), frame, keep)
                lp.brk = self.B.or_(lp.brk, left)
                self.current = cur0
                self.loopstack = outer
            self.live = self.B.or_(self.live, brk)
            if orelse:
                self.block(orelse, frame)
            return
        L = self.fresh()
        mask, flat = self.mask_of(src)
        if mask is not None:
            # indices at which the mask is true
            i = ('idx', L)
            lp = self.loops[L] = Loop(L, self.mask_base(mask), node, frame.func, self.live, self.loopstack, 'for')
            g = self.cond(self.elementwise(mask, i))
            e = i if flat else ('tuple', i)
            self.loop_body(lp, lambda: self.branch(g, lambda: body(e), lambda: None, frame), frame)
            if orelse:
                self.block(orelse, frame)
            return
        c, e = self.elem_of(src, L)
        lp = Loop(L, c, node, frame.func, self.live, self.loopstack, 'for')
        if src[0] == 'call' and src[1] == 'zip':
            for x in src[3]:
                lp.phis[('also', self.elem_of(x, L)[0])] = True
        self.loops[L] = lp
        self.loop_body(lp, lambda: body(e), frame)
        if orelse:
            self.block(orelse, frame)

    def loop_body(self, lp, once, frame, stack=None):
        outer = self.loopstack
        self.loopstack = stack if stack is not None else outer + (lp.uid,)
        live0 = self.live
        nret = len(frame.returns)
        # dry run: find what the body changes
        before = self.save(frame)
        nev, uid0 = len(self.events), self.uid
        inl = set(self.inlined)
        ctx = {'brk': FALSE, 'cont': FALSE, 'left': []}
        rets = [(f, len(f.returns)) for f in self.frames(frame)]
        if self.may_change(lp.node):
            frame.loopctx.append(ctx)
            start = self.live
            once()
            frame.loopctx.pop()
            self.rejoin(ctx, start)
            after = self.save(frame)
            del self.events[nev:]
            for f, n in rets:
                del f.returns[n:]
            changed = []
            for (f, e0), (_, e1) in zip(before[0], after[0]):
                for k in e1:
                    if k in e0 and e0[k] != e1[k]:
                        changed.append((f, k))
            lp.grown = frozenset(k for k, v in after[2].items() if k in before[2] and before[2][k] != v)
            hchanged = [k for k in after[1] if before[1].get(k) != after[1][k]
                        and not self.mentions_loop(k[1], self.loopstack[len(outer):])
                        and not (k[0] == 'i' and self.mentions_loop(k[2], self.loopstack[len(outer):]))]
            self.restore(before)
            for f, k in changed:
                lp.phis[('env', k)] = (f.env[k], None)
                f.env[k] = ('phi', lp.uid, k)
                ty = self.typeof(lp.phis[('env', k)][0])
                if ty is not None:
                    self.types[f.env[k]] = ty
            if hchanged:
                h = dict(self.heap)
                for k in hchanged:
                    if k[0] == 'a':
                        lp.phis[k] = (h.get(k) or self.heap_default(k), None)
                        h[k] = ('phi', lp.uid, k)
                    elif k in h:
                        del h[k]
                self.heap = h
        else:
            changed, hchanged = [], []
        self.restore((before[0], self.heap, before[2], live0)) if False else None
        self.live = live0
        ctx = {'brk': FALSE, 'cont': FALSE, 'left': []}
        frame.loopctx.append(ctx)
        once()
        frame.loopctx.pop()
        lp.brk = self.rel(ctx['brk'], live0)
        lp.end = self.B.or_(self.live, ctx['cont'])
        self.rejoin(ctx, live0)
        for f, k in changed:
            old = lp.phis[('env', k)][0]
            lp.phis[('env', k)] = (old, f.env.get(k))
            v = self.flag(lp, k, old, f.env.get(k), self.loopstack[len(outer):])
            v = self.last_value(lp, f.env.get(k)) if v is None else v
            f.env[k] = ('phi', lp.uid, k) if v is None else v
        if hchanged:
            h = dict(self.heap)
            for k in hchanged:
                if k[0] == 'a':
                    lp.phis[k] = (lp.phis[k][0], h.get(k))
                    h[k] = ('phi', lp.uid, k)
            self.heap = h
        # returns and raises inside the loop
        rel_loops = self.loopstack[len(outer):]
        self.loopstack = outer
        live = live0
        for e in self.events[nev:]:
            if e.kind == 'raise' and not e.exc:
                inner = tuple(x for x in e.loops if x not in outer)
                live = self.B.and_(live, self.B.not_(self.exists(inner or rel_loops, self.rel(e.guard, live0), True)))
        for i in range(nret, len(frame.returns)):
            g, v = frame.returns[i]
            ex = self.exists(rel_loops, self.rel(g, live0), True)
            frame.returns[i] = (self.B.and_(live, ex), v)
            live = self.B.and_(live, self.B.not_(ex))
        self.live = live

    def last_value(self, lp, new):
        """value after a loop of a name that every round sets anew from its element: that of the last element"""
        def carried(x):
            return isinstance(x, tuple) and bool(x) and (x[0] == 'phi' or any(carried(y) for y in x)) or \
                isinstance(x, tuple) and bool(x) and x[0] in ('ite', 'bool', 'exists', 'new')
        if lp.kind == 'for' and new is not None and not carried(new) and self.mentions_loop(new, (lp.uid,)):
            return new
        return None

    def flag(self, lp, k, init, new, loops):
        """value of a flag after a loop that only ever sets it to one constant: was there an element that sets it?"""
        me = ('phi', lp.uid, k)
        if new is None or lp.kind != 'for' or not loops or init == new:
            return None
        leaves = {}

        def walk(v, g):
            if v[0] == 'ite':
                walk(v[2], self.B.and_(g, v[1]))
                walk(v[3], self.B.and_(g, self.B.not_(v[1])))
            else:
                leaves[v] = self.B.or_(leaves.get(v, FALSE), g)
        walk(new, TRUE)
        others = [v for v in leaves if v != me]
        if me in leaves and len(others) == 1 and (is_const(others[0]) or others[0] in (('bool', TRUE), ('bool', FALSE))):
            to, = others
            c = leaves[to]
        elif new[0] == 'bool' and ('truthy', me) in self.B.support(new[1]) and init[0] in ('bool', 'const'):
            t = self.B.atom(('truthy', me))
            on, off = self.B.restrict(new[1], ('truthy', me), True), self.B.restrict(new[1], ('truthy', me), False)
            if off == FALSE:
                c, to = self.B.not_(on), ('bool', FALSE)
            elif on == TRUE:
                c, to = off, ('bool', TRUE)
            else:
                return None
        else:
            return None
        if lp.brk != FALSE and lp.brk != c:
            return None
        if any(x == me or x[0] == 'phi' and x[1] == lp.uid for a in self.B.support(c) for x in self.subterms(a)):
            return None
        return self.ite(self.exists(loops, c), to, init)

    def rejoin(self, ctx, start):
        """the values with which the iteration was left early join those at its end"""
        dead = self.live == FALSE
        for g, st in reversed(ctx['left']):
            if dead:
                for f, e in st[0]:
                    f.env.clear()
                    f.env.update(e)
                self.heap = st[1]
                dead = False
                continue
            cond = self.rel(g, start)
            for f, e in st[0]:
                for k in list(e) + [k for k in f.env if k not in e]:
                    a, b = e.get(k), f.env.get(k)
                    if a is not None and b is not None and a != b:
                        f.env[k] = self.ite(cond, a, b)
                    elif b is None:
                        f.env[k] = a
            if st[1] is not self.heap:
                h = {}
                for k in list(st[1]) + [k for k in self.heap if k not in st[1]]:
                    a = st[1].get(k) or self.heap_default(k)
                    b = self.heap.get(k) or self.heap_default(k)
                    h[k] = a if a == b else self.ite(cond, a, b)
                self.heap = h

    def frames(self, f):
        while f is not None:
            yield f
            f = f.parent

    def may_change(self, node):
        if isinstance(node, (ast.For, ast.While, ast.AsyncFor)):
            for n in ast.walk(node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.Call)):
                    return True
            return False
        return False

    def s_Break(self, st, frame):
        if frame.loopctx:
            c = frame.loopctx[-1]
            c['brk'] = self.B.or_(c['brk'], self.live)
            c['left'].append((self.live, self.save(frame)))
        self.live = FALSE

    def s_Continue(self, st, frame):
        if frame.loopctx:
            c = frame.loopctx[-1]
            c['cont'] = self.B.or_(c['cont'], self.live)
            c['left'].append((self.live, self.save(frame)))
        self.live = FALSE

    def s_With(self, st, frame):
        for it in st.items:
            v = self.ev(it.context_expr, frame)
            self.emit('with', it, frame, value=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, frame, st)
        self.block(st.body, frame)

    s_AsyncWith = s_With

    def s_Try(self, st, frame):
        before = self.save(frame)
        entry = self.live
        self.emit('try', st, frame)
        pos = len(self.events)
        rg = getattr(self, 'raise_guard', FALSE)
        self.raise_guard = FALSE
        tried = []
        self.tried = getattr(self, 'tried', ()) + (tried,)
        stops, self.stops = getattr(self, 'stops', False), any(
            n in ('StopIteration', 'Exception', 'BaseException', '') for h in st.handlers for n in _exc_names(h) or ('',))
        self.block(st.body, frame)
        self.stops = stops
        self.tried = self.tried[:-1]
        raised = self.raise_guard
        self.raise_guard = rg
        if st.orelse:
            self.block(st.orelse, frame)
        body = self.save(frame)
        handlers = [] if all(_passes_on(h) for h in st.handlers) else st.handlers
        if not handlers:
            self.raise_guard = self.B.or_(rg, raised)
        if handlers:
            for e in self.events[pos:]:
                if e.kind == 'raise' and e.func is frame.func:
                    e.exc = True
            cur = body
            for i, h in enumerate(handlers):
                # an exception may strike before or after any effect of the body
                exc = self.B.or_(self.B.atom(self.exc_atom(h, tried)), raised)
                hs = (before[0], before[1], body[2], self.B.and_(entry, exc))
                self.restore(hs)
                if h.name:
                    frame.env[h.name] = ('call', 'exception', None, (), (), self.fresh())
                self.emit('except', h, frame, name=tuple(_exc_names(h)))
                self.block(h.body, frame)
                hend = self.save(frame)
                if hend[3] == FALSE:
                    self.restore(cur)
                    self.live = self.B.and_(cur[3], self.B.not_(exc))
                else:
                    c2 = (cur[0], cur[1], cur[2], self.B.and_(cur[3], self.B.not_(exc)))
                    self.merge(exc, before, hend, c2)
                cur = self.save(frame)
        if st.finalbody:
            sv = self.live
            # the final block also runs on exceptional / returning exits
            self.live = entry
            self.block(st.finalbody, frame)
            self.live = self.B.and_(sv, self.live)

    s_TryStar = s_Try

    def exc_atom(self, h, tried):
        """'the tried calls fail with these errors': named by what is tried, not by where"""
        a = ('exc', tuple(sorted(_exc_names(h)))) + tuple(dict.fromkeys(tried))
        n = self.excs = getattr(self, 'excs', {})
        n[a] = n.get(a, 0) + 1
        return a if n[a] == 1 else a + (('const', n[a]),)

    def s_Match(self, st, frame):
        subj = self.ev(st.subject, frame)

        def case(i):
            if i >= len(st.cases):
                return
            cs = st.cases[i]
            c = self.pattern(cs.pattern, subj, frame)
            if cs.guard is not None:
                c = self.B.and_(c, self.cond(self.ev(cs.guard, frame)))
            self.branch(c, lambda: self.block(cs.body, frame), lambda: case(i + 1), frame)
        case(0)

    def pattern(self, p, subj, frame):
        if isinstance(p, ast.MatchValue):
            return self.eq(subj, self.ev(p.value, frame))
        if isinstance(p, ast.MatchSingleton):
            return self.eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return self.B.or_(*[self.pattern(x, subj, frame) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self.pattern(p.pattern, subj, frame) if p.pattern is not None else TRUE
            if p.name:
                frame.env[p.name] = subj
            return c
        if isinstance(p, ast.MatchClass):
            return self.B.atom(('isinstance', subj, self.ev(p.cls, frame)))
        return self.B.atom(('match', subj, ast.dump(p)))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.expr):
                    self.ev(n, frame)
            return ('expr', type(e).__name__, self.fresh())
        return m(e, frame)

    def e_Constant(self, e, frame):
        if e.value is True or e.value is False:
            return ('bool', TRUE if e.value else FALSE)
        if e.value is Ellipsis:
            return ('builtin', 'Ellipsis')
        return const(e.value)

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        r = self.w.resolve_name(frame.module, name)
        if r is not None:
            return self.from_resolved(r, frame)
        if name in BUILTINS:
            return ('builtin', name)
        return ('name', name)

    def from_resolved(self, r, frame):
        if isinstance(r, Func):
            return ('gfunc', r.module.name, r.name)
        if isinstance(r, Class):
            return ('class', r.name)
        if isinstance(r, Module):
            return ('mod', r.name)
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'global':
            _, m, expr, name = r
            key = (m.name, name)
            if key in self.globals_cache:
                return self.globals_cache[key]
            if isinstance(expr, ast.Constant):
                v = self.e_Constant(expr, frame)
            elif isinstance(expr, (ast.Name, ast.Attribute)):
                x = self.w.resolve_expr(m, expr)
                v = self.from_resolved(x, frame) if x is not None else ('gvar', m.name, name)
            elif isinstance(expr, (ast.Dict, ast.List, ast.Tuple, ast.Set, ast.UnaryOp, ast.BinOp)) and \
                    not any(isinstance(n, (ast.Call, ast.ListComp, ast.DictComp)) for n in ast.walk(expr)):
                fr = Frame(Func(m, ast.parse('def f(): pass').body[0]), None, None, m)
                sv, lv = self.live, self.loopstack
                self.live, self.loopstack = TRUE, ()
                n = len(self.events)
                v = self.ev(expr, fr)
                del self.events[n:]
                self.live, self.loopstack = sv, lv
                if v[0] == 'new':
                    self.new_names[v[2]] = m.name + '.' + name
                    # re-add contents even if the current branch is later discarded
            else:
                v = ('gvar', m.name, name)
            if v[0] != 'new':
                self.globals_cache[key] = v
            return v
        return ('name', '?')

    def class_of_term(self, t):
        if t[0] == 'class':
            cs = self.w.classes.get(t[1], [])
            return cs[0] if cs else None
        return None

    def e_Attribute(self, e, frame):
        b = self.ev(e.value, frame)
        return self.get_attr(b, e.attr, e, frame)

    def get_attr(self, b, name, node, frame, for_call=False):
        k = b[0]
        if k == 'mod':
            m = self.w.modules.get(b[1])
            r = self.w.resolve_name(m, name) if m else None
            if r is not None:
                return self.from_resolved(r, frame)
            if b[1] + '.' + name in self.w.modules:
                return ('mod', b[1] + '.' + name)
            return ('ext', b[1] + '.' + name)
        if k == 'ext':
            if b[1].split('.')[-1] in EXT_ENUMS:
                return ('enum', b[1].split('.')[-1], name)
            return ('ext', b[1] + '.' + name)
        if k == 'class':
            c = self.class_of_term(b)
            if c is not None:
                if self.w.is_enum(c) and name in c.attrs:
                    return ('enum', c.name, name)
                if ('a', b, name) in self.heap:
                    return self.heap[('a', b, name)]
                m = self.w.find_method(c, name)
                if m is not None:
                    return ('umeth', c.name, name)
                ca = self.w.find_class_attr(c, name)
                if ca is not None and isinstance(ca[1], ast.Constant):
                    return self.e_Constant(ca[1], frame)
            return ('attr', b, name)
        if k == 'obj' and b[2] in self.lobjs:
            v = self.heap.get(('a', b, name))
            if v is None:
                v = self.local_attr(self.lobjs[b[2]], name)
                if v is not None and v[0] in ('func', 'ite', 'umeth', 'extmeth'):
                    v = ('lbound', b, name, v)
            return v if v is not None else ('attr', b, name)
        if k == 'super':
            return ('supermeth', b, name)
        if k == 'ite':
            return self.ite(b[1], self.get_attr(b[2], name, node, frame, for_call),
                            self.get_attr(b[3], name, node, frame, for_call))
        v = self.heap.get(('a', b, name))
        if v is not None:
            return v
        c = self.typeof(b)
        if c is not None:
            m = self.w.find_method(c, name)
            if m is not None:
                if m.is_property:
                    if len(self.stack) < self.max_depth and m not in self.stack and m.qual not in self.opaque:
                        return self.call_func(m, [b], {}, node, frame, c)
                    return ('attr', b, name)
                return ('bound', b, m.module.name, (m.cls.name if m.cls else None), m.name)
            ca = self.w.find_class_attr(c, name)
            if ca is not None and isinstance(ca[1], ast.Constant) and k == 'obj':
                return self.e_Constant(ca[1], frame)
        return ('attr', b, name)

    def e_Subscript(self, e, frame):
        b = self.ev(e.value, frame)
        k = self.ev(e.slice, frame)
        return self.get_item(b, k)

    def e_Index(self, e, frame):
        return self.ev(e.value, frame)

    def e_Slice(self, e, frame):
        f = lambda x: self.ev(x, frame) if x is not None else NONE
        return ('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, frame)
        return ('tuple',) + tuple(self.ev(x, frame) for x in e.elts)

    def e_List(self, e, frame, kind='list'):
        items = [(isinstance(x, ast.Starred), self.ev(x.value if isinstance(x, ast.Starred) else x, frame))
                 for x in e.elts]
        t = self.new(kind)
        for star, v in items:
            if star:
                self.extend_contents(t, v)
            else:
                self.add_seg(t, ('item', TRUE, (), v))
        return t

    def e_Set(self, e, frame):
        return self.e_List(e, frame, 'set')

    def e_Dict(self, e, frame):
        t = self.new('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.extend_contents(t, self.ev(v, frame))
            else:
                kk = self.ev(k, frame)
                self.add_seg(t, ('kv', TRUE, (), kk, self.ev(v, frame)))
        return t

    def e_Starred(self, e, frame):
        return self.ev(e.value, frame)

    def e_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v.value, frame))
        return self.cat(parts)

    def cat(self, parts):
        out = []
        for p in parts:
            ps = p[1:] if p[0] == 'cat' else (p,)
            for q in ps:
                if q[0] == 'call' and q[1] == 'str' and q[2] is None and len(q[3]) == 1:
                    q = q[3][0]
                    if q[0] == 'cat':
                        for r in q[1:]:
                            out.append(r)
                        continue
                if is_const(q) and out and is_const(out[-1]):
                    out[-1] = const(str(out[-1][1]) + str(q[1]))
                elif is_const(q) and q[1] == '':
                    continue
                else:
                    out.append(const(str(q[1])) if is_const(q) else q)
        if not out:
            return const('')
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return ('cat',) + tuple(out)

    def e_FormattedValue(self, e, frame):
        return self.ev(e.value, frame)

    def is_strish(self, t):
        return t[0] == 'cat' or (is_const(t) and isinstance(t[1], str)) or t[:3] == ('call', 'str', None) or \
            t[0] == 'ite' and self.is_strish(t[2]) and self.is_strish(t[3])

    def binop(self, op, a, b):
        if op == '+' and (self.is_strish(a) or self.is_strish(b)):
            return self.cat([a, b])
        if op == '+' and a[0] == 'tuple' and b[0] == 'tuple':
            return a + b[1:]
        if op in ('+', '|') and (a[0] == 'new' or b[0] == 'new') and (a[0] != 'new' or a[1] in ('list', 'dict', 'set')):
            kind = a[1] if a[0] == 'new' else b[1]
            t = self.new(kind)
            self.extend_contents(t, a)
            self.extend_contents(t, b)
            return t
        if op == '%' and is_const(a) and isinstance(a[1], str):
            return self.percent(a[1], b)
        if is_const(a) and is_const(b):
            try:
                x, y = a[1], b[1]
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                         '/': lambda: x / y, '**': lambda: x ** y if abs(y) < 64 else None,
                         '//': lambda: x // y, '%': lambda: x % y}.get(op, lambda: None)()
                    if r is not None:
                        return const(r)
            except Exception:
                pass
        return ('op', op, a, b)

    def percent(self, fmt, b):
        vals = list(b[1:]) if b[0] == 'tuple' else [b]
        import re
        parts = re.split(r'%[sdrif]', fmt)
        if len(parts) != len(vals) + 1:
            return ('op', '%', const(fmt), b)
        out = [const(parts[0])]
        for v, p in zip(vals, parts[1:]):
            out += [v, const(p)]
        return self.cat(out)

    def e_BinOp(self, e, frame):
        a = self.ev(e.left, frame)
        b = self.ev(e.right, frame)
        return self.binop(BINOP.get(type(e.op), '?'), a, b)

    def e_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            return ('bool', self.B.not_(self.cond(v)))
        op = UNOP.get(type(e.op), '?')
        if is_const(v) and isinstance(v[1], (int, float)) and op == '-':
            return const(-v[1])
        if op == '~' and v[0] == 'uop' and v[1] == '~':
            return v[2]
        return ('uop', op, v)

    def e_BoolOp(self, e, frame):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], frame)
            if i == len(e.values) - 1:
                return v
            c = self.cond(v)
            go_on = c if is_and else self.B.not_(c)
            box = []
            saved = self.live
            # short circuit: effects of the rest are guarded
            self.branch(go_on, lambda: box.append(go(i + 1)), lambda: None, frame)
            self.live = saved if not box else self.live
            if not box:
                return v
            rest = box[0]
            if v[0] == 'bool' and rest[0] == 'bool':
                return ('bool', self.B.and_(c, rest[1]) if is_and else self.B.or_(c, rest[1]))
            return self.ite(c, rest, v) if is_and else self.ite(c, v, rest)
        r = go(0)
        return r

    def e_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        out = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, frame)
            r = self.compare(op, left, right)
            if r is None:
                return ('op', type(op).__name__, left, right)
            out = self.B.and_(out, r)
            left = right
        return ('bool', out)

    def compare(self, op, a, b):
        B = self.B
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return B.not_(self.eq(a, b))
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            return B.not_(self.lt(b, a))
        if isinstance(op, ast.GtE):
            return B.not_(self.lt(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return B.not_(self.contains(a, b))
        return None

    def e_IfExp(self, e, frame):
        c = self.cond(self.ev(e.test, frame))
        box = {}
        self.branch(c, lambda: box.__setitem__('a', self.ev(e.body, frame)),
                    lambda: box.__setitem__('b', self.ev(e.orelse, frame)), frame)
        if 'a' not in box:
            return box['b']
        if 'b' not in box:
            return box['a']
        return self.ite(c, box['a'], box['b'])

    def e_NamedExpr(self, e, frame):
        v = self.ev(e.value, frame)
        self.assign(e.target, v, frame, e)
        return v

    def e_Lambda(self, e, frame):
        f = Func(frame.module, e, None, frame.func.qual + '.<lambda>')
        f.nested = True
        u = self.fresh()
        self.funcs[u] = FuncVal(f, frame, [self.ev(d, frame) for d in e.args.defaults],
                                [self.ev(d, frame) if d is not None else None for d in e.args.kw_defaults])
        return ('func', u)

    def e_Yield(self, e, frame):
        v = self.ev(e.value, frame) if e.value is not None else NONE
        self.emit('yield', e, frame, value=v)
        if frame.gen is not None:
            self.add_seg(frame.gen, ('item', self.live, self.loopstack, v))
        return ('call', 'send', None, (), (), self.fresh())

    def e_YieldFrom(self, e, frame):
        v = self.ev(e.value, frame)
        if frame.gen is not None:
            self.extend_contents(frame.gen, v)
        return NONE

    def e_Await(self, e, frame):
        return self.ev(e.value, frame)

    # comprehensions
    def comp(self, e, frame, kind, elt, val=None):
        t = self.new(kind)
        fr = Frame(frame.func, frame.cls, frame, frame.module)
        fr.self_term = frame.self_term

        def gen(i):
            if i == len(e.generators):
                v = self.ev(elt, fr)
                if val is not None:
                    self.add_seg(t, ('kv', self.live, self.loopstack, v, self.ev(val, fr)))
                else:
                    self.add_seg(t, ('item', self.live, self.loopstack, v))
                return
            g = e.generators[i]
            coll = self.ev(g.iter, fr)

            def body(el):
                self.assign(g.target, el, fr, e)
                c = TRUE
                for x in g.ifs:
                    c = self.B.and_(c, self.cond(self.ev(x, fr)))
                self.branch(c, lambda: gen(i + 1), lambda: None, fr)
            self.iterate(coll, e, fr, body, fr)
        lv = self.live
        gen(0)
        self.live = lv
        return t

    def e_ListComp(self, e, frame):
        return self.comp(e, frame, 'list', e.elt)

    def e_GeneratorExp(self, e, frame):
        return self.comp(e, frame, 'list', e.elt)

    def e_SetComp(self, e, frame):
        return self.comp(e, frame, 'set', e.elt)

    def e_DictComp(self, e, frame):
        return self.comp(e, frame, 'dict', e.key, e.value)

    # ------------------------------------------------------------------ container helpers
    def extend_contents(self, t, v):
        s = self.segs(v)
        if s is not None:
            for g in s:
                if g[0] in ('item', 'kv', 'ext'):
                    self.add_seg(t, (g[0], self.B.and_(g[1], self.live) if self.loopstack or self.live != TRUE
                                     else g[1], self.loopstack + tuple(x for x in g[2] if x not in self.loopstack))
                                 + g[3:])
            return
        if v[0] == 'tuple':
            for x in v[1:]:
                self.add_seg(t, ('item', self.live, self.loopstack, x))
            return
        if v == NONE:
            return
        self.add_seg(t, ('ext', self.live, self.loopstack, v))

    def extend(self, base, v, node, frame):
        s = self.segs(v) if v[0] == 'new' and v[1] == 'list' else \
            tuple(('item', TRUE, (), x) for x in v[1:]) if v[0] == 'tuple' else None
        if 'append' in self.intrinsics and s is not None and all(g[0] == 'item' for g in s):
            for g in s:
                self.intrinsics['append'](self, base, 'append', [g[3]], {}, node, frame)
        if (base[0] != 'new' or self.segs(base) is None) and s is not None and len(s) <= 8 and all(g[0] == 'item' for g in s):
            # adding the elements of a known list is adding each of them
            outer, lv = self.loopstack, self.live
            for g in s:
                m = {}
                for x in g[2]:
                    if x not in outer:
                        o = self.loops[x]
                        n = self.fresh()
                        m[x] = n
                        self.loops[n] = Loop(n, self.subst(o.coll, m), node, frame.func, lv, self.loopstack, 'for')
                        self.loops[n].brk = self.subst_b(o.brk, m)
                        self.loopstack = self.loopstack + (n,)
                self.live = self.B.and_(lv, self.subst_b(g[1], m))
                if self.live != FALSE:
                    self.emit('append', node, frame, base=base, value=self.subst(g[3], m), name='append')
                self.live, self.loopstack = lv, outer
            return
        self.emit('extend', node, frame, base=base, value=v)
        if base[0] == 'new':
            self.extend_contents(base, v)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, frame):
        r = self.call_expr(e, frame)
        if isinstance(r, tuple) and r[:1] == ('call',):
            for t in getattr(self, 'tried', ()):
                t.append(('call',) + r[1:])
        return r

    def call_expr(self, e, frame):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = frame
            while f is not None and f.self_term is None:
                f = f.parent
            return ('super', frame_cls_name(frame), f.self_term if f else NONE)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) \
                and e.args[0].id == frame_cls_name(frame):
            return ('super', e.args[0].id, self.ev(e.args[1], frame))
        fn = None
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, frame)
            name = e.func.attr
        else:
            fn = self.ev(e.func, frame)
            name = e.func.id if isinstance(e.func, ast.Name) else None
        args, kwargs, dstar = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, frame)
                s = self.segs(v)
                if v[0] == 'tuple':
                    args.extend(v[1:])
                elif s is not None and all(x[0] == 'item' and tuple(x[2]) == tuple(self.loopstack[:len(x[2])])
                                           and self.B.implies(self.live, x[1]) for x in s):
                    args.extend(x[3] for x in s)
                else:
                    args.append(('star', v))
            else:
                args.append(self.ev(a, frame))
        for k in e.keywords:
            v = self.ev(k.value, frame)
            if k.arg is None:
                s = self.segs(v)
                if s is not None and all(x[0] == 'kv' and not x[2] and is_const(x[3]) for x in s):
                    for x in s:
                        kwargs[x[3][1]] = x[4]
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if fn in (('builtin', 'any'), ('builtin', 'all')) and len(args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            # a procedure called for each element gives None: any() goes on, all() stops at the first
            for g in self.segs(args[0]) or ():
                if g[0] == 'item' and (g[3] in self.nothing or self.cond(g[3]) == FALSE) and fn[1] == 'all':
                    for x in g[2]:
                        if x not in self.loopstack:
                            self.loops[x].brk = self.B.or_(self.loops[x].brk, g[1])
        return self.call_split(fn, recv, name, args, kwargs, e, frame)

    def call_split(self, fn, recv, name, args, kwargs, e, frame):
        v = kwargs.get('**')
        if v is not None and v[0] == 'ite':
            box = {}

            def one(key, x):
                kw = {k: y for k, y in kwargs.items() if k != '**'}
                s = self.segs(x)
                if s is not None and all(y[0] == 'kv' and not y[2] and is_const(y[3]) for y in s):
                    for y in s:
                        kw[y[3][1]] = y[4]
                else:
                    kw['**'] = x
                box[key] = self.call_split(fn, recv, name, args, kw, e, frame)
            self.branch(v[1], lambda: one('a', v[2]), lambda: one('b', v[3]), frame)
            if 'a' in box and 'b' in box:
                return self.ite(v[1], box['a'], box['b'])
            return box.get('a') or box.get('b') or NONE
        return self.call(fn, recv, name, args, kwargs, e, frame)

    def call(self, fn, recv, name, args, kwargs, node, frame):
        if recv is not None:
            return self.call_method(recv, name, args, kwargs, node, frame)
        return self.call_value(fn, args, kwargs, node, frame, name)

    def call_value(self, fn, args, kwargs, node, frame, name=None):
        k = fn[0]
        if k == 'func':
            fv = self.funcs[fn[1]]
            return self.call_func(fv.func, args, kwargs, node, frame, None, fv)
        if k == 'gfunc':
            f = self.w.modules[fn[1]].funcs[fn[2]]
            return self.call_func(f, args, kwargs, node, frame, None)
        if k == 'bound':
            c = next((x for x in self.w.classes.get(fn[3], []) if x.module.name == fn[2]), None)
            f = c.methods.get(fn[4]) if c else None
            if f is not None:
                return self.call_func(f, [fn[1]] + args, kwargs, node, frame, self.typeof(fn[1]) or f.cls)
        if k == 'umeth':
            c = self.class_of_term(('class', fn[1]))
            f = self.w.find_method(c, fn[2])
            a = args if f.is_static else [('class', fn[1])] + args if f.is_classmethod else args
            return self.call_func(f, a, kwargs, node, frame, c)
        if k == 'supermeth':
            return self.call_super(fn[1], fn[2], args, kwargs, node, frame)
        if k == 'class':
            return self.construct(fn, args, kwargs, node, frame)
        if k == 'localclass':
            o = ('obj', fn[1], self.fresh())
            self.lobjs[o[2]] = fn
            self.emit('call', node, frame, name=fn[1], base=None, args=tuple(args), kwargs=dict(kwargs), result=o,
                      target=fn)
            init = self.local_attr(fn, '__init__')
            if init is not None:
                self.call_value(('lbound', o, '__init__', init), args, kwargs, node, frame)
            else:
                self.base_construct(self.lclasses[fn[2]][0], o, args, kwargs, node, frame)
            return o
        if k == 'lbound':
            v = fn[3]
            if v[0] == 'extmeth':
                return self.opaque_call(fn[2], fn[1], args, kwargs, node, frame)
            if v[0] == 'ite':
                box = {}
                self.branch(v[1],
                            lambda: box.__setitem__('a', self.call_value(fn[:3] + (v[2],), args, kwargs, node, frame)),
                            lambda: box.__setitem__('b', self.call_value(fn[:3] + (v[3],), args, kwargs, node, frame)),
                            frame)
                if 'a' in box and 'b' in box:
                    return self.ite(v[1], box['a'], box['b'])
                return box.get('a') or box.get('b') or NONE
            return self.call_value(v, [fn[1]] + args, kwargs, node, frame)
        if k == 'builtin':
            return self.call_builtin(fn[1], args, kwargs, node, frame)
        if k == 'ext' and fn[1] in ('tqdm.tqdm', 'tqdm.auto.tqdm') and len(args) == 1:
            return args[0]          # only shows how far the iteration is
        if k == 'ext' and fn[1] in self.intrinsics:
            r = self.intrinsics[fn[1]](self, None, fn[1], args, kwargs, node, frame)
            if r is not None:
                return r
        if k == 'ext':
            return self.opaque_call(fn[1], None, args, kwargs, node, frame, pure=fn[1].startswith(('numpy.', 'np.', 'ast.', 'os.path.')))
        if k == 'ite':
            box = {}
            self.branch(fn[1], lambda: box.__setitem__('a', self.call_value(fn[2], args, kwargs, node, frame, name)),
                        lambda: box.__setitem__('b', self.call_value(fn[3], args, kwargs, node, frame, name)), frame)
            if 'a' in box and 'b' in box:
                return self.ite(fn[1], box['a'], box['b'])
            return box.get('a') or box.get('b')
        if k == 'attr':
            return self.call_method(fn[1], fn[2], args, kwargs, node, frame, noheap=True)
        if fn[0] == 'name':
            return self.opaque_call(fn[1], None, args, kwargs, node, frame, target=fn)
        return self.opaque_call('()', fn, args, kwargs, node, frame, target=fn)

    def call_super(self, sup, name, args, kwargs, node, frame):
        c = next(iter(self.w.classes.get(sup[1], [])), None)
        if c is not None:
            selfcls = self.typeof(sup[2]) or c
            mro = self.w.mro(selfcls)
            rest = mro[mro.index(c) + 1:] if c in mro else self.w.mro(c)[1:]
            for k in rest:
                if name in k.methods:
                    f = k.methods[name]
                    a = args if f.is_static else [sup[2]] + args
                    return self.call_func(f, a, kwargs, node, frame, selfcls)
        return self.opaque_call('super.' + name, sup[2], args, kwargs, node, frame)

    def call_method(self, recv, name, args, kwargs, node, frame, noheap=False):
        k = recv[0]
        if k == 'super':
            return self.call_super(recv, name, args, kwargs, node, frame)
        if k == 'ite' and (self.typeof(recv) is None):
            box = {}
            self.branch(recv[1],
                        lambda: box.__setitem__('a', self.call_method(recv[2], name, args, kwargs, node, frame)),
                        lambda: box.__setitem__('b', self.call_method(recv[3], name, args, kwargs, node, frame)),
                        frame)
            if 'a' in box and 'b' in box:
                return self.ite(recv[1], box['a'], box['b'])
            return box.get('a') or box.get('b') or NONE
        if k in ('mod', 'ext', 'class'):
            fn = self.get_attr(recv, name, node, frame)
            if fn[0] != 'attr':
                return self.call_value(fn, args, kwargs, node, frame, name)
        if (recv, name) in self.intrinsics or name in self.intrinsics:
            h = self.intrinsics.get((recv, name)) or self.intrinsics.get(name)
            r = h(self, recv, name, args, kwargs, node, frame)
            if r is not None:
                return r
        if k == 'obj' and recv[2] in self.lobjs:
            fn = self.get_attr(recv, name, node, frame)
            if fn[0] != 'attr':
                return self.call_value(fn, args, kwargs, node, frame, name)
        v = None if noheap else self.heap.get(('a', recv, name))
        if v is not None and v[0] in ('func', 'gfunc', 'bound', 'class', 'builtin', 'umeth', 'ite'):
            return self.call_value(v, args, kwargs, node, frame, name)
        c = self.typeof(recv)
        f = None
        if c is not None and c.name in DICTLIKE and frame.func.cls is not c:
            pass
        elif c is not None:
            f = self.w.find_method(c, name)
            if f is None and self.w.attr_type(c, name) is None and name not in BUILTIN_METHODS:
                pass
        elif recv[0] not in ('new', 'const', 'cat', 'tuple') and not kwargs.get('__x'):
            f = self.w.unique_method(name)
        if f is not None:
            a = args if f.is_static else [recv] + args
            if f.is_classmethod:
                a = [('class', f.cls.name)] + args
            return self.call_func(f, a, kwargs, node, frame, c or f.cls, recv=recv)
        return self.container_call(recv, name, args, kwargs, node, frame)

    def container_call(self, recv, name, args, kwargs, node, frame):
        new = recv[0] == 'new'
        if name == 'append' and len(args) == 1 and args[0][:1] == ('star',):
            name, args = 'extend', [args[0][1]]     # of one element, or an error
        if name == 'append' and len(args) == 1:
            self.emit('append', node, frame, base=recv, value=args[0], name='append')
            if new:
                self.add_seg(recv, ('item', self.live, self.loopstack, args[0]))
            return NONE
        if name == 'add' and len(args) == 1 and (new or self.typeof(recv) is None):
            self.emit('append', node, frame, base=recv, value=args[0], name='add')
            if new:
                self.add_seg(recv, ('item', self.live, self.loopstack, args[0]))
            return NONE
        if name == 'extend' and len(args) == 1:
            self.extend(recv, args[0], node, frame)
            return NONE
        if name == 'insert' and len(args) == 2:
            at = ('call', 'len', None, (recv,), (), 0)      # at the end: append
            self.emit('append', node, frame, base=recv, name='insert', args=tuple(args),
                      value=args[1] if args[0] == at else ('call', 'inserted', None, tuple(args), (), 0))
            if new:
                s = self.segs(recv)
                if s is not None and args[0] == const(0) and self.loopstack == self.made.get(recv[2]):
                    self.contents = {**self.contents,
                                     recv[2]: (('item', self.live, self.loopstack, args[1]),) + s}
                else:
                    self.contents = {**self.contents, recv[2]: None}
            return NONE
        if name == 'update' and (len(args) == 1 or (not args and kwargs)):
            src = args[0] if args else None
            s = self.segs(src) if src is not None else ()
            if src is not None and src[0] == 'ite':
                self.branch(src[1], lambda: self.container_call(recv, name, [src[2]], {}, node, frame),
                            lambda: self.container_call(recv, name, [src[3]], {}, node, frame), frame)
                return NONE
            if s is not None and all(x[0] == 'kv' for x in s) and (src is None or src[1] == 'dict') and len(s) <= 8:
                outer, lv = self.loopstack, self.live
                for g in s:
                    m = {}
                    for x in g[2]:
                        if x not in outer:
                            o = self.loops[x]
                            n = self.fresh()
                            m[x] = n
                            self.loops[n] = Loop(n, self.subst(o.coll, m), node, frame.func, lv, self.loopstack, 'for')
                            self.loops[n].brk = self.subst_b(o.brk, m)
                            self.loopstack = self.loopstack + (n,)
                    self.live = self.B.and_(lv, self.subst_b(g[1], m))
                    if self.live != FALSE:
                        self.set_item(recv, self.subst(g[3], m), self.subst(g[4], m), node, frame)
                    self.live, self.loopstack = lv, outer
                for k, v in kwargs.items():
                    self.set_item(recv, const(k), v, node, frame)
                return NONE
            self.emit('update', node, frame, base=recv, value=src, name='update')
            if new and src is not None:
                self.extend_contents(recv, src)
            self.invalidate_items(recv)
            return NONE
        if name == 'setdefault' and args:
            d = args[1] if len(args) > 1 else NONE
            c = self.contains(args[0], recv)
            lv = self.live
            cur = self.get_item(recv, args[0])
            self.live = self.B.and_(lv, self.B.not_(c))
            if self.live != FALSE:
                self.set_item(recv, args[0], d, node, frame)
            self.live = lv
            return self.settle(recv, args[0], self.ite(c, cur, d))
        if name == 'get' and args and not kwargs:
            d = args[1] if len(args) > 1 else NONE
            return self.ite(self.contains(args[0], recv), self.get_item(recv, args[0]), d)
        if name == '__getitem__' and len(args) == 1:
            return self.get_item(recv, args[0])
        if name == '__contains__' and len(args) == 1:
            return ('bool', self.contains(args[0], recv))
        if name == 'pop' and new and recv[1] == 'list' and not args:
            s = self.segs(recv)
            if s:
                last = s[-1]
                if last[0] == 'item' and last[2] == self.loopstack[:len(last[2])] and \
                        self.B.implies(self.live, last[1]):
                    self.emit('pop', node, frame, base=recv, value=last[3])
                    if self.live == TRUE or self.B.implies(last[1], self.live):
                        self.contents = {**self.contents, recv[2]: s[:-1]}
                    return last[3]
        if name in ('keys', 'values', 'items') and not args:
            return ('call', name, recv, (), (), 0)
        if name == 'copy' and not args and new:
            t = self.new(recv[1])
            self.contents = {**self.contents, t[2]: self.segs(recv)}
            return t
        if name == 'join' and len(args) == 1 and is_const(recv):
            s = self.segs(args[0])
            if args[0][0] == 'tuple':
                s = tuple(('item', TRUE, (), x) for x in args[0][1:])
            if s is not None and all(x[0] == 'item' and not x[2] and x[1] == TRUE for x in s):
                parts = []
                for i, x in enumerate(s):
                    if i:
                        parts.append(recv)
                    parts.append(x[3])
                return self.cat(parts)
        if name == 'format' and is_const(recv) and isinstance(recv[1], str):
            r = self.str_format(recv[1], args, kwargs)
            if r is not None:
                return r
        if name in MUTATORS:
            if name in ('remove', 'pop', 'clear', 'popitem', 'discard'):
                r = ('call', name, recv, tuple(args), tuple(sorted(kwargs.items())), self.fresh())
                self.emit('delitem', node, frame, base=recv, name=(args[0] if args else NONE), value=const(name),
                          result=r)
                self.invalidate_items(recv)
                if new:
                    self.contents = {**self.contents, recv[2]: ()} if name == 'clear' and self.live == TRUE \
                        else {**self.contents, recv[2]: None}
                return r
            if new and name in ('sort', 'reverse'):
                self.contents = {**self.contents, recv[2]: None}
        return self.opaque_call(name, recv, args, kwargs, node, frame, pure=name in PURE_METHODS)

    def str_format(self, fmt, args, kwargs):
        import string
        try:
            parts, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    field, auto = str(auto), auto + 1
                if field.isdigit():
                    parts.append(args[int(field)])
                elif field in kwargs:
                    parts.append(kwargs[field])
                else:
                    return None
            return self.cat(parts)
        except (IndexError, ValueError):
            return None

    def opaque_call(self, name, recv, args, kwargs, node, frame, pure=False, target=None):
        k = kwargs.get('key')
        if name in ('sorted', 'min', 'max', 'sort') and isinstance(k, tuple) and k[0] in ('func', 'gfunc', 'bound', 'lambda', 'umeth'):
            v = self.call_value(k, [('param', '·')], {}, node, frame)   # what a sort key is taken from
            kwargs = {**kwargs, 'key': ('keyed', v)}
        elif isinstance(k, tuple) and k[0] == 'call' and k[1].split('.')[-1] in ('attrgetter', 'itemgetter') and len(k[3]) == 1 and is_const(k[3][0]):
            v = ('param', '·')
            if k[1].endswith('itemgetter'):
                v = self.get_item(v, k[3][0])
            else:
                for n in k[3][0][1].split('.'):
                    v = self.get_attr(v, n, node, frame)
            kwargs = {**kwargs, 'key': ('keyed', v)}
        kw = tuple(sorted(kwargs.items()))
        uid = 0 if pure and not any(a[0] == 'new' for a in args) else self.fresh()
        r = ('call', name, recv, tuple(args), kw, uid)
        self.emit('call', node, frame, name=name.split('.')[-1] if name else name, base=recv, args=tuple(args),
                  kwargs=dict(kwargs), result=r, target=target or ('ext', name))
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        return r

    def shuffled(self, g, node, frame):
        """a piece of a set as a piece of a list: the same elements, in no particular order"""
        m = {}
        for x in g[2]:
            if x not in self.loopstack and x in self.loops:
                n = m[x] = self.fresh()
                o = self.loops[x]
                nl = Loop(n, self.subst(o.coll, m), node, frame.func, o.guard, tuple(m.get(p, p) for p in o.parents), o.kind)
                nl.phis.update(o.phis)
                nl.brk, nl.cond, nl.unordered = self.subst_b(o.brk, m), o.cond, True
                if hasattr(o, 'end'):
                    nl.end = o.end
                self.loops[n] = nl
        if not m:
            return g
        return (g[0], self.subst_b(g[1], m), tuple(m.get(x, x) for x in g[2])) + tuple(
            self.subst(x, m) if isinstance(x, tuple) and x else x for x in g[3:])

    def call_builtin(self, name, args, kwargs, node, frame):
        B = self.B
        if name in ('list', 'set', 'tuple', 'frozenset') and len(args) <= 1 and not kwargs:
            kind = 'set' if 'set' in name else 'list'
            t = self.new(kind)
            if not args:
                return t
            v = args[0]
            inner = v
            if v[0] == 'call' and v[1] in ('keys',) and v[2] is not None:
                inner = v[2]
            s = self.segs(inner)
            if inner[0] == 'tuple':
                if kind == 'list':
                    for x in inner[1:]:
                        self.add_seg(t, ('item', TRUE, (), x))
                    return t
            if s is not None:
                shuffled = kind == 'list' and inner[0] == 'new' and inner[1] == 'set'
                for g in s:
                    if shuffled:
                        g = self.shuffled(g, node, frame)
                    if g[0] == 'kv':
                        self.add_seg(t, ('item', g[1], g[2], g[3]))
                    else:
                        self.add_seg(t, g)
                self.origin[t] = v
                return t
            s = self.expand(v)
            if s is not None:
                for g in s:
                    self.add_seg(t, g[:4])
                self.origin[t] = v
                return t
            if v[0] == 'call' and v[1] in ('reversed', 'sorted', 'range'):
                return ('call', name, None, (v,), (), 0)
            lv = self.live
            L = self.fresh()
            c, e = self.elem_of(v, L)
            self.loops[L] = Loop(L, c, node, frame.func, lv, self.loopstack, 'for')
            self.add_seg(t, ('item', TRUE, self.loopstack + (L,), e))
            return t
        if name == 'dict':
            t = self.new('dict')
            if args:
                v = args[0]
                s = self.segs(v)
                if s is not None and v[1] == 'list' and all(x[0] == 'item' and x[3][0] == 'tuple' and len(x[3]) == 3
                                                           for x in s):
                    for x in s:
                        self.add_seg(t, ('kv', x[1], x[2], x[3][1], x[3][2]))
                elif v[0] == 'call' and v[1] in ('zip',):
                    L = self.fresh()
                    c, e = self.elem_of(v, L)
                    self.loops[L] = Loop(L, c, node, frame.func, self.live, self.loopstack, 'for')
                    self.add_seg(t, ('kv', TRUE, self.loopstack + (L,), e[1], e[2]))
                else:
                    self.extend_contents(t, v)
            for k, v in kwargs.items():
                if k == '**':
                    self.extend_contents(t, v)
                else:
                    self.add_seg(t, ('kv', TRUE, (), const(k), v))
            return t
        if name == 'bool' and len(args) == 1:
            return ('bool', self.cond(args[0]))
        if name == 'isinstance' and len(args) == 2:
            return ('bool', self.isinstance(args[0], args[1]))
        if name in ('any', 'all') and len(args) == 1:
            s = self.segs(args[0])
            if s is not None and all(x[0] == 'item' for x in s):
                r = FALSE
                for g in s:
                    c = FALSE if g[3] in self.nothing else self.cond(g[3])
                    if name == 'all':
                        c = B.not_(c)
                    c = B.and_(g[1], c)
                    if g[2]:
                        c = self.exists(tuple(x for x in g[2] if x not in self.loopstack) or g[2], c)
                    r = B.or_(r, c)
                return ('bool', r if name == 'any' else B.not_(r))
        if name == 'getattr' and len(args) >= 2 and is_const(args[1]):
            v = self.get_attr(args[0], args[1][1], node, frame)
            if len(args) > 2:
                if v[0] == 'attr' and v[1] == args[0]:
                    return self.ite(B.atom(('hasattr', args[0], args[1][1])), v, args[2])
            return v
        if name == 'setattr' and len(args) == 3:
            if is_const(args[1]):
                self.store_attr(args[0], args[1][1], args[2], node, frame)
            else:
                self.emit('setattr', node, frame, base=args[0], name=args[1], value=args[2])
            return NONE
        if name == 'hasattr' and len(args) == 2 and is_const(args[1]):
            if args[0][0] == 'obj' and ('a', args[0], args[1][1]) in self.heap:
                return CTRUE
            return ('bool', B.atom(('hasattr', args[0], args[1][1])))
        if name in ('map', 'filter') and len(args) >= 2:
            t = self.new('list')
            coll = args[1] if len(args) == 2 else ('call', 'zip', None, tuple(args[1:]), (), 0)

            def body(el):
                a = [el] if len(args) == 2 else list(el[1:])
                if name == 'map':
                    v = self.call_value(args[0], a, {}, node, frame)
                    self.add_seg(t, ('item', self.live, self.loopstack, v))
                else:
                    c = self.cond(self.call_value(args[0], a, {}, node, frame)) if args[0] != NONE \
                        else self.cond(el)
                    self.add_seg(t, ('item', B.and_(self.live, c), self.loopstack, el))
            lv = self.live
            self.iterate(coll, node, frame, body, frame)
            self.live = lv
            return t
        if name == 'len' and len(args) == 1:
            if is_const(args[0]) and isinstance(args[0][1], str):
                return const(len(args[0][1]))
            s = self.segs(args[0])
            if s is not None and all(x[0] == 'item' and not x[2] and x[1] == TRUE for x in s):
                return const(len(s))
            if s is not None and args[0][1] == 'list' and len(s) == 1 and s[0][0] == 'item' and len(s[0][2]) == 1 \
                    and s[0][1] == TRUE:
                lp = self.loops.get(s[0][2][0])
                if lp is not None and lp.kind == 'for':
                    return ('call', 'len', None, (lp.coll,), (), 0)
            if args[0][0] == 'tuple':
                return const(len(args[0]) - 1)
            x = args[0]
            while x[0] == 'call' and (x[1] in ('keys', 'values', 'items') and x[2] is not None or
                                      x[1] in ('list', 'tuple', 'sorted') and x[2] is None and len(x[3]) == 1):
                x = x[2] if x[2] is not None else x[3][0]
            return ('call', 'len', None, (x,), (), 0)
        if name == 'str' and len(args) == 1 and is_const(args[0]):
            return const(str(args[0][1]))
        if name in ('next',) and args:
            s = self.segs(args[0])
            r = ('call', 'next', None, tuple(args), (), self.fresh())
            if s is not None and len(s) == 1 and s[0][0] == 'item' and s[0][2]:
                ex = self.exists(tuple(x for x in s[0][2] if x not in self.loopstack) or s[0][2],
                                 self.rel(s[0][1], self.live))
                if len(args) > 1:
                    return self.ite(ex, s[0][3], args[1])
                if self.rel(s[0][1], self.live) != TRUE:
                    sv = self.live
                    self.live = self.B.and_(sv, self.B.not_(ex))
                    self.emit('raise', node, frame, value=('builtin', 'StopIteration'), name='StopIteration')
                    self.live = sv
                return s[0][3]
            if len(args) == 1 and getattr(self, 'stops', False):
                # what follows in the try block is only reached when there is a next one
                n = self.excs = getattr(self, 'excs', {})
                a = ('exhausted', args[0])
                n[a] = n.get(a, 0) + 1
                g = self.B.atom(a + (const(n[a]),))
                self.raise_guard = self.B.or_(getattr(self, 'raise_guard', FALSE), self.B.and_(self.live, g))
                self.live = self.B.and_(self.live, self.B.not_(g))
            return r
        if name in BUILTINS and isinstance(getattr(builtins, name, None), type) and \
                issubclass(getattr(builtins, name), BaseException):
            r = ('call', name, None, tuple(args), (), self.fresh())
            self.emit('mkexc', node, frame, name=name, args=tuple(args), result=r)
            return r
        return self.opaque_call(name, None, args, kwargs, node, frame, pure=name in PURE_BUILTINS,
                                target=('builtin', name))

    def isinstance(self, x, c):
        B = self.B
        if c[0] == 'tuple':
            return B.or_(*[self.isinstance(x, y) for y in c[1:]])
        if x[0] == 'ite':
            return B.ite(x[1], self.isinstance(x[2], c), self.isinstance(x[3], c))
        if c[0] == 'class' and x[0] == 'obj':
            k, d = self.objs.get(x[2]), self.class_of_term(c)
            if k is not None and d is not None:
                return TRUE if self.w.is_subclass(k, d) else FALSE
        if c[0] == 'builtin' and x[0] == 'new':
            return TRUE if x[1] == c[1] else FALSE
        if c[0] == 'builtin' and is_const(x):
            return TRUE if isinstance(x[1], getattr(builtins, c[1])) else FALSE
        return B.atom(('isinstance', x, c))

    # ---- constructors and inlining
    def construct(self, fn, args, kwargs, node, frame):
        c = self.class_of_term(fn)
        if c is None:
            return self.opaque_call(fn[1], None, args, kwargs, node, frame)
        if self.w.is_enum(c):
            return ('call', c.name, None, tuple(args), (), 0)
        is_exc = any((getattr(b, 'id', '') or '').endswith(('Exception', 'Error')) for k in self.w.mro(c)
                     for b in k.node.bases)
        o = ('obj', c.name, self.fresh())
        self.objs[o[2]] = c
        if is_exc:
            self.emit('mkexc', node, frame, name=c.name, args=tuple(args), result=o)
            return o
        init = self.w.find_method(c, '__init__')
        ev = self.emit('call', node, frame, name=c.name, base=None, args=tuple(args), kwargs=dict(kwargs), result=o,
                       target=fn)
        if init is not None:
            if self.can_inline(init):
                if ev:
                    ev.inlined = True
                prev, self.constructing = self.constructing, self.constructing or o
                self.call_func(init, [o] + args, kwargs, node, frame, c, quiet=True)
                self.constructing = prev
        elif c.is_dataclass:
            fields = []
            for k in reversed(self.w.mro(c)):
                if k.is_dataclass:
                    for a in k.annots:
                        fields = [f for f in fields if f[0] != a[0]] + [a]
            vals = {}
            for (n, an, dv), v in zip(fields, args):
                vals[n] = v
            for k, v in kwargs.items():
                vals[k] = v
            h = dict(self.heap)
            for n, an, dv in fields:
                if n in vals:
                    h[('a', o, n)] = vals[n]
                elif dv is not None and isinstance(dv, ast.Constant):
                    h[('a', o, n)] = self.e_Constant(dv, frame)
            self.heap = h
            post = self.w.find_method(c, '__post_init__')
            if post is not None and self.can_inline(post):
                self.call_func(post, [o], {}, node, frame, c, quiet=True)
        return o

    def can_inline(self, f):
        return len(self.stack) < self.max_depth and f not in self.stack and f.qual not in self.opaque and \
            f.name not in self.opaque and len(self.events) < self.max_events and \
            not any(s.node is f.node for s in self.stack)

    def call_func(self, f, args, kwargs, node, frame, cls, fv=None, recv=None, quiet=False):
        is_m = f.cls is not None and not f.is_static
        base = args[0] if is_m and args else None
        shown = tuple(args[1:]) if is_m and args else tuple(args)
        ev = None
        if not quiet:
            ev = self.emit('call', node, frame, name=f.name, base=base, args=shown, kwargs=dict(kwargs),
                           target=('repo', f.qual))
        if f.qual in self.intrinsics:
            r = self.intrinsics[f.qual](self, base, f.name, list(shown), kwargs, node, frame)
            if r is not None:
                if ev:
                    ev.result = r
                return r
        if not self.can_inline(f) and kwargs and not any(a[0] == 'star' for a in args):
            kwargs = dict(kwargs)
            ps = [p.arg for p in f.node.args.posonlyargs + f.node.args.args][1 if is_m else 0:]
            for p in ps[len(shown):]:
                if p not in kwargs:
                    break
                shown += (kwargs.pop(p),)
            if ev:
                ev.args, ev.kwargs = shown, tuple(sorted(kwargs.items())) if not isinstance(ev.kwargs, dict) else kwargs
        if not self.can_inline(f) or any(a[0] == 'star' for a in args) or '**' in kwargs:
            if not self.can_inline(f) or not (f.node.args.vararg or f.node.args.kwarg):
                r = ('call', f.name, base, shown, tuple(sorted(kwargs.items())), self.fresh())
                if ev:
                    ev.result = r
                ret = getattr(f.node, 'returns', None)
                if ret is not None:
                    k = self.w._ann_class(f.module, ret)
                    if k is not None:
                        self.types[r] = k
                if isinstance(f.node, ast.FunctionDef) and not any(
                        isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Return) and n.value is not None
                        for n in ast.walk(f.node)):
                    self.nothing.add(r)
                self.opaque_calls[f.qual] = self.opaque_calls.get(f.qual, 0) + 1
                return r
        if ev:
            ev.inlined = True
        fr = Frame(f, cls or f.cls, fv.frame if fv else None, f.module)
        if f.cls is not None:
            fr.cls = f.cls
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = fr.env
        nd = len(a.defaults)
        bound = set()
        for i, p in enumerate(pos):
            if i < len(args) and args[i][0] != 'star':
                env[p.arg] = args[i]
                bound.add(p.arg)
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = ('tuple',) + tuple(args[len(pos):])
        elif a.vararg:
            env[a.vararg.arg] = ('tuple',)
        extra = {}
        for k, v in kwargs.items():
            if k in [p.arg for p in pos + a.kwonlyargs]:
                env[k] = v
                bound.add(k)
            else:
                extra[k] = v
        if a.kwarg:
            t = self.new('dict')
            for k, v in extra.items():
                if k == '**':
                    self.extend_contents(t, v)
                else:
                    self.add_seg(t, ('kv', TRUE, (), const(k), v))
            env[a.kwarg.arg] = t
        for j, p in enumerate(pos):
            if p.arg not in bound:
                di = j - (len(pos) - nd)
                if di >= 0:
                    env[p.arg] = fv.defaults[di] if fv else self.default(a.defaults[di], fr)
                else:
                    env[p.arg] = ('missing', p.arg)
        for j, p in enumerate(a.kwonlyargs):
            if p.arg not in bound:
                d = a.kw_defaults[j]
                if d is not None:
                    env[p.arg] = fv.kwdefaults[j] if fv else self.default(d, fr)
        if is_m and args:
            fr.self_term = args[0]
            if self.typeof(args[0]) is None and args[0][0] in ('attr', 'item', 'elem', 'call', 'param', 'phi') \
                    and cls is not None:
                self.types.setdefault(args[0], cls)
        elif fv is not None:
            fr.self_term = None
        for p in pos:
            if p.annotation is not None and p.arg in env and self.typeof(env[p.arg]) is None and \
                    env[p.arg][0] in ('attr', 'item', 'elem', 'call', 'param'):
                k = self.w._ann_class(f.module, p.annotation)
                if k is not None:
                    self.types.setdefault(env[p.arg], k)
        self.inlined.add(f.qual)
        self.stack.append(f)
        entry = self.live
        res = self.exec_body(f, fr)
        self.stack.pop()
        if ev:
            ev.result = res
        return res

    def default(self, d, fr):
        e = Frame(fr.func, fr.cls, None, fr.module)
        return self.ev(d, e)


def frame_cls_name(frame):
    f = frame
    while f is not None:
        if f.func.cls is not None:
            return f.func.cls.name
        f = f.parent
    return None


def walk_own(node):
    """nodes of a function body, not descending into nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _passes_on(h):
    """a handler that only reports and raises the same error again"""
    last = h.body[-1]
    return isinstance(last, ast.Raise) and (last.exc is None or isinstance(last.exc, ast.Name) and last.exc.id == h.name) \
        and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and
                (ast.unparse(x.value.func) == 'print' or ast.unparse(x.value.func).split('.')[0] in ('log', 'logging', 'logger'))
                for x in h.body[:-1])


def _exc_names(h):
    t = h.type
    if t is None:
        return ['<all>']
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    return [x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '?') for x in ts]


def _as_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n
