"""Separate models do not share mutable state: objects that live as long as the process are not used as storage.

Roots are the objects every model of a process sees: default argument values, attributes of classes, module globals, and
the results of cached functions.  A may-alias walk over every function (locals, parameters, fields the objects are
stored in, methods called on them, functions they are handed to) looks for a write into one of them.
"""
import ast

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'popleft', 'appendleft', 'remove', 'clear', 'sort', 'reverse',
            'update', 'setdefault', 'add', 'discard', 'difference_update', 'intersection_update',
            'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__', 'fill', 'resize', 'put', 'itemset',
            'extendleft', 'rotate', 'subtract', 'move_to_end'}
SAME = {'get', 'values', 'items', 'keys', 'setdefault', 'pop', 'popitem', '__getitem__', 'view', 'ravel', 'reshape'}
BOXES = {'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'zeros', 'ones', 'empty', 'array', 'full',
         'arange', 'DataFrame', 'Series', 'Graph', 'DiGraph', 'SimpleNamespace', 'WeakKeyDictionary',
         'WeakValueDictionary', 'ChainMap'}
CACHES = {'lru_cache', 'cache', 'cached_property'} - {'cached_property'}
FROZEN = {'tuple', 'frozenset', 'str', 'int', 'float', 'bool', 'len', 'namedtuple', 'getLogger', 'getenv', 'compile', 'TypeVar'}


def literal(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))


class Root:
    """an object shared by the whole process"""

    def __init__(self, kind, label, value, where, cls=None, empty=False, method=None):
        self.kind, self.label, self.value, self.where = kind, label, value, where
        self.cls, self.empty, self.method = cls, empty, method
        self.writes = []

    def __repr__(self):
        return self.label


class Sharing:
    def __init__(self, ctx):
        self.ctx, self.w = ctx, ctx.w
        self.roots = []
        self.globals, self.attrs, self.defaults = {}, {}, {}
        self.fields = {}                 # (class name, attribute) -> set of roots stored there
        self.mutates = {}                # id(Func) -> set of parameter positions written to
        self.returns = {}                # id(Func) -> set of roots / ('param', i) a call may return
        self.functions = []
        self.changed = False
        self.classwrites = []
        self.calls = 0
        self.classes = {}                # the class objects themselves

    # -- roots
    def shared_object(self, m, v, kind, label, where):
        """Root for a value created once per process, or None if it cannot be written to"""
        if v is None:
            return None
        if literal(v):
            empty = not (getattr(v, 'elts', None) or getattr(v, 'keys', None) or hasattr(v, 'generators'))
            return Root(kind, label, v, where, empty=empty)
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Call):
            c = self.class_of(m, v.value.func)
            if c is not None and self.w.find_method(c, v.attr) is not None:
                return Root(kind, label, v, where, cls=c, method=v.attr)
            return None
        if isinstance(v, ast.Call):
            c = self.class_of(m, v.func)
            if c is not None:
                return None if self.w.is_enum(c) else Root(kind, label, v, where, cls=c)
            name = getattr(v.func, 'attr', getattr(v.func, 'id', ''))
            if name in BOXES:
                return Root(kind, label, v, where, empty=not v.args and not v.keywords)
            if name in FROZEN:
                return None
            return Root(kind, label, v, where, method='')      # an object of some other library
        return None

    def class_of(self, m, e):
        try:
            c = self.w.resolve_expr(m, e)
        except Exception:
            return None
        return c if hasattr(c, 'methods') else None

    def add(self, r):
        if r is not None:
            self.roots.append(r)
        return r

    def collect(self):
        w = self.w
        for m in w.modules.values():
            for n, v in m.globals.items():
                r = self.add(self.shared_object(m, v, 'global', '%s.%s' % (m.name.split('.')[-1], n),
                                                '%s:%d' % (m.rel, v.lineno)))
                if r is not None:
                    self.globals[(m.name, n)] = r
            for f in m.funcs.values():
                self.functions.append(f)
            for c in m.classes.values():
                self.functions += list(c.methods.values()) + list(c.setters.values())
                if w.is_enum(c):
                    continue
                for n, v in c.attrs.items():
                    if c.is_dataclass and isinstance(v, ast.Call):
                        continue                                # field(...): one per object
                    r = self.add(self.shared_object(m, v, 'class attribute', '%s.%s' % (c.name, n),
                                                    '%s:%d' % (m.rel, v.lineno)))
                    if r is not None:
                        self.attrs[(c.name, n)] = r
        for f in self.functions:
            a = f.node.args
            ps = a.posonlyargs + a.args
            pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
            for p, d in pairs:
                r = self.add(self.shared_object(f.module, d, 'default argument', '%s(%s=)' % (f.qual, p.arg), f.where(d)))
                if r is not None:
                    self.defaults[(id(f), p.arg)] = r
                elif isinstance(d, ast.Name):
                    g = self.global_root(f.module, d)
                    if g:
                        self.defaults[(id(f), p.arg)] = g

    def global_root(self, m, e):
        try:
            r = self.w.resolve_expr(m, e)
        except Exception:
            return None
        if isinstance(r, tuple) and r[0] == 'global':
            return self.globals.get((r[1].name, r[3]))
        return None

    def class_root(self, m, e):
        c = self.class_of(m, e)
        if c is None:
            return None
        if id(c) not in self.classes:
            self.classes[id(c)] = Root('class', c.name, None, '%s:%d' % (c.module.rel, c.node.lineno), method='')
        return self.classes[id(c)]

    def class_attr(self, c, name):
        for k in self.w.mro(c):
            if (k.name, name) in self.attrs:
                return self.attrs[(k.name, name)]
        return None

    # -- the walk
    def run(self):
        self.collect()
        for f in self.functions:
            self.mutates[id(f)], self.returns[id(f)] = set(), set()
        for _ in range(12):
            self.changed = False
            for r in self.roots + list(self.classes.values()):
                r.writes = []
            self.classwrites = []
            self.calls = 0
            for f in self.functions:
                Walk(self, f).go()
            if not self.changed:
                break

    def note(self, table, key, item):
        s = table.setdefault(key, set())
        if item not in s:
            s.add(item)
            self.changed = True


class Walk:
    def __init__(self, s, f):
        self.s, self.f, self.w, self.m = s, f, s.w, f.module
        self.bound = []                 # names the function binds itself
        self.inner, self.yields = {}, None  # what the functions inside it return

    def go(self):
        a = self.f.node.args
        env = {}
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            env[p.arg] = {('param', i)}
            r = self.s.defaults.get((id(self.f), p.arg))
            if r is not None:
                env[p.arg].add(r)
        for p in (a.vararg, a.kwarg):
            if p is not None:
                env[p.arg] = set()
        self.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        self.globals = {n for st in ast.walk(self.f.node) if isinstance(st, ast.Global) for n in st.names}
        self.block(self.f.node.body, env)

    # parameters by name
    def selfname(self):
        return self.params[0] if self.f.cls is not None and self.params and not self.f.is_static else None

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)
        return env

    def join(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = env.get(k, set()) | v

    def without_empty(self, test, env, truthy):
        """environment in which a name the test is about is known to be filled / empty"""
        t, neg = test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        env = {k: set(v) for k, v in env.items()}
        filled = truthy != neg
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)) == filled:
                env[t.left.id] = {x for x in env.get(t.left.id, ()) if not isinstance(x, Root)}
            return env
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and t.args:
            t = t.args[0]
        if isinstance(t, ast.Name) and filled:
            env[t.id] = {x for x in env.get(t.id, ()) if not (isinstance(x, Root) and x.empty)}
        return env

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = {k: set(v) for k, v in env.items()}
            for p in st.args.posonlyargs + st.args.args + st.args.kwonlyargs:
                inner[p.arg] = set()
            for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                self.val(d, env)
            outer, self.yields = self.yields, set()
            self.block(st.body, inner)
            self.inner[st.name] = self.inner.get(st.name, set()) | self.yields
            self.yields = outer
            env[st.name] = set()
        elif isinstance(st, ast.ClassDef):
            self.block(st.body, {k: set(v) for k, v in env.items()})
        elif isinstance(st, ast.If):
            self.val(st.test, env)
            a, b = self.without_empty(st.test, env, True), self.without_empty(st.test, env, False)
            self.block(st.body, a)
            self.block(st.orelse, b)
            env.clear()
            self.join(env, a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(2):
                inner = {k: set(v) for k, v in env.items()}
                if isinstance(st, ast.While):
                    self.val(st.test, inner)
                else:
                    self.assign(st.target, self.val(st.iter, inner), inner, None)
                self.block(st.body, inner)
                self.join(env, inner)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.val(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            before = {k: set(v) for k, v in env.items()}
            self.block(st.body, env)
            self.block(st.orelse, env)
            outs = []
            for h in st.handlers:
                e = {k: set(v) for k, v in before.items()}
                self.join(e, env)
                self.block(h.body, e)
                outs.append(e)
            self.join(env, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.Assign):
            v = self.val(st.value, env)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                        and len(t.elts) == len(st.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    vs = [self.val(e, env) for e in st.value.elts]
                    for x, y, e in zip(t.elts, vs, st.value.elts):
                        self.assign(x, y, env, e)
                else:
                    self.assign(t, v, env, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.val(st.value, env), env, st.value)
        elif isinstance(st, ast.AugAssign):
            self.val(st.value, env)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.globals:
                    self.global_write(st.target.id, st, steady(st, st.target))
                else:
                    # += extends a list or a dictionary in place
                    for x in env.get(st.target.id, ()) if st.target.id in env else self.val(st.target, env):
                        if isinstance(x, Root) or not isinstance(st.value, (ast.Constant, ast.JoinedStr)):
                            self.write(x, st, steady(st, st.target), 'is extended in place')
            else:
                self.store(st.target, env, st, steady(st, st.target))
                # self.attr += ...: the object in the class attribute is changed in place
                if isinstance(st.target, ast.Attribute) and not steady(st, st.target):
                    for x in self.val(st.target, env):
                        if isinstance(x, Root):
                            self.write(x, st, False, 'is extended in place')
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    self.store(t, env, st, False)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                v = self.val(st.value, env)
                if self.yields is not None:         # of a function inside this one
                    self.yields |= v
                    return
                for x in v:
                    self.s.note(self.s.returns, id(self.f), x)
        elif isinstance(st, ast.Match):
            self.val(st.subject, env)
            outs = []
            for c in st.cases:
                e = {k: set(v) for k, v in env.items()}
                self.block(c.body, e)
                outs.append(e)
            self.join(env, *outs)
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.val(c, env)

    def assign(self, t, v, env, value):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.global_write(t.id, t, value is not None and grows(value, t, self.f.node))
            else:
                env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.assign(e, v, env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        else:
            self.store(t, env, t, value is not None and grows(value, t, self.f.node))
            if isinstance(t, ast.Attribute) and self.owner(t.value):
                for x in v:
                    if isinstance(x, Root):
                        self.s.note(self.s.fields, (self.owner(t.value), t.attr), x)

    def owner(self, e):
        """name of the class of an object: the own class for self"""
        if isinstance(e, ast.Name) and e.id == self.selfname() and not self.f.is_classmethod:
            return self.f.cls.name
        return None

    def class_ref(self, e):
        """class an expression stands for: its name, cls, type(self), self.__class__"""
        if isinstance(e, ast.Name):
            if self.f.cls is not None and self.f.is_classmethod and e.id == self.selfname():
                return self.f.cls
            return self.s.class_of(self.m, e) if e.id not in getattr(self, 'params', ()) else None
        if isinstance(e, ast.Attribute) and e.attr == '__class__' and self.owner(e.value):
            return self.f.cls
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 \
                and self.owner(e.args[0]):
            return self.f.cls
        if isinstance(e, ast.Attribute):
            return self.s.class_of(self.m, e)
        return None

    def function_ref(self, e):
        if isinstance(e, ast.Attribute) and e.attr == '__func__':
            return e
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and e.id in self.params:
                return None
            try:
                r = self.w.resolve_expr(self.m, e)
            except Exception:
                return None
            if hasattr(r, 'node') and hasattr(r, 'qual') or hasattr(r, 'funcs'):
                return r
        return None

    def global_write(self, name, at, counter):
        r = self.s.globals.get((self.m.name, name))
        text = '%s assigns the module global %s' % (self.f.qual, name)
        if not counter:
            self.s.classwrites.append((text, self.f.where(at)))
        elif r is not None:
            r.writes.append((self.f, at, True, 'counts'))

    def store(self, t, env, at, counter):
        """t.x = / t[i] = : the object before the last step is written to"""
        base = t.value
        if isinstance(t, ast.Subscript):
            self.val(t.slice, env)
        c = self.class_ref(base) if not (isinstance(base, ast.Name) and base.id in env and not self.f.is_classmethod) else None
        if isinstance(t, ast.Attribute) and c is not None:
            if not counter:
                self.s.classwrites.append(('%s assigns %s of the class %s' % (self.f.qual, t.attr, c.name), self.f.where(at)))
            return
        if isinstance(t, ast.Attribute) and not (isinstance(base, ast.Name) and base.id in env):
            fn = self.function_ref(base)
            if fn is not None:
                if not counter:
                    self.s.classwrites.append(('%s assigns %s of %s' % (
                        self.f.qual, t.attr, getattr(fn, 'qual', getattr(fn, 'name', 'a function shared by the objects of its class'))),
                        self.f.where(at)))
                return
        for x in self.val(base, env):
            self.write(x, at, counter, 'is written to')

    def write(self, x, at, counter, how):
        if isinstance(x, Root):
            x.writes.append((self.f, at, counter, how))
        elif not counter:
            self.s.note(self.s.mutates, id(self.f), x[1])
        else:
            self.s.note(self.s.mutates, id(self.f), ('count', x[1]))

    # -- values
    def val(self, e, env):
        """shared objects (or parameters) an expression may denote, or that may be reached from it"""
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            if e.id in env:
                return set(env[e.id])
            r = self.s.global_root(self.m, e) or self.s.class_root(self.m, e)
            return {r} if r is not None else set()
        if isinstance(e, ast.Attribute):
            out = set()
            c = self.class_ref(e.value) if not (isinstance(e.value, ast.Name) and e.value.id in env
                                                and not self.f.is_classmethod) else None
            if c is not None:
                r = self.s.class_attr(c, e.attr)
                return {r} if r is not None else set()
            r = self.s.global_root(self.m, e) if not (isinstance(e.value, ast.Name) and e.value.id in env) else None
            if r is not None:
                return {r}
            k = self.owner(e.value)
            if k:
                r = self.s.class_attr(self.f.cls, e.attr)
                if r is not None and not self.own(e.attr):
                    out.add(r)
                for kk in [x.name for x in self.w.mro(self.f.cls)]:
                    out |= self.s.fields.get((kk, e.attr), set())
                return out | {x for x in self.val(e.value, env) if not isinstance(x, Root)}
            out |= self.val(e.value, env)
            # another object's field: by name
            for (cn, an), rs in self.s.fields.items():
                if an == e.attr and self.single(cn, an):
                    out |= rs
            for (cn, an), r in self.s.attrs.items():
                if an == e.attr and not self.assigned(cn, an):
                    out.add(r)
            return out
        if isinstance(e, ast.Subscript):
            self.val(e.slice, env)
            return self.val(e.value, env)
        if isinstance(e, ast.Starred):
            return self.val(e.value, env)
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, env)
            env[e.target.id] = set(v)
            return v
        if isinstance(e, ast.IfExp):
            self.val(e.test, env)
            return self.val(e.body, self.without_empty(e.test, env, True)) | \
                self.val(e.orelse, self.without_empty(e.test, env, False))
        if isinstance(e, ast.BoolOp):
            out = set()
            for i, x in enumerate(e.values):
                v = self.val(x, env)
                if isinstance(e.op, ast.Or) and i < len(e.values) - 1:
                    v = {y for y in v if not (isinstance(y, Root) and y.empty)}
                out |= v
            return out
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            # a tuple is looked through; a new list or set is an object of its own
            vs = [self.val(x, env) for x in e.elts]
            return set().union(*vs) if isinstance(e, ast.Tuple) else set()
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            inner = {k: set(v) for k, v in env.items()}
            for p in e.args.args:
                inner[p.arg] = set()
            self.val(e.body, inner)
            return set()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = {k: set(v) for k, v in env.items()}
            for g in e.generators:
                self.assign(g.target, self.val(g.iter, inner), inner, None)
                for i in g.ifs:
                    self.val(i, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.val(x, inner)
            return set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.val(c, env)
        return set()

    def own(self, attr):
        """is the attribute set on every object when it is made?"""
        return any(self.assigned(k.name, attr) for k in self.w.mro(self.f.cls))

    def assigned(self, cn, attr):
        for c in self.w.classes.get(cn, []):
            i = c.methods.get('__init__')
            if i is None:
                continue
            for st in i.node.body:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []):
                    for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) \
                                and i.node.args.args and x.value.id == i.node.args.args[0].arg:
                            return True
        return False

    def single(self, cn, attr):
        return [c.name for c in self.w.all_classes() if self.assigned(c.name, attr)] in ([cn], [])

    def call(self, e, env):
        s = self.s
        s.calls += 1
        f = e.func
        args = [self.val(a, env) for a in e.args]
        kws = {k.arg: self.val(k.value, env) for k in e.keywords}
        if isinstance(f, ast.Name) and f.id in ('setattr', 'delattr') and e.args and f.id not in env:
            base = e.args[0]
            c = self.class_ref(base) if not (isinstance(base, ast.Name) and base.id in env and not self.f.is_classmethod) else None
            fn = self.function_ref(base) if c is None and not (isinstance(base, ast.Name) and base.id in env) else None
            if c is not None or fn is not None:
                s.classwrites.append(('%s sets an attribute of %s' % (self.f.qual, getattr(c or fn, 'name', 'a shared function')),
                                      self.f.where(e)))
                return set()
            for x in args[0]:
                self.write(x, e, False, 'gets an attribute')
            return set()
        if isinstance(f, ast.Name) and f.id in ('exec', 'eval') and f.id not in env:
            for v in args[1:]:                                  # the code leaves its names in the namespace
                for x in v:
                    self.write(x, e, False, 'receives the names of executed code')
            return set()
        if isinstance(f, ast.Name) and f.id in ('getattr', 'iter', 'next', 'reversed', 'vars', 'enumerate', 'zip', 'filter', 'cast') \
                and f.id not in env:
            return set().union(set(), *args)
        out = set()
        targets = []                                            # (Func, values of its parameters, by name)
        if isinstance(f, ast.Name) and f.id in env:
            out |= self.inner.get(f.id, set())
        elif isinstance(f, ast.Name) or isinstance(f, ast.Attribute):
            r = None
            if isinstance(f, ast.Name) or not (isinstance(f.value, ast.Name) and f.value.id in env):
                try:
                    r = self.w.resolve_expr(self.m, f)
                except Exception:
                    r = None
            if hasattr(r, 'methods'):
                i = self.w.find_method(r, '__init__')
                if i is not None:
                    targets.append((i, [set()] + args, kws))
            elif hasattr(r, 'node') and hasattr(r, 'qual'):
                targets.append((r, args, kws))
            elif isinstance(r, tuple) and r[0] == 'global':
                g = s.globals.get((r[1].name, r[3]))
                if g is not None and g.cls is not None and g.method:
                    targets.append((self.w.find_method(g.cls, g.method), [{g}] + args, kws))
                elif g is not None and g.cls is not None:
                    k = self.w.find_method(g.cls, '__call__')
                    if k is not None:
                        targets.append((k, [{g}] + args, kws))
        if isinstance(f, ast.Attribute) and not targets:
            recv = {x for x in self.val(f.value, env) if getattr(x, 'kind', '') != 'class'}
            classes = set()
            generic = False
            for x in recv:
                if isinstance(x, Root) and x.cls is not None:
                    classes.add(x.cls)
                else:
                    generic = True
            if self.owner(f.value) and self.w.find_method(self.f.cls, f.attr) is not None:
                fn = self.w.find_method(self.f.cls, f.attr)
                targets.append((fn, ([set()] if fn.is_static else [recv]) + args, kws) if not fn.is_static else (fn, args, kws))
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and self.f.cls is not None:
                for b in self.w.mro(self.f.cls)[1:]:
                    if f.attr in b.methods:
                        targets.append((b.methods[f.attr], [env.get(self.selfname(), set())] + args, kws))
                        break
            else:
                for c in classes:
                    fn = self.w.find_method(c, f.attr)
                    if fn is not None:
                        targets.append((fn, [{x for x in recv if isinstance(x, Root) and x.cls is c}] + args, kws))
                if f.attr in MUTATORS:
                    for x in recv:
                        if not (isinstance(x, Root) and x.cls is not None and self.w.find_method(x.cls, f.attr) is not None):
                            self.write(x, e, False, 'is changed by .%s' % f.attr)
                elif not classes or generic:
                    owners = self.w.method_owners.get(f.attr, [])
                    if len(owners) == 1:
                        fn = owners[0].methods[f.attr]
                        rv = {x for x in recv if not (isinstance(x, Root) and (x.cls is not None or literal(x.value)))}
                        targets.append((fn, args if fn.is_static else [rv] + args, kws))
                if f.attr in SAME:
                    out |= recv
        for fn, vals, kw in targets:
            if fn is None:
                continue
            a = fn.node.args
            names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
            by = {i: v for i, v in enumerate(vals) if i < len(names)}
            for k, v in kw.items():
                if k in names:
                    by[names.index(k)] = v
            muts = s.mutates.get(id(fn), set())
            for i, v in by.items():
                if i in muts:
                    for x in v:
                        self.write(x, e, False, 'is written to by %s' % fn.qual)
                elif ('count', i) in muts:
                    for x in v:
                        self.write(x, e, True, 'counts')
                # a parameter that is kept in a field
                for x in v:
                    if isinstance(x, Root):
                        for st in ast.walk(fn.node):
                            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and i < len(names) \
                                    and st.value.id == names[i] and fn.cls is not None and names:
                                for t in st.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == names[0]:
                                        s.note(s.fields, (fn.cls.name, t.attr), x)
            for x in s.returns.get(id(fn), set()):
                if isinstance(x, Root):
                    out.add(x)
                else:
                    out |= by.get(x[1], set())
        return out


def same(a, b):
    return ast.dump(a).replace('Store()', 'Load()') == ast.dump(b).replace('Store()', 'Load()')


def number(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, int)


def grows(value, target, fn):
    """value is target + a number"""
    value = local(fn, value)
    if not isinstance(value, ast.BinOp):
        return False
    value = ast.BinOp(left=local(fn, value.left), op=value.op, right=local(fn, value.right))
    return isinstance(value, ast.BinOp) and isinstance(value.op, ast.Add) and (
        same(value.left, target) and number(value.right) or same(value.right, target) and number(value.left))


def local(fn, e):
    """the expression a name that is assigned only once stands for"""
    if isinstance(e, ast.Name):
        vs = [st.value for st in ast.walk(fn) if isinstance(st, ast.Assign)
              and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets)]
        others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)]
        if len(vs) == 1 and len(others) == 1:
            return vs[0]
    return e


def steady(st, target):
    """a counter that grows by a constant"""
    return isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and number(st.value)


def plain(e):
    """an expression whose value nobody can write to"""
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare)):
        return True
    if isinstance(e, ast.BoolOp):
        return all(plain(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not) or plain(e.operand)
    if isinstance(e, ast.BinOp):
        return plain(e.left) or plain(e.right)
    if isinstance(e, ast.IfExp):
        return plain(e.body) and plain(e.orelse)
    if isinstance(e, ast.Tuple):
        return all(plain(x) for x in e.elts)
    if isinstance(e, ast.Call):
        n = getattr(e.func, 'attr', getattr(e.func, 'id', ''))
        return n in FROZEN or n in ('join', 'replace', 'format', 'strip', 'split') and n != 'split' or n in ('bool', 'isinstance', 'hasattr')
    return False


def C18(ctx):
    """Every object shared by all models of a process (default arguments, class attributes, module globals, cached
    results) is found in the source, and a may-alias analysis over all functions of the package shows that none of them
    is ever written to, except counters that only grow by a constant."""
    s = Sharing(ctx)
    s.run()
    for r in s.roots + [r for r in s.classes.values() if r.writes]:
        bad = [x for x in r.writes if not x[2]]
        if bad:
            seen = set()
            for f, at, _, how in bad:
                key = (f.qual, how)
                if key in seen:
                    continue
                seen.add(key)
                ctx.bad('shared object', '%s: %s %s, made once for all models, %s' % (f.qual, r.kind, r.label, how),
                        f.where(at))
        else:
            ctx.ok('shared object', '%s %s: never written to%s' % (
                r.kind, r.label, ' (counter)' if r.writes else ''))
    for text, where in s.classwrites:
        ctx.bad('shared attribute', text, where)
    for f in s.functions:
        if any(d in CACHES for d in f.decorators):
            rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None]
            if all(plain(x.value) for x in rets):
                ctx.ok('cached result', '%s returns values that cannot change' % f.qual)
            else:
                ctx.bad('cached result', '%s: the same object is handed to every caller' % f.qual, f.where())
    ctx.ok('shared attribute', '%d functions, %d calls looked at: no attribute of a class, module or function is assigned at run time'
           % (len(s.functions), s.calls)) if not s.classwrites else None
    ctx.sites += s.calls
    ctx.functions |= {f.qual for f in s.functions}
