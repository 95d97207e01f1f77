"""Loads and indexes the source of the package under analysis (never imports it)."""
import ast
import hashlib
import os
import warnings

from . import names

BUILTIN_METHODS = set()
for _t in (list, dict, set, str, tuple, bytes, int, float, frozenset):
    BUILTIN_METHODS |= {m for m in dir(_t) if not m.startswith('__')}
# method names of third-party objects the package uses a lot (numpy / pandas / networkx / llvmlite)
BUILTIN_METHODS |= {'reshape', 'copy', 'dropna', 'to_csv', 'to_numpy', 'astype', 'tolist', 'any', 'all', 'sum',
                    'write', 'read', 'close', 'render', 'node', 'edge', 'call', 'load', 'store', 'gep'}


class AnalysisError(Exception):
    """The checked construct cannot be found or understood at all (analysis broken)."""


class Vanished(AnalysisError):
    """A function or class the rules refer to is gone."""

    def __init__(self, text, name):
        super().__init__(text)
        self.name = name


class Func:
    def __init__(self, module, node, cls=None, qual=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.qual = qual or ((cls.name + '.' if cls else '') + self.name)
        decs = []
        for d in getattr(node, 'decorator_list', []):
            x = d.func if isinstance(d, ast.Call) else d
            decs.append(x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', ''))
        self.decorators = decs

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators or 'cached_property' in self.decorators

    def where(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.node
        return '%s:%d' % (self.module.rel, n.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.setters, self.attrs, self.annots = {}, {}, {}, []
        self.bases = []
        self.is_dataclass = any((getattr(d, 'id', None) or getattr(getattr(d, 'func', None), 'id', None)
                                 or getattr(d, 'attr', None)) == 'dataclass' for d in node.decorator_list)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, st, self)
                setter = any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list)
                if setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, filename=path)
        self.funcs, self.classes, self.imports, self.globals = {}, {}, {}, {}
        self.digest = hashlib.sha256(src.encode()).hexdigest()


class World:
    def __init__(self, root='/repo', package='numerous', overlay=None):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.method_owners = {}
        base = os.path.join(root, package)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-9]
                if overlay and rel in overlay:
                    src = overlay[rel]
                else:
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                try:
                    m = Module(name, p, rel, src)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                m.is_pkg = is_pkg
                self.modules[name] = m
        self.renamed = names.restore(list(self.modules.values()))
        for m in self.modules.values():
            self._index(m)
        for c in self.all_classes():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if isinstance(r, Class):
                    c.bases.append(r)
        for c in self.all_classes():
            for n in c.methods:
                self.method_owners.setdefault(n, []).append(c)
        self._attr_types()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update((n + self.modules[n].digest).encode())
        return h.hexdigest()

    def all_classes(self):
        return [c for m in self.modules.values() for c in m.classes.values()]

    def _index(self, m):
        def stmts(body):
            for st in body:
                yield st
                if isinstance(st, (ast.If, ast.Try)):
                    yield from stmts(st.body)
                    yield from stmts(st.orelse)
                    for h in getattr(st, 'handlers', []):
                        yield from stmts(h.body)
        pk = m.name.split('.') if m.is_pkg else m.name.split('.')[:-1]
        for st in stmts(m.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[st.name] = Func(m, st)
                self.funcs.setdefault(st.name, []).append(m.funcs[st.name])
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = Class(m, st)
                self.classes.setdefault(st.name, []).append(m.classes[st.name])
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = (a.name, None)
                    else:
                        m.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                if st.level:
                    b = pk[:len(pk) - (st.level - 1)]
                    modname = '.'.join(b + ([st.module] if st.module else []))
                else:
                    modname = st.module or ''
                for a in st.names:
                    m.imports[a.asname or a.name] = (modname, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.globals[st.target.id] = st.value

    def resolve_name(self, m, name, seen=()):
        """-> Func | Class | Module | ('global', module, expr, name) | ('ext', dotted) | None"""
        if (m.name, name) in seen:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            return ('global', m, m.globals[name], name)
        if name in m.imports:
            mod, attr = m.imports[name]
            if attr is None:
                return self.modules.get(mod) or ('ext', mod)
            if mod in self.modules:
                if mod + '.' + attr in self.modules and attr not in self.modules[mod].imports \
                        and attr not in self.modules[mod].classes and attr not in self.modules[mod].funcs:
                    return self.modules[mod + '.' + attr]
                r = self.resolve_name(self.modules[mod], attr, seen + ((m.name, name),))
                if r is not None:
                    return r
                if mod + '.' + attr in self.modules:
                    return self.modules[mod + '.' + attr]
                return ('ext', mod + '.' + attr)
            return ('ext', mod + '.' + attr)
        # star imports
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # ---- class structure
    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo = x.bases + todo
        # make it closer to C3: a base appearing again later is kept at its first position only
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def is_enum(self, c):
        for k in self.mro(c):
            for b in k.node.bases:
                n = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
                if n in ('Enum', 'IntEnum'):
                    return True
        return False

    def cls(self, name, optional=False):
        place, _, name = name.rpartition(':')
        cs = [c for c in self.classes.get(name, []) if place in c.module.rel]
        if cs and all(c.module is cs[0].module for c in cs):
            return max(cs, key=lambda c: c.node.lineno)     # the last definition is the one in force
        if not cs and optional:
            return None
        raise Vanished('class %s: %d definitions found' % (name, len(cs)), name)

    def func(self, qual, optional=False):
        """'Class.method' (inherited methods included) or 'function'."""
        if '.' in qual:
            cn, mn = qual.rsplit('.', 1)
            c = self.cls(cn, optional)
            f = self.find_method(c, mn) if c else None
            if f is None and not optional:
                raise Vanished('method %s not found' % qual, qual)
            return f
        fs = self.funcs.get(qual, [])
        if fs and all(f.module is fs[0].module for f in fs):
            return max(fs, key=lambda f: f.node.lineno)
        if optional and not fs:
            return None
        raise Vanished('function %s: %d definitions found' % (qual, len(fs)), qual)

    def unique_method(self, name):
        if name in BUILTIN_METHODS or name.startswith('__'):
            return None
        owners = self.method_owners.get(name, [])
        if len(owners) == 1:
            return owners[0].methods[name]
        return None

    def func_or_none(self, qual):
        try:
            return self.func(qual, True)
        except AnalysisError:
            return None

    def common_params(self, name, kw=()):
        """parameters all methods of that name agree on, in order (those that take the given keywords)"""
        c = [k.methods[name] for k in self.method_owners.get(name, [])]
        c = [f for f in c if set(kw) <= {p.arg for p in f.node.args.args + f.node.args.kwonlyargs}]
        if len(c) < 2 or name in BUILTIN_METHODS or self.funcs.get(name) or any(f.is_static or f.is_classmethod for f in c):
            return []
        out = []
        for ps in zip(*[[p.arg for p in f.node.args.posonlyargs + f.node.args.args][1:] for f in c]):
            if len(set(ps)) != 1:
                break
            out.append(ps[0])
        return out

    def unique_callable(self, name):
        """the only function, method or constructor of that name in the package"""
        if name in BUILTIN_METHODS or (name.startswith('__')):
            return None
        if not hasattr(self, '_ucall'):
            self._ucall = {}
        if name in self._ucall:
            return self._ucall[name]
        c = [k.methods[name] for k in self.method_owners.get(name, [])] + list(self.funcs.get(name, []))
        for k in self.classes.get(name, []):
            f = self.find_method(k, '__init__')
            if f is not None:
                c.append(f)
        sigs = {tuple(p.arg for p in f.node.args.args) for f in c}
        r = c[0] if c and len(sigs) == 1 else None
        self._ucall[name] = r
        return r

    def _attr_types(self):
        """class -> {attr: Class} from constructor calls, annotations."""
        self.attr_types = {}
        for c in self.all_classes():
            d = {}
            for f in c.methods.values():
                ann = {}
                a = f.node.args
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.annotation is not None:
                        r = self._ann_class(c.module, p.annotation)
                        if r:
                            ann[p.arg] = r
                for n in ast.walk(f.node):
                    tgt = val = None
                    if isinstance(n, ast.Assign):
                        tgts, val = n.targets, n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgts, val = [n.target], n.value
                    else:
                        continue
                    for tgt in tgts:
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == 'self':
                            r = None
                            if isinstance(n, ast.AnnAssign):
                                r = self._ann_class(c.module, n.annotation)
                            rs = self._value_classes(val, f, ann, c, 0)
                            if r is None and len(rs) == 1:
                                r = rs.pop()
                            if r is not None:
                                if tgt.attr in d and d[tgt.attr] is not r:
                                    d[tgt.attr] = None
                                else:
                                    d.setdefault(tgt.attr, r)
            for (n, an, v) in c.annots:
                r = self._ann_class(c.module, an)
                if r:
                    d.setdefault(n, r)
            self.attr_types[c] = {k: v for k, v in d.items() if v is not None}

    def _value_classes(self, v, f, ann, c, depth):
        """classes an expression of function f is seen to construct (or is annotated with)"""
        out = set()
        if v is None or depth > 4:
            return out
        if isinstance(v, ast.IfExp):
            return self._value_classes(v.body, f, ann, c, depth) | self._value_classes(v.orelse, f, ann, c, depth)
        if isinstance(v, ast.Call):
            k = self.resolve_expr(f.module, v.func)
            g = None
            if isinstance(k, Class):
                out.add(k)
            elif isinstance(k, Func):
                g = k
            elif isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and c:
                g = c.methods.get(v.func.attr)
            if g is not None and not isinstance(g.node, ast.Lambda):
                a = {p.arg: self._ann_class(g.module, p.annotation)
                     for p in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs if p.annotation is not None}
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self._value_classes(n.value, g, {x: y for x, y in a.items() if y}, g.cls, depth + 1)
        elif isinstance(v, ast.Name):
            if v.id in ann:
                out.add(ann[v.id])
            else:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                        out |= self._value_classes(n.value, f, ann, c, depth + 1)
        return out

    def _ann_class(self, m, e):
        r = self.resolve_expr(m, e) if isinstance(e, (ast.Name, ast.Attribute, ast.Constant)) else None
        if isinstance(e, ast.Subscript):
            b = e.value
            n = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
            if n == 'Optional':
                return self._ann_class(m, e.slice)
            return None
        return r if isinstance(r, Class) else None

    def attr_type(self, c, name):
        for k in self.mro(c):
            t = self.attr_types.get(k, {}).get(name)
            if t is not None:
                return t
        return None
