"""Errors the engine detects reach the caller."""
import ast
import builtins

from ..spec import compare
from .events import ASSIGN, PARSE, VISIT
from .runtime import HANDLER, leaf

BROAD = ('Exception', 'BaseException')


def exception_class(ctx, module, node):
    """name of the exception class an expression constructs or names, or None"""
    f = node.func if isinstance(node, ast.Call) else node
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
    if name is None:
        return None
    try:
        c = ctx.w.resolve_expr(module, f)
    except Exception:
        c = None
    seen, todo = set(), [c] if hasattr(c, 'methods') else []
    while todo:
        k = todo.pop()
        if id(k) in seen:
            continue
        seen.add(id(k))
        for b in k.node.bases:
            if issub(getattr(b, 'attr', getattr(b, 'id', ''))):
                return name
        todo += k.bases
    if isinstance(f, ast.Name) and not hasattr(c, 'methods') and issub(name):
        return name
    return None


def issub(name):
    c = getattr(builtins, name or '', None)
    return isinstance(c, type) and issubclass(c, BaseException) and not issubclass(c, Warning)


def caught(h):
    """names of the classes a handler catches; bare: BaseException"""
    if h.type is None:
        return ['BaseException']
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?') for t in ts]


def ends(body):
    """does every path through these statements leave by an exception?"""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.If) and st.orelse and ends(st.body) and ends(st.orelse):
            return True
        if isinstance(st, ast.With) and ends(st.body):
            return True
    return False


def flagged(fn, h):
    """does a handler leave a mark that is looked at after the try statement (the error may be raised there)?"""
    names = set()
    for st in h.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add') \
                    and isinstance(n.func.value, ast.Name):
                names.add(n.func.value.id)
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) and n not in list(ast.walk(h)):
            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n)):
                return True
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.test)) \
                and any(isinstance(x, ast.Raise) for x in ast.walk(n)):
            return True
    return False


def raised_in(ctx, module, body, cls):
    """exception classes the package raises itself in these statements: directly, or in a function they call by name
    (one level, functions of the package only)"""
    out = set()

    def direct(nodes, m):
        for st in nodes:
            for n in ast.walk(st):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    c = exception_class(ctx, m, n.exc)
                    if c:
                        out.add(c)
    direct(body, module)
    for st in body:
        for n in ast.walk(st):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            targets = []
            if isinstance(f, ast.Name):
                targets = ctx.w.funcs.get(f.id, [])
            elif isinstance(f, ast.Attribute):
                owners = ctx.w.method_owners.get(f.attr, [])
                if len(owners) == 1 and f.attr not in ('update', 'append', 'add', 'pop', 'get', 'load', 'keys', 'values'):
                    targets = [owners[0].methods[f.attr]]
            for t in targets:
                direct(t.node.body, t.module)
    return out


def covers(catching, exc):
    """would a handler for the class `catching` receive an error of the class `exc`?"""
    a, b = getattr(builtins, catching, None), getattr(builtins, exc, None)
    if catching == exc:
        return True
    if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
        return True
    return False


def scan(ctx, m):
    counts = [0, 0]

    def functions(node, fn):
        for c in ast.iter_child_nodes(node):
            here = c if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
            visit(c, here)
            functions(c, here)

    def used(fn, name):
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
                   for x in ast.walk(fn if fn is not None else m.tree))

    def visit(n, fn):
        at = '%s:%d%s' % (m.rel, getattr(n, 'lineno', 0), ' (in %s)' % fn.name if fn is not None else '')
        who = fn.name if fn is not None else m.rel
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            c = exception_class(ctx, m, n.value)
            if c:
                ctx.bad('created and dropped', '%s: a %s is created but not raised' % (who, c), at)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 \
                and isinstance(n.targets[0], ast.Name):
            c = exception_class(ctx, m, n.value)
            if c and not used(fn, n.targets[0].id):
                ctx.bad('created and dropped', '%s: a %s is created but never used' % (who, c), at)
        if isinstance(n, ast.Raise):
            counts[0] += 1
        if isinstance(n, ast.Try):
            for h in n.handlers:
                counts[1] += 1
                if ends(h.body):
                    continue
                if any(isinstance(x, ast.Raise) for st in h.body for x in ast.walk(st)) or \
                        (fn is not None and flagged(fn, h)):
                    ctx.ok('handlers', '%s: an error handled at line %d is raised under a condition' % (who, h.lineno))
                    continue
                cs = caught(h)
                if fn is None and not any(isinstance(x, ast.Call) for st in n.body for x in ast.walk(st)):
                    continue                                    # choice of an import
                if any(c in BROAD for c in cs) and any(isinstance(x, (ast.Call, ast.Raise, ast.Subscript, ast.Attribute))
                                                       for st in n.body for x in ast.walk(st)):
                    ctx.bad('broad handler', '%s: every error of the guarded code is swallowed (except %s)' % (
                        who, ', '.join(cs) if h.type is not None else ''), '%s:%d' % (m.rel, h.lineno))
                    continue
                lost = [e for e in raised_in(ctx, m, n.body, fn) if any(covers(c, e) for c in cs)]
                if lost:
                    ctx.bad('narrow handler', '%s: a %s raised by the engine itself is swallowed' % (who, lost[0]),
                            '%s:%d' % (m.rel, h.lineno))
            for st in n.finalbody:
                for x in ast.walk(st):
                    if isinstance(x, ast.Return):
                        ctx.bad('finally', '%s: a return in a finally block discards the error' % who,
                                '%s:%d' % (m.rel, x.lineno))
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                f = getattr(i.context_expr, 'func', None)
                name = getattr(f, 'attr', getattr(f, 'id', None))
                if name == 'suppress':
                    cs = [getattr(a, 'id', getattr(a, 'attr', '?')) for a in i.context_expr.args]
                    lost = [e for e in raised_in(ctx, m, n.body, fn) if any(covers(c, e) for c in cs)]
                    if any(c in BROAD for c in cs) or lost:
                        ctx.bad('suppressed', '%s: errors are suppressed (%s)' % (who, ', '.join(cs)), at)

    functions(m.tree, None)
    ctx.ok('created and dropped', '%s: %d raise statements, %d handlers looked at' % (m.rel, counts[0], counts[1]))
    ctx.sites += counts[0] + counts[1]


REJECT = [
 ('unknown binding', 'ConnectorItem.bind', '''
def bind(self, **kwargs):
    for key, value in kwargs.items():
        if key not in self.bindings.keys():
            raise ValueError()
''', dict(opaque=('add_binding',))),
 ('occupied binding', 'Binding.add_binding', '''
def add_binding(self, item):
    if self.binded_item:
        raise ValueError()
''', dict(opaque=('add_mapping', 'add_sum_mapping'))),
 ('binding name', 'Connector.create_binding', '''
def create_binding(self, binding_name):
    if binding_name in self.bindings.keys():
        raise ValueError()
''', {}),
 ('port', 'Subsystem.add_port', '''
def add_port(self, port_tag, item):
    if item.id not in self.registered_items.keys():
        raise ValueError()
    self.ports[port_tag] = item
''', dict(effects=True)),
 ('tag of a node', 'system/node:Node.__init__', '''
def __init__(self, tag=None, id_=None):
    if not isinstance(tag, str):
        raise TypeError()
''', {}),
 ('kind of a registered object', '_DictWrapper.__setitem__', '''
def __setitem__(self, key, value):
    if not isinstance(value, self.value_type):
        raise ValueError()
    self.shadow_dict[key] = value
    self.internal_dict[key] = value
''', dict(effects=True)),
 ('item', 'Subsystem.register_item', '''
def register_item(self, item):
    if item.tag in [x.tag for x in self.registered_items.values()]:
        raise ValueError()
''', dict(opaque=('update_variables_path', '_increase_level'))),
 ('namespace', 'Item.register_namespace', '''
def register_namespace(self, namespace):
    if namespace.registered or namespace.tag in self.registered_namespaces.keys():
        raise ValueError()
''', {}),
 ('mapping', 'MappedValue.add_mapping', '''
def add_mapping(self, variable):
    if variable.id == self.id and not self.special_mapping:
        raise RecursionError()
''', {}),
 ('summed mapping', 'MappedValue.__iadd__', '''
def __iadd__(self, other):
    if isinstance(other, Variable) and self.mapping:
        raise ValueError()
''', {}),
 ('set variable', 'Variable.update_set_var', '''
def update_set_var(self, set_var, set_namespace):
    if self.set_var and self.set_var != set_var:
        raise ValueError()
''', dict(opaque=('get_path_dot',))),
 ('initial value of a state', 'EquationBase.add_state', '''
def add_state(self, tag, init_val=0, logger_level=None, alias=None, create_derivative=True):
    if not isinstance(init_val, float) and not isinstance(init_val, int) and not isinstance(init_val, np.int64):
        raise ValueError()
''', dict(opaque=('add_variable',))),
 ('external mapping', 'Subsystem.check_external_mappings', '''
def check_external_mappings(self, external_mappings):
    for external_mapping in external_mappings:
        for mapping in external_mapping.external_mappings:
            for alias in mapping.dataframe_aliases:
                if not self.find_variable(alias):
                    raise ValueError()
''', dict(opaque=('find_variable',))),
 ('time event', 'TimestampEvent.__init__', ['''
def __init__(self, key, action, timestamps=None, periodicity=None, compiled_functions=None, is_external=False, parent_path=None):
    given = %s if isinstance(timestamps, np.ndarray) else timestamps
    if periodicity and given:
        raise AssertionError()
    if not given and not periodicity:
        raise AssertionError()
    if not (isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not given):
        raise AssertionError()
''' % g for g in ('timestamps.size', 'timestamps.size > 0', 'len(timestamps)', 'len(timestamps) > 0')], {}),
 ('clone', 'Model.clone', '''
def clone(self, clonable=False):
    if not self.clonable:
        raise Exception()
''', dict(opaque=('Model.__init__', '_set_functions'))),
 ('value', 'Variable.update_value', '''
def drive(self, value):
    try:
        float(value)
    except (ValueError, TypeError):
        raise ValueError()
''', dict(opaque=('write_variable',), drive='''
def drive(self, value):
    self.value = value
''')),
 ('name in an event', 'VariablesVisitor.generic_visit', VISIT, dict(opaque=PARSE + ('_get_var_idx',))),
 ('name in an event', 'VariablesVisitor.visit_Assign', ASSIGN, dict(opaque=PARSE + ('VariablesVisitor.generic_visit',))),
 ('no more data', 'NumerousEngineEventHandler.handle_solve_event', HANDLER, dict(opaque=leaf())),
]


def C08(ctx):
    """Every raise statement, handler and exception constructor of the package; the rejection condition of every entry
    point that validates a request."""
    for n in sorted(ctx.w.modules):
        scan(ctx, ctx.w.modules[n])
    for rule, entry, src, kw in REJECT:
        compare(ctx, rule, entry, src, **dict(dict(result=False, raises=True, effects=False), **kw))
    found(ctx)
    from .slots import item_set
    item_set(ctx, 'item set')


def found(ctx):
    compare(ctx, 'external mapping', 'Subsystem.find_variable', '''
def find_variable(self, varname, subsystem=None):
    subsystem = self if subsystem is None else subsystem
    if self._find_variable(subsystem, varname):
        return True
    for item in subsystem.registered_items.values():
        if isinstance(item, Subsystem):
            if self.find_variable(varname, item):
                return True
        if self._find_variable(item, varname):
            return True
    return False
''', opaque=('_find_variable', 'find_variable'), effects=False)
    compare(ctx, 'external mapping', 'Subsystem._find_variable', '''
def _find_variable(self, item, varname):
    for variable in item.get_variables():
        if varname in variable[0].path.path.get(self.id, []):
            return True
    return False
''', opaque=('get_variables',), effects=False)
    compare(ctx, 'external mapping', 'Subsystem.get_external_mappings', '''
def get_external_mappings(self):
    out = self._get_external_mappings()
    self.check_external_mappings(out)
    return out
''', opaque=('Subsystem._get_external_mappings', 'check_external_mappings'))
