"""State and time events: registration, compilation, what the solver gets and what happens when they fire."""
from ..bdd import FALSE
from ..spec import compare

NM = ('func', 'read_variables', 'write_variables', 'CompiledModel.get_states', 'CompiledModel.set_states', 'update_local_variables',
      'update_all_variables')

COPIES = dict.fromkeys(('numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy'), lambda I, recv, name, args, *a: args[0])

CREATE = '''
def drive(self, event_: Union[TimestampEvent, StateEvent], ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    ev = self.create_numerous_solver_event(event_, ix, model)
    return ev.%s(interface, t, y)
'''


def C21(ctx):
    records(ctx)
    compare(ctx, 'action', 'EventFactory.create_numerous_solver_event', '''
def drive(self, event_, ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    nm = interface.model.numba_model
    if event_.is_external:
        model.update_local_variables()
        prefix = ".".join(event_.parent_path) + "." if event_.parent_path else ""
        known = {}
        for path, var in model.path_to_variable.items():
            known[path[len(prefix):] if path.startswith(prefix) else path] = var
        values = {name: set_by_action(var.value) for name, var in known.items()}
        event_.action.func(t, values)
        THEN()
        for name, value in values.items():
            known[name].value = value
        THEN()
        model.update_all_variables()
        return nm.get_states()
    old = nm.read_variables()
    if type(event_) == TimestampEvent:
        new = interface.model.time_event_actions(t, old, ix)
        for idx in np.argwhere(new != nm.read_variables()):
            nm.write_variables(new[idx[0]], idx[0])
        return new[nm.state_idx]
    new = interface.model.state_event_actions(t, old, ix)
    for idx in np.argwhere(new != nm.read_variables()):
        nm.write_variables(new[idx[0]], idx[0])
    return new[nm.state_idx]
''', opaque=NM, drive=CREATE % 'run_event_action', ignore={('call', 'set_by_action')},
            intrinsics={**COPIES, 'copy': lambda I, recv, *a: recv, 'func': changes})
    states_after(ctx)
    compared_with_own_argument(ctx)


def changes(I, recv, name, args, kwargs, node, frame):
    """an action changes the values in the dictionary it is given"""
    v = args[1] if len(args) == 2 else None
    if v and v[0] == 'new' and I.segs(v) is not None:
        I.contents = {**I.contents, v[2]: tuple(
            g[:4] + (('call', 'set_by_action', None, (g[4],), (), 0),) if g[0] == 'kv' else g for g in I.segs(v))}


def states_after(ctx):
    """the states handed to the solver are those after the action, not read before its values are written"""
    rule, entry = 'action', 'EventFactory.create_numerous_solver_event'
    tr = ctx.trace(entry, NM, drive=CREATE % 'run_event_action')
    B = tr.interp.B
    for w in [e for e in tr.events if e.kind == 'call' and e.name == 'update_all_variables']:
        reads = [e for e in tr.events if e.kind == 'call' and e.name == 'get_states' and B.sat(B.and_(e.guard, w.guard))]
        if reads:
            ctx.check(any(e.pos > w.pos for e in reads), rule, '%s: the states are read after the values of the action are written' % entry,
                      w.where(), '%s: the states handed to the solver are read before the values of the action are written' % entry)


def own_id(ctx):
    """the solver keeps all events in one table by identifier: the position of the event among those of its kind, and its kind,
    have to be part of it"""
    rule, entry = 'own identifier', 'EventFactory.create_numerous_solver_event'
    tr = ctx.trace(entry, NM)
    I = tr.interp
    ids = {}

    def settled(t, g):
        if isinstance(t, tuple) and t[:1] == ('ite',):
            if I.B.implies(g, t[1]):
                return settled(t[2], g)
            if I.B.and_(g, t[1]) == FALSE:
                return settled(t[3], g)
        return tuple(settled(x, g) for x in t) if isinstance(t, tuple) else t
    for e in tr.events:
        kind = {'construct_PeriodicTimeEvent': 'time', 'construct_TimestampedEvent': 'time', 'construct_StateEvent': 'state'}.get(e.name)
        if e.kind != 'call' or kind is None:
            continue
        t = dict(e.kwargs or ()).get('id', e.args[0] if e.args else None)
        if t is None:
            continue
        made = any(x[0] == 'call' and str(x[1]).split('.')[-1] in ('uuid1', 'uuid4', 'id') for x in I.subterms(t))
        ctx.check(made or ('param', 'ix') in set(I.subterms(t)), rule, '%s: the identifier of a %s event' % (entry, kind), e.where(),
                  '%s: two %s events of one key get one identifier, so the solver keeps only one of them' % (entry, kind))
        if not made:
            ids.setdefault(kind, {}).setdefault(settled(t, e.guard), e)
    for t in set(ids.get('time', ())) & set(ids.get('state', ())):
        ctx.bad(rule, '%s: a time and a state event of one key get one identifier, so the solver keeps only one of them' % entry,
                ids['state'][t].where())


def compared_with_own_argument(ctx):
    """an action changes the array it is given, so what changed shows only against another array"""
    rule, entry = 'what changed', 'EventFactory.create_numerous_solver_event'
    made = []

    def fresh(I, recv, name, args, kwargs, node, frame):
        made.append(('param', 'array#%d' % len(made)))
        return made[-1]
    tr = ctx.trace(entry, NM, drive=CREATE % 'run_event_action', intrinsics=dict.fromkeys(('read_variables', 'copy', *COPIES), fresh))
    I = tr.interp
    acts = [e for e in tr.events if e.kind == 'call' and e.name in ('time_event_actions', 'state_event_actions')]
    given = {a for e in acts for a in e.args if a in made}

    def strip(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'call' and t[1] in ('time_event_actions', 'state_event_actions'):
            return ('changed',)
        return tuple(strip(x) for x in t)

    n = 0
    for e in tr.events:
        if e.kind != 'call' or e.name not in ('argwhere', 'nonzero', 'where', 'flatnonzero', 'write_variables'):
            continue
        atoms = set(I.B.support(e.guard))
        for a in e.args:
            atoms |= {t for t in I.subterms(a) if t[0] == 'eq'}
            if a[0] == 'bool':
                atoms |= set(I.B.support(a[1]))
        for a in atoms:
            a = strip(a)
            sub = set(I.subterms(a))
            if ('changed',) in sub:
                n += 1
                if given & sub:
                    ctx.bad(rule, '%s: what the action returns is compared with the array the action was given, which it changes in place' % entry, e.where())
    if n:
        ctx.ok(rule, '%d comparisons with an array that the action does not change' % n)


COMPILED = '''
def njit_and_compile_function(func, from_imports, compiled_functions=None, closurevariables=None):
    func.decorator_list = [ast.Name(id='njit', ctx=ast.Load())]
    body = []
    for (module, label) in from_imports:
        body.append(ast.ImportFrom(module=module, names=[ast.alias(name=label, asname=None)], lineno=0, col_offset=0,
                                   level=0))
    body.append(ast.Import(names=[ast.alias(name='numpy', asname='np')]))
    body.append(func)
    body.append(ast.Return(value=ast.Name(id=func.name, ctx=ast.Load(), lineno=0, col_offset=0), lineno=0, col_offset=0))
    f = ast.FunctionDef(ANY)
    f.body = body
    f.decorator_list = []
    f.args = ast.arguments(posonlyargs=[], args=[], vararg=None, defaults=[], kwonlyargs=[], kw_defaults=[], lineno=0,
                           kwarg=None)
    namespace = compiled_functions if compiled_functions else {}
    if closurevariables:
        namespace.update(closurevariables)
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[f], type_ignores=[]))), filename=ANY, mode='exec'), namespace)
    return namespace[ANY]()
'''


def compiled(ctx):
    """The event source, with the imports of the model and the names it closes over, is what gets compiled."""
    compare(ctx, 'compiled', 'njit_and_compile_function', COMPILED)
    for n in ('as', 'from'):
        compare(ctx, 'imports', 'Imports.add_%s_import' % n, '''
def add_%s_import(self, module_name, name):
    self.%s_imports.append((module_name, name))
''' % (n, n))
    compare(ctx, 'imports', 'Model.__init__', '''
def __init__(self, system=None, logger_level=None, assemble=True, imports=None):
    self.imports = Imports()
    self.imports.add_as_import("numpy", "np")
    for name in ("njit", "carray", "float64", "float32"):
        self.imports.add_from_import("numba", name)
    if imports:
        for (k, v) in imports:
            self.imports.add_from_import(k, v)
''', opaque=('assemble', 'ExternalMapping', 'get_external_mappings', 'add_as_import', 'add_from_import'),
            watch={('store', 'imports'), ('call', 'add_as_import'), ('call', 'add_from_import')}, raises=False, result=False)


ITEM_EVENTS = '''
def _assembly_tail(self):
    for item in self.model_items.values():
        for event in item.events:
            event.parent_path = item.path
            if not event.compiled:
                event.condition = Condition(event.condition.func,
                                            replace_path_strings(self, event.condition.func, "var", item.path)[0],
                                            replace_path_strings(self, event.condition.func, "var", item.path)[1])
                if not event.is_external:
                    event.action = Action(event.action.func,
                                          replace_path_strings(self, event.action.func, "var", item.path)[0],
                                          replace_path_strings(self, event.action.func, "var", item.path)[1])
            self.events.append(event)
        for event in item.timestamp_events:
            event.parent_path = item.path
            if not event.is_external:
                event.action = Action(event.action.func,
                                      replace_path_strings(self, event.action.func, "var", item.path)[0],
                                      replace_path_strings(self, event.action.func, "var", item.path)[1])
            self.timestamp_events.append(event)
'''


def item_events(ctx):
    compare(ctx, 'item events', 'Model._assembly_tail', ITEM_EVENTS, opaque=PARSE, result=False,
            watch={('append', 'self.events'), ('append', 'self.timestamp_events'), ('extend', 'self.events'),
                   ('extend', 'self.timestamp_events'), ('store', 'parent_path'), ('store', 'condition'),
                   ('store', 'action'), ('store', 'events'), ('store', 'timestamp_events')}, raises=False)


PARSE = ('replace_path_strings', '_bind_closure_variables', 'njit_and_compile_function', 'generate_path_to_varaible',
         'store_mappings', 'is_mapped_var', 'add_df_idx')

CONDITIONS = '''
def generate_event_condition_ast(event_functions, from_imports):
    label = "result"
    directions = []
    body = [ast.Assign(targets=[ast.Name(id=label)], lineno=0, value=ast.List(elts=[], ctx=ast.Load()))]
    compiled_functions = {}
    closurevariables = {}
    for idx, event in enumerate(event_functions):
        if event.compiled_functions:
            compiled_functions.update(event.compiled_functions)
        condition = _bind_closure_variables(event.condition, idx, closurevariables)
        directions.append(event.direction)
        body.append(condition)
        body.append(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=ast.Name(id=label, ctx=ast.Load()), attr='append', ctx=ast.Load()),
            args=[ast.Call(func=ast.Name(id=condition.name, ctx=ast.Load()),
                           args=[ast.Name(id='t', ctx=ast.Load()), ast.Name(id='states', ctx=ast.Load())],
                           keywords=[])], keywords=[])))
    body.append(ast.Return(value=ast.Call(
        func=ast.Attribute(value=ast.Name(id='np', ctx=ast.Load()), attr='array', ctx=ast.Load()),
        args=[ast.Name(id=label, ctx=ast.Load()),
              ast.Attribute(value=ast.Name(id='np', ctx=ast.Load()), attr='float64', ctx=ast.Load())], keywords=[])))
    f = ast.FunctionDef(name='condition_list',
                        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='t'), ast.arg(arg='states')],
                                           kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=body, decorator_list=[], lineno=0)
    return njit_and_compile_function(f, from_imports, compiled_functions=compiled_functions,
                                     closurevariables=closurevariables), np.array(directions, dtype=np.float)
'''

ACTIONS = '''
def generate_event_action_ast(event_functions, from_imports):
    body = []
    compiled_functions = {}
    closurevariables = {}
    for idx, event in enumerate(event_functions):
        if event.compiled_functions:
            compiled_functions.update(event.compiled_functions)
        if not event.is_external:
            action = _bind_closure_variables(event.action, idx, closurevariables)
            body.append(action)
            body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
                                                comparators=[ast.Constant(value=idx)]),
                               body=[ast.Expr(value=ast.Call(func=ast.Name(id=action.name, ctx=ast.Load()),
                                                             args=[ast.Name(id='t', ctx=ast.Load()),
                                                                   ast.Name(id='states', ctx=ast.Load())],
                                                             keywords=[]))], orelse=[]))
    body.append(ast.Return(value=ast.Name(id='states', ctx=ast.Load())))
    f = ast.FunctionDef(name='action_list',
                        args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='t'), ast.arg(arg='states'),
                                                                 ast.arg(arg='a_idx')],
                                           kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=body, decorator_list=[], lineno=0)
    return njit_and_compile_function(f, from_imports, compiled_functions=compiled_functions,
                                     closurevariables=closurevariables)
'''

SOLVER_MODEL = '''
def generate_numerous_engine_solver_model(model):
    conditions, directions = model.generate_event_condition_ast()
    state_actions = model.generate_event_action_ast(model.events)
    factory = EventFactory()
    state_events = [factory.create_numerous_solver_event(e, i, model) for i, e in enumerate(model.events)]
    time_actions = model.generate_event_action_ast(model.timestamp_events)
    time_events = [factory.create_numerous_solver_event(e, i, model)
                   for i, e in enumerate(model.timestamp_events)]
    m = NumerousEngineModel(model.numba_model, conditions, directions, state_actions, time_actions)
    m.add_time_events(time_events)
    m.add_state_events(state_events)
    return m, NumerousEngineEventHandler(model, model.numba_model)
'''

SOLVER_LEAVES = ('generate_event_condition_ast', 'generate_event_action_ast', 'create_numerous_solver_event')

STORED = '''
def __init__(self, numba_model, state_event_functions, state_event_directions, state_event_actions, time_event_actions):
    self.numba_model = numba_model
    self.state_event_functions = state_event_functions
    self.state_event_directions = state_event_directions
    self.state_event_actions = state_event_actions
    self.time_event_actions = time_event_actions
'''


def records(ctx):
    for cls, fields in (('StateEvent', ('key', 'condition', 'action', 'direction', 'compiled', 'terminal',
                                        'compiled_functions', 'is_external', 'parent_path')),):
        compare(ctx, 'event object', cls + '.__init__', 'def __init__(self, %s):\n' % ', '.join(fields) + ''.join(
            '    self.%s = %s\n' % (x, x) for x in fields), what=cls)
    compare(ctx, 'event object', 'ParsedEventFunction.__init__', '''
def __init__(self, func, ast_func, closure_variables):
    self.func = func
    self.ast_func = ast_func
    self.closure_variables = closure_variables
''')


def C19(ctx):
    """The path of a state event from its registration to the object the solver evaluates is reduced to effects:
    which condition, direction and action object reaches which slot."""
    from .model import paths
    paths(ctx)
    own_id(ctx)
    compare(ctx, 'evaluate', 'EventFactory.create_numerous_solver_event', '''
def drive(self, event_, ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    nm = interface.model.numba_model
    if not (type(event_) == TimestampEvent):
        old = nm.get_states()
        nm.set_states(y)
        THEN()
        vars = nm.read_variables().copy()
        THEN()
        nm.set_states(old)
        return interface.model.state_event_functions(t, vars)[ix]
''', opaque=NM, drive='''
def drive(self, event_: Union[TimestampEvent, StateEvent], ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    ev = self.create_numerous_solver_event(event_, ix, model)
    if not (type(event_) == TimestampEvent):
        return ev.get_event_results(interface, t, y)
''', watch={('call', 'read_variables'), ('call', 'get_states')}, ignore={('call', 'copy')})
    compare(ctx, 'direction', 'EventFactory.create_numerous_solver_event', '''
def drive(self, event_, ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    if not (type(event_) == TimestampEvent):
        return interface.model.state_event_directions[ix]
''', opaque=NM, drive='''
def drive(self, event_: Union[TimestampEvent, StateEvent], ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    ev = self.create_numerous_solver_event(event_, ix, model)
    if not (type(event_) == TimestampEvent):
        return ev.get_event_directions(interface, t, y)
''')
    compare(ctx, 'action', 'EventFactory.create_numerous_solver_event', '''
def drive(self, event_, ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    if not (type(event_) == TimestampEvent) and not event_.is_external:
        interface.model.state_event_actions(t, interface.model.numba_model.read_variables(), ix)
    if event_.is_external:
        event_.action.func(t, ANY)
''', opaque=NM, drive=CREATE % 'run_event_action', result=False)
    compare(ctx, 'handed over', 'generate_numerous_engine_solver_model', SOLVER_MODEL, opaque=SOLVER_LEAVES)
    compare(ctx, 'handed over', 'NumerousEngineModel.__init__', STORED)
    compare(ctx, 'conditions in order', 'generate_event_condition_ast', CONDITIONS, opaque=PARSE)
    compare(ctx, 'actions in order', 'generate_event_action_ast', ACTIONS, opaque=PARSE)
    compare(ctx, 'all conditions', 'Model.generate_event_condition_ast', '''
def generate_event_condition_ast(self):
    if len(self.events) == 0:
        self.generate_mock_event()
    return generate_event_condition_ast(self.events, self.imports.from_imports)
''', opaque=('generate_event_condition_ast', 'generate_mock_event'))
    compare(ctx, 'item registration', 'Item.add_event', '''
def add_event(self, key, condition, action, compiled_functions=None, terminal=True, direction=-1, compiled=False,
              is_external=False):
    self.events.append(StateEvent(key=key, condition=Condition(condition, None, None), action=Action(action, None, None),
                                  compiled=compiled, terminal=terminal, direction=direction,
                                  compiled_functions=compiled_functions, is_external=is_external, parent_path=self.path))
''')
    compare(ctx, 'model registration', 'Model.add_event', '''
def add_event(self, key, condition, action, terminal=False, direction=-1, compiled=False, is_external=False):
    c = Condition(condition, replace_path_strings(self, condition, "var")[0], replace_path_strings(self, condition, "var")[1])
    a = Action(action, None if is_external else replace_path_strings(self, action, "var")[0],
               None if is_external else replace_path_strings(self, action, "var")[1])
    self.events.append(StateEvent(key=key, condition=c, action=a, direction=direction, compiled=compiled,
                                  terminal=terminal, is_external=is_external))
''', opaque=PARSE)
    item_events(ctx)
    records(ctx)
    compiled(ctx)


def C20(ctx):
    """Acceptance condition of a time event and the flow of its times, key, flag and action to the solver."""
    from .model import paths
    paths(ctx)
    compare(ctx, 'accepted', 'TimestampEvent.__init__', ['''
def __init__(self, key, action, timestamps=None, periodicity=None, compiled_functions=None, is_external=False,
             parent_path=None):
    given = %s if isinstance(timestamps, np.ndarray) else timestamps
    if periodicity and given:
        raise AssertionError()
    if not given and not periodicity:
        raise AssertionError()
    if given and not isinstance(timestamps, list) and not isinstance(timestamps, np.ndarray):
        raise AssertionError()
    self.key = key
    self.action = action
    self.compiled_functions = compiled_functions
    if isinstance(timestamps, list):
        self.timestamps = np.array(timestamps)
    else:
        self.timestamps = timestamps
    self.periodicity = periodicity
    self.is_external = is_external
    self.parent_path = parent_path
''' % g for g in ('timestamps.size', 'timestamps.size > 0', 'len(timestamps)', 'len(timestamps) > 0')], what='TimestampEvent')
    own_id(ctx)
    compare(ctx, 'solver event', 'EventFactory.create_numerous_solver_event', '''
def create_numerous_solver_event(self, event_, ix, model):
    if type(event_) == TimestampEvent:
        if event_.periodicity:
            construct_PeriodicTimeEvent(id=ANY, period=event_.periodicity, is_external=event_.is_external)
        else:
            construct_TimestampedEvent(id=ANY, timestamps=event_.timestamps, is_external=event_.is_external)
    else:
        construct_StateEvent(id=ANY, is_external=event_.is_external)
''', opaque=NM, result=False)
    compare(ctx, 'action', 'EventFactory.create_numerous_solver_event', '''
def drive(self, event_, ix, model: Model, interface: NumerousEngineModelInterface, t, y):
    if type(event_) == TimestampEvent and not event_.is_external:
        interface.model.time_event_actions(t, interface.model.numba_model.read_variables(), ix)
    if event_.is_external:
        event_.action.func(t, ANY)
''', opaque=NM, drive=CREATE % 'run_event_action', result=False)
    compare(ctx, 'handed over', 'generate_numerous_engine_solver_model', SOLVER_MODEL, opaque=SOLVER_LEAVES)
    compare(ctx, 'handed over', 'NumerousEngineModel.__init__', STORED)
    compare(ctx, 'actions in order', 'generate_event_action_ast', ACTIONS, opaque=PARSE)
    compare(ctx, 'item registration', 'Item.add_timestamp_event', '''
def add_timestamp_event(self, key, action, timestamps=None, periodicity=None, is_external=False):
    self.timestamp_events.append(TimestampEvent(key=key, action=Action(action, None, None), timestamps=timestamps,
                                                periodicity=periodicity, is_external=is_external, parent_path=self.path))
''', opaque=('TimestampEvent.__init__',), raises=False)
    compare(ctx, 'model registration', 'Model.add_timestamp_event', '''
def add_timestamp_event(self, key, action, timestamps=None, periodicity=None, is_external=False):
    a = Action(action, None if is_external else replace_path_strings(self, action, "var")[0],
               None if is_external else replace_path_strings(self, action, "var")[1])
    self.timestamp_events.append(TimestampEvent(key=key, action=a, timestamps=timestamps, periodicity=periodicity,
                                                is_external=is_external))
''', opaque=PARSE + ('TimestampEvent.__init__',), raises=False)
    item_events(ctx)


VISIT = '''
def generic_visit(self, node):
    if isinstance(node, ast.FunctionDef) and not self.variables_name:
        self.variables_name = node.args.args[1].arg
    if isinstance(node, ast.Subscript) and (isinstance(node.slice, ast.Constant) or isinstance(node.slice, ast.Name)) and \
            node.value.id != self.variables_name:
        return ast.NodeVisitor.generic_visit(self, node)
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant):
        if node.value.id == self.variables_name:
            if isinstance(node.slice.value, str):
                for path, var in self.model.path_to_variable.items():
                    name = path[len(self.path_to_root_str):] if path.startswith(self.path_to_root_str) else path
                    if name == node.slice.value:
                        node.slice.value = self.model._get_var_idx(var, self.idx_type)[0]
                        break
            if isinstance(node.slice.value, str):
                raise KeyError()
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
        if node.value.id == self.variables_name:
            found = False
            if node.slice.id not in self.assigned_variables:
                raise KeyError()
            for path, var in self.model.path_to_variable.items():
                name = path[len(self.path_to_root_str):] if path.startswith(self.path_to_root_str) else path
                if name == self.assigned_variables[node.slice.id]:
                    node.slice = ast.Constant(value=self.model._get_var_idx(var, self.idx_type)[0])
                    found = True
                    break
            if not found:
                raise KeyError()
    elif isinstance(node, ast.Name) and node.id in self.closurevariables:
        node = ast.Constant(value=self.closurevariables[node.id])
    ast.NodeVisitor.generic_visit(self, node)
'''

ASSIGN = '''
def visit_Assign(self, node):
    target = node.targets[0]
    if not isinstance(target, ast.Name):
        self.generic_visit(node)
    elif isinstance(node.value, ast.BinOp):
        lc = isinstance(node.value.left, ast.Constant)
        rc = isinstance(node.value.right, ast.Constant)
        ln = isinstance(node.value.left, ast.Name) and node.value.left.id in self.closurevariables
        rn = isinstance(node.value.right, ast.Name) and node.value.right.id in self.closurevariables
        if (lc or ln) and (rc or rn):
            if not isinstance(node.value.op, ast.Add):
                raise NotImplementedError()
            self.assigned_variables[target.id] = (
                (self.closurevariables[node.value.left.id] if ln else node.value.left.value) +
                (self.closurevariables[node.value.right.id] if rn else node.value.right.value))
        else:
            self.generic_visit(node)
    elif isinstance(node.value, ast.Constant):
        self.assigned_variables[target.id] = node.value.value
    else:
        self.generic_visit(node)
'''

REPLACE = '''
def replace_path_strings(model, function, idx_type, path_to_root=[]):
    source = function.lines if hasattr(function, 'lines') else inspect.getsource(function)
    func = ast.parse(source.strip()).body[0]
    VariablesVisitor(".".join(path_to_root) + ".", model, idx_type,
                     inspect.getclosurevars(function).nonlocals).generic_visit(func)
    return func, inspect.getclosurevars(function).nonlocals
'''

BIND = '''
def _bind_closure_variables(event_function, idx, closurevariables):
    func = copy.deepcopy(event_function.ast_func)
    names = {name: f'_closure_{idx}_{name}' for name in event_function.closure_variables or {}}
    for name in names:
        closurevariables[names[name]] = event_function.closure_variables[name]
    for node in ast.walk(func):
        if isinstance(node, ast.Name):
            node.id = names.get(node.id, node.id)
    return func
'''


def C22(ctx):
    """Name resolution inside event functions: the tree rewriting is reduced to guarded effects per node kind."""
    from .model import paths
    paths(ctx)
    records(ctx)
    compiled(ctx)
    compare(ctx, 'conditions', 'generate_event_condition_ast', CONDITIONS, opaque=PARSE)
    compare(ctx, 'actions', 'generate_event_action_ast', ACTIONS, opaque=PARSE)
    item_events(ctx)
    compare(ctx, 'references', 'VariablesVisitor.generic_visit', VISIT, opaque=PARSE + ('_get_var_idx',), ignore={('call', 'Constant')})
    compare(ctx, 'assigned names', 'VariablesVisitor.visit_Assign', ASSIGN, opaque=PARSE + ('VariablesVisitor.generic_visit',))
    compare(ctx, 'event source', 'replace_path_strings', REPLACE, opaque=PARSE + ('VariablesVisitor.generic_visit',))
    compare(ctx, 'captured values', '_bind_closure_variables', BIND, opaque=PARSE)
    compare(ctx, 'slot', 'Model._get_var_idx', '''
def _get_var_idx(self, var, idx_type):
    if idx_type == "state":
        return np.where(self.state_idx == var.llvm_idx)[0]
    if idx_type == "var":
        return [var.llvm_idx]
''')
