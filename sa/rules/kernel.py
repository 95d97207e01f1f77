"""Order and slots: states, derivatives, globals, values, and the compiled model's layout."""
import ast
from ..spec import compare
from ..show import show

FIELDS = {
    'init_vars': 'self.init_values', 'deriv_idx': 'self.derivatives_idx', 'state_idx': 'self.state_idx',
    'global_vars': 'np.array([v.value for v in self.global_variables.values()], dtype=ANY)',
    'number_of_timesteps': 'number_of_timesteps', 'start_time': 'start_time',
    'historian_max_size': 'self.historian.get_historian_max_size(number_of_timesteps, len(self.events))',
    'external_mappings_time': 'self.external_mappings.external_mappings_time',
    'number_of_external_mappings': 'self.number_of_external_mappings',
    'external_mappings_numpy': 'self.external_mappings.external_mappings_numpy',
    'external_df_idx': 'self.external_mappings.external_df_idx',
    'approximation_type': 'self.external_mappings.interpolation_info',
    'is_external_data': 'self.is_external_data', 'max_external_t': 'self.external_mappings.t_max',
    'min_external_t': 'self.external_mappings.t_min', 'external_idx': 'self.external_idx', 'post_step': 'self.post_step',
}
TYPES = {
    'deriv_idx': ('int64', 1), 'state_idx': ('int64', 1), 'init_vars': ('float64', 1), 'global_vars': ('float64', 1),
    'historian_ix': ('int64', 0), 'historian_data': ('float64', 2), 'historian_max_size': ('int64', 0),
    'external_mappings_time': ('float64', 2), 'number_of_external_mappings': ('int64', 0),
    'external_mappings_numpy': ('float64', 3), 'external_df_idx': ('int64', 2), 'approximation_type': ('boolean', 1),
    'is_external_data': ('boolean', 0), 'max_external_t': ('float64', 0), 'min_external_t': ('float64', 0),
    'external_idx': ('int64', 1), 'previous_external_mappings': ('float64', 1),
}
WIDER = {'int64': ('int64', 'intp', 'int_'), 'float64': ('float64', 'f8', 'double'), 'boolean': ('boolean', 'bool_', 'b1')}


def self_attrs(cls, load):
    """attribute name -> first place where the class loads (stores) it on self"""
    out = {}
    for f in cls.methods.values():
        a = f.node.args.posonlyargs + f.node.args.args
        if not a:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == a[0].arg \
                    and isinstance(n.ctx, ast.Load if load else ast.Store):
                out.setdefault(n.attr, f.where())
    return out


def declared(ctx, module):
    """name -> type expression of the layout table"""
    out = {}
    for n in ast.walk(module.tree):
        tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        if any(isinstance(t, ast.Name) and t.id == 'numba_model_spec' for t in tg) and n.value is not None:
            for t in ast.walk(n.value):
                if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Constant) and isinstance(t.elts[0].value, str):
                    out[t.elts[0].value] = t.elts[1]
                if isinstance(t, ast.Dict):
                    for k, v in zip(t.keys, t.values):
                        if isinstance(k, ast.Constant):
                            out[k.value] = v
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == 'numba_model_spec':
            for t in ast.walk(n):
                if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Constant):
                    out[t.elts[0].value] = t.elts[1]
    return out


def numba_type(e):
    """(dtype, rank) of a layout type expression, None if not of that form"""
    rank = 0
    if isinstance(e, ast.Subscript):
        s = e.slice
        rank = len(s.elts) if isinstance(s, ast.Tuple) else 1
        e = e.value
    if isinstance(e, ast.Attribute):
        return e.attr, rank
    if isinstance(e, ast.Name):
        return e.id, rank
    return None


def C31(ctx):
    """Declared fields, assigned fields, read fields and constructor arguments are compared with each other."""
    cm = ctx.w.cls('CompiledModel')
    lay = declared(ctx, cm.module)
    stores, loads = self_attrs(cm, False), self_attrs(cm, True)
    where = cm.methods['__init__'].where()
    ctx.check(bool(lay), 'layout', 'the compiled model declares its layout', where)
    for f in sorted(stores):
        ctx.check(f in lay, 'layout', 'assigned field %s is declared' % f, stores[f])
    tr = ctx.trace('CompiledModel.__init__')
    init = {e.name for e in tr.events if e.kind == 'store' and e.base == ('param', 'self')}
    methods = set(cm.methods)
    kernel = {'compiled_compute', 'read_variables', 'write_variables'}
    for f in sorted(loads):
        if f in methods or f in kernel:
            continue
        ctx.check(f in init, 'layout', 'field %s is assigned by the constructor before it is read' % f, loads[f])
        ctx.check(f in lay, 'layout', 'field %s is declared' % f, loads[f])
    for f, (dt, rank) in TYPES.items():
        if f not in lay:
            continue
        t = numba_type(lay[f])
        if t is None or not any(t[0] in w for w in WIDER.values()) and t[0] not in ('int32', 'float32', 'uint8', 'int16'):
            ctx.unknown('layout', 'declared type of %s' % f)
            continue
        ctx.check(t[0] in WIDER[dt] and t[1] == rank, 'layout', 'field %s holds %s of rank %d' % (f, dt, rank), where)
    constructed(ctx, FIELDS)
    compare(ctx, 'construction', 'CompiledModel.__init__', '''
def __init__(self, init_vars, deriv_idx, state_idx, global_vars, number_of_timesteps, start_time, historian_max_size):
    self.historian_ix = 0
    d = np.empty((len(init_vars) + 1, historian_max_size), dtype=np.float64)
    d.fill(np.nan)
    self.historian_data = d
''', opaque=('external_mappings_reinit',), watch={('call', 'fill')})
    compare(ctx, 'construction', 'Model.lower_model_codegen', '''
def lower_model_codegen(self):
    self.compiled_model_methods = {"compiled_compute": ANY, "read_variables": ANY, "write_variables": ANY}
''', opaque=LOWER, raises=False, result=False)


def constructed(ctx, fields):
    """the fields of the compiled model hold what the model has for them"""
    cm = ctx.w.cls('CompiledModel')
    tr = ctx.trace('CompiledModel.__init__')
    where = cm.methods['__init__'].where()
    # what each constructor parameter becomes
    param = {}
    for e in tr.events:
        if e.kind == 'store' and e.base == ('param', 'self') and e.value[:1] == ('param',):
            param.setdefault(e.value[1], []).append(e.name)
    for f in fields:
        ctx.check(any(f in v for v in param.values()), 'construction', 'field %s is given to the constructor' % f, where)
    a = cm.methods['__init__'].node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
    g = ctx.trace('Model._generate_compiled_model', opaque=GEN)
    made = [e for e in g.events if e.kind == 'call' and e.name == 'CompiledModel_instance']
    if not made:
        ctx.unknown('construction', 'where the compiled model is constructed')
        return
    kw = {k for k, v in made[0].kwargs}
    args = []
    for n in names:
        fs = [f for f in param.get(n, ()) if f in fields]
        v = fields[fs[0]] if fs else 'ANY'
        args.append('%s=%s' % (n, v) if n in kw else v)
    compare(ctx, 'construction', 'Model._generate_compiled_model', '''
def _generate_compiled_model(self, start_time, number_of_timesteps):
    if self.use_llvm:
        nm = CompiledModel_instance(%s)
    else:
        nm = CompiledModel_instance(%s)
    self.numba_model = nm
''' % ((', '.join(args),) * 2), opaque=GEN, result=False, raises=False, watch={('call', 'CompiledModel_instance')},
            ignore={('store', 'numba_model')})


GEN = ('map_external_data', 'get_historian_max_size', 'jitclass')
LOWER = ('EquationGenerator.__init__', 'generate_equations', 'update_all_variables')


BUILD = ('d_u', 'LLVMBuilder.__init__', 'ASTBuilder.__init__', 'topological_nodes', 'clean', '_parse_equations')


def C25(ctx):
    """Declaration of states and derivatives and every place that lists them or moves their values."""
    declared_state(ctx)
    declared_variable(ctx)
    compare(ctx, 'lists', 'EquationGenerator.__init__', '''
def __init__(self, scope_variables):
    self.states = []
    self.deriv = []
    for sv in scope_variables.values():
        if sv.type == VariableType.STATE:
            self.states.append(d_u(sv.id))
        elif sv.type == VariableType.DERIVATIVE:
            self.deriv.append(d_u(sv.id))
    THEN()
    self._sort_derivatives()
''', opaque=BUILD + ('_sort_derivatives',), raises=False, result=False, watch={('append', 'states'), ('append', 'deriv')},
            ignore={('call', 'd_u')})
    order = '''
def _sort_derivatives(self):
    order = {}
    mine = {}
    for sv in self.scope_variables.values():
        if sv.type == VariableType.STATE:
            order[(id(sv.item), id(sv.namespace), sv.tag + '_dot')] = len(order)
        elif sv.type == VariableType.DERIVATIVE:
            mine[d_u(sv.id)] = (id(sv.item), id(sv.namespace), sv.tag)
    self.deriv.sort(key=lambda t: order.get(mine[t], len(order)))
'''
    compare(ctx, 'lists', 'EquationGenerator._sort_derivatives', [order, order.replace('self.deriv.sort(', 'self.deriv = sorted(self.deriv, ')], opaque=BUILD, ignore={('call', 'd_u')})
    compare(ctx, 'positions', 'EquationGenerator.generate_equations', '''
def generate_equations(self, export_model=False, clonable=False):
    out = self.generated_program.generate(self.imports, system_tag=self.system_tag, save_to_file=export_model or clonable)
    return (out[0], out[1], out[2], self.values_order, self.scope_variables,
            np.array([self.values_order[k] for k in self.states], dtype=np.int64),
            np.array([self.values_order[k] for k in self.deriv], dtype=np.int64))
''', opaque=('_process_equation_node', '_process_sum_node', 'generate'), raises=False, ignore={('call', 'generate')})
    states(ctx)
    lowered(ctx, 'slots')


def declared_state(ctx, alias='ANY'):
    compare(ctx, 'declaration', 'EquationBase.add_state', '''
def add_state(self, tag, init_val=0, logger_level=None, alias=None, create_derivative=True):
    if not isinstance(init_val, (float, int, np.int64)):
        raise ValueError()
    self.add_variable(tag, init_val, VariableType.STATE, logger_level, alias)
    if create_derivative:
        self.add_variable(tag + '_dot', 0, VariableType.DERIVATIVE, logger_level, %s)
''' % alias, opaque=('EquationBase.add_variable',))
    compare(ctx, 'declaration', 'EquationBase.add_derivative', '''
def add_derivative(self, tag, logger_level=None, alias=None):
    self.add_variable(tag + '_dot', 0, VariableType.DERIVATIVE, logger_level, %s)
''' % alias, opaque=('EquationBase.add_variable',))


def declared_variable(ctx):
    compare(ctx, 'declaration', 'EquationBase.add_variable', '''
def add_variable(self, tag, init_val, var_type, logger_level, alias):
    self.variables_descriptions.register_variable_description(VariableDescription(
        tag=tag, id=ANY, initial_value=init_val, type=var_type, logger_level=logger_level, alias=alias,
        variable_idx=ANY))
''', opaque=('register_variable_description',))
    compare(ctx, 'declaration', 'VariableDescriptionMap.register_variable_description', '''
def register_variable_description(self, variable_description):
    if variable_description.tag not in self.variables_descriptions:
        self.variables_descriptions[variable_description.tag] = variable_description
    else:
        self.variables_descriptions[variable_description.tag].update = True
''')


STATES = '''
def get_states(self):
    return self.read_variables()[self.state_idx]
'''
SET_STATES = '''
def set_states(self, states):
    for i in range(len(states)):
        self.write_variables(states[i], self.state_idx[i])
'''
FUNC = '''
def func(self, t, y):
    self.global_vars[0] = t
    THEN()
    return self.compiled_compute(y)
'''


def states(ctx):
    compare(ctx, 'access', 'CompiledModel.get_states', STATES)
    compare(ctx, 'access', 'CompiledModel.set_states', [SET_STATES, SET_STATES.replace('len(states)', 'len(self.state_idx)')])
    compare(ctx, 'access', 'Model.states_as_vector', '''
def states_as_vector(self):
    return self.var_func()[self.state_idx]
''')
    compare(ctx, 'access', 'CompiledModel.func', FUNC)
    from .runtime import forwards
    forwards(ctx)


DRIVE = '''
def drive(self, tmp_vars, nm, y, i, values):
    self.lower_model_codegen(tmp_vars)
    self.compiled_model_methods["compiled_compute"](nm, y)
    self.compiled_model_methods["read_variables"](nm)
    self.compiled_model_methods["write_variables"](nm, y, i)
'''
DRIVEN = '''
def drive(self, tmp_vars, nm, y, i, values):
    g = EquationGenerator(filename=ANY, equation_graph=self.mappings_graph, scope_variables=self.variables,
                          equations=self.equations_parsed, temporary_variables=tmp_vars, system_tag=self.system.tag,
                          use_llvm=self.use_llvm, imports=self.imports, eq_used=self.eq_used)
    out = g.generate_equations(export_model=self.export_model, clonable=self.clonable)
    compute, read, write = out[0], out[1], out[2]
    self.vars_ordered_values = out[3]
    self.variables = out[4]
    self.state_idx = out[5]
    self.derivatives_idx = out[6]
    self.compiled_compute = compute
    self.var_func = read
    self.var_write = write
    self.init_values = np.ascontiguousarray([out[4][k].value for k in out[3].keys()], dtype=np.float64)
    for name, ix in out[3].items():
        out[4][name].llvm_idx = ix
        out[4][name].write_variable = write
    self.update_all_variables()
    compute(y, nm.global_vars)
    read()
    write(y, i)
'''


def lowered(ctx, rule):
    compare(ctx, rule, 'Model.lower_model_codegen', DRIVEN, drive=DRIVE, opaque=LOWER, raises=False, result=False,
            watch={('store', 'llvm_idx'), ('store', 'write_variable'), ('call', '()')},
            ignore={('call', 'generate_equations'), ('call', 'EquationGenerator'), ('call', 'ascontiguousarray')})


def C26(ctx):
    """Setters as guarded stores and kernel writes; copying back as one store per kernel slot."""
    compare(ctx, 'attribute', 'Variable.update_value', '''
def drive(self, value):
    try:
        float(value)
    except (ValueError, TypeError):
        raise ValueError()
    THEN()
    self._value = value
    if self.llvm_idx is not None:
        self.write_variable(value, self.llvm_idx)
''', drive='''
def drive(self, value):
    self.value = value
''', opaque=('write_variable',))
    compare(ctx, 'model setter', 'Model.set_variables', '''
def set_variables(self, variables):
    for name, value in variables.items():
        self.variables[self.aliases[name]].value = value
        self.var_write(value, self.vars_ordered_values[self.aliases[name]])
''')
    compare(ctx, 'to the kernel', 'Model.update_all_variables', '''
def update_all_variables(self):
    for name, ix in self.vars_ordered_values.items():
        self.var_write(self.variables[name].value, ix)
''')
    compare(ctx, 'from the kernel', 'Model.update_local_variables', '''
def update_local_variables(self):
    vals = self.numba_model.read_variables()
    for name, ix in self.vars_ordered_values.items():
        self.variables[name].value = vals[ix]
''', opaque=('read_variables',))
    lowered(ctx, 'slots')
    compare(ctx, 'initial', 'MappedValue.__init__', '''
def __init__(self, id):
    self.llvm_idx = None
''')
