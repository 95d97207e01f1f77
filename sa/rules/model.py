"""The assembled model: hierarchy walk, names, results, reset, export and clone."""
from ..spec import compare, spec_trace
from ..effects import Side
from ..show import show
from ..bdd import FALSE
from ..interp import NONE

ADD_ITEM = '''
def __add_item(self, item):
    if item.id in self.model_items:
        return {}
    result = {}
    self.model_items[item.id] = item
    result[item.id] = self._create_model_namespaces(item)
    if isinstance(item, ItemSet):
        return result
    if isinstance(item, Connector):
        for b in item.get_binded_items():
            if not b.part_of_set:
                result.update(self.__add_item(b))
    if isinstance(item, Subsystem):
        for r in item.registered_items.values():
            result.update(self.__add_item(r))
    return result
'''

NAMESPACES = '''
def _create_model_namespaces(self, item):
    result = []
    for ns in item.registered_namespaces.values():
        m = ModelNamespace(ns.tag, ns.outgoing_mappings, item.tag, ns.items, ns.path, isinstance(ns, SetNamespace),
                           '.'.join(item.path))
        m.variable_scope = ns.get_flat_variables()
        m.set_variables = ns.set_variables
        eqs = {}
        for eq in ns.associated_equations.values():
            eqs[eq.tag] = [e for e in eq.equations]
        m.equation_dict = eqs
        m.variables = {v.id: v for vs in ns.get_flat_variables() for v in vs}
        result.append(m)
    return result
'''

ASSEMBLY = ('__add_item', 'parse_eq', 'process_mappings', 'lower_model_codegen', '_assembly_tail', 'build_node_edges',
            'remove_chains', 'create_assignments', 'add_mappings', 'from_graph', 'as_graphviz', 'namespace_parser',
            'Graph.__init__')

TAIL = ('replace_path_strings', 'is_mapped_var', 'add_df_idx', 'store_mappings')

WALK = '''
def assemble(self):
    namespaces = self.__add_item(self.system)
    for item_id, nss in namespaces.items():
        variables, equations = ModelAssembler.namespace_parser((item_id, nss))
        self.equation_dict.update(equations)
        self.variables.update(variables)
'''

ORDERED = '''
def ordered_variables(self):
    flat = list(itertools.chain(*[list(x) for x in zip(*[[v for v in vs] for vs in self.variable_scope])]))
    if self.is_set:
        for i, v in enumerate(flat):
            v.detailed_description.variable_idx = i
    return %s
'''
ORDERS = ('sorted(flat, key=lambda v: v.detailed_description.variable_idx)', 'flat')


def C10(ctx):
    """The traversal that collects items, and the per-namespace collection of variables and equations."""
    compare(ctx, 'collect', 'ModelNamespace.ordered_variables', [ORDERED % o for o in ORDERS])
    compare(ctx, 'hierarchy', 'Model.__add_item', ADD_ITEM, opaque=('_create_model_namespaces', 'get_binded_items'))
    compare(ctx, 'bound items', 'Connector.get_binded_items', '''
def get_binded_items(self):
    return [b.binded_item for b in self.bindings.values() if b.binded_item is not None]
''')
    namespaces(ctx, 'namespaces')

    compare(ctx, 'collect', 'Model.assemble', WALK, opaque=ASSEMBLY, result=False, raises=False, watch={('update', 'equation_dict'), ('setitem', 'variables'), ('update','variables'), ('store','variables'), ('store','equation_dict'), ('call', '__add_item')})
    compare(ctx, 'namespace', 'ModelAssembler.namespace_parser', '''
def namespace_parser(input_namespace):
    variables = {}
    equations = {}
    for ns in input_namespace[1]:
        for tag, methods in ns.equation_dict.items():
            equations[ANY] = (methods, ns.outgoing_mappings)
        for v in ns.ordered_variables():
            variables[v.id] = v
    return variables, equations
''', opaque=('ordered_variables',))
    parsing(ctx, 'equations')
    paths(ctx)
    identity(ctx)
    from .declare import arrival
    arrival(ctx)
    from .lookup import several
    from .system import registered
    from .slots import item_set
    several(ctx)
    item_set(ctx, 'item set')
    registered(ctx)


def paths(ctx):
    compare(ctx, 'paths', 'Subsystem.update_variables_path', '''
def update_variables_path(self, item, tail=[]):
    item.path = self.path + [item.tag]
    for ns in item.registered_namespaces.values():
        for var in ns.variables.values():
            var.path.extend_path(item.id, self.id, self.tag)
            if len(tail) == 1:
                var.path.extend_path(self.id, tail[0].id, tail[0].tag)
            if len(tail) > 1:
                var.path.extend_path(tail[1].id, tail[0].id, tail[0].tag)
    if isinstance(item, Subsystem):
        for sub in item.registered_items.values():
            item.update_variables_path(sub, tail + [self])
''', opaque=('extend_path',), order=False)
    compare(ctx, 'path', 'VariablePath.extend_path', EXTEND)
    compare(ctx, 'path', 'VariablePath.__init__', ['''
def __init__(self, tag, id):
    self.path = {id: %s}
    self.used_id_pairs = []
''' % t for t in ('tag', 'list(tag)', '[x for x in tag]')], watch={('store', 'path'), ('store', 'used_id_pairs')}, raises=False, result=False)


def identity(ctx):
    """the tables of a model are keyed by identifiers, so each made object needs one of its own"""
    rule = 'identity'
    for entry in ('_VariableFactory._create_from_variable_desc', '_VariableFactory._create_from_variable_desc_unbound'):
        tr = ctx.trace(entry, ('Variable.__init__',))
        fresh(ctx, rule, entry, tr, [(e, a) for e in tr.events if e.kind == 'call' and e.name == 'DetailedVariableDescription'
                                     for k, a in dict(e.kwargs or ()).items() if k == 'id'])
    for entry in ('Item.__init__', 'SetOfVariables.__init__'):
        tr = ctx.trace(entry, ())
        fresh(ctx, rule, entry, tr, [(e, e.value) for e in tr.events if e.kind == 'store' and e.name == 'id'])


def fresh(ctx, rule, entry, tr, found):
    if not found:
        ctx.unknown(rule, entry + ': no identifier is given')
    for e, a in found:
        made = any(t[0] == 'call' and str(t[1]).split('.')[-1] in ('uuid1', 'uuid4', 'UUID') for t in tr.interp.subterms(a))
        ctx.check(made, rule, '%s: the identifier is made for this object' % entry, e.where(), '%s: the identifier is not made for this object' % entry)


EXTEND = '''
def extend_path(self, current_id, new_id, new_tag):
    if current_id + new_id not in self.used_id_pairs:
        if new_id in self.path:
            self.path[new_id].extend([new_tag + '.' + x for x in self.path[current_id]])
        else:
            self.path[new_id] = [new_tag + '.' + x for x in self.path[current_id]]
        self.primary_path = new_tag + '.' + self.path[current_id][-1]
        self.used_id_pairs.append(current_id + new_id)
'''


def C12(ctx):
    """Name tables are compared as guarded stores: which name is entered for which variable under which condition."""
    from .declare import declared_parameter, registered_variable, DOT_ALIAS
    from .kernel import declared_state
    logged(ctx)
    paths(ctx)
    registered_variable(ctx, 'path')
    declared_state(ctx, DOT_ALIAS)
    declared_parameter(ctx)
    compare(ctx, 'names', 'Model._assembly_tail', '''
def _assembly_tail(self):
    for variable in self.variables.values():
        if not variable.temporary_variable:
            if self.system.id in variable.path.path:
                for path in variable.path.path[self.system.id]:
                    self.aliases[path] = variable.id
            if variable.alias is not None:
                self.aliases[variable.alias] = variable.id
    THEN()
    self.inverse_aliases = {v: k for k, v in self.aliases.items()}
    for name, id in self.aliases.items():
        self.path_to_variable[name] = self.variables[id]
''', opaque=TAIL, watch={('setitem', 'aliases'), ('update', 'aliases'), ('store', 'aliases'), ('store', 'inverse_aliases'),
                         ('setitem', 'path_to_variable'), ('store', 'path_to_variable'), ('update', 'path_to_variable')},
            raises=False)
    compare(ctx, 'start empty', 'Model.__init__', '''
def __init__(self, system):
    self.path_to_variable = {}
    self.aliases = {}
''', opaque=('assemble', 'add_global_variable', 'get_external_mappings', 'get_run_after_solve', 'get_post_step', 'InMemoryHistorian', 'ExternalMapping', 'EmptyMapping'),
            watch={('store', 'path_to_variable'), ('store', 'aliases')})
    compare(ctx, 'set by name', 'Model.set_variables', '''
def set_variables(self, variables):
    for name, value in variables.items():
        self.variables[self.aliases[name]].value = value
        self.var_write(value, self.vars_ordered_values[self.aliases[name]])
''')


LOGGED = '''
def _assembly_tail(self):
    self.logged_aliases = {}
    for variable in self.variables.values():
        if not variable.temporary_variable:
            if variable.logger_level is None:
                variable.logger_level = LoggerLevel.ALL
            if variable.logger_level.value >= self.logger_level.value:
                if self.system.id in variable.path.path:
                    for path in variable.path.path[self.system.id]:
                        self.logged_aliases[path] = variable.id
                if variable.alias is not None:
                    self.logged_aliases[variable.alias] = variable.id
    names = {}
    for name, id in self.logged_aliases.items():
        names[id] = names.get(id, []) + [name]
    self.inverse_logged_aliases = names
    self.logged_variables = {}
    for id, ix in self.vars_ordered_values.items():
        if self.variables[id].logger_level.value >= self.logger_level.value and id in self.inverse_logged_aliases:
            for name in self.inverse_logged_aliases[id]:
                self.logged_variables[name] = ix
'''


def logged(ctx):
    compare(ctx, 'recorded names', 'Model._assembly_tail', LOGGED, opaque=TAIL, raises=False, result=False,
            watch={('store', 'logged_aliases'), ('setitem', 'logged_aliases'), ('update', 'logged_aliases'),
                   ('store', 'inverse_logged_aliases'), ('store', 'logged_variables'), ('setitem', 'logged_variables'),
                   ('update', 'logged_variables')})


def C15(ctx):
    """The level filter is compared as guarded stores into the tables the recorder's columns are made of."""
    from .declare import made, declared_parameter
    from .kernel import declared_variable
    logged(ctx)
    columns(ctx)
    made(ctx, 'own level')
    declared_variable(ctx)
    declared_parameter(ctx)
    own_level(ctx)
    compare(ctx, 'level', 'Model.__init__', '''
def __init__(self, logger_level=LoggerLevel.ALL):
    self.logger_level = logger_level
''', opaque=INIT, watch={('store', 'logger_level')}, result=False, raises=False)
    compare(ctx, 'own level', 'Variable.__init__', '''
def __init__(self, detailed_variable_description):
    self.logger_level = detailed_variable_description.logger_level
''', watch={('store', 'logger_level')}, raises=False, result=False, mode='weak', extra_ok=('logger_level',))


def own_level(ctx):
    """a variable declared without a level has the lowest; a declared level is left alone"""
    for entry, opaque in (('Model.assemble', ASSEMBLY), ('Model._assembly_tail', TAIL),
                          ('Model._set_functions', ('_assembly_tail',)),
                          ('Model.lower_model_codegen', ('EquationGenerator.__init__', 'generate_equations',
                                                         'update_all_variables', '_set_functions'))):
        tr = ctx.trace(entry, opaque)
        I = tr.interp
        for e in tr.events:
            if e.kind not in ('store', 'setattr') or e.name != 'logger_level' or e.base == ('param', 'self'):
                continue
            had = I.B.and_(I.B.atom(('hasattr', e.base, 'logger_level')),
                           I.B.not_(I.eq(('attr', e.base, 'logger_level'), NONE)))
            ok = e.value == ('enum', 'LoggerLevel', 'ALL') and I.B.and_(e.guard, had) == FALSE
            ctx.check(ok, 'own level', entry + ': only a variable without a log level gets one, the lowest', e.where(),
                      entry + ': the log level a variable is recorded by is not the one it was declared with (or, without one, the lowest)')


def columns(ctx):
    compare(ctx, 'columns', 'Model.create_historian_dict', '''
def create_historian_dict(self, historian_data=None):
    d = self.numba_model.historian_data if historian_data is None else historian_data
    data = {name: d[i + 1] for name, i in self.logged_variables.items()}
    data['time'] = d[0]
    return data
''')


INIT = ('assemble', 'add_global_variable', 'get_external_mappings', 'get_run_after_solve', 'get_post_step',
        'InMemoryHistorian', 'ExternalMapping', 'EmptyMapping')


def saving(ctx):
    """what is recorded so far is handed to the recorder and added to the result"""
    compare(ctx, 'recorded part', 'Model.generate_not_nan_history_array', '''
def generate_not_nan_history_array(self):
    return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
''')
    compare(ctx, 'accumulate', 'Model.create_historian_df', '''
def create_historian_df(self):
    new = AliasedDataFrame(self.create_historian_dict(self.generate_not_nan_history_array()), aliases=self.aliases,
                           rename_columns=True)
    self.historian.store(new)
    if self.historian_df is not None:
        self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, new.df], axis=0, sort=False,
                                                       ignore_index=True), aliases=self.aliases, rename_columns=True)
    else:
        self.historian_df = new
''', opaque=('create_historian_dict', 'generate_not_nan_history_array', 'AliasedDataFrame.__init__'))


def C14(ctx):
    """Row and column positions of the recorder, from the kernel's variable order to the named columns."""
    logged(ctx)
    columns(ctx)
    by_alias(ctx)
    compare(ctx, 'rows', 'CompiledModel.historian_update', '''
def historian_update(self, time):
    ix = self.historian_ix
    self.historian_data[0][ix] = time
    self.historian_data[1:, ix] = self.read_variables()
    self.historian_ix = ix + 1
''', opaque=('read_variables',))
    saving(ctx)
    compare(ctx, 'frame', 'AliasedDataFrame.__init__', '''
def __init__(self, data, aliases={}, rename_columns=True):
    self.aliases = aliases
    self.rename_columns = rename_columns
    if rename_columns:
        for key in copy(list(data.keys())):
            if key in aliases:
                data[aliases[key]] = data.pop(key)
    self.df = pd.DataFrame(data)
''')
    evs = ctx.trace('AliasedDataFrame.__init__').events
    made = [e for e in evs if e.kind == 'call' and e.name == 'DataFrame']
    late = [e for e in evs if e.kind in ('setitem', 'delitem') and e.base == ('param', 'data')
            and any(f.args and f.args[0] == ('param', 'data') and f.pos < e.pos for f in made)]
    ctx.check(not late, 'frame', 'the columns have their names before the frame is made of them',
              (late or made or evs)[0].where(), 'columns are renamed after the frame was made of them')
    for m, sel in (('__getitem__', 'self.df[%s]'), ('get', 'self.df.get(%s)')):
        compare(ctx, 'lookup', 'AliasedDataFrame.' + m, ('''
def f(self, names):
    if self.rename_columns:
        if isinstance(names, str):
            return S
        if isinstance(names, Sequence):
            return M
    else:
        return N
'''.replace('S\n', sel % 'self.aliases[names] if names in self.aliases else names' + '\n', 1)
   .replace('return M', 'df = ' + sel % '[self.aliases[n] if n in self.aliases else n for n in names]'
            + ('\n            df.columns = list(names)' if m == '__getitem__' else '') + '\n            return df')
   .replace('return N', 'return ' + sel % 'names')).replace('def f', 'def ' + m))


COPIED = ('imports', 'vars_ordered_values', 'state_idx', 'derivatives_idx', 'init_values', 'aliases', 'variables')


def C17(ctx):
    """Export and load are paired position by position; a clone's fields are compared with the original's."""
    compare(ctx, 'clone', 'Model.clone', '''
def clone(self, clonable=False):
    if not self.clonable:
        raise Exception()
    m = Model(self.system, assemble=False, logger_level=self.logger_level, use_llvm=self.use_llvm)
    m.variables = self.variables
    m.imports = self.imports
    m.vars_ordered_values = self.vars_ordered_values
    m.state_idx = self.state_idx
    m.derivatives_idx = self.derivatives_idx
    m.init_values = self.init_values
    m.aliases = self.aliases
    m.global_variables = self.global_variables
    m._initial_variables_dict = self._initial_variables_dict
    m.model_items = self.model_items
    THEN()
    m._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
    if clonable:
        m.clonable = True
        m.equations_llvm_opt = self.equations_llvm_opt
        m.n_deriv = self.n_deriv
        m.max_var = self.max_var
    return m
''', opaque=('Model.__init__', '_set_functions'))
    exported(ctx)
    compare(ctx, 'kernel', 'Model._set_functions', '''
def _set_functions(self, equations_llvm_opt, n_deriv, max_var):
    for equation in equations_llvm_opt:
        ee.add_module(llvm.parse_assembly(equation))
    for varname in self.vars_ordered_values:
        self.variables[varname].write_variable = ANY
    self.compiled_model_methods = ANY
    self.compiled_compute = ANY
    self.var_func = ANY
    self.var_write = ANY
    THEN()
    self._assembly_tail()
''', opaque=('_assembly_tail',), watch={('call', 'add_module'), ('store', 'write_variable'), ('store', 'compiled_model_methods'),
                                       ('store', 'compiled_compute'), ('store', 'var_func'), ('store', 'var_write'),
                                       ('call', '_assembly_tail')}, raises=False)
    compare(ctx, 'kernel', 'Model._set_functions', DRIVEN, drive=DRIVE, opaque=('_assembly_tail',), watch={('call', '()')}, raises=False)
    compare(ctx, 'kernel', 'Model._set_functions', '''
def _set_functions(self, equations_llvm_opt):
    for equation in equations_llvm_opt:
        ee.add_module(llvm.parse_assembly(equation))
    THEN()
    ee.finalize_object()
    THEN()
    ee.get_function_address("kernel")
    ee.get_function_address("vars_r")
    ee.get_function_address("vars_w")
''', opaque=('_assembly_tail',), watch={('call', 'add_module'), ('call', 'finalize_object'), ('call', 'get_function_address')}, raises=False)
    by_alias(ctx)


def by_alias(ctx):
    compare(ctx, 'initial values by alias', 'Model.get_variables_initial_values', '''
def get_variables_initial_values(self):
    return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items() if k in self.inverse_aliases}
''')
    compare(ctx, 'access by alias', 'Model.lower_model_codegen', '''
def drive(self, tmp_vars, values):
    g = EquationGenerator(filename='kernel.py', equation_graph=self.mappings_graph, scope_variables=self.variables,
                          equations=self.equations_parsed, temporary_variables=tmp_vars, system_tag=self.system.tag,
                          use_llvm=self.use_llvm, imports=self.imports, eq_used=self.eq_used)
    out = g.generate_equations(export_model=self.export_model, clonable=self.clonable)
    self.vars_ordered_values = out[3]
    self.var_write = out[2]
    self.update_all_variables()
    return ([self.var_write(v, out[3][self.aliases[k]]) for k, v in values.items()],
            {self.inverse_aliases[k]: v for k, v in zip(out[3].keys(), out[1]()) if k in self.inverse_aliases})
''', drive='''
def drive(self, tmp_vars, values):
    self.lower_model_codegen(tmp_vars)
    return (self.update_variables(values), self.get_variables())
''', opaque=('EquationGenerator.__init__', 'generate_equations', 'update_all_variables'), watch={('call', '()')}, raises=False,
            ignore={('call', 'generate_equations'), ('call', 'EquationGenerator')})


DRIVE = '''
def drive(self, equations_llvm_opt, n_deriv, max_var, nm, y, g, v, i, values):
    self._set_functions(equations_llvm_opt, n_deriv, max_var)
    m = self.compiled_model_methods
    self.var_write(v, i)
    m["write_variables"](nm, v, i)
    self.update_variables(values)
    return (self.compiled_compute(y, g), self.var_func(),
            m["compiled_compute"](nm, y), m["read_variables"](nm), self.get_variables())
'''
DRIVEN = '''
def drive(self, equations_llvm_opt, n_deriv, max_var, nm, y, g, v, i, values):
    f8 = type(np.ctypeslib.as_ctypes(np.float64()))
    kernel = CFUNCTYPE(POINTER(f8), POINTER(f8), POINTER(f8))(ee.get_function_address("kernel"))
    read = CFUNCTYPE(POINTER(f8), c_int64)(ee.get_function_address("vars_r"))
    write = CFUNCTYPE(c_void_p, c_double, c_int64)(ee.get_function_address("vars_w"))
    write(v, i)
    write(v, i)
    for k, x in values.items():
        write(x, self.vars_ordered_values[self.aliases[k]])
    return (carray(kernel(y.ctypes, g.ctypes), (n_deriv,)).copy(), carray(read(0), (max_var,)).copy(),
            carray(kernel(y.ctypes, nm.global_vars.ctypes), (n_deriv,)).copy(), carray(read(0), (max_var,)).copy(),
            {self.inverse_aliases[k]: x for k, x in zip(self.vars_ordered_values.keys(), carray(read(0), (max_var,)).copy())
             if k in self.inverse_aliases})
'''




FIELDS = {'system': 'system', 'logger_level': 'logger_level', 'imports': 'imports', 'use_llvm': 'use_llvm',
          'vars_ordered_values': 'vars_ordered_values', 'variables': 'variables', 'state_idx': 'state_idx',
          'derivatives_idx': 'derivatives_idx', 'init_values': 'init_values', 'aliases': 'aliases',
          'equations_llvm_opt': 'equations_llvm_opt', 'max_var': 'max_var', 'n_deriv': 'n_deriv'}

LOAD = '''
def from_file(cls, filename):
    d = pickle.load(open(filename, "rb"))
    m = Model({system}, assemble=False, logger_level={logger_level}, use_llvm={use_llvm})
    m.variables = {variables}
    m.imports = {imports}
    m.vars_ordered_values = {vars_ordered_values}
    m.state_idx = {state_idx}
    m.derivatives_idx = {derivatives_idx}
    m.init_values = {init_values}
    m.aliases = {aliases}
    m.global_variables = {{v.tag: v for v in sorted((v for v in {variables}.values() if v.global_var),
                                                   key=lambda v: v.global_var_idx)}}
    m._initial_variables_dict = {{k: v.value for k, v in {variables}.items() if not v.global_var}}
    m.__add_item({system})
    THEN()
    m._set_functions({equations_llvm_opt}, {n_deriv}, {max_var})
    return m
'''


def exported(ctx):
    tr = ctx.trace('Model.lower_model_codegen', opaque=('EquationGenerator.__init__', 'generate_equations', 'update_all_variables'))
    dumps = [e for e in tr.events if e.kind == 'call' and e.name.split('.')[-1] == 'dump' and e.args]
    where = tr.entry.where()
    if not ctx.check(bool(dumps), 'exported fields', 'the model is written to the export file', where):
        return
    e = dumps[0]
    data = e.args[0]
    if data[0] != 'tuple':
        ctx.unknown('exported fields', 'what is exported is not written down as a tuple')
        return
    place = {}
    for i, x in enumerate(data[1:]):
        if x[0] == 'attr' and (x[1] == ('param', 'self') or x[2] in ('equations_llvm_opt', 'max_var', 'n_deriv')):
            place[x[2]] = i
        for st in tr.events:
            if st.kind == 'store' and st.base == ('param', 'self') and st.name in FIELDS and st.value == x and st.pos < e.pos:
                place.setdefault(st.name, i)
    for f in FIELDS:
        ctx.check(f in place, 'exported fields', 'the export contains the model\'s ' + f, e.where())
    if all(f in place for f in FIELDS):
        compare(ctx, 'loaded fields', 'Model.from_file', LOAD.format(**{f: 'd[%d]' % place[f] for f in FIELDS}),
                opaque=('Model.__init__', '_set_functions', '__add_item'))


def parsing(ctx, r):
    compare(ctx, r, 'Model.assemble', '''
def assemble(self):
    namespaces = self.__add_item(self.system)
    graph = Graph(None, ANY)
    parsed = {}
    used = []
    for item_id, nss in namespaces.items():
        for ns in nss:
            if ns.is_set:
                v = ns.set_variables
            else:
                v = {x.tag: x for x in ns.variables.values()}
            v.update(self.global_tag_vars)
            parse_eq(model_namespace=ns, item_id=item_id, mappings_graph=graph, variables=v, parsed_eq_branches=parsed, eq_used=used)
''', opaque=ASSEMBLY, result=False, raises=False, watch={('call', 'parse_eq')})


def namespaces(ctx, r):
    compare(ctx, r, 'Model._create_model_namespaces', NAMESPACES,
            ignore={('call', 'get_variable'), ('store', 'eq_variables_ids')}, opaque=('get_flat_variables',))
