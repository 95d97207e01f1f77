"""Global variables and time: registered, read by equations, kept in their slot."""
from ..spec import compare
from .kernel import FIELDS, FUNC, constructed, lowered
from .lowering import (GRAPH, equation_call, given_slots, native_call, native_set_call, native_start, python_call, python_set_call,
                       python_start, set_slots)
from .model import INIT, ORDERED, ORDERS, namespaces, parsing
from .translation import argument_order, parsed_equation


def C27(ctx):
    """A global on its way from its registration to the slot the kernel reads, and time into slot 0."""
    from .model import identity
    identity(ctx)
    compare(ctx, 'registration', 'Model.__init__', '''
def __init__(self, system, global_variables=None, assemble=True):
    self.global_variables = {}
    self.global_tag_vars = {}
    self.variables = {}
    THEN()
    self.add_global_variable('t', 0.0)
    THEN()
    if global_variables:
        for g in global_variables:
            self.add_global_variable(g[0], g[1])
    THEN()
    if assemble:
        self.assemble()
''', opaque=INIT, raises=False, result=False, watch={
        ('call', 'add_global_variable'), ('call', 'assemble'), ('store', 'global_variables'), ('store', 'global_tag_vars'),
        ('store', 'variables')})
    compare(ctx, 'registration', 'Model._add_global_var', '''
def _add_global_var(self, name, value):
    if name in self.global_variables:
        return self.global_variables[name]
    d = VariableDescription(tag=name, initial_value=value, type=VariableType.PARAMETER, global_var=True,
                            global_var_idx=len(self.global_variables))
    v = _VariableFactory._create_from_variable_desc_unbound(variable_description=d, initial_value=value)
    self.global_variables[name] = v
    return v
''', opaque=('_create_from_variable_desc_unbound',))
    compare(ctx, 'registration', 'Model.add_global_variable', '''
def add_global_variable(self, name, value):
    x = self._add_global_var('global_vars_' + name, value)
    self.global_tag_vars['global_vars_' + name] = x
    self.variables[x.id] = x
''', opaque=('_add_global_var',))
    unbound(ctx, 'registration')
    variable(ctx, 'registration')
    parsing(ctx, 'equations')
    parsed_equation(ctx, 'equations')
    argument_order(ctx, 'arguments')
    given_slots(ctx, 'slots')
    equation_call(ctx, 'arguments')
    native_start(ctx, 'native kernel')
    native_call(ctx, 'native kernel')
    python_start(ctx, 'Python kernel')
    python_call(ctx, 'Python kernel')
    lowered(ctx, 'kernel call')
    compare(ctx, 'time', 'CompiledModel.func', FUNC)
    constructed(ctx, {'global_vars': FIELDS['global_vars']})


def free(trace):
    trace.drop = {'DetailedVariableDescription': (None, ('id', 'metadata', 'update_counter', 'variable_idx', 'allow_update'))}


def unbound(ctx, r):
    compare(ctx, r, '_VariableFactory._create_from_variable_desc_unbound', '''
def make(value, d):
    return Variable(DetailedVariableDescription(tag=d.tag, id=ANY, type=d.type, initial_value=value, namespace=None, item=None,
                                                mapping=None, logger_level=d.logger_level, alias=d.alias,
                                                global_var=d.global_var, global_var_idx=d.global_var_idx))
''', opaque=('Variable.__init__', 'uuid4'), prep=free, ignore={('call', 'DetailedVariableDescription'), ('call', 'format'), ('call', 'uuid4')})


def variable(ctx, r):
    """a new variable is what its description says"""
    names = ('tag', 'type', 'namespace', 'item', 'mapping', 'alias', 'global_var', 'global_var_idx', 'id', '_value', 'value', 'logger_level',
             'sum_mapping', 'set_var', 'set_var_ix', 'eq_used', 'temporary_variable', 'llvm_idx')
    compare(ctx, r, 'Variable.__init__', '''
def __init__(self, d, base_variable=None):
    self.id = str(d.id).replace('-', '_')
    self.sum_mapping = []
    self.llvm_idx = None
    self.tag = d.tag
    self.type = d.type
    self.namespace = d.namespace
    self.item = d.item
    self.mapping = d.mapping
    self.alias = d.alias
    self.global_var = d.global_var
    self.global_var_idx = d.global_var_idx
    self.logger_level = d.logger_level
    self.set_var = None
    self.set_var_ix = None
    self.eq_used = []
    self.temporary_variable = False
    value = base_variable.value if base_variable else d.initial_value
    try:
        float(value)
    except (ValueError, TypeError):
        raise ValueError()
    self._value = value
''', watch={('store', n) for n in names}, raises=False, result=False, extra_ok=('mapping', 'logger_level', 'value'))


def C28(ctx):
    """Which variable of which item a set variable holds at which place, and which of them a set call passes where."""
    r = 'set'
    compare(ctx, r, 'ModelNamespace.ordered_variables', [ORDERED % o for o in ORDERS])
    item_set(ctx, r)
    compare(ctx, r, 'SetNamespace.__init__', '''
def __init__(self, item, tag, ids):
    self.items_id = ids
    self.set_variables = {}
''', opaque=('VariableNamespace.__init__',), watch={('store', 'items_id'), ('store', 'set_variables')}, raises=False)
    compare(ctx, r, 'SetNamespace.add_item', '''
def add_item(self, item, ns):
    self.items.append(item)
    ix = self.items_id.index(ns.item.id)
    for v in ns.variables:
        if v.tag not in self.set_variables.keys():
            self.set_variables[v.tag] = SetOfVariables(v.tag, self.item.tag, ns.tag)
        self.set_variables[v.tag].add_variable(v)
        v.set_var_ix = ix
''', opaque=('SetOfVariables.__init__', 'add_variable'))
    compare(ctx, r, 'SetNamespace.get_flat_variables', '''
def get_flat_variables(self):
    return [s for s in self.set_variables.values()]
''')
    compare(ctx, r, 'SetOfVariables.__init__', '''
def __init__(self, tag, item_tag, ns_tag):
    self.tag = tag
    self.id = "SET" + str(uuid.uuid4()).replace("-", "_")
    self.variables = {}
    self.mapping = []
    self.sum_mapping = []
    self.item_tag = item_tag
    self.ns_tag = ns_tag
    self.size = 0
    self.global_var = False
''', watch={('store', n) for n in ('tag', 'id', 'variables', 'mapping', 'sum_mapping', 'item_tag', 'ns_tag', 'size', 'global_var')})
    compare(ctx, r, 'SetOfVariables.add_variable', '''
def add_variable(self, v):
    self.variables[v.id] = v
    v.set_var = self
    if v.sum_mapping:
        self.sum_mapping.append(v.sum_mapping)
    if v.mapping:
        self.mapping.append(v.mapping)
    self.size += 1
''')
    compare(ctx, r, 'SetOfVariables.get_size', '''
def get_size(self):
    return self.size
''')
    compare(ctx, r, 'SetOfVariables.get_var_by_idx', '''
def get_var_by_idx(self, i):
    return next(v for v in self.variables.values() if v.set_var_ix == i)
''')
    temporaries(ctx, 'temporary')
    namespaces(ctx, 'namespaces')
    set_slots(ctx, 'call')
    equation_call(ctx, 'call')
    native_set_call(ctx, 'native call')
    python_set_call(ctx, 'Python call')


def temporaries(ctx, r):
    """What the graph keeps for one of several contributions to a variable stands in for that variable."""
    kept = ('id', 'scope_var_id', 'set_var', 'set_var_ix', 'type', 'temporary_variable', 'item', 'value')
    compare(ctx, r, 'TemporaryVar.__init__', '''
def __init__(self, id, svi, tag, set_var, set_var_ix):
    self.empty_variable()
    THEN()
    self.temporary_variable = True
    self.id = id
    self.scope_var_id = svi.id
    self.set_var = set_var
    self.set_var_ix = set_var_ix
    self.type = VariableType.TMP_PARAMETER
    self.item = svi.item
    self.value = svi.value
''', watch={('store', n) for n in kept}, opaque=('empty_variable',), ignore={('call', 'value')})
    compare(ctx, r, 'TemporarySetVar.__init__', '''
def __init__(self, id, set_var):
    self.id = id
    self.tmp_vars = []
    self.type = VariableType.TMP_PARAMETER_SET
    self.set_var = set_var
    self.size = set_var.size
    self.variables = set_var.variables
''')
    compare(ctx, r, 'EquationGenerator.__init__', '''
def __init__(self, scope_variables, temporary_variables):
    self.scope_variables = scope_variables
    self.set_variables = {}
    for k, var in temporary_variables.items():
        if var.type == VariableType.TMP_PARAMETER_SET:
            self.set_variables[k] = var
            front = {}
            back = {}
            for n, v in self.scope_variables.items():
                if n in var.set_var.variables:
                    back[n] = v
                    front[var.tmp_vars[v.set_var_ix].id] = var.tmp_vars[v.set_var_ix]
                else:
                    front[n] = v
            self.scope_variables = {**front, **back}
        if var.type == VariableType.TMP_PARAMETER:
            front = {}
            back = {}
            for n, v in self.scope_variables.items():
                if n == var.scope_var_id:
                    back[n] = v
                    front[var.id] = var
                else:
                    front[n] = v
            self.scope_variables = {**front, **back}
''', watch={('store', 'scope_variables'), ('setitem', 'set_variables'), ('update', 'set_variables'), ('store', 'set_variables')}, opaque=GRAPH,
            result=False, raises=False, what='the variables of the kernel')
    compare(ctx, r, 'TemporarySetVar.get_size', '''
def get_size(self):
    return len(self.tmp_vars)
''')
    compare(ctx, r, 'TemporarySetVar.get_var_by_idx', '''
def get_var_by_idx(self, i):
    return next(v for v in self.tmp_vars if v.set_var_ix == i)
''')


def item_set(ctx, r):
    compare(ctx, r, 'ItemSet.__init__', '''
def __init__(self, items, tag):
    self.items = []
    self.item_ids = []
    self.item_type = None
    for item in items:
        item.part_of_set = True
        if not self.item_type:
            self.item_type = type(item)
        if not isinstance(item, self.item_type):
            raise TypeError()
        self.items.append(item)
        self.item_ids.append(item.id)
        if item.parent_set is not None:
            raise ValueError()
        item.parent_set = 'SET_' + tag
    for item in items:
        for ns in item.registered_namespaces:
            if ns.tag not in self.registered_namespaces.keys():
                s = SetNamespace(self, ns.tag, self.item_ids)
                s.add_equations(list(ns.associated_equations.values()), False, create_variables=False, set_equation=True)
                s.add_item(item, ns)
                ns.clear_equations()
                self.register_namespace(s)
            else:
                self.registered_namespaces[ns.tag].add_item(item, ns)
            if ns.part_of_set:
                raise ValueError()
            ns.part_of_set = ANY
    for ns in self.registered_namespaces.values():
        ns.items = self.items
    self.register_items(items)
''', opaque=('Subsystem.__init__', 'SetNamespace.__init__', 'add_equations', 'add_item', 'clear_equations', 'register_namespace', 'register_items'))
