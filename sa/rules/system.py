"""The system description: items, namespaces, connectors, bindings, subsystems, sets."""
from ..spec import compare

PATHS = ('update_variables_path', '_increase_level', 'extend_path', 'get_variables', 'get_binded_items')


def C07(ctx):
    """Every registration entry point is reduced to its rejection condition and its effects; the rejection condition
    must be exactly 'already registered / occupied', it must be raised, and no effect may precede it."""
    registered(ctx)
    compare(ctx, 'namespace', 'Item.register_namespace', '''
def register_namespace(self, namespace):
    if namespace.registered or namespace.tag in self.registered_namespaces.keys():
        raise ValueError()
    self.registered_namespaces.update({namespace.tag: namespace})
    namespace.registered = True
''', mode='exact')
    compare(ctx, 'binding name', 'Connector.create_binding', '''
def create_binding(self, binding_name):
    if binding_name in self.bindings.keys():
        raise ValueError()
    self.bindings[binding_name] = Binding(binding_name)
''', mode='exact')
    rewired(ctx)
    compare(ctx, 'occupied binding', 'Binding.add_binding', '''
def add_binding(self, item):
    if self.binded_item:
        raise ValueError()
    self.binded_item = item
''', mode='exact', opaque=('add_mapping', 'add_sum_mapping'))
    compare(ctx, 'set membership', 'ItemSet.__init__', '''
def __init__(self, set_structure, tag):
    for item in set_structure:
        item.parent_set = "SET_" + tag
''', opaque=('SetNamespace', 'add_item', 'register_items', 'register_namespace', 'add_equations', 'Subsystem.__init__'),
            raises=False)


def C05(ctx):
    """The mapping operations of a variable are reduced to guarded effects over all inputs."""
    recorded(ctx)


def recorded(ctx):
    compare(ctx, 'direct mapping', 'MappedValue.add_mapping', '''
def add_mapping(self, variable):
    if variable.id != self.id:
        self.mapping = variable
    else:
        if not self.special_mapping:
            raise RecursionError()
    self.special_mapping = False
''', mode='exact', ignore={('store', 'special_mapping')})
    compare(ctx, 'sum marker', 'MappedValue.add_mapping', '''
def add_mapping(self, variable):
    if variable.id == self.id and not self.special_mapping:
        raise RecursionError()
    self.special_mapping = False
''')
    compare(ctx, 'summed mapping', 'MappedValue.__iadd__', '''
def __iadd__(self, other):
    if isinstance(other, Variable):
        if self.mapping:
            raise ValueError()
        self.sum_mapping.append(other)
        self.special_mapping = True
        return self
    object.__iadd__(self, other)
''', mode='exact', result=False)
    compare(ctx, 'summed mapping', 'MappedValue.__iadd__', '''
def __iadd__(self, other):
    if isinstance(other, Variable):
        return self
''', watch=(), raises=False)
    compare(ctx, 'summed mapping', 'MappedValue.add_sum_mapping', '''
def add_sum_mapping(self, variable):
    self.sum_mapping.append(variable)
''', mode='exact')
    compare(ctx, 'assignment maps', 'VariableNamespaceBase.__setattr__', '''
def __setattr__(self, name, value):
    if isinstance(value, Variable):
        self[name].add_mapping(value)
    else:
        object.__setattr__(self, name, value)
''', opaque=('add_mapping',))


def C09(ctx):
    """Binding an item is reduced to the mappings it adds on both sides."""
    same_variable(ctx, 'placeholder variable')
    own_namespace(ctx, 'connector namespace')
    from .lookup import several
    several(ctx)
    from .declare import arrival
    arrival(ctx)
    compare(ctx, 'bound item gets the mappings', 'Binding.add_binding', '''
def add_binding(self, item):
    if self.binded_item:
        raise ValueError()
    self.binded_item = item
    for namespace in self.ns:
        if namespace.tag in item.registered_namespaces.keys():
            for bv in namespace.variables:
                if bv.mapping:
                    item.registered_namespaces[namespace.tag].variables[bv.tag].add_mapping(bv.mapping)
                if bv.sum_mapping:
                    for v in bv.sum_mapping:
                        item.registered_namespaces[namespace.tag].variables[bv.tag].add_sum_mapping(v)
        self.ns[namespace.tag] = item.registered_namespaces[namespace.tag]
''', opaque=('add_mapping', 'add_sum_mapping'))
    rewired(ctx)
    compare(ctx, 'assignment binds', 'Connector.__setattr__', '''
def __setattr__(self, key, value):
    if isinstance(value, Node) and 'bindings' in self.__dict__ and key in self.bindings.keys():
        self.bind(**{key: value})
    object.__setattr__(self, key, value)
''', opaque=('bind',))
    compare(ctx, 'placeholder variable', '_ShadowVariableNamespace.register_variable', '''
def register_variable(self, variable):
    if variable.tag not in self.variables.keys():
        self.variables[variable.tag] = _BindingVariable(variable)
''', opaque=('extend_path',))
    compare(ctx, 'placeholder namespaces', 'ConnectorItem.create_namespace', '''
def create_namespace(self, namespace_name):
    for binding in self.bindings:
        binding.ns[namespace_name] = _ShadowVariableNamespace(self, namespace_name, binding)
''', opaque=('register_namespace',), result=False)
    compare(ctx, 'placeholder equations', 'Connector.update_bindings', '''
def update_bindings(self, list_of_eq, binding_name):
    for binding in self.bindings:
        binding.__dict__[binding_name].add_equations(list_of_eq)
''', opaque=('add_equations',))


def C11(ctx):
    compare(ctx, 'collect after-solve', 'Subsystem.get_run_after_solve', '''
def get_run_after_solve(self):
    out = [getattr(self, name) for name in self.run_after_solve]
    for item in self.registered_items.values():
        if isinstance(item, Subsystem):
            out.extend(item.get_run_after_solve())
    return out
''')
    compare(ctx, 'collect post-step', 'Subsystem.get_post_step', '''
def get_post_step(self):
    out = List.empty_list(types.FunctionType(types.void()))
    for name in self.post_step:
        out.append(getattr(self, name))
    for item in self.registered_items.values():
        if isinstance(item, Subsystem):
            for f in item.get_post_step():
                out.append(f)
    return out
''')


def same_variable(ctx, r):
    compare(ctx, r, '_BindingVariable.__init__', '''
def __init__(self, variable):
    self.__dict__ = variable.__dict__
''', watch={('store', '__dict__')}, raises=False, result=False, opaque=('Variable.__init__',))


def own_namespace(ctx, r):
    """a namespace knows whether its item is a connector"""
    compare(ctx, r, 'Item.get_default_namespace', '''
def get_default_namespace(self):
    return VariableNamespace(self, 'default', is_connector=isinstance(self, Connector))
''', opaque=('VariableNamespaceBase.__init__',))
    compare(ctx, r, 'Item.create_namespace', '''
def create_namespace(self, tag):
    ns = VariableNamespace(self, tag, is_connector=isinstance(self, Connector))
    self.register_namespace(ns)
    return ns
''', opaque=('VariableNamespaceBase.__init__', 'register_namespace'))
    compare(ctx, r, 'VariableNamespaceBase.__init__', '''
def __init__(self, item, tag, is_connector=False, _id=ANY):
    self.item = item
    self.tag = tag
    self.is_connector = is_connector
    self.registered = False
    self.associated_equations = {}
    self.variables = _DictWrapper(self.__dict__, Variable)
    self.variable_scope = [self.variables]
''', watch={('store', n) for n in ('item', 'tag', 'is_connector', 'registered', 'associated_equations', 'variable_scope')}, raises=False, result=False,
            opaque=('_DictWrapper.__init__',))


def registered(ctx):
    compare(ctx, 'same-tag item', 'Subsystem.register_item', '''
def register_item(self, item):
    if item.tag in [x.tag for x in self.registered_items.values()]:
        raise ValueError()
    item._increase_level()
    self.update_variables_path(item)
    self.registered_items.update({item.id: item})
''', opaque=PATHS, mode='exact')


def rewired(ctx):
    compare(ctx, 'connector is rewired', 'ConnectorItem.bind', '''
def bind(self, **kwargs):
    def target(v, binding, item):
        if isinstance(v, _BindingVariable) and v.namespace.binding is binding:
            return item.registered_namespaces[v.namespace.tag].variables[v.tag]
        return v
    for key, value in kwargs.items():
        if key not in self.bindings.keys():
            raise ValueError()
        self.bindings[key].add_binding(value)
        for ns in self.registered_namespaces:
            for v in ns.variables:
                if v.mapping:
                    v.mapping = target(v.mapping, self.bindings[key], value)
                v.sum_mapping = [target(s, self.bindings[key], value) for s in v.sum_mapping]
''', opaque=('add_binding',), seq=(('add_binding', 'mapping'),))
