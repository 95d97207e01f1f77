"""Lookups by path, tag and key in the item hierarchy."""
from ..spec import compare


def C40(ctx):
    """Each lookup is reduced to its result as a function of the registries; each registry access to the table it reads."""
    compare(ctx, 'first part of a path', 'ItemPath.get_top_item', '''
def get_top_item(self):
    return self.path_parsed[0]
''')
    compare(ctx, 'parts of a path', 'ItemPath.__init__', '''
def __init__(self, path, delimiter="."):
    self.path = path
    self.delimiter = delimiter
    if path:
        self.path_parsed = path.split(delimiter)
    else:
        self.path_parsed = None
''')
    compare(ctx, 'rest of a path', 'ItemPath.get_next_item_path', '''
def get_next_item_path(self):
    if self.path_parsed[1:]:
        return ItemPath(self.delimiter.join(self.path_parsed[1:]), self.delimiter)
''', opaque=('ItemPath.__init__',))
    compare(ctx, 'item by path', 'Item.get_item', '''
def get_item(self, item_path):
    if self.tag == item_path.path_parsed[0] and not item_path.path_parsed[1:]:
        return self
''', opaque=('ItemPath.__init__',))
    compare(ctx, 'item by path', 'Subsystem.get_item', '''
def get_item(self, item_path):
    rest = None
    if item_path.path_parsed[1:]:
        rest = ItemPath(item_path.delimiter.join(item_path.path_parsed[1:]), item_path.delimiter)
    if self.tag == item_path.path_parsed[0]:
        if rest is None:
            return self
        for item in self.registered_items.values():
            if item.tag == rest.path_parsed[0]:
                return item.get_item(rest)
''', opaque=('ItemPath.__init__', 'Item.get_item', 'get_item'), types={'item_path': 'ItemPath'}, watch={('call', 'get_item')}, ignore={('call', 'ItemPath')})
    compare(ctx, 'items by tag', 'Model.search_items', '''
def search_items(self, item_tag):
    return [item for item in self.model_items.values() if item.tag == item_tag]
''')
    compare(ctx, 'variables of an item', 'Item.get_variables', '''
def get_variables(self):
    return [(variable, vn) for vn in self.registered_namespaces.values() for variable in vn.variables]
''')
    compare(ctx, 'variable of a namespace', 'VariableNamespaceBase.__getitem__', '''
def __getitem__(self, y):
    return self.variables[y]
''')
    compare(ctx, 'variable of a namespace', 'VariableNamespaceBase.get_variable', '''
def get_variable(self, var_tag):
    if var_tag in self.variables.internal_dict:
        return self.variables.internal_dict[var_tag]
''')
    compare(ctx, 'path of a variable', 'Model.get_variable_path', '''
def get_variable_path(self, id, item):
    for (variable, namespace) in item.get_variables():
        if variable.id == id:
            return "{0}.{1}".format(namespace.tag, variable.tag)
    if hasattr(item, 'registered_items'):
        for registered_item in item.registered_items.values():
            result = self.get_variable_path(id, registered_item)
            if result:
                return "{0}.{1}".format(registered_item.tag, result)
    return ""
''', opaque=('get_variables', 'get_variable_path'))
    compare(ctx, 'bindings fulfilled', 'Model.validate_bindings', '''
def validate_bindings(self):
    for item in self.model_items.values():
        if isinstance(item, Connector):
            for binding in item.bindings:
                if binding.binded_item is None:
                    return False
    return True
''')
    compare(ctx, 'bindings fulfilled', 'Binding.is_bindend', '''
def is_bindend(self):
    return self.binded_item is not None
''')
    compare(ctx, 'bound items', 'Connector.get_binded_items', '''
def get_binded_items(self):
    return [y.binded_item for y in self.bindings if y.binded_item is not None]
''')
    compare(ctx, 'namespaces of a binding', 'Binding.update_namespace', '''
def update_namespace(self, ns):
    self.ns[ns.tag] = ns
''')
    for name, src in (
            ('keys', 'def keys(self):\n    return self.shadow_dict.keys()'),
            ('values', 'def values(self):\n    return self.shadow_dict.values()'),
            ('__iter__', 'def __iter__(self):\n    return iter(self.shadow_dict.values())'),
            ('__getitem__', 'def __getitem__(self, y):\n    return self.shadow_dict[y]'),
            ('pop', 'def pop(self, item):\n    if item in self.shadow_dict:\n        self.shadow_dict.pop(item)'),
            ('update', 'def update(self, E=None, **F):\n    self.internal_dict.update(E, **F)\n    self.shadow_dict.update(E, **F)'),
            ('__setitem__', '''
def __setitem__(self, key, value):
    if not isinstance(value, self.value_type):
        raise ValueError()
    self.shadow_dict[key] = value
    self.internal_dict[key] = value
'''),
            ('__getattribute__', '''
def __getattribute__(self, item):
    if item == 'shadow_dict' or item == '__setstate__' or item == '__dict__':
        return object.__getattribute__(self, item)
    if item in self.shadow_dict:
        return self.shadow_dict[item]
    return object.__getattribute__(self, item)
'''),
            ('__init__', '''
def __init__(self, internal_dict, value_type):
    self.value_type = value_type
    self.internal_dict = internal_dict
    self.shadow_dict = {}
''')):
        compare(ctx, 'registry', '_DictWrapper.' + name, src)
    compare(ctx, 'port', 'Subsystem.add_port', '''
def add_port(self, port_tag, item):
    if item.id not in self.registered_items.keys():
        raise ValueError()
    self.ports[port_tag] = item
''')
    compare(ctx, 'registries are the object\'s own', 'Item.__init__', '''
def __init__(self, tag=None, logger_level=None):
    self.registered_namespaces = _DictWrapper(self.__dict__, VariableNamespaceBase)
    self.events = []
    self.timestamp_events = []
''', opaque=('_DictWrapper.__init__',), watch={('store', 'registered_namespaces'), ('store', 'events'), ('store', 'timestamp_events'),
                                             ('call', '_DictWrapper')})
    compare(ctx, 'registries are the object\'s own', 'Connector.__init__', '''
def __init__(self, tag, **kw):
    self.bindings = _DictWrapper(self.__dict__, Binding)
''', opaque=('_DictWrapper.__init__',), watch={('store', 'bindings')})
    compare(ctx, 'registries are the object\'s own', 'Binding.__init__', '''
def __init__(self, binding_name):
    self.name = binding_name
    self.ns = _DictWrapper(self.__dict__, VariableNamespaceBase)
    self.binded_item = None
''', opaque=('_DictWrapper.__init__',))
    compare(ctx, 'registries are the object\'s own', 'Subsystem.__init__', '''
def __init__(self, tag, external_mappings=None, data_loader=None, run_after_solve=None, post_step=None):
    self.ports = _DictWrapper({}, Item)
    self.registered_items = {}
''', opaque=('_DictWrapper.__init__', 'ConnectorItem.__init__'), watch={('store', 'ports'), ('store', 'registered_items')})
    for name, names in (('ConnectorTwoWay', '[side1_name, side2_name]'),):
        compare(ctx, 'bindings of a connector', name + '.__init__', '''
def __init__(self, tag, side1_name='side1', side2_name='side2'):
    for bn in [side1_name, side2_name]:
        self.create_binding(bn)
''', opaque=('create_binding', 'ConnectorItem.__init__'), watch={('call', 'create_binding')})
    compare(ctx, 'bindings of a connector', 'ConnectorMultiWay.__init__', '''
def __init__(self, tag, binding_names=[]):
    for bn in binding_names:
        self.create_binding(bn)
''', opaque=('create_binding', 'ConnectorItem.__init__'), watch={('call', 'create_binding')})
    several(ctx)


def several(ctx):
    compare(ctx, 'several items', 'Subsystem.register_items', '''
def register_items(self, items, tag="set", structure=ItemsStructure.LIST, bind=False):
    if structure == ItemsStructure.LIST:
        for item in items:
            self.register_item(item)
    elif structure == ItemsStructure.SET:
        self.register_item(ItemSet(items, tag))
    if bind:
        for i in items:
            setattr(self, i.tag, i)
''', opaque=('register_item', 'ItemSet.__init__'))
