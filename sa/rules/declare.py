"""What an equation declares: variables, equation methods, and their arrival in a namespace."""
from ..show import show
from ..spec import compare

DECLARE = ('EquationBase.add_variable', 'EquationBase.add_state', 'EquationBase.add_parameter', 'EquationBase.add_constant')


MARKS = {('store', '_equation'), ('store', 'lines'), ('store', 'name'), ('store', 'id')}
MARKED = '''
def drive(self, func, obj, scope):
    def eq(self, scope):
        func(self, scope)
    eq._equation = True
    eq.id = self.id
    self.name = func.__name__
%s
    eq(obj, scope)
'''


DOT_ALIAS = 'alias + "_dot" if alias is not None else None'


def C38(ctx):
    """Every declaration call as the description it registers; every description as the variable it becomes."""
    from .kernel import declared_variable, declared_state
    from .slots import variable
    r = 'declaration'
    declared_state(ctx, DOT_ALIAS)
    declared_variable(ctx)
    mapped_parameters(ctx)
    declared_parameter(ctx, r)
    compare(ctx, r, 'EquationBase.add_parameters', '''
def add_parameters(self, parameters):
    if isinstance(parameters, dict):
        for p, v in parameters.items():
            if isinstance(v, numbers.Number):
                self.add_parameter(p, init_val=v)
            else:
                self.add_parameter(p, **v)
    if isinstance(parameters, list):
        for p in parameters:
            self.add_parameter(p)
''', opaque=DECLARE)
    compare(ctx, r, 'EquationBase.add_constants', '''
def add_constants(self, constants):
    for p, v in constants.items():
        if isinstance(v, numbers.Number):
            self.add_constant(p, value=v)
        else:
            self.add_constant(p, **v)
''', opaque=DECLARE)
    compare(ctx, r, 'EquationBase.__init__', '''
def __init__(self, tag=None):
    self.equations = []
    self.variables_descriptions = VariableDescriptionMap(self)
    for name in dir(self):
        if callable(getattr(self, name)) and not name.startswith("__"):
            if hasattr(getattr(self, name), '_equation'):
                self.equations.append(getattr(self, name))
''', opaque=('VariableDescriptionMap.__init__',), watch={('append', 'equations'), ('store', 'equations'), ('store', 'variables_descriptions')})
    methods(ctx)
    from .model import identity
    arrival(ctx)
    identity(ctx)
    variable(ctx, 'variable')
    r = 'iteration'
    compare(ctx, r, 'VariableDescriptionMap.__iter__', '''
def __iter__(self):
    self.variables_descriptions_deque.extend([v for v in self.variables_descriptions.values() if isinstance(v, VariableDescription)])
    return self
''')
    compare(ctx, r, 'VariableDescriptionMap.__next__', ['''
def __next__(self):
    if self.variables_descriptions_deque:
        return self.variables_descriptions_deque.%s()
    raise StopIteration
''' % m for m in ('pop', 'popleft')])


def methods(ctx):
    """what is kept of an equation method: its source, its name and an id of its own"""
    r = 'equation method'
    from .model import fresh
    tr = ctx.trace('Equation.__init__', ())
    fresh(ctx, r, 'Equation.__init__', tr, [(e, e.value) for e in tr.events if e.kind == 'store' and e.name == 'id'])
    compare(ctx, r, 'Equation.__call__', MARKED % '''
    if hasattr(func, '__self__'):
        eq.__self__ = func.__self__
    try:
        eq.lines = inspect.getsource(func)
    except OSError:
        pass
    eq.name = func.__name__
''', drive='''
def drive(self, func, obj, scope):
    self.__call__(func)(obj, scope)
''', watch=MARKS | {('store', '__self__'), ('call', '()')})
    compare(ctx, r, 'InlineEquation.__call__', '''
def drive(self, func_name, func_source, namespace, obj, scope):
    if namespace is None:
        namespace = {}
    def eq(self, scope):
        namespace[func_name](self, scope)
    eq._equation = True
    eq.id = self.id
    self.name = func_name
    eq.name = func_name
    eq(obj, scope)
''', drive='''
def drive(self, func_name, func_source, namespace, obj, scope):
    self.__call__(func_name, func_source, namespace)(obj, scope)
''', watch=MARKS - {('store', 'lines')} | {('call', '()')}, raises=False)
    source(ctx, r)
    compare(ctx, r, 'add_equation', '''
def add_equation(host, func):
    host.equations.append(Equation()(func))
''', opaque=('Equation.__call__',))


def source(ctx, r):
    """the text kept for an equation given as source is that source, apart from its indentation"""
    t = ctx.trace('InlineEquation.__call__', opaque=('Equation.__call__',))
    I = t.interp
    kept = [e for e in t.events if e.kind == 'store' and e.name == 'lines']
    if not kept:
        ctx.unknown(r, 'where the source of an inline equation is kept')
    for e in kept:
        seen, todo, other = set(), [e.value], []
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if x[0] == 'phi':
                lo = I.loops.get(x[1])
                todo += list(lo.phis.get(x[2], ())) if lo is not None else []
            elif x[0] == 'call' and x[1] in ('dedent', 'textwrap.dedent') and len(x[3]) == 1 and not x[4]:
                todo.append(x[3][0])
            elif x[0] == 'ite':
                todo += list(x[2:4])
            elif x != ('param', 'func_source'):
                other.append(x)
        ctx.check(not other, r, 'the source kept for an inline equation is the given one', e.where(),
                  'InlineEquation.__call__ keeps %s' % ', '.join(show(I, x) for x in other[:2]))


def declared_parameter(ctx, r='declaration'):
    compare(ctx, r, 'EquationBase.add_parameter', '''
def add_parameter(self, tag, init_val=0, logger_level=None, alias=None, integrate=None):
    self.add_variable(tag, init_val, VariableType.PARAMETER, logger_level, alias)
    if integrate is not None:
        self.add_state(integrate['tag'], 0, logger_level=logger_level)
        eq = InlineEquation()('integrate_' + tag, ANY, {})
        self.equations.append(eq)
''', opaque=DECLARE + ('InlineEquation',), watch={('call', 'add_variable'), ('call', 'add_state'), ('append', 'equations')})
    compare(ctx, r, 'EquationBase.add_constant', '''
def add_constant(self, tag, value, logger_level=None, alias=None):
    self.add_variable(tag, value, VariableType.CONSTANT, logger_level, alias)
''', opaque=DECLARE)


def mapped_parameters(ctx, r='declaration'):
    compare(ctx, r, 'EquationBase.map_create_parameters', '''
def map_create_parameters(self, item, mappings):
    for m in mappings:
        if m.to_ not in self.variables_descriptions.variables_descriptions:
            self.add_parameter(m.to_)
''', opaque=('add_parameter',))
    compare(ctx, r, 'equation_base.py:Mapping.__init__', '''
def __init__(self, from_, to_=None, dir='<-'):
    self.from_ = from_
    self.to_ = to_ if to_ is not None else from_
    self.dir = dir
''')


def arrival(ctx):
    r = 'namespace'
    compare(ctx, r, 'VariableNamespaceBase.add_equation', '''
def add_equation(self, equation, update_bindings=True, create_variables=True, set_equation=False):
    if update_bindings and self.is_connector:
        self.item.update_bindings([equation], self.tag)
    if create_variables:
        for d in equation.variables_descriptions:
            self.create_variable_from_desc(d)
    equation.set_equation = set_equation
    self.associated_equations[equation.tag] = equation
''', opaque=('create_variable_from_desc', 'update_bindings'))
    compare(ctx, r, 'VariableNamespaceBase.add_equations', '''
def add_equations(self, list_of_equations, update_bindings=True, create_variables=True, set_equation=False):
    for eq in list_of_equations:
        self.add_equation(eq, update_bindings, create_variables, set_equation)
''', opaque=('add_equation',))
    compare(ctx, r, 'VariableNamespaceBase.create_variable_from_desc', '''
def create_variable_from_desc(self, d):
    if d.update:
        self[d.tag].model.write_variables(d.initial_value, self[d.tag].llvm_idx)
    else:
        self.register_variable(_VariableFactory._create_from_variable_desc(self, self.item, d))
''', opaque=('register_variable', '_create_from_variable_desc'))
    registered_variable(ctx, r)
    compare(ctx, r, 'VariableNamespaceBase.create_variable', '''
def create_variable(self, name, value=0):
    self.create_variable_from_desc(VariableDescription(tag=name, initial_value=value))
''', opaque=('create_variable_from_desc',))
    made(ctx, r)


def registered_variable(ctx, r):
    compare(ctx, r, 'VariableNamespaceBase.register_variable', '''
def register_variable(self, variable, tag_count=""):
    if variable.tag + tag_count not in self.variables.keys():
        self.variables[variable.tag + tag_count] = variable
        variable.path.extend_path(variable.id, self.id, self.tag)
        THEN()
        variable.path.extend_path(self.id, self.item.id, self.item.tag)
    elif self.variables[variable.tag].value < variable.value:
        self.variables[variable.tag] = variable
        variable.path.extend_path(variable.id, self.id, self.tag)
        THEN()
        variable.path.extend_path(self.id, self.item.id, self.item.tag)
''', opaque=('extend_path',), ignore={('call', 'value'), ('call', 'warning')})


def made(ctx, r):
    compare(ctx, r, '_VariableFactory._create_from_variable_desc', '''
def _create_from_variable_desc(namespace, item, d):
    return Variable(DetailedVariableDescription(tag=d.tag, id=ANY, type=d.type, initial_value=d.initial_value,
        namespace=namespace, item=item, metadata={}, mapping=None, update_counter=0,
        allow_update=d.type != VariableType.CONSTANT, logger_level=d.logger_level, variable_idx=d.variable_idx,
        alias=d.alias, global_var=False, global_var_idx=-1))
''', opaque=('Variable.__init__',))
