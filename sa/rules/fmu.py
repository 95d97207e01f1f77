"""The code generated around an FMU: which FMI functions it calls, in which order, with which arguments."""
import ast
from ..effects import contains
from ..spec import compare
from .lowering import AST

DROP = dict(AST, FunctionDef=(3, ('lineno', 'decorator_list_', 'type_comment', 'returns')), Expr=(1, ('keywords', 'lineno')),
            Return=(1, ('ctx', 'lineno')), Call=(3, ('ctx', 'lineno')), keyword=(0, ('lineno',)), arguments=(0, ('lineno',)), Module=(1, ('type_ignores',)))
SKIP = {('call', n) for n in DROP} | {('call', n) for n in ('Load', 'Store', 'List', 'range', 'enumerate', 'str', 'format')}


def code(src, **holes):
    """the constructor calls that build the syntax tree of `src`; a name in `holes` stands for the expression given"""
    def text(n):
        if isinstance(n, list):
            return '[' + ', '.join(text(x) for x in n) + ']'
        if isinstance(n, ast.Name) and n.id in holes:
            return holes[n.id]
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id in holes:
            return holes[n.value.id]
        if isinstance(n, ast.AST):
            fs = []
            for k, v in ast.iter_fields(n):
                if k in ('ctx', 'kind', 'type_comment', 'returns', 'vararg', 'kwarg', 'annotation', 'type_params', 'type_ignores') or v is None:
                    continue
                if k in ('id', 'attr', 'name', 'arg') and v in holes:
                    fs.append('%s=%s' % (k, holes[v]))
                    continue
                if isinstance(v, list) and len(v) == 1 and isinstance(v[0], ast.Starred) and isinstance(v[0].value, ast.Name) \
                        and v[0].value.id in holes:
                    fs.append('%s=%s' % (k, holes[v[0].value.id]))
                    continue
                if isinstance(n, ast.Expr) and k == 'keywords':
                    continue
                fs.append('%s=%s' % (k, text(v) if isinstance(v, (list, ast.AST)) else repr(v)))
            return 'ast.%s(%s)' % (type(n).__name__, ', '.join(fs))
        return repr(n)
    return ', '.join(text(x) for x in ast.parse(src).body)


def expr(src, **holes):
    t = code(src, **holes)
    assert t.startswith('ast.Expr(value=') and t.endswith(')'), t
    return t[len('ast.Expr(value='):-1]


def prep(trace):
    trace.drop = DROP


def gen(ctx, rule, entry, src, **kw):
    kw['ignore'] = set(kw.get('ignore', ())) | SKIP
    compare(ctx, rule, entry, src, prep=prep, **kw)


FUNCTION = 'ast.FunctionDef(name=%s, args=ast.arguments(posonlyargs=[], args=%s, kwonlyargs=[], kw_defaults=[], defaults=[]), body=%s, decorator_list=%s)'


def C29(ctx):
    """Each generator is compared with the syntax tree of the calls it has to generate; each wrapper with the call it wraps."""
    action(ctx, 'event action')
    event(ctx, 'event indicators')
    evaluation(ctx, 'evaluation')
    wrappers(ctx, 'calls')
    assembled(ctx, 'assembly')
    declared(ctx, 'variables')


def action(ctx, r):
    gen(ctx, r, 'generate_action_event', [('''
def generate_action_event(len_q, var_order):
    params = [ast.arg(arg="t")]
    for i in range(len_q):
        params.append(ast.arg(arg="y" + str(i)))
    for i in range(len_q):
        params.append(ast.arg(arg="a_" + str(i)))
    values = [ast.Name(id="y" + str(i)) for i in range(len_q)]
    refs = ast.List(elts=[ast.Constant(value=k) for k in var_order])
    body = [%s, %s, %s]
    for i in range(len_q):
        body.append(%s)
    types_ = [%s]
    for i in range(len_q):
        types_.append(%s)
    for i in range(len_q):
        types_.append(%s)
    return (%s, %s)
''' % (code('vr = np.array(R, dtype=np.uint32)', R='refs'), nest %
       code('value1 = np.array(V, dtype=np.float64)\nfmi2SetReal(component, vr, len_q, value1)', V='ast.List(elts=values)'),
       code('enter_event_mode(component)\nnewDiscreteStates(component, q_a)\nenter_cont_mode(component)\n'
            'vr = np.array(R, dtype=np.uint32)\nvalue = np.zeros(len_q, dtype=np.float64)\ngetreal(component, vr, len_q, value)', R='refs'),
       code('carray(A, (1,), dtype=np.float64)[0] = value[I]', A='ast.Name(id="a_" + str(i))', I='ast.Constant(value=i)'),
       expr('types.float64'), expr('types.float64'), expr('types.voidptr'),
       FUNCTION % ("'event_callback_fun'", 'params', 'body', '[]'),
       code('event_ind_call = cfunc(types.void(*T))(event_callback_fun)', T='types_'))) for nest in ('[%s]', '%s')])
    gen(ctx, r, 'generate_event_action', '''
def generate_event_action(len_q, variables):
    body = []
    for i in range(len_q):
        body.append(%s)
    args = [ast.Name(id='t')]
    for k in range(len(variables)):
        args.append(%s)
    for i in range(len_q):
        args.append(%s)
    body.append(%s)
    elts = []
    for i in range(len_q):
        elts.append(%s)
    body.append(%s)
    body2 = [%s]
    for k in range(len(variables)):
        body2.append(%s)
    return (%s, %s)
''' % (code('carray(address_as_void_pointer(A), B.shape, dtype=np.float64)[0] = 0', A="ast.Name(id='a_e_ptr_' + str(i))", B="ast.Name(id='a_e_' + str(i))"),
       expr('y[K]', K='ast.Constant(value=k)'),
       expr('address_as_void_pointer(A)', A="ast.Name(id='a_e_ptr_' + str(i))"),
       code('event_ind_call(*A)', A='args'),
       expr('carray(address_as_void_pointer(A), (1,), dtype=np.float64)[0]', A="ast.Name(id='a_e_ptr_' + str(i))"),
       code('return E', E='ast.List(elts=elts)'),
       code('q = np.array(Q)\nvars = event_action(t, q)', Q='ast.List(elts=[%s for v in variables])' % expr('variables[V]', V='ast.Constant(value=v)')),
       code('variables[V] = vars[K]', V='ast.Constant(value=variables[k])', K='ast.Constant(value=k)'),
       FUNCTION % ("'event_action'", "[ast.arg(arg='t'), ast.arg(arg='y')]", 'body', "[ast.Name(id='njit')]"),
       FUNCTION % ("'event_action_2'", "[ast.arg(arg='t'), ast.arg(arg='variables')]", 'body2', '[]')))


def event(ctx, r):
    gen(ctx, r, 'generate_eval_event', [('''
def generate_eval_event(state_idx, len_q, var_order, event_id):
    params = [ast.arg(arg='event_indicators'), ast.arg(arg='t')]
    for k in state_idx:
        params.append(ast.arg(arg="y" + str(k)))
    refs = ast.List(elts=[ast.Constant(value=k) for k in var_order])
    values = [ast.Name(id="y" + str(i)) for i in range(len_q)]
    back = [%s for i in range(len_q)]
    types_ = [%s]
    for i in range(len_q):
        types_.append(%s)
    return (%s, %s)
''' % (expr('value[I]', I='ast.Constant(value=i)'), expr('types.voidptr') + ', ' + expr('types.float64'), expr('types.float64'),
       FUNCTION % ("'eval_event'", 'params', '[%s, %s, %s]' % (
           code('value_event = np.zeros(event_n, dtype=np.float64)\nvr = np.array(R, dtype=np.uint32)\n'
                'value = np.zeros(len_q, dtype=np.float64)\ngetreal(component, vr, len_q, value)', R='refs'),
           nest % code('value1 = np.array(V, dtype=np.float64)\nfmi2SetReal(component, vr, len_q, value1)', V='ast.List(elts=values)'),
           code('set_time(component, t)\nget_event_indicators(component, value_event, event_n)\n'
                'value2 = np.array(V, dtype=np.float64)\nfmi2SetReal(component, vr, len_q, value2)\n'
                'carray(event_indicators, (1,), dtype=np.float64)[0] = value_event[I]', V='ast.List(elts=back)',
                I='ast.Constant(value=event_id)')), '[]'),
       code('C = cfunc(types.void(*T))(eval_event)', T='types_', C="ast.Name(id='event_ind_call_' + str(event_id))"))) for nest in ('[%s]', '%s')])
    gen(ctx, r, 'generate_njit_event_cond', '''
def generate_njit_event_cond(states, id_, variables):
    args = [ast.Name(id='temp_addr'), ast.Name(id='t')]
    for k in range(len(variables)):
        args.append(%s)
    elts = [%s for v in variables]
    return (%s, %s)
''' % (expr('y[K]', K='ast.Constant(value=k)'), expr('variables[V]', V='ast.Constant(value=v)'),
       FUNCTION % ("'event_cond_inner_' + str(id_)", "[ast.arg(arg='t'), ast.arg(arg='y')]", '[%s]' % code(
           'temp_addr = address_as_void_pointer(c_ptr)\ncarray(temp_addr, (1,), dtype=np.float64)[0] = 0\nF(*A)\n'
           'result = carray(temp_addr, (1,), dtype=np.float64)[0]\nreturn result', F="ast.Name(id='event_ind_call_' + str(id_))", A='args'),
           "[ast.Name(id='njit')]"),
       FUNCTION % ("'event_cond_' + str(id_)", "[ast.arg(arg='t'), ast.arg(arg='variables')]", '[%s]' % code(
           'q = np.array(Q)\nreturn F(t, q)', Q='ast.List(elts=elts)', F="ast.Name(id='event_cond_inner_' + str(id_))"), '[]')))


def evaluation(ctx, r):
    gen(ctx, r, 'generate_eval_llvm', [("""
def generate_eval_llvm(assign_ptrs, output_args, states_idx, var_order, output_idx):
    params = [ast.arg(arg="event"), ast.arg(arg="term")]
    out = [x for t in output_args for x in t]
    for k in output_idx:
        for x in assign_ptrs[k]:
            out.append(x)
    for a in assign_ptrs:
        params.append(ast.arg(arg=a[1]))
    for a in assign_ptrs:
        if a[0] not in out:
            params.append(ast.arg(arg=a[0]))
    params.append(ast.arg(arg="t"))
    refs = ast.List(elts=[ast.Constant(value=k) for k in var_order])
    values = []
    for k in range(len(assign_ptrs)):
        if assign_ptrs[k][0] in out:
            values.append(%s)
        else:
            values.append(ast.Name(id=assign_ptrs[k][0]))
    states = [ast.Name(id=assign_ptrs[k][0]) for k in states_idx]
    body = [%s, %s]
    if len(states) > 0:
        body.append(%s)
        body.append(%s)
    body.append(%s)
    body.append(%s)
    body.append(%s)
    results = [%s for k in range(len(assign_ptrs))]
    types_ = [%s, %s]
    for a in assign_ptrs:
        types_.append(%s)
    for a in assign_ptrs:
        if a[0] not in out:
            types_.append(%s)
    types_.append(%s)
    return (%s, %s)
""" % (expr('value[K]', K='ast.Constant(value=k)'),
       code('vr = np.array(R, dtype=np.uint32)\nvalue = np.zeros(len_q, dtype=np.float64)\ngetreal(component, vr, len_q, value)', R='refs'),
       nest % code('value1 = np.array(V, dtype=np.float64)\nfmi2SetReal(component, vr, len_q, value1)', V='ast.List(elts=values)'),
       code('value3 = np.array(S, dtype=np.float64)', S='ast.List(elts=states)'),
       code('fmi2SetC(component, value3, N)', N='ast.Constant(value=len(states_idx))'),
       code('set_time(component, t)'), code('completedIntegratorStep(component, 1, event, term)'), code('getreal(component, vr, len_q, value)'),
       code('carray(A, (1,), dtype=np.float64)[0] = value[K]', A='ast.Name(id=assign_ptrs[k][1])', K='ast.Constant(value=k)'),
       expr('types.voidptr'), expr('types.voidptr'), expr('types.voidptr'), expr('types.float64'), expr('types.float64'),
       FUNCTION % ("'eval_llvm'", 'params', 'body + results', '[]'),
       code('equation_call = cfunc(types.void(*T))(eval_llvm)', T='types_'))) for nest in ('[%s]', '%s')])
    array = "carray(address_as_void_pointer(P), A.shape, dtype=A.dtype)[0]"
    gen(ctx, r, 'generate_fmu_eval', """
def generate_fmu_eval(input_args, zero_assign_ptrs, output_ptrs, parameters_return_idx, fmu_output_args):
    params = []
    for a in input_args:
        if a not in fmu_output_args:
            params.append(ast.arg(arg=a))
    params.append(ast.arg(arg="_time"))
    zeros = [%s for z in zero_assign_ptrs]
    args = [%s, %s]
    for z in zero_assign_ptrs:
        args.append(%s)
    for a in input_args:
        if a not in fmu_output_args:
            args.append(ast.Name(id=a))
    args.append(ast.Name(id="_time"))
    results = []
    for z in output_ptrs:
        results.append(%s)
    for k in parameters_return_idx:
        results.append(%s)
    back = []
    if len(results) > 1:
        back = [%s]
    if len(results) == 1:
        back = [%s]
    return %s
""" % (code(array + ' = 0', P='ast.Name(id=z[0])', A='ast.Name(id=z[1])'),
       expr('address_as_void_pointer(event_1_ptr)'), expr('address_as_void_pointer(term_1_ptr)'),
       expr('address_as_void_pointer(P)', P='ast.Name(id=z[0])'),
       expr(array, P='ast.Name(id=z[0])', A='ast.Name(id=z[1])'),
       expr(array, P='ast.Name(id=zero_assign_ptrs[k][0])', A='ast.Name(id=zero_assign_ptrs[k][1])'),
       code('return R', R='ast.Tuple(elts=results)'), code('return R', R='results[0]'),
       FUNCTION % ("'fmu_eval'", 'params', 'zeros + [%s] + back' % code('equation_call(*A)', A='args'), '[%s]' % expr('NumerousFunction()'))))
    gen(ctx, r, 'generate_eq_call', """
def generate_eq_call(deriv_names, var_names, input_names, output_names, params_names):
    elts = []
    for d in deriv_names:
        elts.append(%s)
    for d in params_names:
        if d not in input_names:
            elts.append(%s)
    if len(elts) > 1:
        targets = [ast.Tuple(elts=elts)]
    else:
        targets = [elts[0]]
    args = []
    for v in var_names:
        if v not in output_names:
            args.append(%s)
    args.append(%s)
    return ast.Module(body=[%s])
""" % (expr('scope.D', D='d'), expr('scope.D', D='d'), expr('scope.V', V='v'), "ast.Attribute(value=ast.Name(id='scope'), attr='global_vars.t')",
       FUNCTION % ("'eval'", "[ast.arg(arg='self'), ast.arg(arg='scope')]",
                   '[ast.Assign(targets=targets, value=%s)]' % expr('self.fmu_eval(*A)', A='args'), '[%s]' % expr('Equation()'))))


CALLS = (('fmi2GetReal', 'c, vr, n, v', 'c, vr.ctypes, n, v.ctypes'), ('fmi2SetTime', 'c, t', 'c, t'),
         ('fmi2SetContinuousStates', 'c, v, n', 'c, v.ctypes, n'), ('fmi2SetReal', 'c, vr, n, v', 'c, vr.ctypes, n, v.ctypes'),
         ('fmi2CompletedIntegratorStep', 'c, i, e, m', 'c, i, e, m'), ('fmi2GetEventIndicators', 'c, v, n', 'c, v.ctypes, n'),
         ('fmi2EnterEventMode', 'c', 'c'), ('fmi2EnterContinuousTimeMode', 'c', 'c'), ('fmi2NewDiscreteStates', 'c, q', 'c, q'))


def wrappers(ctx, r):
    """what get_fmu_functions returns at position i calls FMI function i with its arguments, with and without logging"""
    params = 'self, fmu, logging, c, vr, n, v, t, i, e, m, q'
    for k, (name, args, passed) in enumerate(CALLS):
        compare(ctx, r, 'get_fmu_functions', """
def drive(%s):
    getattr(fmu.dll, '%s')(%s)
""" % (params, name, passed), drive="""
def drive(%s):
    fs = get_fmu_functions(fmu, logging)
    fs[%d](%s)
""" % (params, k, args), ignore={('call', 'print'), ('call', 'str'), ('call', 'int'), ('call', 'pow'), ('store', 'argtypes'), ('store', 'restype')},
                result=False, what='%s of the functions of an FMU' % name)
    p, d = 'ctypes.c_void_p', 'ctypes.c_double'
    types = {'fmi2SetTime': [p, d], 'fmi2SetContinuousStates': [p] * 3, 'fmi2GetEventIndicators': [p] * 3, 'fmi2EnterEventMode': [p],
             'fmi2EnterContinuousTimeMode': [p], 'fmi2NewDiscreteStates': [p] * 2}
    compare(ctx, r, 'get_fmu_functions', 'def get_fmu_functions(fmu, fmu_logging):\n' + ''.join(
        "    getattr(fmu.dll, '%s').argtypes = [%s]\n" % (n, ', '.join(types.get(n, [p] * 4))) for n, _, _ in CALLS),
        watch={('store', 'argtypes')}, result=False, what='argument types of the functions of an FMU')


GENERATORS = ('generate_eval_llvm', 'generate_fmu_eval', 'generate_eval_event', 'generate_njit_event_cond', 'generate_action_event',
              'generate_event_action', 'generate_eq_call')
LEAVES = GENERATORS + ('get_fmu_functions', 'Subsystem.__init__', 'set_variables', 'create_namespace', 'add_equations', 'add_event',
                       'ExternalMappingUnpacked.__init__')


def model_only(trace):
    """an FMU instance and a compiled syntax tree are told apart by what they are made of, not by file names"""
    trace.drop = dict(DROP, FMU2Model=(0, ('guid', 'unzipDirectory', 'instanceName', 'fmiCallLogger', 'modelIdentifier')),
                      compile=(1, ('filename', 'mode')), read_model_description=(1, ('validate',)))


START = """
def __init__(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    md = read_model_description(fmu_filename)
    used = self.set_variables(md)
    fmu = FMU2Model()
    getreal, set_time, fmi2SetC, fmi2SetReal, completedIntegratorStep, get_event_indicators, enter_event_mode, enter_cont_mode, newDiscreteStates = get_fmu_functions(fmu, fmu_logging=fmu_logging)
    component = fmu.component
    len_q = len(used)
    event_n = md.numberOfEventIndicators
    var_order = [x.valueReference for x in md.modelVariables if x.valueReference in used and (x.type != "String" and x.type != "Boolean")]
    deriv_idx = []
    states_idx = []
    states = []
    plain = []
    full = []
    derivs = []
    inputs = []
    input_idx = []
    outputs = []
    output_idx = []
    for v in md.modelVariables:
        if v.valueReference in used and v.type != 'String' and v.type != 'Boolean':
            if v.derivative:
                deriv_idx.append(used.index(v.valueReference))
                states_idx.append(used.index([x.valueReference for x in md.modelVariables if x.name == v.derivative.name][0]))
                full.append('t1.' + _replace_name_str(v.derivative.name) + '_dot')
                derivs.append(_replace_name_str(v.derivative.name) + '_dot')
                states.append('t1.' + _replace_name_str(v.derivative.name))
            else:
                full.append('t1.' + _replace_name_str(v.name))
                plain.append(_replace_name_str(v.name))
            if v.valueReference in self.input_ref:
                inputs.append(_replace_name_str(v.name))
            if v.valueReference in self.output_ref:
                output_idx.append(used.index(v.valueReference))
                outputs.append(_replace_name_str(v.name))
"""


ORDER = ('instantiate', 'setupExperiment', 'apply_start_values', 'enterInitializationMode', 'apply', 'exitInitializationMode',
         'enterContinuousTimeMode')


def buffers(ctx, r, init):
    """a list of buffers, or of their addresses, has one buffer per entry"""
    evs = ctx.trace(init, LEAVES).events
    made = {e.result: e for e in evs if e.kind == 'call' and isinstance(e.result, tuple) and e.result[:1] == ('call',)
            and e.result[1] in ('numpy.array', 'numpy.zeros', 'numpy.empty', 'numpy.ones')}
    for e in evs:
        if e.kind != 'append':
            continue
        for b in [m for t, m in made.items() if contains(e.value, lambda x: x == t)]:
            ctx.check(set(e.loops) <= set(b.loops), r, init + ': every entry has a buffer of its own', e.where(),
                      init + ': all entries share one buffer, made before the loop')


def assembled(ctx, r):
    init = 'FMU_Subsystem.__init__'
    kw = dict(opaque=LEAVES, prep=model_only, result=False, inline=('_replace_name_str',),
              ignore={('call', n) for n in ('unparse', 'parse', 'compile', 'Module', 'print')})
    compare(ctx, r, init, START + """
    names = []
    ptrs = []
    arrays = []
    addresses = []
    for i in range(len_q):
        names.append(("a_i_" + str(i), "a" + str(i)))
        ptrs.append(("a" + str(i) + "_ptr", "a" + str(i)))
        a = np.array([0], dtype=np.float64)
        arrays.append(a)
        addresses.append(a.ctypes.data)
    tree, call = generate_eval_llvm(names, [names[i] for i in deriv_idx], states_idx, var_order, output_idx)
    space = {"carray": carray, "cfunc": cfunc, "types": types, "np": np, "len_q": len_q, "getreal": getreal, "component": component, "fmi2SetReal": fmi2SetReal, "set_time": set_time, "fmi2SetC": fmi2SetC, "completedIntegratorStep": completedIntegratorStep}
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[tree, call])))), space)
    equation_call = space["equation_call"]
    tree = generate_fmu_eval(plain, ptrs, [ptrs[i] for i in deriv_idx], output_idx, outputs)
    term = np.array([0], dtype=np.int32)
    event = np.array([0], dtype=np.int32)
    space = {"NumerousFunction": NumerousFunction, "carray": carray, "address_as_void_pointer": address_as_void_pointer, "equation_call": equation_call, "event_1_ptr": event.ctypes.data, "term_1_ptr": term.ctypes.data}
    for i in range(len_q):
        space.update({"a" + str(i): arrays[i]})
        space.update({"a" + str(i) + "_ptr": addresses[i]})
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[tree])))), space)
    self.fmu_eval = space["fmu_eval"]
    known = [y.split(".")[1] for y in states]
    if len(derivs) > 0:
        tree = generate_eq_call(derivs, plain, inputs, outputs, [x for x in plain if x not in known])
        space = {"Equation": Equation}
        exec(compile(ast.parse(ast.unparse(tree))), space)
        eq = space["eval"]
        eq.lines = ast.unparse(tree)
        eq.lineno = ast.parse(ast.unparse(tree)).body[0].lineno
        self.eval = ptypes.MethodType(eq, self)
        self.equations.append(self.eval)
    cond = []
    wrapped = []
    self._c_ptrs_a = []
    for _ in range(event_n):
        self._c_ptrs_a.append(np.zeros(shape=event_n))
    for i in range(event_n):
        tree, call = generate_eval_event(range(len_q), len_q, var_order, event_id=i)
        space = {"carray": carray, "event_n": event_n, "cfunc": cfunc, "types": types, "np": np, "len_q": len_q, "getreal": getreal, "completedIntegratorStep": completedIntegratorStep, "component": component, "fmi2SetReal": fmi2SetReal, "set_time": set_time, "get_event_indicators": get_event_indicators}
        exec(compile(ast.parse(ast.unparse(ast.Module(body=[tree, call])))), space)
        f1, f2 = generate_njit_event_cond(states, i, full)
        space2 = {"carray": carray, "event_n": event_n, "cfunc": cfunc, "types": types, "np": np, "event_ind_call_" + str(i): space["event_ind_call_" + str(i)], "c_ptr": self._c_ptrs_a[i].ctypes.data, "completedIntegratorStep": completedIntegratorStep, "component": component, "fmi2SetReal": fmi2SetReal, "set_time": set_time, "njit": njit, "address_as_void_pointer": address_as_void_pointer}
        exec(compile(ast.parse(ast.unparse(ast.Module(body=[f1, f2])))), space2)
        cond.append(space2["event_cond_inner_" + str(i)])
        f = space2["event_cond_" + str(i)]
        f.lines = ast.unparse(ast.Module(body=[f2]))
        wrapped.append(f)
    class EventInfo:
        pass
    info = EventInfo()
    tree, call = generate_action_event(len_q, var_order)
    space = {"carray": carray, "event_n": event_n, "cfunc": cfunc, "types": types, "np": np, "len_q": len_q, "getreal": getreal, "q_a": ctypes.addressof(info), "completedIntegratorStep": completedIntegratorStep, "component": component, "enter_event_mode": enter_event_mode, "set_time": set_time, "get_event_indicators": get_event_indicators, "newDiscreteStates": newDiscreteStates, "enter_cont_mode": enter_cont_mode, "fmi2SetReal": fmi2SetReal}
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[tree, call])))), space)
    event_ind_call = space["event_ind_call"]
    tree, tree2 = generate_event_action(len_q, full)
    space = {"carray": carray, "event_n": event_n, "cfunc": cfunc, "types": types, "np": np, "len_q": len_q, "component": component, "enter_event_mode": enter_event_mode, "set_time": set_time, "get_event_indicators": get_event_indicators, "event_ind_call": event_ind_call, "njit": njit, "completedIntegratorStep": completedIntegratorStep, "address_as_void_pointer": address_as_void_pointer}
    arrays = []
    addresses = []
    for i in range(len_q):
        a = np.array([0], dtype=np.float64)
        arrays.append(a)
        addresses.append(a.ctypes.data)
    for i in range(len_q):
        space.update({"a_e_" + str(i): arrays[i]})
        space.update({"a_e_ptr_" + str(i): addresses[i]})
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[tree, tree2])))), space)
    act = space["event_action_2"]
    act.lines = ast.unparse(ast.Module(body=[tree2]))
    for i in range(event_n):
        self.add_event("event_" + str(i), wrapped[i], act, compiled_functions={"event_cond_inner_" + str(i): cond[i], "event_action": space["event_action"]}, direction=0)
""", watch={('call', n) for n in GENERATORS + ('add_event', 'exec', 'get_fmu_functions')} | {('store', '_c_ptrs_a'), ('append', '_c_ptrs_a'), ('store', 'lines')} |
                {('store', 'fmu_eval'), ('store', 'eval'), ('append', 'equations')}, what='FMU_Subsystem', **kw)
    buffers(ctx, r, init)
    compare(ctx, r, init, """
def __init__(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    md = read_model_description(fmu_filename)
    fmu = FMU2Model()
    self.fmu = fmu
    fmu.instantiate(visible=False, callbacks=fmi2CallbackFunctions(), loggingOn=False)
    fmu.setupExperiment(startTime=float(0.0), stopTime=float(float(0.0) + 0.1))
    apply_start_values(fmu, md, {}, False)
    fmu.enterInitializationMode()
    Input(fmu, md, None).apply(float(0.0))
    fmu.exitInitializationMode()
    fmu.enterContinuousTimeMode()
""", watch={('call', n) for n in ORDER} | {('store', 'fmu')},
            seq=tuple(zip(ORDER, ORDER[1:])), what='FMU_Subsystem (modes)', **kw)
    compare(ctx, r, init, """
def __init__(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    self.import_all = import_all
    self.fmu_input = pandas.read_csv(fmu_in) if fmu_in is not None else None
    self.dataframe_aliases = {}
    used = self.set_variables(read_model_description(fmu_filename))
    self.value_ref_used = used
    ns = self.create_namespace('t1')
    self.t1 = ns
    ns.add_equations([self])
    self.run_after_solve = ['fmi2Terminate_', 'fmi2FreeInstance_']
""", watch={('store', n) for n in ('import_all', 'fmu_input', 'dataframe_aliases', 'value_ref_used', 't1', 'run_after_solve')} |
                {('call', n) for n in ('set_variables', 'create_namespace', 'add_equations')},
            seq=(('import_all', 'set_variables'), ('fmu_input', 'set_variables'), ('dataframe_aliases', 'set_variables'),
                 ('set_variables', 'create_namespace'), ('create_namespace', 'add_equations')), what='FMU_Subsystem (variables)', **kw)
    for k, name in (('fmi2Terminate_', 'fmi2Terminate'), ('fmi2FreeInstance_', 'fmi2FreeInstance')):
        compare(ctx, r, init, """
def drive(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    fmu = FMU2Model()
    getattr(fmu.dll, '%s')(fmu.component)
""" % name, drive="""
def drive(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    self.__init__(fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging)
    self.%s()
""" % k, watch={('call', name)}, what='FMU_Subsystem (%s)' % name, **kw)


def declared(ctx, r):
    compare(ctx, r, '_replace_name_str', """
def _replace_name_str(str_v):
    return str_v.replace('.', '_').replace('[', '_').replace(']', '_').replace(',', '_')
""")
    compare(ctx, r, 'FMU_Subsystem.set_variables', """
def set_variables(self, md):
    states = []
    derivs = []
    names = []
    for v in md.modelVariables:
        if v.derivative:
            derivs.append(v)
            names.append(_replace_name_str(v.derivative.name))
            states.append(v.derivative)
    used = []
    ins = []
    outs = []
    for v in md.modelVariables:
        if v.type != 'String' and v.type != 'Boolean':
            wanted = self.import_all or v.causality == 'input' or v.causality == 'output'
            if v in states:
                used.append(v.valueReference)
                self.add_state(_replace_name_str(v.name), float(v.start if v.start else 0), create_derivative=False)
            elif v in derivs:
                used.append(v.valueReference)
                self.add_derivative(names[derivs.index(v)])
            elif v.initial == 'exact':
                if v.variability == 'fixed' and wanted:
                    used.append(v.valueReference)
                    if v.start == 'DISABLED':
                        self.add_constant(_replace_name_str(v.name), 0.0)
                    elif isinstance(v.start, bool):
                        self.add_constant(_replace_name_str(v.name), int(v.start is True))
                    else:
                        self.add_constant(_replace_name_str(v.name), float(v.start))
                if v.variability == 'discrete' and wanted and v.start == 'false':
                    used.append(v.valueReference)
                    self.add_parameter(_replace_name_str(v.name), 0.0)
                if v.variability == 'discrete' and wanted and v.start == 'true':
                    used.append(v.valueReference)
                    self.add_parameter(_replace_name_str(v.name), 1.0)
                if v.variability == 'tunable' and wanted:
                    used.append(v.valueReference)
                    self.add_parameter(_replace_name_str(v.name), float(v.start))
            elif not v.derivative and wanted:
                used.append(v.valueReference)
                if v.causality == 'input':
                    ins.append(v.valueReference)
                if v.causality == 'output':
                    outs.append(v.valueReference)
                self.add_parameter(_replace_name_str(v.name), 0.0)
    for v in md.modelVariables:
        if v.causality == 'input':
            if v.variability == 'discrete':
                self.dataframe_aliases[v.name] = (v.name, InterpolationType.PIESEWISE)
            else:
                self.dataframe_aliases[v.name] = (v.name, InterpolationType.LINEAR)
    if self.fmu_input is None:
        self.external_mappings = None
    else:
        self.external_mappings = ExternalMappingUnpacked([ExternalMappingElement("inmemory", 'time', 0, 1, self.dataframe_aliases)],
                                                         InMemoryDataLoader(self.fmu_input))
    self.input_ref = ins
    self.output_ref = outs
    return used
""", opaque=('add_state', 'add_derivative', 'add_constant', 'add_parameter', 'ExternalMappingUnpacked.__init__',
             'InMemoryDataLoader.__init__', 'ExternalMappingElement.__init__'), inline=('_replace_name_str',))
    compare(ctx, r, 'FMU_Subsystem.__init__', """
def __init__(self, fmu_filename, tag, fmu_in, debug_output, import_all, fmu_logging):
    fmu = FMU2Model()
    getattr(fmu.dll, 'fmi2Terminate').argtypes = [ctypes.c_void_p]
    getattr(fmu.dll, 'fmi2FreeInstance').argtypes = [ctypes.c_void_p]
""", watch={('store', 'argtypes')}, what='FMU_Subsystem (argument types)', opaque=LEAVES, prep=model_only, result=False)
