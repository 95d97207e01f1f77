"""From equations to the kernel: code builders, generator, translation of equations, mapping sums, order of evaluation."""
from ..effects import Side
from ..spec import compare

# instructions; the arguments beyond these only label the result
LABELS = {'gep': (2, ('name',)), 'load': (1, ('name',)), 'alloca': (1, ('name',)), 'phi': (1, ('name',)),
          'fadd': (2, ('name',)), 'add': (2, ('name',)), 'icmp_unsigned': (3, ('name',)), 'icmp_signed': (3, ('name',))}
EMIT = set(LABELS) | {'store', 'call', 'branch', 'cbranch', 'ret', 'ret_void'}


def blocks(trace):
    """the basic block an instruction is emitted to becomes an argument of the instruction"""
    trace.drop = LABELS
    cur, last = {}, {}
    for e in trace.events:
        if e.kind != 'call':
            continue
        if e.name == 'position_at_end' and e.args:
            b, t = e.base, e.args[0]
            if t == ('attr', b, 'block') or t[:1] == ('attr',) and t[2] == 'block':
                cur[b], last[b] = last.get(b), cur.get(b)
            else:
                last[b], cur[b] = cur.get(b), t
        elif e.name in EMIT and e.base is not None:
            t = cur.get(e.base) or ('attr', e.base, 'block')
            e.kwargs = dict(e.kwargs)
            e.kwargs['in_block'] = t


def ir(ctx, rule, entry, src, **kw):
    kw['ignore'] = set(kw.get('ignore', ())) | {('call', n) for n in LEAF - set(kw.pop('keep', ()))}
    compare(ctx, rule, entry, src, prep=blocks, **kw)


LEAF = {'position_at_end', 'gep', 'phi', 'alloca', 'IntType', '()', 'append_basic_block', 'DoubleType',
        'FunctionType', 'as_pointer', 'ArrayType', 'icmp_unsigned', 'fadd'}


def C03(ctx):
    """Instructions emitted by the native builder and statements made by the Python builder, per operation of the
    generator, with the basic block, slot and operands of each."""
    native(ctx)
    python(ctx)
    generator(ctx)


GRAPH = ('get_edges_type_for_node_filter', 'recurse_Attribute', 'search_in_item_scope', 'search_in_set_scope',
         'is_contiguous', 'add_call', 'add_set_call', 'add_mapping', 'd_u', 'get_external_function_name',
         'topological_nodes', 'clean', '_parse_equations', '_parse_variables', '_sort_derivatives', 'LLVMBuilder.__init__',
         'ASTBuilder.__init__', 'generate', '_process_equation_node', '_process_sum_node')


def generator(ctx):
    r = 'generator'
    compare(ctx, r, 'EquationGenerator.__init__', """
def __init__(self, scope_variables, equations, temporary_variables, use_llvm):
    states = []
    deriv = []
    for v in scope_variables.values():
        if v.type == VariableType.STATE:
            states.append(d_u(v.id))
        elif v.type == VariableType.DERIVATIVE:
            deriv.append(d_u(v.id))
    self._parse_variables()
    THEN()
    if use_llvm:
        self.llvm = True
        self.generated_program = LLVMBuilder(ANY, {}, {}, states, deriv, system_tag=ANY)
    else:
        self.llvm = False
        self.generated_program = ASTBuilder(ANY, {}, {}, states, deriv, system_tag=ANY)
    THEN()
    self._parse_equations(ANY)
""", opaque=GRAPH, raises=False, result=False, ignore={('call', 'ascontiguousarray'), ('call', 'd_u'), ('store', 'llvm')})
    start_values(ctx, r)
    equation_call(ctx, r)
    slots(ctx, r)
    equations(ctx, r)
    evaluation(ctx, r)


def start_values(ctx, r):
    """the start values are the values of the variables with a slot, in the order the slots are given out"""
    t = ctx.trace('EquationGenerator.__init__', opaque=GRAPH)
    side = Side(t, ctx.w)
    ev = {n: [(i, e) for i, e in enumerate(t.events) if e.kind == k and e.name == n and (k == 'call' or e.base == ('param', 'self'))]
          for n, k in (('_parse_variables', 'call'), ('scope_variables', 'store'), ('ascontiguousarray', 'call'))}
    where = 'EquationGenerator.__init__'
    if not ev['_parse_variables'] or not ev['ascontiguousarray']:
        return ctx.unknown(r, 'where the start values are collected')
    ctx.check(not ev['scope_variables'] or ev['scope_variables'][-1][0] < ev['_parse_variables'][0][0], r,
              'slots are given out after all temporaries have taken their place', where)
    for _, e in ev['ascontiguousarray']:
        x = side.canon(e.args[0], {}, t.contents)
        seg = x[2] if x[:1] == ('newc',) else ()
        if len(seg) != 1 or seg[0][0] != 'item' or len(seg[0][2]) != 1 or seg[0][3][0] != 'attr':
            ctx.unknown(r, 'how the start values are collected')
            continue
        g, ((coll, stop, _),), v = seg[0][1:4]
        el = ('item', coll, ('elem', coll, ('c', 1, 0)))
        if v[1] != el:
            ctx.unknown(r, 'which variables the start values are taken from')
            continue
        I = t.interp
        ctx.check(v[2] == 'value', r, 'a start value is the value of its variable', where)
        ctx.check(not stop and g == I.B.not_(I.cond(('attr', el, 'global_var'))), r,
                  'every variable but the globals has a start value', where)
        ctx.check(coll != ('param', 'scope_variables'), r, 'temporaries have start values', where)


def slots(ctx, r):
    given_slots(ctx, r)
    set_slots(ctx, r)


def given_slots(ctx, r):
    compare(ctx, r, 'EquationGenerator._parse_variables', """
def _parse_variables(self):
    skipped = 0
    for ix, v in enumerate(self.scope_variables.values()):
        if v.global_var:
            self.global_variables[d_u(v.id)] = v.global_var_idx
            skipped += 1
        else:
            self.values_order[d_u(v.id)] = ix - skipped
""", opaque=('_parse_variable', 'd_u'), ignore={('call', '_parse_variable'), ('call', 'd_u')})


def set_slots(ctx, r):
    # every variable of the scope and every temporary one
    compare(ctx, r, 'EquationGenerator._parse_variables', """
def _parse_variables(self):
    for v in self.scope_variables.values():
        self._parse_variable(d_u(v.id), v)
    for v in self.temporary_variables.values():
        self._parse_variable(d_u(v.id), v)
""", opaque=('_parse_variable', 'd_u'), watch={('call', '_parse_variable')})
    compare(ctx, r, 'EquationGenerator._parse_variable', """
def _parse_variable(self, full_tag, sv):
    if sv.set_var:
        if sv.set_var.id not in self.set_variables:
            self.set_variables[sv.set_var.id] = sv.set_var
    else:
        self.scalar_variables[full_tag] = sv
""")
    compare(ctx, r, 'EquationGenerator.is_contiguous', """
def is_contiguous(self, set_args):
    if any(a.is_global_var for row in set_args for a in row):
        return False
    slots = [self.values_order[a.name] for row in set_args for a in row]
    return slots == list(range(slots[0], slots[0] + len(slots)))
""")
    compare(ctx, r, 'EquationGenerator.search_in_set_scope', """
def search_in_set_scope(self, set_var_id, scope_vars):
    used = next(self.set_variables[v] for v in scope_vars.values() if v in self.set_variables)
    first = (used.set_var if used.id in self.temporary_variables else used).get_var_by_idx(0)
    for k, v in self.set_variables.items():
        if k not in self.temporary_variables:
            x = v.get_var_by_idx(0)
            if v.tag == self.set_variables[set_var_id].tag and x.item is first.item and x.namespace is first.namespace:
                return k
    raise ValueError()
""", opaque=('get_var_by_idx',), ignore={('call', 'get_var_by_idx'), ('call', 'next'), ('call', 'iter')})


def equations(ctx, r):
    LEAVES = ('compiled_function_from_graph_generic_llvm', 'function_from_graph_generic', 'add_external_function', 'Vardef.__init__')
    compare(ctx, r, 'EquationGenerator._parse_equations', """
def _parse_equations(self, equations):
    for key, eq in equations.items():
        vardef = Vardef(key, llvm=self.llvm)
        if self.llvm:
            out = compiled_function_from_graph_generic_llvm(eq.graph, imports=self.imports, var_def_=vardef,
                                                            compiled_function=True, replacements=eq.replacements, replace_name=key)
            names = self.generated_program.add_external_function(out[0], out[1], len(out[2]), out[3],
                                                                 replacements=eq.replacements, replace_name=key)
            self.llvm_names.update(names)
            vardef.llvm_target_ids = out[3]
            vardef.args_order = out[2]
        else:
            out = function_from_graph_generic(eq.graph, var_def_=vardef, arg_metadata=eq.graph.arg_metadata,
                                              replacements=eq.replacements, replace_name=key)
            self.generated_program.add_external_function(out[0], None, len(out[1]), out[2],
                                                         replacements=eq.replacements, replace_name=key)
            vardef.llvm_target_ids = out[2]
            vardef.args_order = out[1]
        self.eq_vardefs[key] = vardef
""", opaque=LEAVES, ignore={('store', 'lower_graph'), ('call', 'info')})
    compare(ctx, r, 'EquationGenerator.get_external_function_name', """
def get_external_function_name(self, ext_func):
    if self.llvm:
        return self.llvm_names[ext_func + '_llvm1.<locals>.' + ext_func + '_llvm']
    return ext_func
""")


def evaluation(ctx, r):
    KIND = ('_process_equation_node', '_process_sum_node', 'generate')
    compare(ctx, r, 'EquationGenerator.generate_equations', """
def generate_equations(self, export_model, clonable):
    for n in self.topo_sorted_nodes:
        kind = self.equation_graph.nodes[n].node_type
        if kind == NodeTypes.EQUATION:
            self._process_equation_node(n)
        elif kind == NodeTypes.SUM:
            self._process_sum_node(n)
        elif kind != NodeTypes.VAR and kind != NodeTypes.TMP:
            raise ValueError()
    THEN()
    if self.llvm:
        out = self.generated_program.generate(imports=self.imports, system_tag=ANY, save_to_file=ANY)
    else:
        out = self.generated_program.generate(self.imports, system_tag=ANY, save_to_file=ANY)
    return out[0], out[1], out[2], self.values_order, self.scope_variables, \
        np.array([self.values_order[k] for k in self.states], dtype=np.int64), \
        np.array([self.values_order[k] for k in self.deriv], dtype=np.int64)
""", opaque=KIND, ignore={('call', 'info')})


def equation_call(ctx, r):
    OTHER = '''        if v.global_var:
            return var_id
'''
    OWN = '''        if not v.global_var and v.item.id == item_id and v.tag == self.scope_variables[var_id].tag:
            return v.id
'''
    compare(ctx, r, 'EquationGenerator.search_in_item_scope', ["""
def search_in_item_scope(self, var_id, item_id):
    for v in self.scope_variables.values():
%s%s    raise ValueError()
""" % x for x in ((OWN, OTHER), (OTHER, OWN))])
    compare(ctx, r, 'EquationGenerator._process_equation_node', """
def _process_equation_node(self, n):
    g = self.equation_graph
    node = g.nodes[n]
    vardef = self.eq_vardefs[node.name]
    f = self.get_external_function_name(recurse_Attribute(node.func))
    a = g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.ARGUMENT)
    t = g.get_edges_type_for_node_filter(start_node=n, val=EdgeType.TARGET)
    ai, ae, ti, te = a[0], a[1], t[0], t[1]
    local = [g.edges_c[i].arg_local for i, e in zip(ai, ae) if not g.edges_c[i].is_local] \
        + [g.edges_c[i].arg_local for i, e in zip(ti, te) if not g.edges_c[i].is_local]
    where = [g.key_map[e[0]] for i, e in zip(ai, ae) if not g.edges_c[i].is_local] \
        + [g.key_map[e[1]] for i, e in zip(ti, te) if not g.edges_c[i].is_local]
    if node.vectorized:
        found = {'scope.' + (self.set_variables if k in self.set_variables else self.scope_variables)[k].tag: v for k, v in zip(local, where)}
        size = next(self.set_variables[v] for v in found.values() if v in self.set_variables).get_size()
        rows = []
        for t in vardef.args_order:
            if t.is_global_var:
                rows.append([VariableArgument(d_u(found.get(t.name, t.name)), True)] * size)
            else:
                row = []
                sv = self.set_variables[found[t[0]] if t[0] in found else self.search_in_set_scope(t[0], found)]
                for i in range(sv.get_size()):
                    row.append(VariableArgument(sv.get_var_by_idx(i).id, False))
                rows.append(row)
        items = [list(x) for x in zip(*rows)]
        if self.is_contiguous(items):
            self.generated_program.add_set_call(f, [[a.name for a in item] for item in items], vardef.llvm_target_ids)
        else:
            for item in items:
                self.generated_program.add_call(f, item, vardef.llvm_target_ids)
    else:
        where_ = {'scope.' + self.scope_variables[k].tag: v for k, v in zip(local, where)}
        args = []
        for a in vardef.args_order:
            if a.name in where_:
                args.append(VariableArgument(d_u(where_[a.name]), a.is_global_var))
            else:
                args.append(VariableArgument(self.search_in_item_scope(a.name, node.item_id), a.is_global_var))
        self.generated_program.add_call(f, args, vardef.llvm_target_ids)
""", opaque=GRAPH, ignore={('call', n) for n in GRAPH + ('VariableArgument', 'get_size', 'get_var_by_idx', '()')} - {
        ('call', 'add_call'), ('call', 'add_set_call')}, raises=False)


SLOT = 'ANY'
POINTER = """
        if %(n)s not in self.values:
            self.values[%(n)s] = self.builder.gep(self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[%(n)s])])
"""


def native_start(ctx, r):
    ir(ctx, r, 'LLVMBuilder.__init__', """
def __init__(self, initial_values, variable_names, global_names, states, derivatives):
    self.module = ll.Module()
    self.ext_funcs = {}
    self.states = states
    self.derivatives = derivatives
    self.n_deriv = len(derivatives)
    t = ll.FunctionType(ll.DoubleType().as_pointer(), [ll.DoubleType().as_pointer(), ll.DoubleType().as_pointer()])
    self.global_names = global_names
    self.variable_names = {}
    for k, v in variable_names.items():
        self.variable_names[k] = v
        self.variable_names[v] = k
    self.max_var = initial_values.shape[0]
    self.model_variables = ll.GlobalVariable(self.module, ll.ArrayType(ll.DoubleType(), initial_values.shape[0]), 'model_var')
    self.model_variables.initializer = ll.Constant(ll.ArrayType(ll.DoubleType(), initial_values.shape[0]),
                                                   [float(v) for v in initial_values])
    self.deriv_global = ll.GlobalVariable(self.module, ll.ArrayType(ll.DoubleType(), len(derivatives)), 'derivatives')
    self.func = ll.Function(self.module, t, name="kernel")
    self.bb_entry = self.func.append_basic_block(name='entry')
    self.bb_loop = self.func.append_basic_block(name='main')
    self.bb_store = self.func.append_basic_block(name='store')
    self.bb_exit = self.func.append_basic_block(name='exit')
    self.builder = ll.IRBuilder()
    self.index0 = ll.IntType(64)(0)
    self.loopcount = 0
    self.values = {}
    self.builder.position_at_end(self.bb_entry)
    for i, s in enumerate(states):
        self.values[s] = self.builder.gep(self.func.args[0], [ll.IntType(64)(i)])
    for i, g in enumerate(global_names.keys()):
        p = self.builder.gep(self.func.args[1], [ll.IntType(64)(i)])
        self.values[g] = p
        self.builder.store(self.builder.load(p), p)
    for s in states:
        self.builder.store(self.builder.load(self.values[s]), self.builder.gep(self.model_variables, [
            ll.IntType(64)(0), ll.IntType(64)(self.variable_names[s])]))
    self.builder.position_at_end(self.bb_store)
    for s in states:
        self.builder.store(self.builder.load(self.values[s]), self.builder.gep(self.model_variables, [
            ll.IntType(64)(0), ll.IntType(64)(self.variable_names[s])]))
    self.builder.position_at_end(self.bb_entry)
    self.builder.branch(self.bb_loop)
""", ignore={('store', 'builder'), ('call', 'GlobalVariable'), ('call', 'Constant')}, extra_ok={('store', 'initializer')})


def native_call(ctx, r):
    ir(ctx, r, 'LLVMBuilder.add_call', """
def add_call(self, external_function_name, args, target_ids):
    self.builder.position_at_end(self.bb_loop)
    ps = []
    for i, a in enumerate(args):
        if i in target_ids:
            if a.name not in self.values:
                self.values[a.name] = self.builder.gep(
                    self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[a.name])])
            ps.append(self.values[a.name])
        else:
            if a.name not in self.values:
                if a.is_global_var:
                    self.values[a.name] = self.builder.gep(
                        self.global_variables, [self.index0, ll.IntType(64)(self.global_names[a.name])])
                else:
                    self.values[a.name] = self.builder.gep(
                        self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[a.name])])
            ps.append(self.builder.load(self.values[a.name]))
    self.builder.call(self.ext_funcs[external_function_name], ps)
""")



def native_set_call(ctx, r):
    ir(ctx, r, 'LLVMBuilder.add_set_call', """
def add_set_call(self, external_function_name, variable_name_arg_and_trg, targets_ids):
    b = self.builder
    v = variable_name_arg_and_trg
    n = str(self.loopcount)
    b.position_at_end(self.bb_loop)
    at = b.alloca(ll.IntType(64))
    b.store(ll.IntType(64)(self.variable_names[v[0][0]] - 1), at)
    cond = self.func.append_basic_block(name='for' + n + '.cond')
    b.branch(cond)
    b.position_at_end(cond)
    i = b.phi(ll.IntType(64))
    body = self.func.append_basic_block(name='for' + n + '.body')
    b.position_at_end(body)
    args = []
    for k in range(len(v[0])):
        b.store(b.add(b.load(at), ll.IntType(64)(1)), at)
        p = b.gep(self.model_variables, [self.index0, b.add(b.load(at), ll.IntType(64)(1))])
        if k in targets_ids:
            args.append(p)
        else:
            args.append(b.load(p))
    b.call(self.ext_funcs[external_function_name], args)
    inc = self.func.append_basic_block(name='for' + n + '.inc')
    b.branch(inc)
    b.position_at_end(inc)
    more = b.add(i, ll.IntType(64)(1))
    b.branch(cond)
    end = self.func.append_basic_block(name='main' + n)
    i.add_incoming(ll.IntType(64)(0), self.bb_loop)
    i.add_incoming(more, inc)
    b.position_at_end(cond)
    b.cbranch(b.icmp_unsigned("<", i, ll.IntType(64)(len(v))), body, end)
    self.bb_loop = end
    self.loopcount += 1
""")


def native(ctx):
    r = 'native builder'
    native_start(ctx, r)
    native_call(ctx, r)
    native_mapping(ctx, r)
    native_set_call(ctx, r)
    ir(ctx, r, 'LLVMBuilder._build_var_r', """
def _build_var_r(self):
    f = ll.Function(self.module, ll.FunctionType(ll.DoubleType().as_pointer(), [ll.IntType(64)]), name="vars_r")
    b = ll.IRBuilder()
    entry = f.append_basic_block()
    end = f.append_basic_block()
    b.position_at_end(entry)
    b.branch(end)
    b.position_at_end(end)
    b.ret(b.gep(self.model_variables, [ll.IntType(64)(0), ll.IntType(64)(0)]))
""")
    ir(ctx, r, 'LLVMBuilder._build_var_w', """
def _build_var_w(self):
    f = ll.Function(self.module, ll.FunctionType(ll.VoidType(), [ll.DoubleType(), ll.IntType(64)]), name="vars_w")
    b = ll.IRBuilder()
    entry = f.append_basic_block()
    end = f.append_basic_block()
    b.position_at_end(entry)
    b.branch(end)
    b.position_at_end(end)
    b.store(f.args[0], b.gep(self.model_variables, [self.index0, f.args[1]]))
    b.ret_void()
""")
    ir(ctx, r, 'LLVMBuilder.add_external_function', """
def add_external_function(self, function, signature, number_of_args, target_ids):
    c = cfunc(sig=signature)(function)
    types = np.tile(ll.DoubleType(), number_of_args).tolist()
    for i in target_ids:
        types[i] = ll.DoubleType().as_pointer()
    llvm.add_symbol(c.native_name, c.address)
    self.ext_funcs[c.native_name] = ll.Function(self.module, ll.FunctionType(ll.VoidType(), types), name=c.native_name)
    return {function.__qualname__: c.native_name}
""")
    ir(ctx, r, 'LLVMBuilder.generate', """
def generate(self):
    b = self.builder
    b.position_at_end(self.bb_loop)
    b.branch(self.bb_store)
    b.position_at_end(self.bb_store)
    b.branch(self.bb_exit)
    b.position_at_end(self.bb_exit)
    for i, d in enumerate(self.derivatives):
        if d not in self.values:
            self.values[d] = b.gep(self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[d])])
        b.store(b.load(self.values[d]), b.gep(self.deriv_global, [ll.IntType(64)(0), ll.IntType(64)(i)]))
    b.ret(b.gep(self.deriv_global, [self.index0, self.index0]))
    THEN()
    self._build_var_r()
    self._build_var_w()
    THEN()
    m = llvm.parse_assembly(str(self.module))
    ee.add_module(m)
    THEN()
    ee.finalize_object()
""", opaque=('_build_var_r', '_build_var_w'), extra_ok={('call', 'parse_assembly')})

    # what the three functions handed out do when they are called
    ir(ctx, 'native access', 'LLVMBuilder.generate', """
def drive(self, y, g, v, i):
    p = POINTER(type(np.ctypeslib.as_ctypes(np.float64())))
    CFUNCTYPE(c_void_p, c_double, c_int64)(ee.get_function_address("vars_w"))(v, i)
    return (carray(CFUNCTYPE(p, p, p)(ee.get_function_address("kernel"))(y.ctypes, g.ctypes), (self.n_deriv,)).copy(),
            carray(CFUNCTYPE(p, c_int64)(ee.get_function_address("vars_r"))(0), (self.max_var,)).copy())
""", drive="""
def drive(self, y, g, v, i):
    out = self.generate()
    out[2](v, i)
    return (out[0](y, g), out[1]())
""", opaque=('_build_var_r', '_build_var_w'), watch={('call', 'CFUNCTYPE')}, raises=False,
       keep={'()'}, extra_ok={('call', '()')},
       ignore={('call', n) for n in ('POINTER', 'as_ctypes', 'carray', 'copy', 'float64')})


def native_mapping(ctx, r):
    ir(ctx, r, 'LLVMBuilder.add_mapping', """
def add_mapping(self, args, targets):
    self.builder.position_at_end(self.bb_loop)
    vs = []
    for a in args:
        if a.name not in self.values:
            if a.is_global_var:
                self.values[a.name] = self.builder.gep(
                    self.global_variables, [self.index0, ll.IntType(64)(self.global_names[a.name])])
            else:
                self.values[a.name] = self.builder.gep(
                    self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[a.name])])
        vs.append(self.builder.load(self.values[a.name]))
    if len(args) == 1:
        total = vs[0]
    else:
        total = self.builder.fadd(vs[0], vs[1])
        for x in vs[2:]:
            total = self.builder.fadd(total, x)
    for t in targets:
        if t.name not in self.values:
            self.values[t.name] = self.builder.gep(
                self.model_variables, [self.index0, ll.IntType(64)(self.variable_names[t.name])])
        self.builder.store(total, self.values[t.name])
""")


AST = {'Subscript': (2, ('ctx', 'lineno', 'col_offset')), 'Constant': (1, ('kind', 'lineno', 'col_offset')),
       'Name': (1, ('ctx', 'lineno', 'col_offset')), 'Assign': (2, ('lineno', 'col_offset')),
       'Tuple': (1, ('ctx', 'lineno', 'col_offset')), 'List': (1, ('ctx', 'lineno', 'col_offset')),
       'For': (4, ('lineno', 'col_offset', 'type_comment')), 'arg': (1, ('annotation',)), 'Index': (1, ('lineno', 'col_offset')),
       'Call': (3, ('lineno', 'col_offset')), 'BinOp': (3, ('lineno', 'col_offset')), 'IfExp': (3, ('lineno', 'col_offset')),
       'UnaryOp': (2, ('lineno', 'col_offset')), 'Compare': (3, ('lineno', 'col_offset')), 'If': (3, ('lineno', 'col_offset')),
       'AugAssign': (3, ('lineno', 'col_offset')), 'Attribute': (2, ('ctx', 'lineno', 'col_offset'))}


def positions(trace):
    """source positions and contexts of generated syntax carry no behaviour"""
    trace.drop = AST


def gen(ctx, rule, entry, src, **kw):
    kw['ignore'] = set(kw.get('ignore', ())) | {('call', n) for n in AST} | {('call', 'Load'), ('call', 'Store'), ('call', 'Add'),
                                                                            ('call', 'Mult'), ('call', 'arguments')}
    compare(ctx, rule, entry, src, prep=positions, **kw)


def python_call(ctx, r):
    gen(ctx, r, 'ASTBuilder.add_call', """
def add_call(self, external_function_name, input_args, target_ids):
    targets = []
    for t in target_ids:
        targets.append(ast.Subscript(value=KERNEL_ARRAY, slice=ast.Index(
            value=ast.Constant(value=self.variable_names[input_args[t].name]))))
    args = []
    for a in input_args:
        if a.is_global_var:
            args.append(ast.Subscript(value=GLOBAL_ARRAY, slice=ast.Index(value=ast.Constant(value=self.global_names[a.name]))))
        else:
            args.append(ast.Subscript(value=KERNEL_ARRAY, slice=ast.Index(value=ast.Constant(value=self.variable_names[a.name]))))
    call = ast.Call(func=ast.Name(id=external_function_name), args=args, keywords=[])
    if len(targets) > 1:
        out = ast.Assign(targets=[ast.Tuple(elts=targets)], value=call)
    else:
        out = ast.Assign(targets=[targets[0]], value=call)
    setattr(out, 'cnd', False)
    self.body.append(out)
""")


def python_set_call(ctx, r):
    gen(ctx, r, 'ASTBuilder.add_set_call', """
def add_set_call(self, external_function_name, variable_name_arg_and_trg, targets_ids):
    n = len(variable_name_arg_and_trg[0])
    first = self.variable_names[variable_name_arg_and_trg[0][0]]
    targets = []
    for t in targets_ids:
        targets.append(slot(t, first, n))
    args = []
    for a in np.arange(n):
        args.append(slot(a, first, n))
    call = ast.Call(func=ast.Name(id=external_function_name), args=args, keywords=[])
    if len(targets) > 1:
        body = ast.Assign(targets=[ast.Tuple(elts=targets)], value=call)
    else:
        body = ast.Assign(targets=[targets[0]], value=call)
    out = ast.For(target=ast.Name(id='i'), iter=ast.Call(func=ast.Name(id='range'), args=[
        ast.Constant(value=len(variable_name_arg_and_trg))], keywords=[]), body=[body], orelse=[])
    setattr(out, 'cnd', False)
    self.body.append(out)

def slot(k, first, n):
    return ast.Subscript(value=KERNEL_ARRAY, slice=ast.Index(value=ast.BinOp(
        left=ast.Constant(value=k + first), op=ast.Add(),
        right=ast.BinOp(left=ast.Constant(value=n), op=ast.Mult(), right=ast.Name(id='i')))))
""")


def python_start(ctx, r):
    gen(ctx, r, 'ASTBuilder.__init__', """
def __init__(self, initial_values, variable_names, global_names, states, derivatives):
    self.variable_names = variable_names
    self.global_names = global_names
    self.states = states
    self.derivatives = derivatives
    self.functions = []
    self.body = []
    self.replacements = []
    self.body_init_set_var = [ast.Assign(targets=[KERNEL_ARRAY], value=ast.Call(
        func=ast.Name(id='np.array'), args=[ast.List(elts=[ast.Constant(value=v) for v in initial_values])], keywords=[]))]
    self.read_args_section = [ast.Expr(value=ast.Call(func=ast.Name(id='np.put'), args=[
        KERNEL_ARRAY, ast.List(elts=[ast.Constant(value=variable_names[x]) for x in states]), ast.Name(id='states')],
        keywords=[]))]
    self.return_section = [ast.Return(value=ast.Call(func=ast.Name(id='np.take'), args=[
        KERNEL_ARRAY, ast.List(elts=[ast.Constant(value=variable_names[x]) for x in derivatives])], keywords=[]))]
""", ignore={('call', 'Expr'), ('call', 'Return')})


def python(ctx):
    r = 'Python builder'
    python_start(ctx, r)
    gen(ctx, r, 'ASTBuilder.add_external_function', """
def add_external_function(self, function, signature, number_of_args, target_ids, replacements, replace_name):
    if replacements is not None:
        self.replacements.append(replacements)
    self.functions.append(function)
""")
    python_call(ctx, r)
    python_mapping(ctx, r)
    python_set_call(ctx, r)
    gen(ctx, r, 'ASTBuilder.generate', """
def drive(self, imports, states, g, value, idx):
    kernel = wrap_function('global_kernel', self.read_args_section + self.body + self.return_section, decorators=ANY, args=ANY)
    generate_code_file([x for x in self.functions] + self.body_init_set_var + [kernel], ANY, imports,
                       external_functions_source=ANY, names=ANY)
""", drive="""
def drive(self, imports, states, g, value, idx):
    self.generate(imports)
""", opaque=('wrap_function', 'generate_code_file'), result=False, ignore={('call', 'wrap_function')})
    compare(ctx, 'imports', 'generate_code_file', """
def generate_code_file(mod_body, file, imports, external_functions_source=False, names="#"):
    for module, name in imports.as_imports:
        mod_body.insert(0, ast.Import(names=[ast.alias(name=module, asname=name)], level=0))
    THEN()
    for module, name in imports.from_imports:
        mod_body.insert(0, ast.ImportFrom(module=module, names=[ast.alias(name=name, asname=None)], level=0))
    THEN()
    if external_functions_source:
        mod_body.insert(0, ast.ImportFrom(module=external_functions_source, names=[ast.alias(name='*', asname=None)], level=0))
    mod = wrap_module(mod_body)
    return names + ast.unparse(mod)
""", opaque=('wrap_module',), raises=False, ignore={('call', n) for n in (
        'wrap_module', 'unparse', 'Import', 'ImportFrom', 'alias')})
    compare(ctx, 'imports', 'wrap_module', """
def wrap_module(body):
    mod = ast.Module()
    mod.body = body
    mod.type_ignores = []
    return mod
""", raises=False, ignore={('call', 'Module'), ('store', '_fields'), ('setattr', '_fields')})
    gen(ctx, 'Python access', 'ASTBuilder.generate', """
def drive(self, imports, states, g, value, idx):
    m = types.ModuleType('python_kernel')
    code = generate_code_file(ANY, ANY, imports, external_functions_source=ANY, names=ANY)
    if self.replacements:
        m.__dict__.update({k: v for d in self.replacements for k, v in d.items()})
    THEN()
    exec(code, m.__dict__)
    THEN()
    m.global_kernel(states, g)
    np.put(m.kernel_variables, [idx], value)
    return m.kernel_variables
""", drive="""
def drive(self, imports, states, g, value, idx):
    out = self.generate(imports)
    out[0](states, g)
    out[2](value, idx)
    return out[1]()
""", opaque=('wrap_function', 'generate_code_file'), ignore={('call', 'wrap_function'), ('call', 'generate_code_file')},
        raises=False)


def python_mapping(ctx, r):
    gen(ctx, r, 'ASTBuilder.add_mapping', """
def add_mapping(self, args, targets):
    for t in targets:
        place = ast.Subscript(value=KERNEL_ARRAY, slice=ast.Index(value=ast.Constant(value=self.variable_names[t.name])))
        ids = []
        for a in args:
            ids.append(self.variable_names[a.name])
        if len(args) == 1:
            out = ast.Assign(targets=[place], value=ast.Subscript(value=KERNEL_ARRAY, slice=ast.Index(value=ast.Constant(value=ids[0]))))
        else:
            out = ast.Assign(targets=[place], value=ast.BinOp(left=self._generate_sum_left(ids[1:]), op=ast.Add(), right=ast.Subscript(
                value=KERNEL_ARRAY, slice=ast.Index(value=ast.Constant(value=ids[0])))))
        setattr(out, 'cnd', False)
        self.body.append(out)
""", opaque=('_generate_sum_left',), raises=False, ignore={('call', '_generate_sum_left')})
    gen(ctx, r, 'ASTBuilder._generate_sum_left', """
def _generate_sum_left(self, arg_idxs):
    if len(arg_idxs) > 0:
        return ast.BinOp(left=self._generate_sum_left(arg_idxs[1:]), op=ast.Add(), right=ast.Subscript(
            value=KERNEL_ARRAY, slice=ast.Index(value=ast.Constant(value=arg_idxs[0]))))
    else:
        return ast.Constant(value=0)
""", opaque=('_generate_sum_left',))
