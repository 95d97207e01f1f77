"""From the source of an equation to the function the kernel calls."""
import ast

from ..spec import compare
from .lowering import AST

# what of a node or an edge only labels it
NODE = dict(AST, Node=(None, ('ao', 'file', 'name', 'ln', 'label', 'id', 'local_id', 'ctx')), Edge=(None, ('label', 'branches')))


def stack_push(I, base, name, args, kwargs, node, frame):
    """traverse(x) leaves what stands for x on every stack of the visitor"""
    I.stacks = getattr(I, 'stacks', [])
    x = args[0]
    late = tuple(sorted((k[2], v) for k, v in I.heap.items() if k[0] == 'a' and k[1] == x))
    if x[0] == 'call' and late:
        # syntax made empty and filled afterwards
        x = x[:4] + (tuple(sorted(tuple(x[4]) + late)), 0)
    I.stacks.append(['*', ('call', 'visited', None, (x,), (), 0), set()])
    return None


def stack_append(I, recv, name, args, kwargs, node, frame):
    x = stack_name(I, recv)
    if x and len(args) == 1:
        I.stacks = getattr(I, 'stacks', [])
        I.stacks.append([x, args[0], set()])
    return None


def stack_name(I, recv):
    """stacks are the lists the visitor holds"""
    if recv[0] == 'attr' and recv[1][0] in ('param', 'obj'):
        return recv[2]
    if recv[0] == 'new':
        for (k, *rest), v in I.heap.items():
            if k == 'a' and v == recv:
                return rest[1]
    return None


def stack_pop(I, recv, name, args, kwargs, node, frame):
    x = stack_name(I, recv)
    if x and not args:
        for e in reversed(getattr(I, 'stacks', [])):
            if e[0] in ('*', x) and x not in e[2]:
                e[2].add(x)
                return e[1]
    return None


STACKS = {'AstVisitor.traverse': stack_push, 'append': stack_append, 'pop': stack_pop}
LEAF = ('traverse', 'add_node', 'add_edge', 'Node.__init__', 'Edge.__init__', 'ast_to_graph', 'connect_equation_node',
        'recurse_Attribute', 'get_op_sym', 'Graph.__init__')


def names(trace):
    trace.drop = NODE


def visit(ctx, kind, src, keep=(), **kw):
    """what visiting a construct adds to the graph, and what it leaves on the stack"""
    head = """
def drive(self, eq_key, eq_file, eq_lineno, scope_variables, node):
    v = AstVisitor(eq_key, eq_file, eq_lineno, scope_variables)
"""
    drive = head + """
    v.node_number_stack.append('bottom')
    v.visit_%s(node)
    return v.node_number_stack.pop(), v.node_number_stack.pop()
""" % kind
    skip = {('call', n) for n in set(('visited', 'Node', 'Edge', 'BinOp', 'Assign', 'AstVisitor', 'Graph', 'enumerate') + LEAF[3:]) - set(keep)}
    compare(ctx, 'parse', 'AstVisitor.visit_' + kind, head + '    g = v.graph\n' + src, drive=drive, prep=names,
            intrinsics=STACKS, opaque=LEAF, ignore=skip, **kw)


def C01(ctx):
    """Per kind of syntax: the node and the edges its visitor adds to the equation graph, and the syntax made of them."""
    written(ctx)
    visitors(ctx)
    statements(ctx)
    structure(ctx)
    syntax(ctx)
    bodies(ctx)
    arguments(ctx)
    graphs(ctx)
    equations(ctx)
    from .declare import methods
    methods(ctx)


def C02(ctx):
    """What an assignment and an if add to the graph, and that the nodes are read back as statements in that order, the
    body of an if under its whole test."""
    structure(ctx)
    statements(ctx)
    bodies(ctx)
    graphs(ctx)


def written(ctx):
    """a variable is known in the graph by the whole name the user wrote"""
    compare(ctx, 'name', 'recurse_Attribute', """
def recurse_Attribute(node, sep):
    if hasattr(node, 'id'):
        return node.id
    if isinstance(node.value, ast.Name):
        return node.value.id + sep + node.attr
    if isinstance(node.value, ast.Attribute):
        return recurse_Attribute(node.value) + sep + node.attr
""", opaque=('recurse_Attribute',))


def structure(ctx):
    r = 'parse'
    compare(ctx, r, 'ast_to_graph', """
def ast_to_graph(ast_tree, eq_key, eq_file, eq_lineno, scope_variables):
    p = AstVisitor(eq_key, eq_file, eq_lineno, scope_variables)
    p.visit(ast_tree)
    return p.graph
""", opaque=('visit', 'Graph.__init__', 'AstVisitor.__init__'), ignore={('call', 'AstVisitor')})
    compare(ctx, r, 'AstVisitor.traverse', """
def traverse(self, node):
    if isinstance(node, list):
        for x in node:
            self.traverse(x)
    else:
        super().visit(node)
""", opaque=('traverse', 'AstVisitor.visit', 'NodeVisitor.visit'))
    compare(ctx, r, 'AstVisitor.visit', """
def visit(self, node):
    self.traverse(node)
""", opaque=('traverse',))
    for kind in ('Module', 'FunctionDef'):
        compare(ctx, r, 'AstVisitor.visit_' + kind, """
def visit(self, node):
    self.traverse(node.body)
""", opaque=('traverse',))
    compare(ctx, r, 'AstVisitor.generic_visit', """
def generic_visit(self, node):
    if not isinstance(node, (ast.Expr, ast.Pass)):
        raise NotImplementedError()
    return super().generic_visit(node)
""")


def syntax(ctx):
    """the graph of an equation read back as syntax"""
    r = 'generate'
    q = ('node_to_ast', 'get_edges_type_for_node_filter', 'add_node')
    edges = "g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.%s)[1]"
    one = lambda k: "node_to_ast(%s[0][0], g, var_def, ctxread=ctxread)" % (edges % k)
    many = lambda k: "[node_to_ast(e[0], g, var_def, ctxread=ctxread) for e in %s]" % (edges % k)
    compare(ctx, r, 'node_to_ast', """
def node_to_ast(n, g, var_def, ctxread=False, read=True):
    t = g.nodes[n].ast_type
    if t == ast.Attribute or t == ast.Name:
        return var_def(g.key_map[n], ctxread, read)
    if t == ast.Constant:
        return ast.Constant(value=g.nodes[n].value)
    if t == ast.BinOp:
        return ast.BinOp(left=%s, right=%s, op=g.nodes[n].ast_op)
    if t == ast.UnaryOp:
        return ast.UnaryOp(operand=%s, op=g.nodes[n].ast_op)
    if t == ast.Call:
        return ast.Call(args=%s, func=g.nodes[n].func, keywords=[])
    if t == ast.IfExp:
        return ast.IfExp(body=%s, orelse=%s, test=%s)
    if t == ast.Compare:
        return ast.Compare(left=%s, comparators=%s, ops=g.nodes[n].ops)
    if t == ast.Subscript:
        return ast.Subscript(value=%s, slice=%s)
    if t in [ast.List, ast.Set, ast.Tuple]:
        return t(elts=%s, ctx=g.nodes[n].ctx)
    raise TypeError()
""" % (one('LEFT'), one('RIGHT'), one('OPERAND'), many('ARGUMENT'), one('BODY'), one('ORELSE'), one('TEST'), one('LEFT'),
       many('COMP'), one('SUBSCRIPT_VALUE'), one('SLICE'), many('ELEMENT')), opaque=q, prep=names,
            ignore={('call', n) for n in q + ('var_def', 'print')})


def bodies(ctx):
    """the statements of an equation, in the order in which their nodes were made"""
    r = 'generate'
    q = ('node_to_ast', 'get_edges_type_for_node_filter', 'topological_nodes', 'process_assign_node', 'process_if_node',
         'function_body_from_graph', 'test_expresion_from_graph')
    skip = {('call', n) for n in q + ('print', 'If', 'Assign', 'Tuple', 'Store')}
    compare(ctx, r, 'function_body_from_graph', """
def function_body_from_graph(g, v, lineno_count, level):
    body = []
    targets = []
    for n in range(len(g.nodes)):
        t = g.nodes[n].ast_type
        if t == ast.Assign or t == ast.AugAssign:
            value = node_to_ast(g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.VALUE)[1][0][0], g, v.var_def, ctxread=True)
            body.append(process_assign_node(g.get_edges_type_for_node_filter(start_node=n, val=EdgeType.TARGET)[1],
                                            g, v.var_def, value, t, targets))
        if t == ast.If:
            body.append(process_if_node(function_body_from_graph(g.nodes[n].subgraph_body, v, lineno_count=ANY, level=ANY),
                                        test_expresion_from_graph(g.nodes[n].subgraph_test, v)))
    return body
""", opaque=q, prep=names, ignore=skip)
    compare(ctx, r, 'process_if_node', """
def process_if_node(func_body, func_test):
    return ast.If(body=func_body, test=func_test, orelse=[])
""", prep=names, ignore=skip)
    compare(ctx, r, 'process_assign_node', """
def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
    if len(target_nodes) > 1:
        out = []
        for t in target_nodes:
            out.append(node_to_ast(t[1], g, var_def, read=False))
            targets.append(t[1])
        return ast.Assign(targets=[ast.Tuple(elts=out)], value=value_ast)
    t = target_nodes[0][1]
    a = node_to_ast(t, g, var_def, read=False)
    if value_ast and a:
        if na == ast.Assign or t not in targets:
            targets.append(t)
            return ast.Assign(targets=[a], value=value_ast)
        return ast.AugAssign(target=a, value=value_ast, op=ast.Add())
""", opaque=q, prep=names, ignore=skip)
    compare(ctx, r, 'test_expresion_from_graph', """
def test_expresion_from_graph(g, v):
    roots = []
    for n in range(len(g.nodes)):
        if not any(g.edges[e][0] == n for e in range(g.edge_counter)):
            roots.append(n)
    if len(roots) != 1:
        raise NotImplementedError()
    return node_to_ast(roots[0], g, v.var_def, ctxread=True)
""", opaque=q, prep=names, ignore=skip)


# the class of that name beside the graphs is of no use
VARDEF = 'lowering:Vardef'


def argument_order(ctx, r):
    skip = {('call', n) for n in ('Load', 'Store', 'Name', 'Constant', 'Tuple', 'Call', 'Index', 'VariableArgument', 'format',
                                  'format_target', 'arguments', 'parse')}
    compare(ctx, r, VARDEF + '.order_variables', """
def order_variables(self, order_data):
    for v in order_data:
        if self.eq_key in v.eq_used:
            self._args_order.append(VariableArgument('scope.' + v.tag, v.global_var))
        else:
            self._args_order.append(VariableArgument(v.id, v.global_var))
    for v in order_data:
        if 'scope.' + v.tag in self.targets:
            self._trgs_order.append('scope.' + v.tag)
""", ignore=skip)
    for name, form in (('get_order_args', 'a'), ('get_formatted_order_args', 'self.format(a[0], False)')):
        compare(ctx, r, VARDEF + '.' + name, """
def get(self):
    out = []
    for a in self._args_order:
        if not self.exclude_global_var or not a.is_global_var:
            out.append(%s)
    return out
""" % form, opaque=('format',), ignore=skip)


def arguments(ctx):
    """names, arguments and results of the function made of an equation"""
    r = 'arguments'
    skip = {('call', n) for n in ('Load', 'Store', 'Name', 'Constant', 'Tuple', 'Call', 'Index', 'VariableArgument', 'format',
                                  'format_target', 'arguments', 'parse')}
    compare(ctx, r, VARDEF + '.format', """
def format(self, var, read=True):
    return ast.Name(id=var.replace('scope.', 's_'))
""", prep=names, ignore=skip)
    compare(ctx, r, VARDEF + '.format_target', """
def format_target(self, var, read):
    if self.llvm:
        return ast.Subscript(slice=ast.Index(value=ast.Constant(value=0)),
                             value=ast.Call(args=[ast.Name(id=var.replace('scope.', 's_')), ast.Tuple(elts=[ast.Constant(value=1)])],
                                            func=ast.Name(id='carray'), keywords=[]))
    return ast.Name(id=var.replace('scope.', 's_'))
""", prep=names, ignore=skip | {('call', 'Subscript')})
    compare(ctx, r, VARDEF + '.var_def', """
def var_def(self, var, ctxread, read=True):
    if var not in self.vars_inds_map:
        self.vars_inds_map.append(var)
    if 'scope.' in var:
        if read:
            if var not in self.targets and var not in self.args:
                self.args.append(var)
        elif var not in self.targets:
            self.targets.append(var)
    if var in self.targets:
        return self.format_target(var, ctxread)
    return self.format(var, ctxread)
""", opaque=('format', 'format_target'), ignore=skip | {('call', 'append')}, watch={('call', 'self.targets.append')})
    argument_order(ctx, r)
    for name, form in (('get_order_trgs', 'self._trgs_order'), ('get_targets', 'self.targets'), ('get_args', 'self.args'),
                       ('get_formatted_order_trgs', '[self.format(a, False) for a in self._trgs_order]')):
        compare(ctx, r, VARDEF + '.' + name, """
def get(self):
    return %s
""" % form, opaque=('format',), ignore=skip)
    q = ('function_body_from_graph', 'order_variables', 'get_formatted_order_args', 'get_formatted_order_trgs', 'get_order_args',
         'get_order_trgs', 'wrap_function', 'replace_closure_function', 'generate_return_statement',
         'function_from_graph_generic_llvm', 'get_eq_prefix')
    skip |= {('call', n) for n in set(q) - {'order_variables', 'function_body_from_graph'}} | {('call', n) for n in (
        'Return', 'unparse', 'ImportFrom', 'Import', 'alias', 'Module', 'compile', 'parse')}
    compare(ctx, r, 'generate_return_statement', """
def generate_return_statement(v, g):
    if len(v.targets) > 1:
        return ast.Return(value=ast.Tuple(elts=v.get_formatted_order_trgs()))
    if len(v.targets) == 1:
        return ast.Return(value=v.get_formatted_order_trgs()[0])
    raise IndexError()
""", opaque=q, prep=names, ignore=skip, types={'var_def_': VARDEF})
    compare(ctx, r, 'function_from_graph_generic', """
def function_from_graph_generic(g, v, arg_metadata, replacements=None, replace_name=None):
    body = function_body_from_graph(g, v)
    THEN()
    v.order_variables(arg_metadata)
    THEN()
    body.append(generate_return_statement(v, g))
    args = ast.arguments(posonlyargs=[], args=v.get_formatted_order_args(), vararg=None, defaults=[], kwonlyargs=[], kwarg=None)
    f = wrap_function(g.label if replace_name is None else replace_name, body, args, [])
    tree = replace_closure_function(f, replacements, get_eq_prefix())
    ids = []
    for i, a in enumerate(v.get_order_args()):
        if a.name in v.targets:
            ids.append(i)
    return ast.parse(tree, mode='exec').body[0], v.get_order_args(), ids
""", opaque=q, prep=names, ignore=skip, types={'var_def_': VARDEF})
    compare(ctx, r, 'function_from_graph_generic_llvm', """
def function_from_graph_generic_llvm(g, v, replace_name=None):
    body = function_body_from_graph(g, v)
    THEN()
    v.order_variables(g.arg_metadata)
    THEN()
    args = ast.arguments(posonlyargs=[], args=v.get_formatted_order_args(), vararg=None, defaults=[], kwonlyargs=[],
                         kw_defaults=[], kwarg=None)
    name = g.label + '_llvm' if replace_name is None else replace_name + '_llvm'
    sig = ['void(']
    ids = []
    for i, a in enumerate(v.get_order_args()):
        if a.name in v.targets:
            sig.append('CPointer(float64), ')
            ids.append(i)
        else:
            sig.append('float64, ')
    sig[-1] = sig[-1][:-2]
    sig.append(')')
    return wrap_function(name, body, args, []), ''.join(sig), name, v.get_order_args(), ids
""", opaque=q, prep=names, ignore=skip, types={'var_def_': VARDEF})
    for entry in ('function_from_graph_generic', 'function_from_graph_generic_llvm'):
        evs = [e for e in ctx.trace(entry, q, types={'var_def_': VARDEF}).events if e.kind == 'call']
        at = [e.pos for e in evs if e.name == 'order_variables']
        early = [e for e in evs if e.name in q and ('_order_' in e.name or e.name == 'generate_return_statement')
                 and at and e.pos < at[0]]
        ctx.check(not early, r, entry + ': arguments and results are asked for after they were put in order',
                  (early or evs)[0].where(), entry + ': arguments or results are asked for before they were put in order')
    compare(ctx, r, 'compiled_function_from_graph_generic_llvm', """
def compiled_function_from_graph_generic_llvm(g, var_def_, imports, compiled_function=False, replacements=None,
                                              replace_name=None):
    f, sig, name, args, targets = function_from_graph_generic_llvm(g, var_def_, replace_name=replace_name)
    if not compiled_function:
        return f, sig, args, targets
    if replacements is None:
        replacements = {}
    body = []
    for m, label in imports.as_imports:
        body.append(ast.Import(names=[ast.alias(name=m, asname=label)], lineno=0, col_offset=0, level=0))
    for m, label in imports.from_imports:
        body.append(ast.ImportFrom(module=m, names=[ast.alias(name=label, asname=None)], lineno=0, col_offset=0, level=0))
    body.append(f)
    body.append(ast.Return(value=ast.Name(id=name, ctx=ast.Load(), lineno=0, col_offset=0), lineno=0, col_offset=0))
    w = wrap_function(ANY, body, decorators=[], args=ast.arguments(
        posonlyargs=[], args=[], vararg=None, defaults=[], kwonlyargs=[], kw_defaults=[], lineno=0, kwarg=None))
    text = replace_closure_function(w, replacements, get_eq_prefix())
    exec(compile(ast.parse(ast.unparse(ast.Module(body=[ast.parse(text, mode='exec')], type_ignores=[]))),
                 filename=ANY, mode='exec'), replacements)
    return replacements[ANY](), sig, args, targets
""", opaque=q, prep=names, types={'var_def_': VARDEF})
    compare(ctx, r, 'wrap_function', """
def wrap_function(name, body, args, decorators):
    f = ast.FunctionDef(name)
    f.body = body
    f.decorator_list = decorators
    f.args = args
    return f
""", ignore={('store', 'lineno'), ('store', 'col_offset'), ('call', 'FunctionDef')})
    compare(ctx, r, 'tokenize_string', """
def tokenize_string(f):
    return re.split("([\\\\w\\\\.]+)", f)
""")
    compare(ctx, r, 'replace_closure_function', """
def replace_closure_function(func, replacements, eq_prefix):
    text = ast.unparse(func)
    if replacements:
        parts = tokenize_string(text)
        for i in range(len(parts)):
            key = None
            if parts[i] in replacements:
                key = parts[i]
            if parts[i].startswith('s_') and parts[i][2:] == parts[i]:
                key = parts[i][2:]
            if key is None:
                continue
            new = (eq_prefix + key).replace('.', '_')
            parts[i] = parts[i].replace(key, new)
            replacements[new] = replacements[key]
            text = ''.join(parts)
    return text
""", opaque=('tokenize_string',), ignore=skip | {('call', 'tokenize_string')}, extra_ok=())


def leaves(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x:
            yield from leaves(x)


def graphs(ctx):
    """nodes and edges of a graph are found again as they were added"""
    r = 'graph'
    compare(ctx, r, 'TemporaryKeyGenerator.generate', """
def generate(self):
    self.tmp_ += 1
    ANY
""")
    t = ctx.trace('TemporaryKeyGenerator.generate').result
    parts = [x for x in leaves(t) if x[0] == 'const' and isinstance(x[1], str)]
    ctx.check(any(not ('a' + x[1]).isidentifier() for x in parts), r, 'a generated key is no name that a variable can have',
              ctx.w.func('TemporaryKeyGenerator.generate').where(),
              'generated keys of nodes can be the name of a variable')
    ctx.check(any(x[0] == 'attr' and x[2] == 'tmp_' or x[0] == 'op' for x in leaves(t)), r, 'every generated key differs',
              ctx.w.func('TemporaryKeyGenerator.generate').where(), 'generated keys of nodes repeat')
    container(ctx, r)


def container(ctx, r):
    """a graph keeps every node and edge it is given, under its key and between its ends, and gives them out again"""
    skip = {('call', n) for n in ('tmp_generator', 'info', 'array', 'zip', 'argwhere', 'where', 'build_node_edges')}
    compare(ctx, r, 'Graph.clean', """
def clean(self):
    self.lower_graph = None
    self.node_edges = None
    return self
""", ignore=skip)
    compare(ctx, r, 'Graph.remove_edge', """
def remove_edge(self, n):
    self.edges_c[n].deleted = True
""")
    compare(ctx, r, 'Graph.get_where_node_attr', """
def get_where_node_attr(self, attr, val, not_=False):
    return [n.node_n for n in self.nodes if not n.deleted and (not not_ if getattr(n, attr) == val else not_)]
""")
    compare(ctx, r, 'Graph.has_edge_for_nodes', """
def has_edge_for_nodes(self, start_node=None, end_node=None):
    if start_node is not None and end_node is not None:
        return np.where((self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
    if start_node is not None:
        return start_node in self.edges[:, 0]
    if end_node is not None:
        return end_node in self.edges[:, 1]
""")
    compare(ctx, r, 'Graph.clone', ["""
def clone(self):
    c = Graph(preallocate_items=self.preallocate_items)
    c.preallocate_items = self.preallocate_items
    c.edge_counter = self.edge_counter
    c.node_counter = self.node_counter
    c.node_map = self.node_map.copy()
    c.key_map = self.key_map.copy()
    c.nodes = self.nodes.copy()
    c.edges_c = EDGES
    c.edges = self.edges.copy()
    return c
""".replace('EDGES', x) for x in ('deepcopy(self.edges_c)', 'self.edges_c.copy()', '[copy(e) for e in self.edges_c]')],
            opaque=('Graph.__init__',), ignore={('store', 'preallocate_items')})
    compare(ctx, r, 'Graph.add_node', """
def add_node(self, node, ignore_existing=False, skip_existing=True):
    if not node.key:
        node.key = tmp_generator()
    if node.key in self.node_map and not ignore_existing:
        if not skip_existing:
            raise ValueError()
        return self.node_map[node.key]
    if node.key in self.node_map:
        n = self.node_map[node.key]
    else:
        n = self.node_counter
        self.node_map[node.key] = self.node_counter
        self.key_map[self.node_counter] = node.key
        self.node_counter += 1
        if self.node_counter > self.allocated:
            raise ValueError()
    node.node_n = n
    if n < len(self.nodes):
        self.nodes[n] = node
    else:
        self.nodes.append(node)
    return n
""", opaque=('tmp_generator',), ignore=skip)
    compare(ctx, r, 'Graph.add_edge', """
def add_edge(self, edge):
    n = self.edge_counter
    self.edges[n, :] = [edge.start, edge.end]
    self.edge_counter += 1
    if self.edge_counter > self.allocated:
        raise ValueError()
    self.edges_c.append(edge)
    edge.edge_n = n
    return n
""", ignore=skip)
    compare(ctx, r, 'Graph.build_node_edges', """
def build_node_edges(self):
    self.node_edges = [([], []) for _ in range(self.node_counter)]
    for i, e in enumerate(self.edges[:self.edge_counter]):
        self.node_edges[e[0]][0].append(i)
        self.node_edges[e[1]][1].append(i)
""", ignore=skip)
    compare(ctx, r, 'Graph.get_edges_type_for_node_filter', """
def get_edges_type_for_node_filter(self, start_node=None, end_node=None, val=None):
    if start_node and end_node:
        raise ValueError()
    if not self.node_edges:
        self.build_node_edges()
    if start_node is None and end_node is None:
        raise ValueError()
    if end_node is not None:
        ix = self.node_edges[end_node][1]
    else:
        ix = self.node_edges[start_node][0]
    found = []
    for i in ix:
        if not self.edges_c[i].deleted and self.edges_c[i].e_type == val:
            found.append(self.edges_c[i].edge_n)
    return found, [self.edges[i, :] for i in found]
""", opaque=('build_node_edges',), ignore=skip)
    compare(ctx, r, 'Graph.get_edges_for_node', """
def get_edges_for_node(self, start_node=None, end_node=None):
    at = self.edges[:self.edge_counter]
    if start_node is not None:
        start_ix = self.edges[:self.edge_counter, 0] == start_node
        start_ = at[start_ix]
    else:
        start_ix = range(self.edge_counter)
        start_ = self.edges[:self.edge_counter, :]
    if end_node is not None:
        end_ix = start_[:, 1] == end_node
        end_ = at[end_ix]
    else:
        end_ix = start_ix
        end_ = start_
    return zip(np.argwhere(end_ix), end_)
""", ignore=skip)


def unbranched(trace):
    """no edge of an equation has branches (rule 'branches'), so an equation has one version"""
    names(trace)
    for a in trace.interp.B.atoms:
        for n, k in ((1, 2), (2, 1)):
            if a[0] in ('<', '==') and a[n][:2] == ('call', 'len') and a[n][3][0][:2] == ('new', 'list') and a[k][0] == 'const':
                one = 1 < a[k][1] if n == 1 else a[k][1] < 1
                trace.given[a] = one if a[0] == '<' else a[k][1] == 1


def own_key(ctx, r):
    """functions of self are functions of one object: the equation made with them is kept under a key of that object"""
    f = ctx.w.func('qualify_equation')
    t = ctx.trace('qualify_equation', opaque=('clone',)).result
    key = repr(t[3]) if t[0] == 'tuple' and len(t) > 3 else ''
    ctx.check("('param', 'prefix')" in key or "('param', 'eq_class')" in key, r,
              'an equation that calls functions of self is made once per object', f.where(f.node),
              'an equation that calls functions of self is made once for all objects that share it')


def own_visitor_branches(ctx, r):
    """edges get the visitor's (empty) branches"""
    c = ctx.w.cls('AstVisitor')
    bad = []
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == 'branches' and not isinstance(n.ctx, ast.Load) and m.name != '__init__':
                bad.append(m.where(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                    and n.func.value.attr == 'branches' and n.func.attr != 'copy':
                bad.append(m.where(n))
    if bad:
        ctx.unknown(r, 'edges with branches, made at %s' % bad[0])
    else:
        ctx.ok(r, 'branches: the visitor never fills the branches of its edges')


def parsed_equation(ctx, r):
    compare(ctx, r, 'parse_eq', """
def parse_eq(ns, item_id, mg, variables, parsed, used):
    for m in ns.equation_dict.values():
        for eq in m:
            key = _generate_equation_key(eq.id, ns.is_set)
            known = key in used
            if not known:
                src = eq.lines.replace('global_vars.', 'global_vars_')
                tree = None
                tries = 0
                while tries < 10:
                    try:
                        src = dedent(src)
                        tree = ast.parse(src)
                        break
                    except IndentationError:
                        tries += 1
                        if tries > 10 - 1:
                            raise
                graph = ast_to_graph(tree, key, eq.file, eq.lineno, variables)
                parsed[key] = ParsedEquation(eq, src, graph, {}, ns.is_set)
            g, to_self, own, repl = qualify_equation(ns.full_tag, parsed[key].graph, variables, eq, key)
            if len(repl) > 0:
                if to_self:
                    used_key = own
                else:
                    used_key = key
                parsed[used_key] = ParsedEquation(parsed[key].eq, parsed[key].dsource, parsed[key].graph, {}, ns.is_set, repl)
            else:
                used_key = key
            used.append(used_key)
            connect_equation_node(g, mg, Node(key=used_key + '_' + ns.full_tag, node_type=NodeTypes.EQUATION, ast_type=ast.Call,
                                              vectorized=ns.is_set, item_id=item_id,
                                              func=ast.Name(id=used_key.replace('.', '_'))), ns.is_set)
            if not known:
                for v in variables:
                    if variables[v].used_in_equation_graph:
                        variables[v].add_eq_used(used_key)
                        variables[v].used_in_equation_graph = False
                        graph.arg_metadata.append(variables[v])
                    else:
                        graph.arg_metadata.append(variables[v])
""", opaque=('_generate_equation_key', 'ast_to_graph', 'qualify_equation', 'connect_equation_node', 'Node.__init__',
             'clean', 'clone', 'postfix_from_branches'), prep=unbranched, watch={
                 ('call', 'ParsedEquation'), ('call', 'ast_to_graph'), ('call', 'qualify_equation'), ('call', 'connect_equation_node'),
                 ('call', 'add_eq_used'), ('store', 'used_in_equation_graph'), ('call', 'append')})


def equations(ctx):
    """the equations of a namespace as nodes of the model's graph"""
    r = 'equation graph'
    skip = {('call', n) for n in ('Node', 'Edge', 'add_node', 'Name')}
    compare(ctx, r, 'connect_equation_node', """
def connect_equation_node(eg, mg, node, is_set, include_local=False):
    e = mg.add_node(node)
    targeted = {}
    read = {}
    for n in range(eg.node_counter):
        if eg.nodes[n].node_type == NodeTypes.VAR:
            if eg.nodes[n].scope_var:
                v = mg.add_node(Node(key=eg.nodes[n].scope_var.id, node_type=NodeTypes.VAR, scope_var=eg.nodes[n].scope_var,
                                     is_set_var=is_set), ignore_existing=True)
                it = eg.get_edges_for_node(end_node=n)
                try:
                    next(it)
                    targeted[v] = eg.nodes[n].scope_var.id
                except StopIteration:
                    it2 = eg.get_edges_for_node(start_node=n)
                    try:
                        next(it2)
                        read[v] = eg.nodes[n].scope_var.id
                    except StopIteration:
                        pass
            elif include_local and eg.nodes[n].key and not eg.nodes[n].ast_type == ast.Constant:
                v = mg.add_node(Node(key=eg.nodes[n].key, node_type=NodeTypes.VAR, is_set_var=is_set,
                                     ast_type=eg.nodes[n].ast_type), ignore_existing=True)
                it = eg.get_edges_for_node(end_node=n)
                try:
                    next(it)
                    mg.add_edge(Edge(start=e, end=v, e_type=EdgeType.TARGET, arg_local=True))
                except StopIteration:
                    pass
    for v, i in targeted.items():
        mg.add_edge(Edge(start=e, end=v, e_type=EdgeType.TARGET, arg_local=i))
    for v, i in read.items():
        if v not in targeted:
            mg.add_edge(Edge(start=v, end=e, e_type=EdgeType.ARGUMENT, arg_local=i))
    return e
""", opaque=('add_node', 'add_edge', 'get_edges_for_node', 'Node.__init__', 'Edge.__init__', 'get_path_dot'), prep=names,
            ignore=skip)
    compare(ctx, r, '_generate_equation_key', """
def key(equation_id, is_set):
    return ('EQ_SET' if is_set else 'EQ_') + equation_id.replace('.', '_').replace('-', '_')
""")
    own_visitor_branches(ctx, r)
    own_key(ctx, r)
    compare(ctx, r, 'qualify_equation', """
def qualify_equation(prefix, g, tag_vars, eq_class, cur):
    import inspect
    q = g.clone()
    scope_vars = []
    for n in g.node_map.values():
        if isinstance(g.nodes[n].scope_var, Variable):
            scope_vars.append(tag_vars[g.nodes[n].scope_var.tag])
        else:
            scope_vars.append(g.nodes[n].scope_var)
    for i in range(q.node_counter):
        q.nodes[i].scope_var = scope_vars[i]
    repl = {}
    repl.update(inspect.getclosurevars(inspect.getclosurevars(eq_class).nonlocals['func']).globals)
    to_self = False
    for n in g.nodes:
        if n.func is not None and hasattr(n.func, 'value') and n.func.value.id == 'self':
            to_self = True
            repl[n.id] = getattr(eq_class.__self__, n.func.attr)
    return q, to_self, ANY, repl
""", opaque=('clone',), ignore={('store', 'node_map'), ('store', 'key_map'), ('call', 'getclosurevars')})
    parsed_equation(ctx, r)


SCOPE = """
    sid = recurse_Attribute(%s)
    if sid[:2] == 's_' and sid[2:] in scope_variables:
        raise ValueError()
    if sid[:6] == 'scope.':
        sv = scope_variables[sid[6:]]
        scope_variables[sid[6:]].used_in_equation_graph = True
    else:
        sv = None
"""


def visitors(ctx):
    visit(ctx, 'BinOp', """
    en = g.add_node(Node(ast_type=ast.BinOp, node_type=NodeTypes.OP, ast_op=node.op))
    g.add_edge(Edge(start=visited(node.left)[0], end=en, e_type=EdgeType.LEFT))
    g.add_edge(Edge(start=visited(node.right)[0], end=en, e_type=EdgeType.RIGHT))
    return [en], 'bottom'
""")
    visit(ctx, 'UnaryOp', """
    en = g.add_node(Node(ast_type=ast.UnaryOp, node_type=NodeTypes.OP, ast_op=node.op), ignore_existing=True)
    g.add_edge(Edge(start=visited(node.operand)[0], end=en, e_type=EdgeType.OPERAND))
    return [en], 'bottom'
""")
    for kind in ('Name', 'Attribute'):
        visit(ctx, kind, SCOPE % 'node' + """
    en = g.add_node(Node(key=sid, ast_type=ast.%s, node_type=NodeTypes.VAR, scope_var=sv), ignore_existing=True)
    return [en], 'bottom'
""" % kind)
    visit(ctx, 'Constant', """
    en = g.add_node(Node(ast_type=ast.Constant, node_type=NodeTypes.VAR, value=node.value))
    return [en], 'bottom'
""")
    visit(ctx, 'Call', """
    if node.keywords:
        raise NotImplementedError()
""" + SCOPE % 'node.func' + """
    en = g.add_node(Node(ast_type=ast.Call, node_type=NodeTypes.OP, scope_var=sv, func=node.func), ignore_existing=True)
    for a in node.args:
        g.add_edge(Edge(start=visited(a)[0], end=en, e_type=EdgeType.ARGUMENT))
    return [en], 'bottom'
""")
    for kind in ('List', 'Tuple', 'Set'):
        visit(ctx, kind, """
    en = g.add_node(Node(ast_type=ast.%s, node_type=NodeTypes.OP))
    for x in node.elts:
        g.add_edge(Edge(start=visited(x)[0], end=en, e_type=EdgeType.ELEMENT))
    return [en], 'bottom'
""" % kind)
    visit(ctx, 'Compare', """
    en = g.add_node(Node(ast_type=ast.Compare, node_type=NodeTypes.OP, ops=node.ops))
    g.add_edge(Edge(start=visited(node.left)[0], end=en, e_type=EdgeType.LEFT))
    for x in node.comparators:
        g.add_edge(Edge(start=visited(x)[0], end=en, e_type=EdgeType.COMP))
    return [en], 'bottom'
""")
    visit(ctx, 'IfExp', """
    en = g.add_node(Node(ast_type=ast.IfExp, node_type=NodeTypes.OP))
    g.add_edge(Edge(start=visited(node.body)[0], end=en, e_type=EdgeType.BODY))
    g.add_edge(Edge(start=visited(node.orelse)[0], end=en, e_type=EdgeType.ORELSE))
    g.add_edge(Edge(start=visited(node.test)[0], end=en, e_type=EdgeType.TEST))
    return [en], 'bottom'
""")
    visit(ctx, 'Subscript', """
    if isinstance(node.slice, ast.Slice):
        raise Exception()
    if isinstance(node.slice, ast.Tuple):
        for x in node.slice.elts:
            if isinstance(x, ast.Slice):
                raise Exception()
    en = g.add_node(Node(ast_type=ast.Subscript, node_type=NodeTypes.SUBSCRIPT))
    g.add_edge(Edge(start=visited(node.value)[0], end=en, e_type=EdgeType.SUBSCRIPT_VALUE))
    g.add_edge(Edge(start=visited(node.slice)[0], end=en, e_type=EdgeType.SLICE))
    return [en], 'bottom'
""")


def statements(ctx):
    visit(ctx, 'Assign', """
    if len(node.targets) > 1:
        raise NotImplementedError()
    target = node.targets[0]
    if not isinstance(target, (ast.Attribute, ast.Name, ast.Tuple)):
        raise AttributeError()
    if isinstance(target, ast.Tuple):
        targets = target.elts
        if len(targets) < 2:
            raise NotImplementedError()
        if not all(isinstance(el, (ast.Attribute, ast.Name)) for el in targets):
            raise NotImplementedError()
    else:
        targets = [target]
    end = []
    for el in targets:
        end += visited(el)
    en = g.add_node(Node(ast_type=ast.Assign, node_type=NodeTypes.ASSIGN))
    for e in end:
        g.add_edge(Edge(start=en, end=e, e_type=EdgeType.TARGET))
    g.add_edge(Edge(start=visited(node.value)[0], end=en, e_type=EdgeType.VALUE))
    return 'bottom', 'bottom'
""")
    visit(ctx, 'AugAssign', """
    if not isinstance(node.target, (ast.Attribute, ast.Name, ast.Tuple)):
        raise AttributeError()
    if isinstance(node.target, ast.Tuple):
        targets = node.target.elts
        if len(targets) < 2:
            raise NotImplementedError()
        if not all(isinstance(el, (ast.Attribute, ast.Name)) for el in targets):
            raise NotImplementedError()
    else:
        targets = [node.target]
    end = []
    for el in targets:
        end += visited(el)
    en = g.add_node(Node(ast_type=ast.Assign, node_type=NodeTypes.ASSIGN))
    for e in end:
        g.add_edge(Edge(start=en, end=e, e_type=EdgeType.TARGET))
    b = ast.BinOp(left=node.target, op=node.op, right=node.value)
    g.add_edge(Edge(start=visited(b)[0], end=en, e_type=EdgeType.VALUE))
    return 'bottom', 'bottom'
""")
    visit(ctx, 'If', """
    if node.orelse:
        raise NotImplementedError()
    body = ast_to_graph(node.body, eq_key, eq_file, eq_lineno, scope_variables)
    test = ast_to_graph(node.test, eq_key, eq_file, eq_lineno, scope_variables)
    n = Node(ast_type=ast.If, node_type=NodeTypes.IF, subgraph_body=body, subgraph_test=test)
    connect_equation_node(body, g, n, False, True)
    connect_equation_node(test, g, n, False, True)
    return ANY, 'bottom'
""", keep=('connect_equation_node',), result=False)
