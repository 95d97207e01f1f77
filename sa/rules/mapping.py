"""From the mappings of the system description to the sums the kernel computes."""
from ..spec import compare
from .model import ASSEMBLY
from .system import recorded, same_variable
from .lowering import native_mapping, python_mapping
from .translation import container, leaves

EDGES = ('get_edges_type_for_node_filter', 'get_edges_for_node', 'get_where_node_attr', 'add_node', 'add_edge', 'remove_edge',
         'Node.__init__', 'Edge.__init__', 'has_edge_for_nodes', 'new_sum')


def C04(ctx):
    """The sources of a variable on their way from the description to the kernel: the list of mappings, the edges of
    the graph, the sources of each target, one temporary per writing equation, the sum node and its emitted sum."""
    recorded(ctx)
    same_variable(ctx, 'sources')
    description(ctx)
    container(ctx, 'graph')
    graph(ctx)
    sums(ctx)
    native_mapping(ctx, 'native sums')
    python_mapping(ctx, 'python sums')


def description(ctx):
    compare(ctx, 'mappings', 'Model.assemble', """
def assemble(self):
    mappings = []
    for var in self.variables.values():
        if var.mapping:
            mappings.append((var.id, [self.variables[var.mapping.id].id]))
        elif var.sum_mapping:
            mappings.append((var.id, [self.variables[m.id].id for m in var.sum_mapping]))
    process_mappings(mappings, Graph(None, ANY), self.variables)
""", opaque=ASSEMBLY, result=False, raises=False, watch={('call', 'process_mappings')})


def graph(ctx):
    skip = {('call', n) for n in EDGES + ('info', 'list', 'variables', 'Node', 'Edge', 'tqdm', 'zip', 'enumerate', 'isinstance')} - {('call', 'add_edge')}
    compare(ctx, 'mappings', 'process_mappings', """
def process_mappings(mappings, g, scope_vars):
    for m in mappings:
        target = scope_vars[m[0]]
        ix = -1
        if target.set_var:
            ix = target.set_var_ix
            target = target.set_var
        t = g.add_node(Node(key=target.id, node_type=NodeTypes.VAR, scope_var=target), ignore_existing=False)
        for i in m[1]:
            source = scope_vars[i]
            six = -1
            if source.set_var:
                six = source.set_var_ix
                source = source.set_var
            s = g.add_node(Node(key=source.id, node_type=NodeTypes.VAR, scope_var=source), ignore_existing=False)
            old = g.has_edge_for_nodes(start_node=s, end_node=t)
            if len(old) == 0:
                g.add_edge(Edge(s, t, e_type=EdgeType.MAPPING, mappings=[(six, ix)]))
            else:
                g.edges_c[old[0]].mappings.append((six, ix))
    return g
""", opaque=EDGES, ignore=skip, prep=labels)
    compare(ctx, 'graph', 'MappingsGraph.remove_chains', """
def remove_chains(self):
    for target in self.variables():
        eq = self.get_edges_type_for_node_filter(end_node=target, val=EdgeType.TARGET)
        mp = self.get_edges_type_for_node_filter(end_node=target, val=EdgeType.MAPPING)
        for edge, i in zip(eq[1] + mp[1], eq[0] + mp[0]):
            if not target in self.vars_assignments:
                self.vars_assignments[target] = []
                self.vars_assignments_mappings[target] = []
            if self.edges_c[i].e_type == EdgeType.MAPPING:
                self.vars_mappings[target] = (edge[0], self.edges_c[i].mappings)
                self.remove_edge(i)
            self.vars_assignments[target].append(edge[0])
            self.vars_assignments_mappings[target].append(self.edges_c[i].mappings)
""", opaque=EDGES + ('variables',), ignore=skip)
    compare(ctx, 'graph', 'MappingsGraph.variables', """
def variables(self):
    for n in self.node_map.values():
        if self.nodes[n].node_type == NodeTypes.VAR:
            yield n
""")
    compare(ctx, 'graph', 'MappingsGraph.from_graph', """
def from_graph(cls, eg):
    eg.__class__ = cls
    eg.vars_assignments = {}
    eg.vars_mappings = {}
    eg.vars_assignments_mappings = {}
    return eg
""")
    compare(ctx, 'graph', 'MappingsGraph.add_mappings', """
def add_mappings(self):
    for a, vals in self.vars_assignments.items():
        if len(vals) > 1:
            s = self.add_node(Node(key=new_sum(), node_type=NodeTypes.SUM))
            self.add_edge(Edge(start=s, end=a, e_type=EdgeType.TARGET))
            for v, m in zip(vals, self.vars_assignments_mappings[a]):
                self.add_edge(Edge(start=v, end=s, e_type=EdgeType.VALUE, mappings=m))
        elif a in self.vars_mappings:
            s = self.add_node(Node(key=new_sum(), node_type=NodeTypes.SUM))
            self.add_edge(Edge(start=s, end=a, e_type=EdgeType.TARGET))
            self.add_edge(Edge(start=self.vars_mappings[a][0], end=s, e_type=EdgeType.VALUE, mappings=self.vars_mappings[a][1]))
""", opaque=EDGES, ignore=skip, prep=labels)
    compare(ctx, 'graph', 'SumCount.get_sum', """
def get_sum(self):
    self.count += 1
""", result=False)
    f = ctx.w.func('SumCount.get_sum')
    ctx.check(any(x[0] in ('op', 'attr') for x in leaves(ctx.trace('SumCount.get_sum').result)), 'graph', 'every sum has a key of its own',
              f.where(), 'the keys of sums repeat')
    compare(ctx, 'graph', 'MappingsGraph.create_assignments', """
def create_assignments(self, variables):
    temporary = {}
    for n in self.get_where_node_attr('node_type', NodeTypes.EQUATION):
        for i, e in self.get_edges_for_node(start_node=n):
            va = e[1].copy()
            if va in self.vars_assignments and len(self.vars_assignments[va]) > 1:
                sv = self.nodes[e[1]].scope_var
                key = sv.tag + str(self.key_map[va]) + '_' + str(n) + '_tmp'
                svf = None
                if isinstance(sv, SetOfVariables):
                    c = 0
                    tsv = TemporarySetVar(key, sv)
                    for x in sv.variables.values():
                        c += 1
                        svf = TemporaryVar(d_u(key) + '_' + str(c), x, x.tag + '_' + str(sv.id), x.set_var, x.set_var_ix)
                        tsv.tmp_vars.append(svf)
                    temporary.update({tsv.id: tsv})
                else:
                    svf = TemporaryVar(d_u(key), sv, key, None, None)
                    temporary.update({d_u(svf.get_path_dot()): svf})
                tmp = self.add_node(Node(key=key, node_type=NodeTypes.TMP, scope_var=svf), ignore_existing=False)
                self.add_edge(Edge(n, tmp, e_type=EdgeType.TARGET, arg_local=self.edges_c[i[0]].arg_local))
                at = self.vars_assignments[va].index(n)
                self.vars_assignments_mappings[va][at] = ':'
                self.vars_assignments[va][at] = tmp
    return temporary
""", opaque=EDGES + ('TemporaryVar.__init__', 'TemporarySetVar.__init__', 'd_u', 'get_path_dot'), ignore=skip, prep=labels)


def sums(ctx):
    """Summing into a variable: of the elements of a set, element m[0] of the source into element m[1] of the target."""
    skip = {('call', n) for n in EDGES + ('info', 'list', 'd_u', 'VariableArgument', 'get_var_by_idx', 'items', 'keys')}
    spec = """
def _process_sum_node(self, n):
    g = self.equation_graph
    targets = list(g.get_edges_type_for_node_filter(start_node=n, val=EdgeType.TARGET))[1]
    at, sources = list(g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.VALUE))
    if len(targets) != 1:
        raise ValueError()
    t = targets[0][1]
    sv = g.nodes[t].scope_var
    if sv.size > 0:
        whole, parts = [], []
        for i, s in zip(at, sources):
            if g.nodes[s[0]].node_type == NodeTypes.VAR or g.nodes[s[0]].node_type == NodeTypes.TMP:
                if g.edges_c[i].mappings == ':':
                    whole.append(g.key_map[s[0]])
                elif isinstance(g.edges_c[i].mappings, list):
                    by = {}
                    for m in g.edges_c[i].mappings:
                        if m[1] not in by:
                            by[m[1]] = []
                        by[m[1]].append(m[0])
                    parts.append((g.key_map[s[0]], by))
                else:
                    raise ValueError()
            else:
                raise ValueError()
        out = {}
        if len(whole) > 0:
            for w in whole:
                for k in range(self.set_variables[w].size):
                    name = self.set_variables[sv.id].get_var_by_idx(k).id
                    if name not in out.keys():
                        out[name] = []
                    out[name].append(self.set_variables[w].get_var_by_idx(k).id)
        for p in parts:
            for k, v in p[1].items():
                name = self.set_variables[sv.id].get_var_by_idx(k).id
                if name not in out.keys():
                    out[name] = []
                for e in v:
                    if p[0] in self.set_variables:
                        out[name].append(self.set_variables[p[0]].get_var_by_idx(e).id)
                    elif p[0] in self.scope_variables:
                        out[name].append(self.scope_variables[p[0]].id)
                    else:
                        raise ValueError()
        for k, v in out.items():
            self.generated_program.add_mapping([VariableArgument(a, False) for a in v], [VariableArgument(k, False)])
    else:
        if g.nodes[t].is_set_var:
            rows = [[] for i in range(len(self.set_variables[g.key_map[t]]))]
        else:
            rows = [[]]
        for s, i in zip(sources, at):
            maps = g.edges_c[i].mappings
            if maps == ':':
                if g.key_map[t] in self.set_variables:
                    for k in range(len(self.set_variables[g.key_map[t]])):
                        rows[k].append((s[0], k))
                else:
                    rows[0].append((s[0], None))
            else:
                for m in maps:
                    rows[m[1] if m[1] else 0].append((s[0], m[0]))
        name = g.key_map[t]
        out = {}
        for row in rows:
            for v in row:
                source = d_u(g.key_map[v[0]])
                if source in self.scope_variables:
                    if name in out:
                        out[name].append(VariableArgument(source, False))
                    else:
                        out[name] = [VariableArgument(source, False)]
                elif source in self.set_variables:
                    if name in out:
                        out[name].append(VariableArgument(self.set_variables[source].get_var_by_idx(v[1]).id, False))
                    else:
                        out[name] = [VariableArgument(self.set_variables[source].get_var_by_idx(v[1]).id, False)]
                else:
                    raise ValueError()
        for k, v in out.items():
            self.generated_program.add_mapping(v, [VariableArgument(k, False)])
"""
    unused = spec.replace('        out = {}\n        if len(whole)', """        pairs = [[]] * sv.size
        for p in parts:
            for k, v in p[1].items():
                pairs[k].append((p[0], v))
        out = {}
        if len(whole)""")
    assert unused != spec
    compare(ctx, 'sums', 'EquationGenerator._process_sum_node', [spec, unused],
            opaque=EDGES + ('add_mapping', 'd_u', 'get_var_by_idx', 'VariableArgument.__init__'), ignore=skip, what='the sum of a variable')


NODE = dict(Node=(None, ('ao', 'file', 'name', 'ln', 'label', 'id', 'local_id', 'ctx', 'set_var_ix', 'ast_type')), Edge=(None, ('label', 'branches')))


def labels(trace):
    trace.drop = NODE
