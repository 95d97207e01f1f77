"""The order in which equations and sums are evaluated."""
from ..spec import compare
from .lowering import GRAPH
from .translation import container


def C06(ctx):
    container(ctx, 'graph')
    lower(ctx)
    sort(ctx)
    program(ctx)


def lower(ctx):
    """Every edge of the graph counts: once in the number of inputs of its end, once in the children of its start."""
    compare(ctx, 'graph', 'Graph.make_lower_graph', """
def make_lower_graph(self, top_sort=False):
    self.lower_graph = _Graph(self.node_counter, np.array(self.edges[:self.edge_counter], np.int64),
                              np.array([x.node_type for x in self.nodes[:self.node_counter]], np.int64))
    if top_sort:
        self.lower_graph.topological_sort()
""", opaque=('_Graph.__init__', 'topological_sort'))
    compare(ctx, 'graph', '_Graph.__init__', """
def __init__(self, n_nodes, edges, node_types):
    self.n_children_max = 100
    self.n_nodes = n_nodes
    self.nodes = np.arange(n_nodes)
    self.n_edges = len(edges)
    self.edges = edges
    self.indegree_map = np.zeros(n_nodes, np.int64)
    self.children = np.zeros((n_nodes, self.n_children_max), np.int64)
    self.cyclic_dependency = np.int64(-1)
    THEN()
    self.in_degree()
    self.make_children_map()
""", opaque=('in_degree', 'make_children_map'), watch={('store', x) for x in (
        'n_nodes', 'nodes', 'n_edges', 'edges', 'indegree_map', 'children', 'cyclic_dependency')} | {
        ('call', 'in_degree'), ('call', 'make_children_map')})
    compare(ctx, 'graph', '_Graph.in_degree', """
def in_degree(self):
    for j in range(self.n_edges):
        self.indegree_map[self.edges[j][1]] += 1
    return self.indegree_map
""")
    compare(ctx, 'graph', '_Graph.make_children_map', """
def make_children_map(self):
    for i, e in enumerate(self.edges):
        row = self.children[e[0], :]
        row[0] += 1
        if row[0] > self.n_children_max - 1:
            raise ValueError()
        row[row[0]] = e[1]
        row = self.parent_edges[e[1], :]
        row[0] += 1
        if row[0] > self.n_children_max - 1:
            raise ValueError()
        row[row[0]] = i
        row = self.children_edges[e[0], :]
        row[0] += 1
        if row[0] > self.n_children_max - 1:
            raise ValueError()
        row[row[0]] = i
""")


def sort(ctx):
    """A node is placed when all edges into it have been counted off, by the nodes they come from, each once."""
    compare(ctx, 'sort', '_Graph.get_zero_indegree', """
def get_zero_indegree(self):
    n = 0
    out = np.zeros(self.n_nodes, dtype=int64)
    for i, im in enumerate(self.indegree_map):
        if im == 0:
            out[n] = i
            n += 1
    return out, n
""")
    compare(ctx, 'sort', '_Graph.topological_sort', """
def topological_sort(self):
    out = np.zeros(self.n_nodes, int64) * -1
    done = 0
    free, n = self.get_zero_indegree()
    while n > 0:
        node = free[n - 1]
        out[done] = node
        done += 1
        row = self.children[node, :]
        n -= 1
        for i in range(row[0]):
            c = row[i + 1]
            self.indegree_map[c] -= 1
            if self.indegree_map[c] == 0:
                free[n] = c
                n += 1
    if done < self.n_nodes:
        at, path = self.detect_cyclic_graph()
        self.cyclic_path = path
        self.cyclic_dependency = at
    else:
        self.cyclic_dependency = -1
    self.topological_sorted_nodes = out
""", opaque=('detect_cyclic_graph', 'get_zero_indegree'))
    compare(ctx, 'sort', 'Graph.topological_nodes', """
def topological_nodes(self, ignore_cyclic=True):
    if not self.lower_graph:
        self.make_lower_graph()
    THEN()
    self.lower_graph.topological_sort()
    if self.lower_graph.cyclic_dependency >= 0:
        left = set(self.lower_graph.nodes).difference(set(self.lower_graph.topological_sorted_nodes))
        self.cyclic_path = self.lower_graph.cyclic_path
        if not ignore_cyclic:
            raise ValueError()
        self.lower_graph.topological_sorted_nodes[-len(left):] = list(left)
    return self.lower_graph.topological_sorted_nodes
""", opaque=('make_lower_graph', 'topological_sort', 'graph_from_path', 'as_graphviz'), watch={('call', 'make_lower_graph'), ('call', 'topological_sort'),
            ('store', 'topological_sorted_nodes'), ('store', '[]'), ('store', 'lower_graph')})


def program(ctx):
    """The program is generated in that order, each equation and sum once, and every other kind of node is known."""
    compare(ctx, 'program', 'EquationGenerator.__init__', """
def __init__(self, equation_graph):
    self.topo_sorted_nodes = equation_graph.topological_nodes()
    self.equation_graph = equation_graph.clean()
""", opaque=GRAPH, raises=False, result=False, watch={('store', 'topo_sorted_nodes'), ('store', 'equation_graph')})
    compare(ctx, 'program', 'EquationGenerator.generate_equations', """
def generate_equations(self, export_model=False, clonable=False):
    for n in self.topo_sorted_nodes:
        kind = self.equation_graph.nodes[n].node_type
        if kind == NodeTypes.EQUATION:
            self._process_equation_node(n)
        elif kind == NodeTypes.SUM:
            self._process_sum_node(n)
        elif not (kind == NodeTypes.VAR or kind == NodeTypes.TMP):
            raise ValueError()
    THEN()
    self.generated_program.generate(ANY, ANY, ANY)
""", opaque=('_process_equation_node', '_process_sum_node', 'generate'), result=False,
            watch={('call', '_process_equation_node'), ('call', '_process_sum_node'), ('call', 'generate')})
