"""Model of the part of networkx the package uses, in the analysed language."""
from math import cos, sin, sqrt

pi = 3.141592653589793


class Graph:
    def __init__(self):
        self._node = {}
        self._edge = {}

    def add_node(self, n, **attr):
        d = dict(self._node)
        e = dict(d.get(n, {}))
        e.update(attr)
        d[n] = e
        self._node = d

    def add_nodes_from(self, ns):
        for n in ns:
            self.add_node(n)

    def add_edge(self, u, v, **attr):
        d = dict(self._node)
        if u not in d:
            d[u] = {}
        if v not in d:
            d[v] = {}
        self._node = d
        f = dict(self._edge)
        if (v, u) not in f:
            f[(u, v)] = {}
        self._edge = f

    def add_edges_from(self, es):
        for u, v in es:
            self.add_edge(u, v)

    @property
    def nodes(self):
        return self._node

    @property
    def edges(self):
        return self._edge

    def number_of_nodes(self):
        return len(self._node)

    def __len__(self):
        return len(self._node)

    def __iter__(self):
        return iter(self._node)

    def __contains__(self, n):
        return n in self._node

    def copy(self):
        g = Graph()
        g._node = {k: dict(v) for k, v in self._node.items()}
        g._edge = {k: dict(v) for k, v in self._edge.items()}
        return g

    def __deepcopy__(self, memo):
        return self.copy()


def set_node_attributes(G, values, name=None):
    G._node = {k: ({**d, **values[k]} if name is None else {**d, name: values[k]}) if k in values else d for k, d in G._node.items()}


def get_node_attributes(G, name):
    return {k: d[name] for k, d in G._node.items() if name in d}


def relabel_nodes(G, mapping):
    g = Graph()
    g._node = {mapping.get(k, k): dict(d) for k, d in G._node.items()}
    g._edge = {(mapping.get(e[0], e[0]), mapping.get(e[1], e[1])): {} for e in G._edge}
    return g


def convert_node_labels_to_integers(G):
    return relabel_nodes(G, {k: i for i, k in enumerate(G._node)})


def grid_2d_graph(m, n, periodic=False):
    g = Graph()
    g._node = {(i, j): {} for i in range(m) for j in range(n)}
    for i in range(1, m):
        for j in range(n):
            g.add_edge((i - 1, j), (i, j))
    for j in range(1, n):
        for i in range(m):
            g.add_edge((i, j - 1), (i, j))
    if periodic:
        if m > 2:
            for j in range(n):
                g.add_edge((0, j), (m - 1, j))
        if n > 2:
            for i in range(m):
                g.add_edge((i, 0), (i, n - 1))
    return g


def path_graph(n):
    g = Graph()
    g._node = {i: {} for i in range(n)}
    for i in range(1, n):
        g.add_edge(i - 1, i)
    return g


def cycle_graph(n):
    g = path_graph(n)
    if n > 2:
        g.add_edge(n - 1, 0)
    return g


def complete_graph(n):
    g = Graph()
    g._node = {i: {} for i in range(n)}
    for i in range(n):
        for j in range(i + 1, n):
            g.add_edge(i, j)
    return g


def circular_layout(G):
    n = len(G._node)
    if n == 1:
        return {k: (0.0, 0.0) for k in G._node}
    return {k: (cos(2 * pi * i / n), sin(2 * pi * i / n)) for i, k in enumerate(G._node)}


def triangular_lattice_graph(m, n):
    g = Graph()
    cols = (n + 1) // 2
    g._node = {(i, j): {} for j in range(m + 1) for i in range(cols + 1)}
    for j in range(m + 1):
        for i in range(cols):
            g.add_edge((i, j), (i + 1, j))
    for j in range(m):
        for i in range(cols + 1):
            g.add_edge((i, j), (i, j + 1))
    for j in range(1, m, 2):
        for i in range(cols):
            g.add_edge((i, j), (i + 1, j + 1))
    for j in range(0, m, 2):
        for i in range(cols):
            g.add_edge((i + 1, j), (i, j + 1))
    h = sqrt(3) / 2
    kill = [(cols, j) for j in range(1, m + 1, 2)] if n % 2 else []
    g._edge = {e: {} for e in g._edge if e[0] not in kill and e[1] not in kill}
    g._node = {k: {"pos": ((0.5 if k[1] % 2 else 0.0) + k[0], h * k[1])} for k in g._node if k not in kill}
    return g


def hexagonal_lattice_graph(m, n):
    g = Graph()
    M = 2 * m
    for i in range(n + 1):
        for j in range(M + 1):
            g.add_edge((i, j), (i, j + 1))
    for i in range(n):
        for j in range(M + 2):
            if i % 2 == j % 2:
                g.add_edge((i, j), (i + 1, j))
    kill = [(0, M + 1), (n, (M + 1) * (n % 2))]
    h = sqrt(3) / 2
    g._edge = {e: {} for e in g._edge if e[0] not in kill and e[1] not in kill}
    g._node = {k: {"pos": (0.5 + k[0] + k[0] // 2 + (k[1] % 2) * ((k[0] % 2) - 0.5), h * k[1])} for k in g._node if k not in kill}
    return g


def is_isomorphic(a, b):
    return len(a._node) == len(b._node) and len(a._edge) == len(b._edge)


def spring_layout(G, k=None, pos=None, fixed=None, iterations=50, threshold=0.0001, weight="weight", scale=1, center=None, dim=2, seed=None):
    # some placement of the nodes, without two at one place
    return {n: [(0.37 * (i + 1) ** 1.5) % 2.0 - 1.0, (0.59 * (i + 1) ** 1.25) % 2.0 - 1.0] for i, n in enumerate(G.nodes)}
