"""Stand-in for the part of graph-tool's interface that switss uses, following graph-tool's documentation: directed
multigraphs with numbered vertices, vertex filters, property maps with an `.a` array over all vertices of the graph
(int32 / uint8 / double), topological order (an edge's source precedes its target; ties as a depth-first search from
the last vertex leaves them) and breadth-first distances (2147483647 where unreachable)."""
import itertools, re
import numpy as np

_DT = {"int32_t": np.int32, "int": np.int32, "bool": np.uint8, "double": np.float64, "float": np.float64, "int64_t": np.int64}
ORDER = {"choice": 0}         # which of the valid topological orders is returned

class Vertex(int):
    pass

class Edge:
    __slots__ = ("s", "t", "k")
    def __init__(self, s, t, k): self.s, self.t, self.k = Vertex(s), Vertex(t), k
    def source(self): return self.s
    def target(self): return self.t

class VMap:
    def __init__(self, g, kind): self.g, self.kind, self.v = g, kind, {}; self._a = np.zeros(g.num_vertices(True), dtype=_DT[kind])
    @property
    def a(self): return self._a
    def __getitem__(self, v):
        x = self._a[int(v)]
        return bool(x) if self.kind == "bool" else float(x) if self.kind in ("double", "float") else int(x)
    def __setitem__(self, v, x):
        if isinstance(x, np.ndarray): raise TypeError("cannot convert array to property value")
        self._a[int(v)] = x

class EMap:
    def __init__(self, kind): self.kind, self.d = kind, {}
    def __getitem__(self, e): return self.d.get(e.k, 0)
    def __setitem__(self, e, x): self.d[e.k] = float(x)

class _Props(dict):
    pass

class Graph:
    def __init__(self, g=None, directed=True):
        self._n, self._e = 0, []
        self.vertex_properties = self.vp = _Props(); self.edge_properties = self.ep = _Props()
    def _in(self, v): return True
    def num_vertices(self, ignore_filter=False): return self._n if ignore_filter else len(self.get_vertices())
    def num_edges(self): return len(list(self.edges()))
    def add_vertex(self, n=1):
        first = self._n; self._n += int(n)
        return Vertex(first) if n == 1 else iter([Vertex(v) for v in range(first, self._n)])
    def vertex(self, v, use_index=True, add_missing=False):
        v = int(v)
        if not 0 <= v < self._n or not self._in(v): raise ValueError("Invalid vertex index: %d" % v)
        return Vertex(v)
    def add_edge(self, s, t, add_missing=True):
        e = Edge(int(s), int(t), len(self._e)); self._e.append(e); return e
    def edge(self, s, t, all_edges=False, add_missing=False):
        for e in self.edges():
            if e.s == int(s) and e.t == int(t): return e
        return self.add_edge(s, t) if add_missing else None
    def edges(self): return iter([e for e in self._e if self._in(e.s) and self._in(e.t)])
    def vertices(self): return iter([Vertex(v) for v in range(self._n) if self._in(v)])
    def get_vertices(self, vprops=[]): return np.array([v for v in range(self._n) if self._in(v)], dtype=np.uint64)
    def get_edges(self, eprops=[]):
        rows = [[e.s, e.t] + [p[e] for p in eprops] for e in self.edges()]
        return np.array(rows)
    def _nb(self, v, f): 
        if not self._in(int(v)): raise ValueError("invalid vertex")
        return np.array([f(e) for e in self.edges() if (e.s if f is _tgt else e.t) == int(v)], dtype=np.uint64)
    def get_out_neighbors(self, v, vprops=[]): return self._nb(v, _tgt)
    def get_in_neighbors(self, v, vprops=[]): return self._nb(v, _src)
    get_out_neighbours, get_in_neighbours = get_out_neighbors, get_in_neighbors
    def get_in_degrees(self, vs, eweight=None): return np.array([len(self.get_in_neighbors(v)) for v in vs], dtype=np.uint64)
    def get_out_degrees(self, vs, eweight=None): return np.array([len(self.get_out_neighbors(v)) for v in vs], dtype=np.uint64)
    def new_vertex_property(self, kind, vals=None, val=None): return VMap(self, kind)
    new_vp = new_vertex_property
    def new_edge_property(self, kind, vals=None, val=None): return EMap(kind)
    new_ep = new_edge_property

def _tgt(e): return e.t
def _src(e): return e.s

class GraphView(Graph):
    def __init__(self, g, vfilt=None, **kw):
        self._g = g; self._n, self._e = g._n, g._e
        keep = [g._in(v) and (vfilt is None or bool(vfilt(Vertex(v)))) for v in range(g._n)]
        self._keep = keep
        self.vertex_properties = self.vp = _Props(g.vp); self.edge_properties = self.ep = _Props(g.ep)
    def _in(self, v): return self._keep[int(v)]

def _orders(g):
    vs = [int(v) for v in g.get_vertices()]; es = {(int(e.s), int(e.t)) for e in g.edges()}
    def rec(done, left):
        if not left: yield list(done); return
        for v in left:
            if all(s in done or s == v for s, t in es if t == v) and (v, v) not in es:
                yield from rec(done + [v], [w for w in left if w != v])
    return rec([], vs)

def topological_sort(g):
    """one of the valid orders, chosen by the harness (graph-tool fixes one of them, its documentation does not say which)"""
    os = list(itertools.islice(_orders(g), 720))
    if not os: raise ValueError("Graph is not a directed acylic graph (DAG).")
    ORDER["count"] = len(os)
    return np.array(os[ORDER["choice"] % len(os)], dtype=np.int32)

def shortest_distance(g, source=None, target=None, weights=None, **kw):
    d = g.new_vp("int32_t"); d.a[:] = 2147483647; d[source] = 0
    q = [int(source)]
    while q:
        v = q.pop(0)
        for w in g.get_out_neighbors(v):
            if d[w] == 2147483647: d[w] = d[v] + 1; q.append(int(w))
    return d

def extract_largest_component(g, directed=None, prune=False):
    vs = [int(v) for v in g.get_vertices()]
    def reach(v, f):
        seen, st = {v}, [v]
        while st:
            x = st.pop()
            for w in f(x):
                if int(w) not in seen: seen.add(int(w)); st.append(int(w))
        return seen
    best = max((reach(v, g.get_out_neighbors) & reach(v, g.get_in_neighbors) for v in vs), key=len, default=set())
    return GraphView(g, vfilt=lambda v: int(v) in best)
