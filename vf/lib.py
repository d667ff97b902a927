"""Bridges between the library's objects and the reference models."""
import numpy as np

from causallearn.graph.Dag import Dag
from causallearn.graph.Edge import Edge
from causallearn.graph.Endpoint import Endpoint
from causallearn.graph.GeneralGraph import GeneralGraph
from causallearn.graph.GraphNode import GraphNode

from . import ref

VAL = {1: ref.ARR, -1: ref.TAIL, 2: ref.CIRC, 0: ref.NONE}


def make_nodes(names):
    return [GraphNode(x) for x in names]


def dag_of(names, E, cls=Dag, order=None):
    nodes = make_nodes(names)
    g = cls(nodes)
    es = sorted(E) if order is None else order
    for i, j in es:
        g.add_directed_edge(nodes[i], nodes[j])
    return g, nodes


def general_of(names, mixed):
    nodes = make_nodes(names)
    g = GeneralGraph(nodes)
    EP = {ref.ARR: Endpoint.ARROW, ref.TAIL: Endpoint.TAIL, ref.CIRC: Endpoint.CIRCLE}
    for i, j in mixed.edges():
        g.add_edge(Edge(nodes[i], nodes[j], EP[mixed.m[j][i]], EP[mixed.m[i][j]]))
    return g, nodes


def marks(G, names=None):
    """Mixed graph read through the public edge API, by node name"""
    nodes = G.get_nodes()
    nm = [x.get_name() for x in nodes]
    if names is None:
        names = nm
    ix = {x: i for i, x in enumerate(names)}
    g = ref.Mixed(len(names))
    for e in G.get_graph_edges():
        a, b = ix[e.get_node1().get_name()], ix[e.get_node2().get_name()]
        g.set(a, b, VAL[e.get_endpoint1().value], VAL[e.get_endpoint2().value])
    return g


def matrix_marks(A):
    """Mixed graph from the documented matrix encoding: A[j,i]=1 and A[i,j]=-1 <=> i --> j (A[i,j] = mark at i)"""
    A = np.asarray(A)
    n = A.shape[0]
    g = ref.Mixed(n)
    for i in range(n):
        for j in range(n):
            if i != j and A[i, j] != 0:
                g.m[j][i] = VAL[int(A[i, j])]     # mark at i of edge i-j
    return g


def dir_und(A):
    """(directed set, undirected set, other list) of the documented matrix encoding"""
    A = np.asarray(A)
    n = A.shape[0]
    D, U, X = set(), set(), []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = int(A[i, j]), int(A[j, i])
            if a == 0 and b == 0:
                continue
            if a == -1 and b == 1:
                D.add((i, j))
            elif a == 1 and b == -1:
                D.add((j, i))
            elif a == -1 and b == -1:
                U.add(frozenset((i, j)))
            else:
                X.append((i, j, a, b))
    return D, U, X


def cpdag_matrix(n, D, U):
    A = np.zeros((n, n))
    for i, j in D:
        A[i, j] = -1
        A[j, i] = 1
    for s in U:
        i, j = tuple(s)
        A[i, j] = A[j, i] = -1
    return A


def show(D, U):
    return [f"{i}->{j}" for i, j in sorted(D)] + [f"{min(s)}--{max(s)}" for s in sorted(U, key=sorted)]


def E_(E):
    return [f"{i}->{j}" for i, j in sorted(E)]


def oracle_data(n, rows=4):
    """placeholder data for searches driven by a d-separation oracle"""
    return np.arange(rows * n, dtype=float).reshape(rows, n) ** 1.5 % 7.1
