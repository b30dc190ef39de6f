"""Contracts on builder, readers, generators, transportation flows
(C16-C20)."""

import os

import pandas as pd
import pkg_resources

from contracts.api import contract

SB = "pytspl.simplicial_complex.scbuilder"
NR = "pytspl.io.network_reader"
TL = "pytspl.io.data_loaders.transportation_loader"
DATA_FOLDER = pkg_resources.resource_filename("pytspl", "data/transportation_networks")


# ------------------------------------------------------------------ C18
@contract(SB, "SCBuilder.__init__", ["C18"])
def builder_init(c, self, nodes, edges, node_features={}, edge_features={}):
    c.modifies(self, "nodes", "edges", "node_features", "edge_features")
    c.ensures("nodes", lambda r: c.same(self.nodes, nodes))
    c.ensures("edges", lambda r: c.same(self.edges, edges))
    c.ensures("node features", lambda r: c.same(self.node_features, node_features))
    c.ensures("edge features", lambda r: c.same(self.edge_features, edge_features))


@contract(SB, "SCBuilder.triangles", ["C18"])
def builder_triangles(c, self):
    c.ensures("exactly the 3-cliques, sorted", lambda r: c.is_triangles(r, self.edges))


@contract(SB, "SCBuilder.triangles_dist_based", ["C18"])
def triangles_dist_based(c, self, dist_col_name, epsilon):
    c.requires_features(self, dist_col_name)
    c.ensures(
        "exactly the 3-cliques with three known distances below epsilon",
        lambda r: c.is_close_triangles(r, self, dist_col_name, epsilon),
    )


@contract(SB, "SCBuilder.to_simplicial_complex", ["C18"])
def to_simplicial_complex(c, self, condition="all", dist_col_name="distance", dist_threshold=1.5, triangles=None):
    c.ensures("nodes", lambda r: c.same(r.nodes, self.nodes))
    c.ensures("edges", lambda r: c.same(r.edges, self.edges))
    c.ensures("node features", lambda r: c.same(r.node_features, self.node_features))
    c.ensures("edge features", lambda r: c.same(r.edge_features, self.edge_features))
    if triangles is not None:
        c.ensures("given triangles", lambda r: c.same(r.triangles, triangles))
    elif condition == "all":
        c.ensures("all 3-cliques", lambda r: c.is_triangles(r.triangles, self.edges))
    else:
        c.requires_features(self, dist_col_name)
        c.ensures("close 3-cliques", lambda r: c.is_close_triangles(r.triangles, self, dist_col_name, dist_threshold))


# ------------------------------------------------------------------ C16
def pairs_kept(c, df, src_col, dest_col, zero, nodes, edges):
    """clauses on the nodes and edges of an edge table"""
    off = 0 if zero else 1
    u = lambda i: int(df.iloc[i][src_col]) - off
    v = lambda i: int(df.iloc[i][dest_col]) - off
    same = lambda i, j: (u(i) == u(j) and v(i) == v(j)) or (u(i) == v(j) and v(i) == u(j))
    c.ensures("nodes are 0 .. n", lambda r: c.eq(list(nodes(r)), list(range(len(nodes(r))))))
    c.ensures("nodes reach every id", lambda r: c.forall(len(df), lambda i: u(i) < len(nodes(r)) and v(i) < len(nodes(r))))
    c.ensures("nodes end at the largest id", lambda r: c.exists(len(df), lambda i: u(i) == len(nodes(r)) - 1 or v(i) == len(nodes(r)) - 1))
    c.ensures("edges are first rows", lambda r: c.forall(len(edges(r)), lambda k: c.exists(
        len(df), lambda i: edges(r)[k] == (u(i), v(i)) and not c.exists(i, lambda j: same(i, j)))))
    c.ensures("every row has its edge", lambda r: c.forall(
        len(df), lambda i: (u(i), v(i)) in edges(r) or (v(i), u(i)) in edges(r)))
    c.ensures("edges are sorted", lambda r: c.forall(len(edges(r)) - 1, lambda k: edges(r)[k] < edges(r)[k + 1]))


def own_features(c, df, src_col, dest_col, zero, edges, features, cols):
    """every edge has the features of the first row that describes it"""
    off = 0 if zero else 1
    row = lambda e: c.first(len(df), lambda i: int(df.iloc[i][src_col]) - off == e[0] and int(df.iloc[i][dest_col]) - off == e[1])
    c.ensures("features of the edges only", lambda r: c.eq(list(features(r)), list(edges(r))))
    c.ensures("features of the own row", lambda r: c.forall(
        len(edges(r)), lambda k: c.is_record(features(r)[edges(r)[k]], df.iloc[row(edges(r)[k])], cols(df))))


@contract(NR, "_extract_nodes_edges", ["C16"])
def extract_nodes_edges(c, df, src_col, dest_col, start_index_zero):
    c.requires_edge_table(df, src_col, dest_col, start_index_zero)
    pairs_kept(c, df, src_col, dest_col, start_index_zero, lambda r: r[0], lambda r: r[1])


@contract(NR, "_extract_edge_features", ["C16"])
def extract_edge_features(c, df, src_col, dest_col, feature_cols, edges, start_index_zero):
    c.requires_edge_table(df, src_col, dest_col, start_index_zero)
    c.requires_columns(df, feature_cols)
    c.requires_rows(df, src_col, dest_col, start_index_zero, edges)
    own_features(c, df, src_col, dest_col, start_index_zero, lambda r: edges, lambda r: r, lambda d: feature_cols)


@contract(NR, "read_tntp", ["C16"])
def read_tntp(c, filename, src_col, dest_col, skip_rows, delimiter="\t", start_index_zero=True):
    df = pd.read_csv(filename, skiprows=skip_rows, sep=delimiter)
    df.columns = [s.strip() for s in df.columns]
    c.requires_columns(df, ["~", ";"])
    df.drop(["~", ";"], axis=1, inplace=True)
    c.requires_edge_table(df, src_col, dest_col, start_index_zero)
    pairs_kept(c, df, src_col, dest_col, start_index_zero, lambda r: r.nodes, lambda r: r.edges)
    cols = [x for x in df.columns if x != src_col and x != dest_col]
    if len(cols) > 0:
        own_features(c, df, src_col, dest_col, start_index_zero, lambda r: r.edges, lambda r: r.edge_features, lambda d: cols)
    else:
        c.ensures("no features", lambda r: c.eq(r.edge_features, {}))
    c.ensures("no node features", lambda r: c.eq(r.node_features, {}))


@contract(NR, "read_csv", ["C16"])
def read_csv(c, filename, delimiter, src_col, dest_col, feature_cols=None, start_index_zero=True):
    df = pd.read_csv(filename, sep=delimiter)
    c.requires_edge_table(df, src_col, dest_col, start_index_zero)
    pairs_kept(c, df, src_col, dest_col, start_index_zero, lambda r: r.nodes, lambda r: r.edges)
    if feature_cols is not None and len(feature_cols) > 0:
        c.requires_columns(df, feature_cols)
        own_features(c, df, src_col, dest_col, start_index_zero, lambda r: r.edges, lambda r: r.edge_features, lambda d: feature_cols)
    else:
        c.ensures("no features", lambda r: c.eq(r.edge_features, {}))
    c.ensures("no node features", lambda r: c.eq(r.node_features, {}))


@contract(NR, "read_coordinates", ["C16"])
def read_coordinates(c, filename, node_id_col, x_col, y_col, delimiter, start_index_zero=True):
    if not os.path.exists(filename):
        c.returns(None)
    else:
        df = pd.read_csv(filename, sep=delimiter)
        df.columns = [s.strip() for s in df.columns]
        c.requires_columns(df, [node_id_col, x_col, y_col])
        c.requires(node_id_col != x_col and node_id_col != y_col)
        off = 0 if start_index_zero else 1
        c.requires_distinct(len(df), lambda i: df.iloc[i][node_id_col])
        c.ensures("one point per row", lambda r: len(r) == len(df))
        c.ensures("the point of the node", lambda r: c.forall(
            len(df), lambda i: c.eq(r[df.iloc[i][node_id_col] - off], (df.iloc[i][x_col], df.iloc[i][y_col]))))


@contract(NR, "read_flow", ["C16", "C19"])
def read_flow(c, filename, sep="\t", header="infer"):
    if os.path.exists(filename):
        c.ensures("the table as stored", lambda r: c.same_table(r, pd.read_csv(filename, sep=sep, header=header)))
    else:
        c.ensures("empty", lambda r: r.empty)


# ------------------------------------------------------------------ C17
@contract(NR, "read_B2", ["C17"])
def read_B2(c, B2_filename, edges):
    B2 = pd.read_csv(B2_filename, header=None).to_numpy().T
    c.requires_rows_of(B2, edges)
    c.ensures("one triangle per column", lambda r: len(r) == B2.shape[1])
    c.ensures("the sorted nodes of its edges", lambda r: c.forall(
        B2.shape[1], lambda j: c.is_sorted_set(r[j], len(edges), lambda s: B2[s, j] != 0, lambda s: (edges[s, 0], edges[s, 1]))))


@contract(NR, "read_B1_B2", ["C17"])
def read_B1_B2(c, B1_filename, B2_filename):
    ends = c.requires_incidence(B1_filename)
    B1 = pd.read_csv(B1_filename, header=None).to_numpy()
    B2 = pd.read_csv(B2_filename, header=None).to_numpy().T
    c.requires(B1.shape[1] >= 1)
    c.requires_rows_of(B2, ends)
    c.ensures("nodes", lambda r: c.eq(list(r[0].nodes), list(range(B1.shape[0]))))
    c.ensures("one edge per column", lambda r: len(r[0].edges) == B1.shape[1])
    c.ensures("edges in the order and direction of the file", lambda r: c.forall(
        B1.shape[1], lambda j: c.eq(r[0].edges[j], (ends[j, 0], ends[j, 1]))))
    c.ensures("the incidence matrix is the file", lambda r: c.is_boundary1_n(B1, B1.shape[0], r[0].edges))
    c.ensures("no features", lambda r: c.eq(r[0].edge_features, {}) and c.eq(r[0].node_features, {}))
    c.ensures("one triangle per column", lambda r: len(r[1]) == B2.shape[1])
    c.ensures("the sorted nodes of its edges", lambda r: c.forall(
        B2.shape[1], lambda j: c.is_sorted_set(r[1][j], B1.shape[1], lambda s: B2[s, j] != 0, lambda s: (ends[s, 0], ends[s, 1]))))


# ------------------------------------------------------------------ C19
def flows_of(c, dataset, before, edges, flow):
    """the flow table of the dataset as net flows of the edges"""
    folder = c.data_folder(TL, DATA_FOLDER)
    path = f"{folder}/{dataset}/{dataset}_flow.tntp"
    if not os.path.exists(path):
        c.ensures("no flows", lambda r: c.eq(flow(r), {}))
        return
    df = pd.read_csv(path, sep="\t", header="infer")
    c.requires_columns(df, ["From ", "To ", "Volume "])
    if len(df) == 0:
        c.ensures("no flows", lambda r: c.eq(flow(r), {}))
        return
    hit = lambda u, v: lambda i: df.iloc[i]["From "] == u + 1 and df.iloc[i]["To "] == v + 1
    volume = lambda u, v: df.iloc[c.first(len(df), hit(u, v))]["Volume "]
    back = lambda u, v: volume(v, u) if c.exists(len(df), hit(v, u)) else 0
    if before is None:
        c.may_raise("IndexError")       # an edge without a row
    else:
        c.requires_forall(len(before), lambda k: c.exists(len(df), hit(before[k][0], before[k][1])))
    c.ensures("the edges in their order", lambda r: c.eq(list(flow(r)), list(edges(r))))
    c.ensures("net flows", lambda r: c.forall(
        len(edges(r)), lambda k: flow(r)[edges(r)[k]] == volume(edges(r)[k][0], edges(r)[k][1]) - back(edges(r)[k][0], edges(r)[k][1])))


@contract(TL, "load_flow_transportation", ["C19"])
def load_flow(c, dataset, edges):
    flows_of(c, dataset, edges, lambda r: edges, lambda r: r)


def attached(c, table, edges=None):
    """value k of the (one-column) file is the flow of edge k"""
    c.requires(table.shape[1] == 1)
    values = table[:, 0]
    if edges is None:
        c.may_raise("IndexError")       # fewer values than edges
    else:
        c.requires(table.shape[0] >= edges)
    c.ensures("the edges in their order", lambda r: c.eq(list(r[2]), list(r[0].edges)))
    c.ensures("flows in edge order", lambda r: c.forall(len(r[0].edges), lambda k: r[2][r[0].edges[k]] == values[k]))


def points(c, path, id_col, x_col, y_col, sep, off=0):
    """every row of the file is the point of its node"""
    c.requires(os.path.exists(path))
    df = pd.read_csv(path, sep=sep)
    df.columns = [s.strip() for s in df.columns]
    c.requires_columns(df, [id_col, x_col, y_col])
    c.requires_distinct(len(df), lambda i: df.iloc[i][id_col])
    c.ensures("one point per row", lambda r: len(r[1]) == len(df))
    c.ensures("the point of the node", lambda r: c.forall(
        len(df), lambda i: c.eq(r[1][df.iloc[i][id_col] - off], (df.iloc[i][x_col], df.iloc[i][y_col]))))


def incidence_files(c, B1_filename, B2_filename):
    """the complex stored in two incidence matrices"""
    ends = c.requires_incidence(B1_filename)
    B1 = pd.read_csv(B1_filename, header=None).to_numpy()
    B2 = pd.read_csv(B2_filename, header=None).to_numpy().T
    c.requires(B1.shape[1] >= 1)
    c.requires_rows_of(B2, ends)
    c.requires_triangle_columns(B2, ends)
    c.requires_distinct(B1.shape[1], lambda j: (ends[j, 0], ends[j, 1]))
    c.ensures("nodes", lambda r: c.eq(list(r[0].nodes), list(range(B1.shape[0]))))
    c.ensures("one edge per column", lambda r: len(r[0].edges) == B1.shape[1])
    c.ensures("edges in the order and direction of the file", lambda r: c.forall(
        B1.shape[1], lambda j: c.eq(r[0].edges[j], (ends[j, 0], ends[j, 1]))))
    c.ensures("one triangle per column", lambda r: len(r[0].triangles) == B2.shape[1])
    c.ensures("the sorted nodes of its edges", lambda r: c.forall(
        B2.shape[1], lambda j: c.is_sorted_set(r[0].triangles[j], B1.shape[1], lambda s: B2[s, j] != 0, lambda s: (ends[s, 0], ends[s, 1]))))
    return B1.shape[1]


@contract("pytspl.io.data_loaders.paper_loader", "load_paper_data", ["C19"])
def load_paper_data(c):
    folder = pkg_resources.resource_filename("pytspl", "data/paper_data")
    df = pd.read_csv(folder + "/edges.csv", sep=" ")
    c.requires_edge_table(df, "Source", "Target", True)
    c.requires_columns(df, ["Distance"])
    pairs_kept(c, df, "Source", "Target", True, lambda r: r[0].nodes, lambda r: r[0].edges)
    points(c, folder + "/coordinates.csv", "Id", "X", "Y", " ")
    attached(c, pd.read_csv(folder + "/flow.csv", header=None).to_numpy())


@contract("pytspl.io.data_loaders.forex_loader", "load_forex_data", ["C19"])
def load_forex_data(c):
    folder = pkg_resources.resource_filename("pytspl", "data/foreign_exchange")
    m = incidence_files(c, folder + "/B1.csv", folder + "/B2t.csv")
    attached(c, pd.read_csv(folder + "/flow_FX_1538755200.csv", header=None).to_numpy(), m)


@contract(TL, "load_chicago_sketch", ["C19"])
def load_chicago_sketch(c):
    folder = pkg_resources.resource_filename("pytspl", "data/transportation_networks/chicago-sketch")
    m = incidence_files(c, folder + "/B1_chicago_sketch.csv", folder + "/B2t_chicago_sketch.csv")
    points(c, folder + "/coordinates_chicago_sketch.csv", "Id", "X", "Y", ",")
    attached(c, pd.read_csv(folder + "/flow_chicago_sketch.csv", delimiter=",", header=None).to_numpy(), m)


@contract("pytspl.io.data_loaders.lastfm_loader", "load_lastfm_1k_artist", ["C19"])
def load_lastfm(c):
    folder = pkg_resources.resource_filename("pytspl", "data/lastfm-dataset-1K")
    m = incidence_files(c, folder + "/B1-artist.csv", folder + "/B2t-artist.csv")
    attached(c, pd.read_csv(folder + "/flow-artist.csv", header=None).to_numpy(), m)


@contract(TL, "load_transportation_dataset", ["C19"])
def load_transportation(c, dataset):
    c.requires(dataset != "chicago-sketch")
    folder = c.data_folder(TL, DATA_FOLDER)
    df = pd.read_csv(f"{folder}/{dataset}/{dataset}_net.tntp", skiprows=8, sep="\t")
    df.columns = [s.strip() for s in df.columns]
    c.requires_columns(df, ["~", ";"])
    df.drop(["~", ";"], axis=1, inplace=True)
    c.requires_edge_table(df, "init_node", "term_node", False)
    c.requires(len([x for x in df.columns if x != "init_node" and x != "term_node"]) > 0)
    path = f"{folder}/{dataset}/{dataset}_node.tntp"
    if os.path.exists(path):
        points(c, path, "node", "X", "Y", "\t", 1)
    flows_of(c, dataset, None, lambda r: r[0].edges, lambda r: r[2])


# ------------------------------------------------------------------ C20
@contract("pytspl.io.sc_generator", "generate_random_simplicial_complex", ["C20"])
def random_complex(c, num_of_nodes, p, dist_threshold, seed):
    c.requires(num_of_nodes >= 0)
    c.ensures("nodes", lambda r: c.eq(list(r[0].nodes), list(range(num_of_nodes))))
    c.ensures("edges are simple", lambda r: c.is_simple(r[0].edges, num_of_nodes))
    c.ensures("every edge has a distance in [0, 1)", lambda r: c.forall(
        len(r[0].edges),
        lambda k: 0 <= r[0].edge_features[r[0].edges[k]]["distance"] and r[0].edge_features[r[0].edges[k]]["distance"] < 1,
    ))
    c.ensures("features of the edges only", lambda r: c.eq(list(r[0].edge_features), list(r[0].edges)))
    c.ensures("coordinates of every node", lambda r: c.eq(list(r[1]), list(range(num_of_nodes))))
    c.ensures("close 3-cliques", lambda r: c.is_close_triangles(r[0].triangles, r[0], "distance", dist_threshold))
    c.ensures("determined by the arguments", lambda r: c.determined(r))
