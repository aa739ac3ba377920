//! topology aware search: cores, degree-2/3 chain skipping, bidirectional core search
use harness::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::{BiDirCoreServer, BiDirServer, MultiThreadedBiDirSkipLowDegServer, Server, SkipLowDegServer, VirtualTopocoreOps};
use rust_road_router::algo::ch_potentials::CCHPotData;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

type Srv<P, const B: bool, const S2: bool, const S3: bool> = Server<OwnedGraph, DefaultOps, P, B, S2, S3>;
fn q<P: Potential, const B: bool, const S2: bool, const S3: bool>(s: &mut Srv<P, B, S2, S3>, g: &Gr, a: u32, b: u32) {
    let mut r = s.query(Query { from: a, to: b });
    let d = r.distance();
    g.check_dist(d, a, b, "topocore distance is exact");
    if let Some(d) = d {
        let p = r.node_path().unwrap();
        g.check_node_path(&p, d, a, b, "topocore path is a shortest path");
    }
}
fn all_configs(g: &Gr, pairs: &[(u32, u32)]) {
    let o = g.owned();
    macro_rules! run {
        ($b:literal, $s2:literal, $s3:literal) => {{
            let mut s: Srv<_, $b, $s2, $s3> = Server::new_custom(&o, ZeroPotential(), DefaultOps());
            for &(a, b) in pairs {
                q(&mut s, g, a, b);
            }
        }};
    }
    match choice("config", 6) {
        0 => run!(true, true, true),
        1 => run!(false, true, true),
        2 => run!(true, true, false),
        3 => run!(true, false, false),
        4 => run!(true, false, true),
        _ => run!(false, true, false),
    }
}
/// every graph with three nodes and every subset of the six arcs, any pair, six configurations
#[no_mangle]
pub extern "C" fn h_k3() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    let (a, b) = (sym_node("a", 3), sym_node("b", 3));
    all_configs(&g, &[(a, b)]);
}
/// loops and parallel arcs
#[no_mangle]
pub extern "C" fn h_multi() {
    let g = Gr::sym_topology(3, &[(0, 0), (0, 1), (0, 1), (1, 1), (1, 2), (1, 2), (2, 1), (2, 2)]);
    let (a, b) = [(0, 1), (0, 2), (2, 1), (1, 2)][choice("pair", 4)];
    all_configs(&g, &[(a, b)]);
}
/// a triangle core with a path of two nodes attached, every subset of the attaching arcs (one-way streets included)
#[no_mangle]
pub extern "C" fn h_attached() {
    let opt: Vec<(u32, u32)> = [(0, 3), (3, 0), (3, 4), (4, 3)].iter().copied().filter(|_| choice("edge", 2) == 1).collect();
    let mut e = vec![(0, 1), (1, 0), (1, 2), (2, 0)];
    e.extend(opt);
    e.sort();
    let g = Gr::sym(5, &e);
    let (a, b) = (sym_node("a", 5), sym_node("b", 5));
    all_configs(&g, &[(a, b)]);
}
/// a core whose nodes all have degree three or more, with a star attached: pairs in all relative positions
#[no_mangle]
pub extern "C" fn h_dense_core() {
    // node ids permuted such that the depth first search enters the star before or after the core
    let e = bidir(7, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (0, 4), (4, 5), (4, 6)]);
    let mut g = Gr::new(7, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if [(5, 4), (4, 0), (0, 1), (4, 6)].contains(x) {
            g.w[i] = sym_w("w");
        }
    }
    let (a, b) = [(5, 1), (1, 5), (5, 6), (4, 2), (3, 4), (6, 4), (2, 3)][choice("pair", 7)];
    all_configs(&g, &[(a, b)]);
}
/// attached components with one-way arcs: the target is reachable within the component although the core is not
#[no_mangle]
pub extern "C" fn h_component_only() {
    let e = [(0, 1), (0, 3), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (5, 4)];
    let g = Gr::sym(6, &e);
    let (a, b) = (sym_node("a", 6), sym_node("b", 6));
    all_configs(&g, &[(a, b)]);
}
/// a cycle of six nodes with one chord, one direction symbolic: degree two chains between degree three nodes
#[no_mangle]
pub extern "C" fn h_chain() {
    let e = bidir(6, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5), (0, 3)]);
    let mut g = Gr::new(6, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if [(0, 1), (1, 2), (0, 3), (3, 4), (0, 5)].contains(x) {
            g.w[i] = sym_w("w");
        }
    }
    let b = sym_node("b", 6);
    let a = [0, 1, 3][choice("a", 3)];
    all_configs(&g, &[(a, b)]);
}
/// two or three queries on one object, complete graph on three nodes with an attached node
#[no_mangle]
pub extern "C" fn h_reuse() {
    let e = [(0, 1), (0, 2), (1, 0), (1, 2), (1, 3), (2, 0), (3, 1)];
    let g = Gr::sym(4, &e);
    let pairs = [[(0, 2), (3, 0)], [(3, 2), (0, 3)], [(1, 3), (1, 0)], [(2, 2), (2, 1)]][choice("pairs", 4)];
    all_configs(&g, &pairs);
}
/// a hub (degree four or more) attached to a triangle, and another component: pairs within, into, and out of them
#[no_mangle]
pub extern "C" fn h_hub() {
    let e = bidir(9, &[(0, 1), (0, 2), (1, 2), (0, 3), (3, 4), (3, 5), (3, 6), (4, 5), (7, 8)]);
    let mut g = Gr::new(9, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if [(0, 3), (1, 0), (3, 5), (4, 5), (3, 0), (8, 7)].contains(x) {
            g.w[i] = sym_w("w");
        }
    }
    let (a, b) = [(0, 6), (1, 5), (5, 2), (4, 0), (4, 5), (6, 5), (7, 8), (8, 7), (7, 0), (1, 8)][choice("pair", 10)];
    all_configs(&g, &[(a, b)]);
}
/// a separate component larger than one hop, a tree, and trees only
#[no_mangle]
pub extern "C" fn h_forest() {
    let e = match choice("graph", 3) {
        0 => bidir(8, &[(0, 1), (0, 2), (1, 2), (3, 4), (4, 5), (4, 6), (4, 7)]),
        1 => bidir(8, &[(0, 1), (1, 2), (1, 3), (1, 4), (4, 5), (4, 6), (4, 7)]),
        _ => bidir(8, &[(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7)]),
    };
    let mut g = Gr::new(8, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for i in [0, 3, 6] {
        g.w[i] = sym_w("w");
    }
    let (a, b) = (sym_node("a", 8), [0, 2, 5, 7][choice("b", 4)]);
    all_configs(&g, &[(a, b)]);
}
fn bq<P: BiDirPotential, D: BidirChooseDir>(s: &mut BiDirServer<P, D>, g: &Gr, a: u32, b: u32) {
    let mut r = s.query(Query { from: a, to: b });
    let d = r.distance();
    g.check_dist(d, a, b, "bidirectional topocore distance is exact");
    if let Some(d) = d {
        let p = r.node_path().unwrap();
        g.check_node_path(&p, d, a, b, "bidirectional topocore path is a shortest path");
    }
}
fn bidir_all(g: &Gr, pairs: &[(u32, u32)], exact: bool) {
    let o = g.owned();
    let bl = || BaselinePotential::new(&o);
    let rv = || BaselinePotential::new(&OwnedGraph::reversed(&o));
    macro_rules! run {
        ($p:expr, $d:ty) => {{
            let mut s: BiDirServer<_, $d> = BiDirServer::new(&o, $p);
            for &(a, b) in pairs {
                bq(&mut s, g, a, b);
            }
        }};
    }
    let config = choice("config", if exact { 6 } else { 2 });
    if config >= 4 {
        // sums of averaged keys have to stay within the number range
        for &w in &g.w {
            assume(w <= INFINITY / 16);
        }
    }
    match config {
        0 => run!(BiDirZeroPot, ChooseMinKeyDir),
        1 => run!(BiDirZeroPot, AlternatingDirs),
        2 => run!(SymmetricBiDirPotential::<_, _>::new(bl(), rv()), ChooseMinKeyDir),
        3 => run!(SymmetricBiDirPotential::<_, _>::new(bl(), rv()), AlternatingDirs),
        4 => run!(AveragePotential::<_, _, false>::new(bl(), rv()), ChooseMinKeyDir),
        _ => run!(AveragePotential::<_, _, true>::new(bl(), rv()), AlternatingDirs),
    }
}
/// bidirectional: every graph with three nodes
#[no_mangle]
pub extern "C" fn h_bidir_k3() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    let (a, b) = (sym_node("a", 3), sym_node("b", 3));
    bidir_all(&g, &[(a, b)], false);
}
/// bidirectional with exact potentials
#[no_mangle]
pub extern "C" fn h_bidir_pot() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (2, 0), (2, 3), (3, 2)]);
    let (a, b) = (sym_node("a", 4), sym_node("b", 4));
    bidir_all(&g, &[(a, b)], true);
}
/// bidirectional on the graphs with attached components
#[no_mangle]
pub extern "C" fn h_bidir_attached() {
    let opt: Vec<(u32, u32)> = [(0, 3), (3, 0), (3, 4), (4, 3)].iter().copied().filter(|_| choice("edge", 2) == 1).collect();
    let mut e = vec![(0, 1), (1, 0), (1, 2), (2, 0)];
    e.extend(opt);
    e.sort();
    let g = Gr::sym(5, &e);
    let (a, b) = (sym_node("a", 5), sym_node("b", 5));
    bidir_all(&g, &[(a, b)], false);
}
fn chain_graph(sym: &[(u32, u32)]) -> Gr {
    let e = bidir(6, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5), (0, 3)]);
    let mut g = Gr::new(6, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if sym.contains(x) {
            g.w[i] = sym_w("w");
        }
    }
    g
}
/// bidirectional on graphs with degree two and three chains, two queries
#[no_mangle]
pub extern "C" fn h_bidir_chain() {
    let g = chain_graph(&[(0, 1), (0, 3)]);
    let (a, b) = [(0, 2), (1, 4), (5, 1), (0, 3), (1, 2)][choice("pair", 5)];
    bidir_all(&g, &[(b, a), (a, b)], true);
}
#[no_mangle]
pub extern "C" fn h_t_bidir_chain() {
    // the same, more pairs and symbolic weights
    let g = chain_graph(&[(0, 1), (0, 3), (5, 4)]);
    let b = sym_node("b", 6);
    let a = [0, 1][choice("a", 2)];
    bidir_all(&g, &[(b, a), (a, b)], true);
}
type Core<P> = SkipLowDegServer<VirtualTopocoreGraph<OwnedGraph>, VirtualTopocoreOps<DefaultOpsWithLinkPath>, P, true, true>;
/// the graph of a core server in its own node ids
fn permuted(g: &Gr) -> (Gr, VirtualTopocoreGraph<OwnedGraph>, VirtualTopocore) {
    let (vg, _, tc) = VirtualTopocoreGraph::<OwnedGraph>::new(&g.owned());
    let mut e = Vec::new();
    let mut w = Vec::new();
    for v in 0..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&vg, v) {
            e.push((v, l.node));
            w.push(l.weight);
        }
    }
    let pg = Gr::new(g.n, &e, w);
    check(e.len() == g.edges.len(), "the permuted graph has all arcs");
    (pg, vg, tc)
}
fn result<S: PathServer<NodeInfo = NodeId, EdgeInfo = EdgeIdT>>(mut r: QueryResult<S, Weight>, g: &Gr, a: u32, b: u32, lim: u32) {
    // distances below the limit have to be exact
    match r.distance() {
        Some(d) if d < lim => {
            reach("found");
            check(g.is_dist(d, a, b) & (d < INFINITY), "core search distance is exact");
            let p = r.node_path().unwrap();
            g.check_node_path(&p, d, a, b, "core search node path is a shortest path");
            let p: Vec<u32> = r.edge_path().unwrap().iter().map(|e| e.0).collect();
            g.check_edge_path(&p, d, a, b, "core search edge path is a shortest path");
        }
        x => {
            reach("not-found");
            let mut ok = true;
            let mut real = x.is_none();
            for p in g.simple_paths(a, b) {
                let l = g.path_sum(&p);
                ok &= l >= lim as u64;
                real |= l == x.unwrap_or(INFINITY) as u64;
            }
            check(ok, "a path within the cap is found");
            check(real, "a distance above the cap is the length of a path");
        }
    }
}
/// what: 0 unidirectional core server, 1 bidirectional core server, 2 multi-threaded
fn core(g: &Gr, pairs: &[(u32, u32)], what: usize, capped: bool) {
    let (g, vg, _) = permuted(g);
    let cap = if capped { sym_range("cap", 0, INFINITY) } else { INFINITY };
    match what {
        0 => {
            let mut s: Core<ZeroPotential> = SkipLowDegServer::new(vg, ZeroPotential(), VirtualTopocoreOps(DefaultOpsWithLinkPath::default()));
            for &(a, b) in pairs {
                result(s.distance_with_cap(Query { from: a, to: b }, cap), &g, a, b, std::cmp::min(cap, INFINITY - 1) + 1);
            }
        }
        1 => {
            let mut s: BiDirCoreServer<BiDirZeroPot, ChooseMinKeyDir> = BiDirCoreServer::new(vg, BiDirZeroPot);
            for &(a, b) in pairs {
                result(s.distance_with_cap(Query { from: a, to: b }, cap, None), &g, a, b, cap); // the bidirectional search finds paths shorter than the cap
            }
        }
        _ => {
            let bl = BaselinePotential::new(&g.owned());
            let rv = BaselinePotential::new(&OwnedGraph::reversed(&g.owned()));
            let mut s: BiDirCoreServer<_, AlternatingDirs> = BiDirCoreServer::new(vg, SymmetricBiDirPotential::<_, _>::new(bl, rv));
            for &(a, b) in pairs {
                result(s.distance_with_cap(Query { from: a, to: b }, cap, None), &g, a, b, cap); // the bidirectional search finds paths shorter than the cap
            }
        }
    }
}
/// core servers (uni- and bidirectional) with node and edge paths: every graph with three nodes and up to six arcs
#[no_mangle]
pub extern "C" fn h_core_k3() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    let (a, b) = (sym_node("a", 3), sym_node("b", 3));
    core(&g, &[(a, b)], choice("what", 3), false);
}
/// core servers with a cap on the distance (symbolic), parallel arcs and a loop
#[no_mangle]
pub extern "C" fn h_core_cap() {
    let g = Gr::sym(3, &[(0, 1), (0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 0)]);
    let (a, b) = (sym_node("a", 3), sym_node("b", 3));
    core(&g, &[(a, b), (b, a)], choice("what", 2), true);
}
/// core servers on degree two and three chains, two queries
#[no_mangle]
pub extern "C" fn h_core_chain() {
    let g = chain_graph(&[(0, 1), (0, 3)]);
    let (a, b) = [(0, 2), (1, 4), (5, 1), (0, 3), (1, 2)][choice("pair", 5)];
    core(&g, &[(b, a), (a, b)], choice("what", 3), false);
}
#[no_mangle]
pub extern "C" fn h_t_core_chain() {
    // the same, more pairs and symbolic weights
    let g = chain_graph(&[(0, 1), (0, 3), (5, 4)]);
    let b = sym_node("b", 6);
    let a = [0, 1][choice("a", 2)];
    core(&g, &[(b, a), (a, b)], choice("what", 3), false);
}
/// one-to-all search with chain skipping settles every node exactly
#[no_mangle]
pub extern "C" fn h_one_to_all() {
    let e = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 0), (2, 1), (3, 2), (3, 4), (4, 3)];
    let g = Gr::sym(5, &e);
    let (g, vg, _) = permuted(&g);
    let mut s: Core<ZeroPotential> = SkipLowDegServer::new(vg, ZeroPotential(), VirtualTopocoreOps(DefaultOpsWithLinkPath::default()));
    let a = sym_node("a", 5);
    let r = s.one_to_all(a);
    for v in 0..5 {
        let d = r.distance(v);
        check(g.is_dist(d, a, v), "one-to-all distance is exact");
    }
}
entries!(h_k3, h_multi, h_attached, h_dense_core, h_component_only, h_chain, h_reuse, h_hub, h_forest, h_bidir_k3, h_bidir_pot, h_bidir_attached, h_bidir_chain, h_t_bidir_chain, h_core_k3, h_core_cap, h_core_chain, h_t_core_chain, h_one_to_all);
