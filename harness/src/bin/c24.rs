//! the two search directions of a query on two threads
use harness::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::MultiThreadedBiDirSkipLowDegServer as Server;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

/// the graph of a core server in its own node ids
fn permuted(g: &Gr) -> (Gr, VirtualTopocoreGraph<OwnedGraph>) {
    let (vg, _, _) = VirtualTopocoreGraph::<OwnedGraph>::new(&g.owned());
    let mut e = Vec::new();
    let mut w = Vec::new();
    for v in 0..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&vg, v) {
            e.push((v, l.node));
            w.push(l.weight);
        }
    }
    let pg = Gr::new(g.n, &e, w);
    check(e.len() == g.edges.len(), "the permuted graph has all arcs");
    (pg, vg)
}
fn result<S: PathServer<NodeInfo = NodeId, EdgeInfo = EdgeIdT>>(mut r: QueryResult<S, Weight>, g: &Gr, a: u32, b: u32) {
    g.check_dist(r.distance(), a, b, "distance of the concurrent search is exact");
    if let Some(d) = r.distance() {
        let p = r.node_path().unwrap();
        g.check_node_path(&p, d, a, b, "node path of the concurrent search is a shortest path");
        let p: Vec<u32> = r.edge_path().unwrap().iter().map(|e| e.0).collect();
        g.check_edge_path(&p, d, a, b, "edge path of the concurrent search is a shortest path");
    }
}
fn run<P: BiDirPotential + Clone + Send>(g: &Gr, pot: P, a: u32, b: u32, switches: u64) {
    rayon::verif_set_mode(4);
    rayon::verif_set_chooser(|n| choice("first", n));
    let (g, vg) = permuted(g);
    let mut s = Server::new(vg, pot);
    preemptions_tso(switches / 10, switches % 10);
    let r = s.query(Query { from: a, to: b });
    preemptions(0);
    result(r, &g, a, b);
}
fn pots(g: &Gr, a: u32, b: u32, switches: u64) {
    let z = ZeroPotential();
    match choice("pot", 4) {
        0 => run(g, SymmetricBiDirPotential::<_, _, true>::new(z, z), a, b, switches),
        1 => run(g, SymmetricBiDirPotential::<_, _, false>::new(z, z), a, b, switches),
        2 => run(g, AveragePotential::<_, _, true>::new(z, z), a, b, switches),
        _ => run(g, AveragePotential::<_, _, false>::new(z, z), a, b, switches),
    }
}
/// every graph with three nodes and up to six arcs, from node 0 to 2; one preemption
#[no_mangle]
pub extern "C" fn h_top3() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    pots(&g, 0, 2, 10);
}
/// complete graph with three nodes; up to two preemptions or one preemption and one delayed store
#[no_mangle]
pub extern "C" fn h_k3() {
    let g = Gr::complete(3);
    let s = [20, 11][choice("budget", 2)];
    pots(&g, 0, 2, s);
}
fn ladder(s: u64) {
    let e = bidir(6, &[(0, 1), (1, 2), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5)]);
    let mut g = Gr::new(6, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if *x == (1, 4) || *x == (0, 1) {
            g.w[i] = sym_range("w", 0, 100);
        }
    }
    pots(&g, 0, 5, s);
}
/// ladder with six nodes, two weights from 0 to 100; up to two preemptions or one preemption and one delayed store
#[no_mangle]
pub extern "C" fn h_ladder() {
    ladder([20, 11][choice("budget", 2)]);
}
/// two queries in a row on one server, one symbolic weight from 0 to 20; one preemption in each query
#[no_mangle]
pub extern "C" fn h_reuse() {
    let e = bidir(5, &[(0, 1), (1, 2), (2, 3), (3, 0), (1, 3), (3, 4)]);
    let mut g = Gr::new(5, &e, e.iter().map(|&(u, v)| 1 + (u * 3 + v * 5) % 7).collect());
    let i = g.edges.iter().position(|&x| x == (1, 2)).unwrap();
    g.w[i] = sym_range("w", 0, 20);
    rayon::verif_set_mode(4);
    rayon::verif_set_chooser(|n| choice("first", n));
    let (g, vg) = permuted(&g);
    let z = ZeroPotential();
    let mut s = Server::new(vg, SymmetricBiDirPotential::<_, _>::new(z, z));
    for _ in 0..2 {
        let (a, b) = [(0, 2), (4, 1)][choice("pair", 2)];
        preemptions_tso(1, 0);
        let r = s.query(Query { from: a, to: b });
        preemptions(0);
        result(r, &g, a, b);
    }
}
/// ladder with six nodes, two weights from 0 to 100, up to two preemptions and one delayed store
#[no_mangle]
pub extern "C" fn h_t_ladder2() {
    ladder(21);
}
/// ladder with six nodes, two weights from 0 to 100, up to three preemptions and one delayed store
#[no_mangle]
pub extern "C" fn h_t_ladder() {
    ladder(31);
}
/// complete graph with three nodes, up to two preemptions and one delayed store
#[no_mangle]
pub extern "C" fn h_t_k3() {
    let g = Gr::complete(3);
    pots(&g, 0, 2, 21);
}
entries!(h_k3, h_top3, h_ladder, h_reuse, h_t_ladder2, h_t_ladder, h_t_k3);
