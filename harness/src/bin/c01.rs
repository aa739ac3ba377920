//! C01: one-to-one Dijkstra
use harness::*;
use rust_road_router::algo::dijkstra::query::dijkstra::Server;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

fn full_query(s: &mut Server<OwnedGraph, DefaultOpsWithLinkPath>, g: &Gr, from: u32, to: u32) {
    let mut r = s.query(Query { from, to });
    let d = r.distance();
    g.check_dist(d, from, to, "dijkstra distance is exact");
    if let Some(d) = d {
        let np = r.node_path().unwrap();
        g.check_node_path(&np, d, from, to, "dijkstra node path is a shortest path");
        let ep: Vec<u32> = r.edge_path().unwrap().iter().map(|e| e.0).collect();
        g.check_edge_path(&ep, d, from, to, "dijkstra edge path is a shortest path");
        check(np.len() == ep.len() + 1, "node and edge path agree");
    } else {
        check(r.node_path().is_none() && r.edge_path().is_none(), "no path without distance");
    }
}
#[no_mangle]
pub extern "C" fn h_k4() {
    let g = Gr::complete(4);
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    full_query(&mut s, &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_multi3() {
    // parallel edges and loops, all source/target pairs
    let g = Gr::sym(3, &[(0, 0), (0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (1, 1), (2, 1), (2, 1)]);
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    let (a, b) = (sym_node("from", 3), sym_node("to", 3));
    full_query(&mut s, &g, a, b);
}
#[no_mangle]
pub extern "C" fn h_reuse() {
    // two consecutive queries on one server
    let g = Gr::complete(3);
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    for _ in 0..2 {
        let (a, b) = (sym_node("from", 3), sym_node("to", 3));
        full_query(&mut s, &g, a, b);
    }
}
#[no_mangle]
pub extern "C" fn h_topology() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    full_query(&mut s, &g, 0, 2);
    full_query(&mut s, &g, 1, 0);
}
#[no_mangle]
pub extern "C" fn h_sparse7() {
    // 7 nodes: two alternative routes, a dead end and a disconnected node
    let g = Gr::sym(7, &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 4), (2, 5), (3, 5), (4, 5), (5, 0)]);
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    full_query(&mut s, &g, 0, 5);
    full_query(&mut s, &g, 0, 6);
}
fn star(k: u32) {
    let mut e = vec![];
    for i in 1..=k {
        e.push((0, i));
    }
    for i in 1..=k {
        e.push((i, k + 1));
    }
    let g = Gr::sym(k as usize + 2, &e);
    let mut s = Server::<_, DefaultOps>::new(g.owned());
    let r = s.query(Query { from: 0, to: k + 1 }).distance();
    g.check_dist(r, 0, k + 1, "dijkstra distance is exact");
}
#[no_mangle]
pub extern "C" fn h_t_star() {
    // wide queue: 5 middle nodes
    star(5);
}
#[no_mangle]
pub extern "C" fn h_star() {
    // wide queue: 1 source, 4 middle nodes, 1 target
    star(4);
}
#[no_mangle]
pub extern "C" fn h_variants() {
    // the other relaxation operators and the borrowed graph
    let g = Gr::complete(3);
    let owned = g.owned();
    let b = g.borrowed();
    let mut s = Server::<_, DefaultOps>::new(g.borrowed());
    let r = s.query(Query { from: 0, to: 2 }).distance();
    g.check_dist(r, 0, 2, "dijkstra distance is exact (borrowed)");
    let mut s = Server::<OwnedGraph, DefaultOpsByEdgeId, _, &OwnedGraph>::new(&owned);
    let r = s.query(Query { from: 0, to: 2 }).distance();
    g.check_dist(r, 0, 2, "dijkstra distance is exact (by edge id)");
    let _ = b;
    // one to all
    let mut s = Server::<_, DefaultOps>::new(g.owned());
    let all = s.one_to_all(1);
    for v in 0..3 {
        let d = all.distance(v);
        check(g.is_dist(d, 1, v), "one-to-all distance is exact");
    }
    let mut cnt = 0;
    let mut last = 0;
    s.ranks(1, |node, dist, rank| {
        check(g.is_dist(dist, 1, node), "rank callback reports exact distances");
        check(rank == cnt, "ranks are powers of two");
        check(dist >= last, "ranks are reported in order of distance");
        if rank == 0 { check(node == 1 && dist == 0, "rank 0 is the source"); }
        last = dist;
        cnt += 1;
    });
}
#[no_mangle]
pub extern "C" fn h_t_k5() {
    let g = Gr::complete(5);
    let mut s = Server::<_, DefaultOpsWithLinkPath>::new(g.owned());
    full_query(&mut s, &g, 0, 4);
}
entries!(h_k4, h_multi3, h_reuse, h_topology, h_sparse7, h_star, h_variants, h_t_k5, h_t_star);
