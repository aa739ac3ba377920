//! CCH helpers shared by the harness binaries.
use crate::*;
pub use rust_road_router::algo::customizable_contraction_hierarchy::query::Server as CCHServer;
pub use rust_road_router::algo::customizable_contraction_hierarchy::*;
pub use rust_road_router::algo::{Query, QueryServer};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

pub fn build_cch(g: &Gr, order: Vec<u32>) -> CCH {
    // preprocessing must not depend on the metric: build from a graph with unit weights
    CCH::fix_order_and_build(&g.with_weights(vec![1; g.w.len()]).owned(), NodeOrder::from_node_order(order))
}
pub fn identity(n: usize) -> Vec<u32> {
    (0..n as u32).collect()
}
pub fn query_dist<C: Customized>(s: &mut CCHServer<C>, g: &Gr, from: u32, to: u32, msg: &str) {
    let d = s.query(Query { from, to }).distance();
    g.check_dist(d, from, to, msg);
}
pub fn query_path<C: Customized>(s: &mut CCHServer<C>, g: &Gr, from: u32, to: u32, msg: &str) {
    let mut r = s.query(Query { from, to });
    match r.distance() {
        Some(d) => {
            reach("found");
            let p = r.node_path().unwrap();
            g.check_node_path(&p, d, from, to, msg);
            // asking again gives the same answer
            let e = r.edge_path().unwrap();
            check(e.len() + 1 == p.len(), "edge path length matches the node path");
            let q = r.node_path().unwrap();
            check(p == q, "path retrieval is repeatable");
        }
        None => {
            reach("not-found");
            check(r.node_path().is_none() && r.edge_path().is_none(), "no path without distance");
        }
    }
}
/// every arc of a customized (search) graph is at least as long as the shortest path it stands for
pub fn check_arcs_exact<C: Customized>(c: &C, g: &Gr, exact: bool, msg: &str) {
    let order = c.cch().node_order();
    let fw = c.forward_graph();
    let bw = c.backward_graph();
    for u in 0..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&fw, u) {
            check(l.node > u, "search graph arcs lead upwards");
            arc(g, order.node(u), order.node(l.node), l.weight, exact, msg);
        }
        for l in LinkIterable::<Link>::link_iter(&bw, u) {
            check(l.node > u, "search graph arcs lead upwards");
            arc(g, order.node(l.node), order.node(u), l.weight, exact, msg);
        }
    }
}
fn arc(g: &Gr, s: u32, t: u32, w: u32, exact: bool, msg: &str) {
    if exact {
        check(g.is_dist(w, s, t), msg);
    } else {
        let mut eq = w >= INFINITY;
        for p in g.simple_paths(s, t) {
            eq |= w as u64 == g.path_sum(&p);
        }
        check(eq, msg);
    }
}
