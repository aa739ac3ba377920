//! Contraction Hierarchies: contraction with witness search, queries, paths, overlays
use harness::*;
use rust_road_router::algo::contraction_hierarchy::{self as ch, query::Server};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
fn server(g: &Gr, order: &[u32]) -> Server {
    let o = NodeOrder::from_node_order(order.to_vec());
    Server::new(ch::contract(&g.owned(), o.clone()), o)
}
fn dist(s: &mut Server, g: &Gr, a: u32, b: u32) {
    let d = s.query(Query { from: a, to: b }).distance();
    g.check_dist(d, a, b, "CH distance is exact");
}
fn path(s: &mut Server, g: &Gr, a: u32, b: u32) {
    let mut r = s.query(Query { from: a, to: b });
    match r.distance() {
        Some(d) => {
            reach("found");
            check(g.is_dist(d, a, b), "CH distance is exact");
            let p = r.node_path().unwrap();
            g.check_node_path(&p, d, a, b, "CH path is a shortest path");
            check(r.edge_path().unwrap().len() + 1 == p.len(), "edge path length matches");
        }
        None => {
            reach("not-found");
            check(g.is_dist(INFINITY, a, b), "CH distance is exact");
            check(r.node_path().is_none(), "no path without distance");
        }
    }
}
/// complete digraph on three nodes, all orders, distance and path
#[no_mangle]
pub extern "C" fn h_k3() {
    let g = Gr::complete(3);
    let (a, b) = [(0, 2), (2, 1), (1, 1)][choice("pair", 3)];
    path(&mut server(&g, &sym_perm("order", 3)), &g, a, b);
}
/// parallel arcs and loops, three nodes, all orders
#[no_mangle]
pub extern "C" fn h_multi() {
    let g = Gr::sym(3, &[(0, 0), (0, 1), (0, 1), (0, 2), (1, 2), (1, 2), (2, 1)]);
    path(&mut server(&g, &sym_perm("order", 3)), &g, 0, 2);
}
/// parallel arcs whose order changes while lower nodes are contracted
#[no_mangle]
pub extern "C" fn h_multi2() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (0, 2), (1, 2), (2, 3), (2, 3)]);
    path(&mut server(&g, &sym_perm("order", 4)), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_4() {
    // four nodes, six arcs, four orders
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3)]);
    let o = [[0, 1, 2, 3], [1, 2, 0, 3], [2, 3, 1, 0], [3, 0, 2, 1]][choice("order", 4)];
    path(&mut server(&g, &o), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_topology3() {
    // every digraph on three nodes
    let g = Gr::sym_topology(3, &complete_edges(3));
    path(&mut server(&g, &sym_perm("order", 3)), &g, 0, 2);
}
#[no_mangle]
pub extern "C" fn h_chain() {
    // nested shortcuts on both sides of the meeting node
    let g = Gr::sym(7, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (1, 5)].iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
    let o = [vec![3, 2, 4, 1, 5, 0, 6], vec![1, 2, 3, 4, 5, 6, 0], vec![5, 4, 3, 2, 1, 0, 6], vec![1, 3, 5, 2, 4, 0, 6]][choice("order", 4)].clone();
    path(&mut server(&g, &o), &g, 0, 6);
}
/// consecutive queries on one object
#[no_mangle]
pub extern "C" fn h_reuse() {
    let g = Gr::sym(4, &[(0, 1), (1, 2), (2, 3), (3, 0), (1, 3)].iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
    let mut s = server(&g, &[vec![1, 2, 3, 0], vec![0, 2, 1, 3]][choice("order", 2)]);
    for (a, b) in [(0, 3), (3, 2), (1, 0), (0, 3)] {
        path(&mut s, &g, a, b);
    }
}
/// overlay graphs: contracting k nodes preserves the distances between the remaining nodes
fn overlay(g: &Gr, order: Vec<u32>, k: usize) {
    let o = NodeOrder::from_node_order(order);
    let (f, b) = ch::overlay(&g.owned(), o.clone(), k);
    check(f.num_nodes() == g.n && b.num_nodes() == g.n, "node count");
    let mut e: Vec<(u32, u32, u32)> = Vec::new();
    for u in k as u32..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&f, u) {
            check(l.node >= k as u32, "overlay arcs join remaining nodes");
            e.push((u, l.node, l.weight));
        }
    }
    let mut r: Vec<(u32, u32, u32)> = Vec::new();
    for u in k as u32..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&b, u) {
            check(l.node >= k as u32, "overlay arcs join remaining nodes");
            r.push((l.node, u, l.weight));
        }
    }
    check(e.len() == r.len(), "forward and backward overlay have the same arcs");
    let mut ok = true;
    for x in &e {
        let mut any = false;
        for y in &r {
            any |= (x.0 == y.0) & (x.1 == y.1) & (x.2 == y.2);
        }
        ok &= any;
    }
    check(ok, "forward and backward overlay agree");
    let og = Gr::new(g.n, &e.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), e.iter().map(|x| x.2).collect());
    for s in k as u32..g.n as u32 {
        for t in k as u32..g.n as u32 {
            // shortest distance in the overlay equals the one in the graph: the minimum over overlay paths is exact
            let mut best = INFINITY as u64;
            for p in og.simple_paths(s, t) {
                best = std::cmp::min(best, og.path_sum(&p));
            }
            check(g.is_dist(best as u32, o.node(s), o.node(t)), "overlay preserves distances");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_overlay() {
    // four nodes, one or two contracted
    let g = Gr::sym(4, &[(0, 1), (0, 3), (1, 2), (1, 3), (2, 0), (3, 1)]);
    overlay(&g, [vec![1, 3, 0, 2], vec![0, 1, 2, 3], vec![3, 0, 1, 2]][choice("order", 3)].clone(), 1 + choice("k", 2));
}
#[no_mangle]
pub extern "C" fn h_overlay3() {
    overlay(&Gr::complete(3), sym_perm("order", 3), 1);
}
/// splitting a contracted graph by an order: distances of the split hierarchy
#[no_mangle]
pub extern "C" fn h_from_contracted() {
    // an augmented graph: the complete graph with a shortcut that dominates the path through the lowest node
    let mut g = Gr::complete(3);
    let o = NodeOrder::from_node_order(sym_perm("order", 3));
    let low = o.node(0);
    for i in 0..g.edges.len() {
        let (u, v) = g.edges[i];
        if u != low && v != low {
            let mut via = 0;
            for j in 0..g.edges.len() {
                if g.edges[j] == (u, low) || g.edges[j] == (low, v) {
                    via += g.w[j];
                }
            }
            g.w[i] = std::cmp::min(g.w[i], via);
        }
    }
    let (a, b) = (sym_node("from", 3), sym_node("to", 3));
    let mut s = Server::new(ch::ContractionHierarchy::from_contracted_graph(g.owned(), &o), NodeOrder::identity(3));
    dist(&mut s, &g, a, b);
}
#[no_mangle]
pub extern "C" fn h_t_4() {
    // four nodes, seven arcs, all orders
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0)]);
    path(&mut server(&g, &sym_perm("order", 4)), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_t_k4() {
    let g = Gr::complete(4);
    path(&mut server(&g, &[0, 1, 2, 3]), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_t_k4b() {
    let g = Gr::complete(4);
    path(&mut server(&g, &[2, 0, 3, 1]), &g, 0, 3);
}
entries!(h_k3, h_multi, h_multi2, h_4, h_topology3, h_chain, h_reuse, h_overlay, h_overlay3, h_from_contracted, h_t_4, h_t_k4, h_t_k4b);
