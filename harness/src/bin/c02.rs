//! bidirectional Dijkstra
use harness::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server;
use rust_road_router::algo::dijkstra::query::dijkstra::Server as UniServer;
use rust_road_router::algo::dijkstra::query::disconnected_targets::CatchDisconnectedTarget;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;

type Srv<D> = Server<OwnedGraph, OwnedGraph, BiDirZeroPot, D>;
fn full_query<D: BidirChooseDir>(s: &mut Srv<D>, g: &Gr, from: u32, to: u32) {
    let mut r = s.query(Query { from, to });
    let d = r.distance();
    g.check_dist(d, from, to, "bidirectional distance is exact");
    if let Some(d) = d {
        let np = r.node_path().unwrap();
        g.check_node_path(&np, d, from, to, "bidirectional node path is a shortest path");
        check(r.edge_path().unwrap().len() + 1 == np.len(), "edge path length");
    }
}
#[no_mangle]
pub extern "C" fn h_k4_minkey() {
    let g = Gr::complete(4);
    full_query::<ChooseMinKeyDir>(&mut Server::new(g.owned()), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_k4_alt() {
    let g = Gr::complete(4);
    full_query::<AlternatingDirs>(&mut Server::new(g.owned()), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_multi3() {
    let g = Gr::sym(3, &[(0, 0), (0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (1, 1), (2, 1), (2, 1)]);
    let (a, b) = (sym_node("from", 3), sym_node("to", 3));
    if choice("strategy", 2) == 0 {
        full_query::<ChooseMinKeyDir>(&mut Server::new(g.owned()), &g, a, b);
    } else {
        full_query::<AlternatingDirs>(&mut Server::new(g.owned()), &g, a, b);
    }
}
#[no_mangle]
pub extern "C" fn h_reuse() {
    let g = Gr::complete(3);
    let mut s: Srv<ChooseMinKeyDir> = Server::new(g.owned());
    let mut s2: Srv<AlternatingDirs> = Server::new(g.owned());
    let strat = choice("strategy", 2);
    for _ in 0..2 {
        let (a, b) = (sym_node("from", 3), sym_node("to", 3));
        if strat == 0 {
            full_query(&mut s, &g, a, b);
        } else {
            full_query(&mut s2, &g, a, b);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_topology() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    let mut s: Srv<ChooseMinKeyDir> = Server::new(g.owned());
    let mut s2: Srv<AlternatingDirs> = Server::new(g.owned());
    if choice("strategy", 2) == 0 {
        full_query(&mut s, &g, 0, 2);
        full_query(&mut s, &g, 1, 0);
    } else {
        full_query(&mut s2, &g, 0, 2);
        full_query(&mut s2, &g, 1, 0);
    }
}
/// two disjoint routes with several hops each: the searches meet in the middle of an arc
fn ladder() -> Gr {
    Gr::sym(7, &[(0, 1), (0, 4), (1, 2), (1, 5), (2, 3), (3, 6), (4, 5), (5, 6), (5, 2)])
}
#[no_mangle]
pub extern "C" fn h_ladder() {
    let g = ladder();
    full_query::<ChooseMinKeyDir>(&mut Server::new(g.owned()), &g, 0, 6);
}
#[no_mangle]
pub extern "C" fn h_ladder_alt() {
    let g = ladder();
    full_query::<AlternatingDirs>(&mut Server::new(g.owned()), &g, 0, 6);
}
#[no_mangle]
pub extern "C" fn h_cap() {
    // with a cap: exact below the cap, never too short
    let g = Gr::complete(3);
    let cap = sym_w("cap");
    let mut s: Srv<ChooseMinKeyDir> = Server::new(g.owned());
    let (a, b) = (0, sym_node("to", 3));
    let r = s.distance_with_cap(a, b, cap, |_, _, _| ());
    let exact = g.dists_from(a)[b as usize];
    match r {
        Some(d) => check((d >= exact) & ((exact >= cap) | (d == exact)), "capped distance is exact below the cap"),
        None => check(exact >= cap, "capped query finds everything below the cap"),
    }
    // the server is not spoiled for an uncapped query
    full_query(&mut s, &g, 2, 1);
}
#[no_mangle]
pub extern "C" fn h_catch() {
    // wrapper that recognises disconnected targets
    let g = Gr::sym_topology(3, &complete_edges(3));
    let o = g.owned();
    let mut s = CatchDisconnectedTarget::new(Srv::<ChooseMinKeyDir>::new(g.owned()), &o);
    for (a, b) in [(0, 2), (2, 1), (1, 1)] {
        let mut r = s.query(Query { from: a, to: b });
        let d = r.distance();
        g.check_dist(d, a, b, "distance with disconnected target check is exact");
        if let Some(d) = d {
            let np = r.node_path().unwrap();
            g.check_node_path(&np, d, a, b, "path with disconnected target check");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_catch_big() {
    // more than 200 nodes lead to the target before the source is found
    let n = 260u32;
    let mut e: Vec<(u32, u32)> = Vec::new();
    // 0 -> 1 -> 2 ... -> 249 ; 250..259 separate chain
    for i in 0..249 {
        e.push((i, i + 1));
    }
    for i in 250..259 {
        e.push((i, i + 1));
    }
    let mut w = vec![1; e.len()];
    let (x, y) = (sym_w("x"), sym_w("y"));
    w[3] = x;
    w[200] = y;
    let g = Gr::new(n as usize, &e, w);
    let o = g.owned();
    let mut s = CatchDisconnectedTarget::new(UniServer::<OwnedGraph, DefaultOps>::new(g.owned()), &o);
    for (a, b) in [(0, 249), (0, 259), (250, 249), (0, 0), (1, 249), (249, 0)] {
        let d = s.query(Query { from: a, to: b }).distance();
        g.check_dist(d, a, b, "distance with disconnected target check is exact");
    }
}
#[no_mangle]
pub extern "C" fn h_t_k5() {
    let g = Gr::complete(5);
    full_query::<ChooseMinKeyDir>(&mut Server::new(g.owned()), &g, 0, 4);
}
#[no_mangle]
pub extern "C" fn h_t_k5_alt() {
    let g = Gr::complete(5);
    full_query::<AlternatingDirs>(&mut Server::new(g.owned()), &g, 0, 4);
}
entries!(h_k4_minkey, h_k4_alt, h_multi3, h_reuse, h_topology, h_ladder, h_ladder_alt, h_cap, h_catch, h_catch_big, h_t_k5, h_t_k5_alt);
