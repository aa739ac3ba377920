//! CCH: basic customization + elimination tree query
use harness::*;
fn dist(g: &Gr, order: Vec<u32>, from: u32, to: u32) {
    let cch = build_cch(g, order);
    let c = customize(&cch, &g.owned());
    let mut s = CCHServer::new(c);
    query_dist(&mut s, g, from, to, "CCH distance is exact");
}
#[no_mangle]
pub extern "C" fn h_k4() {
    let g = Gr::complete(4);
    dist(&g, sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_multi3() {
    let g = Gr::sym(3, &[(0, 0), (0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (1, 1), (2, 1), (2, 1)]);
    let (a, b) = (sym_node("from", 3), sym_node("to", 3));
    dist(&g, sym_perm("order", 3), a, b);
}
#[no_mangle]
pub extern "C" fn h_topology() {
    let g = Gr::sym_topology(3, &complete_edges(3));
    dist(&g, sym_perm("order", 3), 0, 2);
}
#[no_mangle]
pub extern "C" fn h_grid() {
    // 2x3 grid, all orders up to a rotation
    let g = Gr::sym(6, &bidir(6, &[(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]));
    dist(&g, vec![0, 2, 3, 5, 1, 4], 0, 5);
}
#[no_mangle]
pub extern "C" fn h_t_grid2() {
    let g = Gr::sym(6, &bidir(6, &[(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]));
    dist(&g, vec![1, 0, 4, 2, 5, 3], 0, 5);
}
#[no_mangle]
pub extern "C" fn h_forest() {
    // several components, isolated nodes
    let g = Gr::sym(7, &[(0, 2), (2, 0), (2, 4), (4, 6), (6, 0), (1, 3), (3, 1)].iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
    let (a, b) = (sym_node("from", 7), sym_node("to", 7));
    dist(&g, vec![5, 0, 2, 1, 3, 4, 6], a, b);
}
entries!(h_k4, h_multi3, h_topology, h_grid, h_t_grid2, h_forest);
