//! metric updates: queries always answer for the metric currently installed
use harness::*;
fn two(g: &Gr) -> Gr {
    let w = g.edges.iter().map(|_| sym_w("w2")).collect();
    g.with_weights(w)
}
/// query, update the metric, query again (same and other pair); 4-cycle with both metrics symbolic, basic customization
#[no_mangle]
pub extern "C" fn h_basic() {
    let g = Gr::sym(4, &[(0, 1), (1, 2), (2, 3), (3, 0)]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 4));
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    query_path(&mut s, &g, 0, 3, "answer for the first metric");
    s.update(customize(&cch, &g2.owned()));
    query_path(&mut s, &g2, 0, 3, "answer for the second metric");
    query_path(&mut s, &g2, 2, 1, "answer for the second metric");
}
/// same with alternatives: diamond, distances only
#[no_mangle]
pub extern "C" fn h_diamond() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3)]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 4));
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    query_dist(&mut s, &g, 0, 3, "answer for the first metric");
    s.update(customize(&cch, &g2.owned()));
    query_dist(&mut s, &g2, 0, 3, "answer for the second metric");
}
/// perfect customization: the search graph itself changes with the metric
#[no_mangle]
pub extern "C" fn h_perfect() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2), (2, 0)]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 3));
    let mut s = CCHServer::new(customize_perfect(customize(&cch, &g.owned())));
    query_path(&mut s, &g, 0, 2, "answer for the first metric");
    s.update(customize_perfect(customize(&cch, &g2.owned())));
    query_path(&mut s, &g2, 0, 2, "answer for the second metric");
    query_path(&mut s, &g2, 2, 1, "answer for the second metric");
}
#[no_mangle]
pub extern "C" fn h_perfect_diamond() {
    // perfect customization, diamond with a symbolic second metric after a concrete first one
    let g = Gr::new(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)], vec![1, 5, 1, 5, 1]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 4));
    let mut s = CCHServer::new(customize_perfect(customize(&cch, &g.owned())));
    query_path(&mut s, &g, 0, 3, "answer for the first metric");
    s.update(customize_perfect(customize(&cch, &g2.owned())));
    query_path(&mut s, &g2, 0, 3, "answer for the second metric");
    query_path(&mut s, &g2, 3, 1, "answer for the second metric");
}
/// directed CCH
#[no_mangle]
pub extern "C" fn h_directed() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2), (2, 0)]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 3));
    let d = cch.to_directed_cch();
    let mut s = CCHServer::new(customize_directed(&d, &g.owned()));
    query_path(&mut s, &g, 0, 2, "answer for the first metric");
    s.update(customize_directed(&d, &g2.owned()));
    query_path(&mut s, &g2, 0, 2, "answer for the second metric");
    query_path(&mut s, &g2, 2, 1, "answer for the second metric");
}
/// three metrics in a row, the last one equal to the first: the first answer comes back
#[no_mangle]
pub extern "C" fn h_back() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2)]);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 3));
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    let a = s.query(Query { from: 0, to: 2 }).distance();
    s.update(customize(&cch, &g2.owned()));
    query_dist(&mut s, &g2, 0, 2, "answer for the second metric");
    s.update(customize(&cch, &g.owned()));
    let b = s.query(Query { from: 0, to: 2 }).distance();
    check(a == b, "the same metric gives the same answer again");
}
/// disconnection: an update makes the target unreachable / reachable; queries within and across components
#[no_mangle]
pub extern "C" fn h_components() {
    let g = Gr::sym(5, &[(0, 1), (1, 0), (2, 3), (3, 2), (4, 2)]);
    let g2 = two(&g);
    let cch = build_cch(&g, [vec![0, 2, 4, 3, 1], vec![4, 3, 2, 1, 0], vec![1, 3, 0, 2, 4]][choice("order", 3)].clone());
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    query_dist(&mut s, &g, 0, 3, "answer for the first metric");
    query_dist(&mut s, &g, 4, 3, "answer for the first metric");
    s.update(customize(&cch, &g2.owned()));
    query_path(&mut s, &g2, 3, 2, "answer for the second metric");
    query_path(&mut s, &g2, 4, 3, "answer for the second metric");
    query_path(&mut s, &g2, 0, 1, "answer for the second metric");
}
#[no_mangle]
pub extern "C" fn h_t_k3() {
    let g = Gr::complete(3);
    let g2 = two(&g);
    let cch = build_cch(&g, sym_perm("order", 3));
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    query_path(&mut s, &g, 0, 2, "answer for the first metric");
    s.update(customize(&cch, &g2.owned()));
    query_path(&mut s, &g2, 0, 2, "answer for the second metric");
    query_path(&mut s, &g2, 2, 1, "answer for the second metric");
}
entries!(h_basic, h_diamond, h_perfect, h_perfect_diamond, h_directed, h_back, h_components, h_t_k3);
