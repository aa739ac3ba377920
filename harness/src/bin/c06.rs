//! perfect, directed and reduced CCH variants
use harness::*;
use rust_road_router::datastr::graph::*;
fn variants(g: &Gr, order: Vec<u32>, from: u32, to: u32, which: usize) {
    let cch = build_cch(g, order);
    match which {
        0 => {
            let c = customize_perfect(customize(&cch, &g.owned()));
            check_arcs_exact(&c, g, true, "perfect customization makes every kept arc exact");
            query_dist(&mut CCHServer::new(c), g, from, to, "perfect CCH distance is exact");
        }
        1 => {
            let d = cch.to_directed_cch();
            let c = customize_directed(&d, &g.owned());
            query_dist(&mut CCHServer::new(c), g, from, to, "directed CCH distance is exact");
        }
        2 => {
            let d = cch.to_directed_cch();
            let c = customize_directed_perfect(customize_directed(&d, &g.owned()));
            check_arcs_exact(&c, g, false, "arcs of the directed perfect CCH are lengths of paths");
            query_dist(&mut CCHServer::new(c), g, from, to, "directed perfect CCH distance is exact");
        }
        3 => {
            let r = cch.remove_always_infinity();
            check(r.num_arcs() <= cch.num_arcs(), "arcs are only removed");
            let c = customize(&r, &g.owned());
            query_dist(&mut CCHServer::new(c), g, from, to, "reduced CCH distance is exact");
        }
        _ => {
            let r = cch.remove_always_infinity();
            let c = customize_perfect(customize(&r, &g.owned()));
            check_arcs_exact(&c, g, false, "arcs of the reduced perfect CCH are lengths of paths");
            query_dist(&mut CCHServer::new(c), g, from, to, "reduced perfect CCH distance is exact");
        }
    }
}
macro_rules! on {
    ($f:ident, $name:ident, $k:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            $f($k)
        }
    };
}
fn k3(k: usize) {
    let g = Gr::complete(3);
    variants(&g, sym_perm("order", 3), 0, 2, k);
}
fn top3(k: usize) {
    let g = Gr::sym_topology(3, &complete_edges(3));
    variants(&g, sym_perm("order", 3), 0, 2, k);
}
fn four(k: usize) {
    let g = Gr::sym(4, &[(0, 1), (1, 2), (1, 3), (2, 0), (2, 3), (3, 1)]);
    variants(&g, sym_perm("order", 4), 0, 3, k);
}
/// one-way streets, isolated nodes, several components
fn forest(k: usize) {
    let g = Gr::sym(8, &[(0, 2), (1, 3), (2, 0), (2, 4), (3, 1), (4, 6), (6, 0)]);
    let (a, b) = (choice("from", 4) as u32 * 2, sym_node("to", 7));
    let order = match choice("order", 3) {
        0 => vec![5, 7, 0, 2, 1, 3, 4, 6],
        1 => vec![0, 1, 2, 3, 4, 5, 6, 7],
        _ => vec![6, 4, 2, 0, 3, 1, 7, 5],
    };
    variants(&g, order, a, b, k);
}
on!(k3, h_k3_perfect, 0);
on!(k3, h_k3_directed, 1);
on!(k3, h_k3_directed_perfect, 2);
on!(k3, h_k3_reduced, 3);
on!(top3, h_top3_perfect, 0);
on!(top3, h_top3_directed, 1);
on!(top3, h_top3_directed_perfect, 2);
on!(top3, h_top3_reduced, 3);
on!(top3, h_top3_reduced_perfect, 4);
on!(four, h_4_perfect, 0);
on!(four, h_4_directed, 1);
on!(four, h_4_directed_perfect, 2);
on!(four, h_4_reduced, 3);
on!(four, h_4_reduced_perfect, 4);
on!(forest, h_forest_perfect, 0);
on!(forest, h_forest_directed, 1);
on!(forest, h_forest_directed_perfect, 2);
on!(forest, h_forest_reduced_perfect, 4);
#[no_mangle]
pub extern "C" fn h_edgeless() {
    // no arcs at all
    let n = 1 + choice("n", 3);
    let g = Gr::sym(n, &[]);
    let k = choice("variant", 5);
    variants(&g, sym_perm("order", n), 0, n as u32 - 1, k);
}
fn k4(k: usize) {
    variants(&Gr::complete(4), sym_perm("order", 4), 0, 3, k);
}
on!(k4, h_t_k4_perfect, 0);
on!(k4, h_t_k4_directed, 1);
on!(k4, h_t_k4_directed_perfect, 2);
on!(k4, h_t_k4_reduced, 3);
entries!(
    h_k3_perfect, h_k3_directed, h_k3_directed_perfect, h_k3_reduced, h_top3_perfect, h_top3_directed, h_top3_directed_perfect, h_top3_reduced, h_top3_reduced_perfect, h_4_perfect,
    h_4_directed, h_4_directed_perfect, h_4_reduced, h_4_reduced_perfect, h_forest_perfect, h_forest_directed, h_forest_directed_perfect, h_forest_reduced_perfect, h_edgeless, h_t_k4_perfect, h_t_k4_directed,
    h_t_k4_directed_perfect, h_t_k4_reduced
);
