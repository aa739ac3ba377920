//! the same harness entries with the engine's feature `cch-disable-par` (sequential customization)
use harness::*;
include!("../c08_body.rs");
/// sequential build: an arbitrary (not separator-consecutive) order may be customized, basic and perfect
#[no_mangle]
pub extern "C" fn h_any_order() {
    let g = Gr::sym(4, &[(0, 1), (1, 2), (1, 3), (2, 0), (3, 1)]);
    let cch = contract(&g.with_weights(vec![1; 5]).owned(), rust_road_router::datastr::node_order::NodeOrder::from_node_order(sym_perm("order", 4)));
    let c = customize(&cch, &g.owned());
    query_path(&mut CCHServer::new(c), &g, 0, 3, "sequential customization is exact");
    let c = customize_perfect(customize(&cch, &g.owned()));
    query_path(&mut CCHServer::new(c), &g, 0, 3, "sequential perfect customization is exact");
}
entries!(h_any_order, h_k4_threads, h_star_perfect, h_tree_perfect, h_directed_orders, h_directed_perfect, h_two_components);
