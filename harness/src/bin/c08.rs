//! customization: every task order and thread count, and the sequential build, give the same result
use harness::*;
include!("../c08_body.rs");
entries!(h_k4_threads, h_star_orders, h_star_perfect, h_tree_orders, h_tree_perfect, h_directed_orders, h_directed_perfect, h_cells_70, h_cells_130, h_two_components, h_rebuild_chunks, h_t_tree7);
