//! CCH paths
use harness::*;
fn path(g: &Gr, order: Vec<u32>, from: u32, to: u32) {
    let cch = build_cch(g, order);
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    query_path(&mut s, g, from, to, "CCH path is a shortest path");
}
fn path_perfect(g: &Gr, order: Vec<u32>, from: u32, to: u32) {
    let cch = build_cch(g, order);
    let mut s = CCHServer::new(customize_perfect(customize(&cch, &g.owned())));
    query_path(&mut s, g, from, to, "perfect CCH path is a shortest path");
}
fn path_directed(g: &Gr, order: Vec<u32>, from: u32, to: u32) {
    let cch = build_cch(g, order);
    let d = cch.to_directed_cch();
    let c = customize_directed(&d, &g.owned());
    let mut s = CCHServer::new(c);
    query_path(&mut s, g, from, to, "directed CCH path is a shortest path");
    let mut s = CCHServer::new(customize_directed_perfect(customize_directed(&d, &g.owned())));
    query_path(&mut s, g, from, to, "directed perfect CCH path is a shortest path");
}
const CHAIN: [(u32, u32); 5] = [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)];
#[no_mangle]
pub extern "C" fn h_k3() {
    let g = Gr::sym(3, &[(0, 0), (0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (1, 1), (2, 1), (2, 1)]);
    let (a, b) = (sym_node("from", 3), sym_node("to", 3));
    path(&g, sym_perm("order", 3), a, b);
}
#[no_mangle]
pub extern "C" fn h_k4_basic() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 1)]);
    path(&g, sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_k4_perfect() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3)]);
    path_perfect(&g, sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_k4_directed() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3)]);
    path_directed(&g, sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_chain() {
    // nested shortcuts: a cycle of five nodes, unpacking depth up to three
    let g = Gr::sym(5, &bidir(5, &CHAIN));
    path(&g, sym_perm("order", 5), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_chain8() {
    // a chain of 8 nodes contracted inner first: unpacking nests deeply on both sides of the meeting node
    let mut e: Vec<(u32, u32)> = Vec::new();
    for i in 0..7u32 {
        e.push((i, i + 1));
    }
    e.push((0, 5));
    e.push((2, 7));
    e.sort();
    let g = Gr::sym(8, &e);
    let ord = match choice("order", 4) {
        0 => vec![3, 4, 2, 5, 1, 6, 0, 7],
        1 => vec![1, 2, 3, 4, 5, 6, 7, 0],
        2 => vec![6, 5, 4, 3, 2, 1, 0, 7],
        _ => vec![1, 3, 5, 2, 6, 4, 0, 7],
    };
    path(&g, ord.clone(), 0, 7);
}
#[no_mangle]
pub extern "C" fn h_chain8_perfect() {
    let mut e: Vec<(u32, u32)> = Vec::new();
    for i in 0..7u32 {
        e.push((i, i + 1));
    }
    e.push((0, 5));
    e.push((2, 7));
    e.sort();
    let g = Gr::sym(8, &e);
    let ord = match choice("order", 3) {
        0 => vec![3, 4, 2, 5, 1, 6, 0, 7],
        1 => vec![1, 2, 3, 4, 5, 6, 7, 0],
        _ => vec![1, 3, 5, 2, 6, 4, 0, 7],
    };
    path_perfect(&g, ord, 0, 7);
}
#[no_mangle]
pub extern "C" fn h_reuse() {
    // paths of consecutive queries on the same server
    let g = Gr::sym(4, &[(0, 1), (1, 0), (1, 2), (2, 3), (3, 0)]);
    let cch = build_cch(&g, sym_perm("order", 4));
    let mut s = CCHServer::new(customize(&cch, &g.owned()));
    for (a, b) in [(0, 3), (3, 1), (1, 0), (0, 3)] {
        query_path(&mut s, &g, a, b, "CCH path is a shortest path");
    }
}
#[no_mangle]
pub extern "C" fn h_t_k4() {
    path(&Gr::complete(4), sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_t_k4_perfect() {
    path_perfect(&Gr::complete(4), sym_perm("order", 4), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_t_k4_directed() {
    path_directed(&Gr::complete(4), sym_perm("order", 4), 0, 3);
}
entries!(h_k3, h_k4_basic, h_k4_perfect, h_k4_directed, h_chain, h_chain8, h_chain8_perfect, h_reuse, h_t_k4, h_t_k4_perfect, h_t_k4_directed);
