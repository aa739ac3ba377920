//! CCH preprocessing: fill-in, arc mapping, elimination tree, separator tree, orders, directed and reduced variants
use harness::*;
use rust_road_router::algo::customizable_contraction_hierarchy::separator_decomposition::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
fn order_of(v: Vec<u32>) -> NodeOrder {
    NodeOrder::from_node_order(v)
}
/// is there a path u -> v whose intermediate nodes all have rank < min(u, v)?  ranks; adjacency as matrix
fn lower_path(n: usize, adj: &dyn Fn(usize, usize) -> bool, u: usize, v: usize) -> bool {
    let lim = u.min(v);
    let mut seen = vec![false; n];
    let mut todo = vec![u];
    while let Some(x) = todo.pop() {
        for y in 0..n {
            if adj(x, y) {
                if y == v {
                    return true;
                }
                if y < lim && !seen[y] {
                    seen[y] = true;
                    todo.push(y);
                }
            }
        }
    }
    false
}
fn check_cch(g: &Gr, cch: &CCH) {
    let n = g.n;
    let ord = cch.node_order();
    let dir = |a: usize, b: usize| g.edges.contains(&(ord.node(a as u32), ord.node(b as u32)));
    let und = |a: usize, b: usize| a != b && (dir(a, b) || dir(b, a));
    check(cch.num_nodes() == n && cch.first_out().len() == n + 1 && cch.num_cch_nodes() == n, "node count");
    check(cch.first_out()[n] as usize == cch.head().len(), "arc count");
    let mut m = 0;
    for u in 0..n {
        let heads: Vec<u32> = cch.neighbor_iter(u as u32).collect();
        check(heads.windows(2).all(|w| w[0] < w[1]), "upward arcs sorted by head, no duplicates");
        check(heads.iter().all(|&h| h > u as u32 && (h as usize) < n), "arcs lead upwards");
        for v in u + 1..n {
            check(heads.contains(&(v as u32)) == lower_path(n, &und, u, v), "arc iff connected through lower ranked nodes");
        }
        check(cch.elimination_tree()[u].value() == heads.first().copied(), "parent is the lowest upper neighbor");
        for (i, e) in cch.neighbor_edge_indices(u as u32).enumerate() {
            check(cch.edge_id_to_tail(e) == u as u32 && cch.forward_tail()[e as usize] == u as u32 && cch.backward_tail()[e as usize] == u as u32, "tail of an arc");
            let (a, b) = (ord.node(u as u32), ord.node(heads[i]));
            let mut f: Vec<u32> = cch.forward_cch_edge_to_orig_arc()[e as usize].iter().map(|e| e.0).collect();
            let mut r: Vec<u32> = cch.backward_cch_edge_to_orig_arc()[e as usize].iter().map(|e| e.0).collect();
            f.sort();
            r.sort();
            let ids = |x: (u32, u32)| -> Vec<u32> { (0..g.edges.len() as u32).filter(|&i| g.edges[i as usize] == x).collect() };
            check(f == ids((a, b)), "an arc maps to exactly the original arcs upwards");
            check(r == ids((b, a)), "an arc maps to exactly the original arcs downwards");
            m += 1;
        }
    }
    check(m == cch.num_arcs(), "all arcs seen");
    check_inverted(cch.forward_inverted(), n, cch.head(), cch.forward_tail());
    check_separators(cch, n);
}
fn check_inverted(inv: &ReversedGraphWithEdgeIds, n: usize, head: &[u32], tail: &[u32]) {
    let mut seen = vec![false; head.len()];
    for v in 0..n as u32 {
        let mut last = None;
        for (NodeIdT(low), Reversed(EdgeIdT(e))) in inv.link_iter(v) {
            check(head[e as usize] == v && tail[e as usize] == low && !seen[e as usize], "inverted arc");
            check(last.map(|l| l < low).unwrap_or(true), "downward neighbors sorted");
            last = Some(low);
            seen[e as usize] = true;
        }
    }
    check(seen.iter().all(|&x| x), "every arc is in the inverted graph");
}
fn tree_nodes(t: &SeparatorTree) -> Vec<u32> {
    let mut v: Vec<u32> = t.nodes.iter().collect();
    check(v.len() == t.nodes.len() && v.is_empty() == t.nodes.is_empty() && t.nodes.highest_ranked_node() == v.iter().copied().max(), "separator size");
    for c in &t.children {
        v.extend(tree_nodes(c));
    }
    check(v.len() == t.num_nodes, "cell size");
    v
}
fn check_sep(t: &SeparatorTree, cch: &CCH) {
    // different children are not adjacent in the CCH; separator nodes outrank the nodes of their children
    let cells: Vec<Vec<u32>> = t.children.iter().map(tree_nodes).collect();
    for (i, a) in cells.iter().enumerate() {
        for (j, b) in cells.iter().enumerate() {
            if i != j {
                for &x in a {
                    check(cch.neighbor_iter(x).all(|y| !b.contains(&y)), "cells of a separator are not adjacent");
                }
            }
        }
        for &x in a {
            check(t.nodes.iter().all(|s| s > x), "separator nodes outrank their cells");
        }
    }
    for c in &t.children {
        check_sep(c, cch);
    }
}
fn check_separators(cch: &CCH, n: usize) {
    let mut all = tree_nodes(cch.separators());
    all.sort();
    check(all == identity(n), "the separator tree partitions the nodes");
    check_sep(cch.separators(), cch);
}
fn check_perm(o: &NodeOrder, n: usize) {
    check(o.len() == n, "order has all nodes");
    let mut v = o.order().to_vec();
    v.sort();
    check(v == identity(n), "order is a permutation");
    for i in 0..n as u32 {
        check(o.rank(o.node(i)) == i && o.node(o.rank(i)) == i, "rank and node are inverse");
    }
}
fn orders(g: &Gr, order: Vec<u32>) {
    let gr = g.owned();
    let a = contract(&gr, order_of(order.clone()));
    check(a.node_order().order() == &order[..], "contraction keeps the order");
    check_cch(g, &a);
    let f = CCH::fix_order_and_build(&gr, order_of(order));
    check_perm(f.node_order(), g.n);
    check_cch(g, &f);
    check(f.num_arcs() == a.num_arcs(), "fixing the order does not change the fill-in");
    f.separators().validate_for_parallelization();
    let mut s1: Vec<usize> = Vec::new();
    let mut s2: Vec<usize> = Vec::new();
    fn sizes(t: &SeparatorTree, out: &mut Vec<usize>) {
        out.push(t.num_nodes * 100 + t.nodes.len());
        for c in &t.children {
            sizes(c, out);
        }
    }
    sizes(a.separators(), &mut s1);
    sizes(f.separators(), &mut s2);
    s1.sort();
    s2.sort();
    check(s1 == s2, "fixing the order keeps the separator tree");
    let b = reorder_bfs(&f);
    check_perm(&b, g.n);
    check(contract(&gr, b).num_arcs() == a.num_arcs(), "bfs order has the same fill-in");
}
/// every digraph on three nodes with one doubled arc and loops, every order
#[no_mangle]
pub extern "C" fn h_3() {
    let e: Vec<(u32, u32)> = [(0, 0), (0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].into_iter().filter(|_| choice("edge", 2) == 1).collect();
    let g = Gr::new(3, &e, vec![1; e.len()]);
    orders(&g, sym_perm("order", 3));
}
/// every digraph on four nodes in which adjacent nodes are joined in one or both directions, identity and reversed order
#[no_mangle]
pub extern "C" fn h_4() {
    let mut e = Vec::new();
    for i in 0..4u32 {
        for j in 0..i {
            match choice("arcs", 3) {
                1 => e.push((i, j)),
                2 => {
                    e.push((i, j));
                    e.push((j, i))
                }
                _ => (),
            }
        }
    }
    e.sort();
    let g = Gr::new(4, &e, vec![1; e.len()]);
    orders(&g, if choice("order", 2) == 0 { vec![0, 1, 2, 3] } else { vec![3, 2, 1, 0] });
}
/// every undirected graph on five nodes (arcs in one direction)
#[no_mangle]
pub extern "C" fn h_5() {
    let mut e = Vec::new();
    for i in 0..5u32 {
        for j in i + 1..5 {
            if choice("edge", 2) == 1 {
                e.push((i, j));
            }
        }
    }
    let g = Gr::new(5, &e, vec![1; e.len()]);
    orders(&g, identity(5));
}
fn check_variants(g: &Gr, order: Vec<u32>) {
    let cch = contract(&g.owned(), order_of(order));
    // zero-weight customization requires consecutive separators
    let cch = CCH::fix_order_and_build(&g.owned(), cch.node_order().clone());
    let n = g.n;
    let ord = cch.node_order();
    let fwd = |a: usize, b: usize| a != b && g.edges.contains(&(ord.node(a as u32), ord.node(b as u32)));
    let bwd = |a: usize, b: usize| fwd(b, a);
    let d = cch.to_directed_cch();
    let r = cch.remove_always_infinity();
    check(d.elimination_tree() == cch.elimination_tree() && r.elimination_tree() == cch.elimination_tree(), "elimination tree is kept");
    check(d.node_order().order() == ord.order() && r.node_order().order() == ord.order(), "order is kept");
    for u in 0..n {
        let dheads: Vec<u32> = d.forward()[u].to_vec();
        let bheads: Vec<u32> = d.backward()[u].to_vec();
        let rheads: Vec<u32> = r.neighbor_iter(u as u32).collect();
        let mut ef = Vec::new();
        let mut eb = Vec::new();
        let mut er = Vec::new();
        for v in u + 1..n {
            let (f, b) = (lower_path(n, &fwd, u, v), lower_path(n, &bwd, u, v));
            if f {
                ef.push(v as u32);
            }
            if b {
                eb.push(v as u32);
            }
            if f || b {
                er.push(v as u32);
            }
        }
        check(dheads == ef, "directed upward arc iff a directed path through lower ranked nodes exists");
        check(bheads == eb, "directed downward arc iff a directed path through lower ranked nodes exists");
        check(rheads == er, "reduced CCH keeps exactly the arcs usable in some direction");
    }
    check_inverted(d.forward_inverted(), n, d.forward_head(), d.forward_tail());
    check_inverted(d.backward_inverted(), n, d.backward_head(), d.backward_tail());
    check_inverted(r.forward_inverted(), n, r.head(), r.forward_tail());
    let ids = |a: u32, b: u32| -> Vec<u32> { (0..g.edges.len() as u32).filter(|&i| g.edges[i as usize] == (ord.node(a), ord.node(b))).collect() };
    let m = |v: &rust_road_router::util::Vecs<EdgeIdT>, e: usize| -> Vec<u32> {
        let mut x: Vec<u32> = v[e].iter().map(|e| e.0).collect();
        x.sort();
        x
    };
    for (e, (&h, &t)) in d.forward_head().iter().zip(d.forward_tail()).enumerate() {
        check(m(d.forward_cch_edge_to_orig_arc(), e) == ids(t, h), "directed upward arc mapping");
    }
    for (e, (&h, &t)) in d.backward_head().iter().zip(d.backward_tail()).enumerate() {
        check(m(d.backward_cch_edge_to_orig_arc(), e) == ids(h, t), "directed downward arc mapping");
    }
    for (e, (&h, &t)) in r.head().iter().zip(r.forward_tail()).enumerate() {
        check(r.edge_id_to_tail(e as u32) == t, "tail of an arc");
        check(m(r.forward_cch_edge_to_orig_arc(), e) == ids(t, h) && m(r.backward_cch_edge_to_orig_arc(), e) == ids(h, t), "reduced arc mapping");
    }
}
/// directed and reduced variants: every digraph on three nodes with a doubled arc, every order
#[no_mangle]
pub extern "C" fn h_variants_3() {
    let e: Vec<(u32, u32)> = [(0, 1), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].into_iter().filter(|_| choice("edge", 2) == 1).collect();
    let g = Gr::new(3, &e, vec![1; e.len()]);
    check_variants(&g, sym_perm("order", 3));
}
/// directed and reduced variants: every orientation of every graph on four nodes
#[no_mangle]
pub extern "C" fn h_variants_4() {
    let mut e = Vec::new();
    for i in 0..4u32 {
        for j in 0..i {
            match choice("arcs", 4) {
                1 => e.push((i, j)),
                2 => {
                    e.push((i, j));
                    e.push((j, i))
                }
                3 => e.push((j, i)),
                _ => (),
            }
        }
    }
    e.sort();
    let g = Gr::new(4, &e, vec![1; e.len()]);
    check_variants(&g, identity(4));
}
/// geographic reordering of the top separators: still a permutation in which separators outrank their cells
#[no_mangle]
pub extern "C" fn h_reorder() {
    let e = bidir(6, &[(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]);
    let g = Gr::new(6, &e, vec![1; e.len()]);
    let ord = [vec![0, 3, 2, 5, 1, 4], vec![0, 1, 2, 3, 4, 5], vec![5, 0, 4, 1, 3, 2]][choice("order", 3)].clone();
    let cch = CCH::fix_order_and_build(&g.owned(), order_of(ord));
    let lat: Vec<f32> = (0..6).map(|i| (i / 3) as f32).collect();
    let lng: Vec<f32> = (0..6).map(|i| if choice("flip", 2) == 0 { (i % 3) as f32 } else { -((i % 3) as f32) }).collect();
    let r = reorder(&cch, &lat, &lng);
    check_perm(&r, 6);
    fn above(t: &SeparatorTree, cch: &CCH, r: &NodeOrder) {
        for c in &t.children {
            for x in tree_nodes(c) {
                check(t.nodes.iter().all(|s| r.rank(cch.node_order().node(s)) > r.rank(cch.node_order().node(x))), "separators stay above their cells");
            }
            above(c, cch, r);
        }
    }
    above(cch.separators(), &cch, &r);
}
#[no_mangle]
pub extern "C" fn h_t_4_all_orders() {
    let mut e = Vec::new();
    for i in 0..4u32 {
        for j in 0..i {
            match choice("arcs", 4) {
                1 => e.push((i, j)),
                2 => {
                    e.push((i, j));
                    e.push((j, i))
                }
                3 => e.push((j, i)),
                _ => (),
            }
        }
    }
    e.sort();
    let g = Gr::new(4, &e, vec![1; e.len()]);
    orders(&g, sym_perm("order", 4));
}
entries!(h_3, h_4, h_5, h_variants_3, h_variants_4, h_reorder, h_t_4_all_orders);
