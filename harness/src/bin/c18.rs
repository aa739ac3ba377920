//! data written to files is read back unchanged
use harness::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::a_star::Potential;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::*;
use rust_road_router::util::in_range_option::InRangeOption;
fn ok<T>(r: std::io::Result<T>, msg: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, msg);
            end_path()
        }
    }
}
fn same(a: &[u32], b: &[u32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |z, (x, y)| z & (x == y))
}
fn same_graph<A: AsRef<[u32]>, B: AsRef<[u32]>, C: AsRef<[u32]>>(g: &FirstOutGraph<A, B, C>, w: &Gr) -> bool {
    same(g.first_out(), &w.fo) && same(g.head(), &w.head) && same(g.weight(), &w.w)
}
/// vectors, boxed slices and slices of up to three elements (u8, u32, u64, i32, pairs) with symbolic content
#[no_mangle]
pub extern "C" fn h_vec() {
    let n = choice("n", 4);
    let a: Vec<u32> = (0..n).map(|_| sym_u32("x")).collect();
    let p = "f";
    match choice("type", 6) {
        0 => {
            ok(a.write_to(&p), "written");
            check(same(&ok(Vec::<u32>::load_from(p), "loaded"), &a), "vector reads back");
        }
        1 => {
            let v: Vec<u64> = (0..n).map(|_| sym_u64("y")).collect();
            ok(v.write_to(&p), "written");
            let r = ok(Vec::<u64>::load_from(p), "loaded");
            check(r.len() == n && r.iter().zip(&v).fold(true, |z, (x, y)| z & (x == y)), "64 bit vector reads back");
        }
        2 => {
            let v: Box<[u8]> = a.iter().map(|x| *x as u8).collect();
            ok(v.write_to(&p), "written");
            let r = ok(Box::<[u8]>::load_from(p), "loaded");
            check(r.len() == n && r.iter().zip(&v[..]).fold(true, |z, (x, y)| z & (x == y)), "bytes read back");
        }
        3 => {
            let v: Vec<(u32, u32)> = a.iter().map(|x| (*x, sym_u32("y"))).collect();
            ok(v[..].write_to(&p), "written");
            let r = ok(Vec::<(u32, u32)>::load_from(p), "loaded");
            check(r.len() == n && r.iter().zip(&v).fold(true, |z, (x, y)| z & (x.0 == y.0) & (x.1 == y.1)), "pairs read back");
        }
        4 => {
            let v: Vec<InRangeOption<u32>> = a.iter().map(|x| if *x != u32::MAX { InRangeOption::some(*x) } else { InRangeOption::NONE }).collect();
            ok((&v[..]).write_to(&p), "written");
            let r = ok(Vec::<InRangeOption<u32>>::load_from(p), "loaded");
            check(r.len() == n, "options read back");
            for i in 0..n {
                check(r[i].value() == v[i].value(), "options read back");
            }
        }
        _ => {
            let v: Vec<f32> = (0..n).map(|i| 1.5 + i as f32).collect();
            ok(v.write_to(&p), "written");
            check(ok(Vec::<f32>::load_from(p), "loaded") == v, "floats read back");
        }
    }
}
/// a file is overwritten by a shorter or longer vector; another file is not touched; missing files are reported
#[no_mangle]
pub extern "C" fn h_overwrite() {
    let vec = |_: ()| -> Vec<u32> { (0..choice("n", 4)).map(|_| sym_u32("x")).collect() };
    let (a, b, c) = (vec(()), vec(()), vec(()));
    check(Vec::<u32>::load_from("one").is_err(), "missing file is an error");
    ok(a.write_to(&"one"), "written");
    ok(c.write_to(&"two"), "written");
    ok(b.write_to(&"one"), "written again");
    check(same(&ok(Vec::<u32>::load_from("one"), "loaded"), &b), "the last content is read");
    check(same(&ok(Vec::<u32>::load_from("two"), "loaded"), &c), "other files keep their content");
    check(Vec::<u32>::load_from("three").is_err(), "missing file is an error");
}
/// bit vectors of 64, 128 and 192 bits with two symbolic bits
#[no_mangle]
pub extern "C" fn h_bits() {
    let n = 64 * (1 + choice("words", 3));
    let mut v = BitVec::new(n);
    let (i, j) = (sym_range("i", 0, n as u32 - 1), sym_range("j", 0, n as u32 - 1));
    v.set(i as usize);
    v.set(j as usize);
    ok(v.write_to(&"bits"), "written");
    let r = ok(BitVec::load_from("bits"), "loaded");
    check(r.len() == n, "same number of bits");
    let p = sym_range("p", 0, n as u32 - 1);
    check(r.get(p as usize) == v.get(p as usize), "same bits");
    drop(v);
}
/// weighted and unweighted graphs of three nodes with up to two arcs per node
#[no_mangle]
pub extern "C" fn h_graph() {
    let mut e = Vec::new();
    for u in 0..3 {
        for _ in 0..choice("deg", 3) {
            e.push((u, (u + 1 + e.len() as u32) % 3));
        }
    }
    let g = Gr::sym(3, &e);
    ok(g.owned().deconstruct_to(&"g"), "stored");
    let r: OwnedGraph = ok(OwnedGraph::reconstruct_from(&"g"), "loaded");
    check(same_graph(&r, &g), "graph reads back");
    ok(g.w.write_to(&"g/other_weights"), "written");
    let r = ok(WeightedGraphReconstructor("other_weights").reconstruct_from(&"g"), "loaded");
    check(same_graph(&r, &g), "graph with named weights reads back");
    let u = ok(UnweightedOwnedGraph::reconstruct_from(&"g"), "loaded");
    check(same(u.first_out(), &g.fo) && same(u.head(), &g.head), "unweighted graph reads back");
    ok(u.deconstruct_to(&"u"), "stored");
    let u = ok(UnweightedOwnedGraph::reconstruct_from(&"u"), "loaded");
    check(same(u.first_out(), &g.fo) && same(u.head(), &g.head), "unweighted graph reads back");
}
/// node orders of up to four nodes, all orders
#[no_mangle]
pub extern "C" fn h_order() {
    let n = choice("n", 5);
    let o = sym_perm("order", n);
    ok(NodeOrder::from_node_order(o.clone()).deconstruct_to(&"o"), "stored");
    let r = ok(NodeOrder::reconstruct_from(&"o"), "loaded");
    check(same(r.order(), &o), "order reads back");
    for i in 0..n {
        check(r.rank(o[i]) == i as u32, "ranks read back");
    }
}
fn answers(g: &Gr, server: &mut impl QueryServerDyn) {
    for s in 0..g.n as u32 {
        for t in 0..g.n as u32 {
            server.check(g, s, t);
        }
    }
}
trait QueryServerDyn {
    fn check(&mut self, g: &Gr, s: u32, t: u32);
}
impl<C: Customized> QueryServerDyn for Server<C> {
    fn check(&mut self, g: &Gr, s: u32, t: u32) {
        let mut r = self.query(Query { from: s, to: t });
        g.check_dist(r.distance(), s, t, "loaded hierarchy answers exactly");
        let d = r.distance();
        if let (Some(d), Some(p)) = (d, r.node_path()) {
            g.check_node_path(&p, d, s, t, "loaded hierarchy unpacks a shortest path");
        }
    }
}
fn store_cch(cch: &CCH) {
    ok(cch.node_order().deconstruct_to(&"cch"), "stored");
    ok(cch.deconstruct_to(&"cch"), "stored");
}
/// a hierarchy (all orders of three nodes, complete digraph and a graph with an isolated node) stored and loaded answers exactly
#[no_mangle]
pub extern "C" fn h_cch() {
    let g = match choice("graph", 3) {
        0 => Gr::complete(3),
        1 => Gr::sym(3, &[(0, 1), (0, 1), (1, 0)]),
        _ => Gr::sym(3, &[(0, 2), (1, 2), (2, 0)]),
    };
    let cch = build_cch(&g, sym_perm("order", 3));
    store_cch(&cch);
    let o = g.owned();
    let l = ok(CCHReconstrctor(&o).reconstruct_from(&"cch"), "loaded");
    check(same(l.node_order().order(), cch.node_order().order()), "same order");
    check(same(l.forward_first_out(), cch.forward_first_out()) && same(l.forward_head(), cch.forward_head()), "same arcs");
    check(same(l.forward_tail(), cch.forward_tail()), "same tails");
    check(l.elimination_tree().iter().zip(cch.elimination_tree()).all(|(a, b)| a.value() == b.value()), "same elimination tree");
    for e in 0..cch.forward_head().len() {
        check(l.forward_cch_edge_to_orig_arc()[e] == cch.forward_cch_edge_to_orig_arc()[e], "same original arcs");
        check(l.backward_cch_edge_to_orig_arc()[e] == cch.backward_cch_edge_to_orig_arc()[e], "same original arcs");
    }
    if g.n == 3 && g.edges.len() < 4 {
        let mut server = Server::new(customize(&l, &o));
        answers(&g, &mut server);
    }
}
fn perfect(g: Gr, order: Vec<u32>, pairs: &[(u32, u32)]) {
    let cch = build_cch(&g, order);
    let c = customize_perfect(customize(&cch, &g.owned()));
    ok(c.deconstruct_to(&"perfect"), "stored");
    let l: CustomizedPerfect<CCH> = ok((&cch).reconstruct_from(&"perfect"), "loaded");
    let (a, b) = (c.forward_graph(), l.forward_graph());
    check(same(a.first_out(), b.first_out()) && same(a.head(), b.head()) && same(a.weight(), b.weight()), "same upward graph");
    let (a, b) = (c.backward_graph(), l.backward_graph());
    check(same(a.first_out(), b.first_out()) && same(a.head(), b.head()) && same(a.weight(), b.weight()), "same downward graph");
    let mut server = Server::new(l);
    for &(s, t) in pairs {
        server.check(&g, s, t);
    }
}
/// a perfectly customized hierarchy (three nodes, all orders, symbolic weights) stored and loaded answers exactly, with paths
#[no_mangle]
pub extern "C" fn h_perfect3() {
    perfect(Gr::complete(3), sym_perm("order", 3), &[(0, 1)])
}
/// the same with nested shortcuts: bidirectional path of five nodes and a detour
#[no_mangle]
pub extern "C" fn h_perfect5() {
    let g = Gr::sym(5, &[(0, 1), (0, 4), (1, 2), (2, 3), (3, 4), (4, 0), (4, 3)]);
    let o = [[1, 3, 2, 0, 4], [2, 1, 3, 4, 0], [0, 1, 2, 3, 4]][choice("order", 3)];
    perfect(g, o.to_vec(), &[(0, 4), (4, 2)])
}
/// contraction hierarchy potentials loaded from files: exact distances to each target, forward and backward
#[no_mangle]
pub extern "C" fn h_ch_pot() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2), (2, 0)]);
    let cch = build_cch(&g, sym_perm("order", 3));
    let c = customize(&cch, &g.owned());
    std::fs::create_dir("ch").ok();
    for (n, gr) in [("forward", c.forward_graph()), ("backward", c.backward_graph())] {
        ok(gr.first_out().write_to(&format!("ch/{}_first_out", n)), "written");
        ok(gr.head().write_to(&format!("ch/{}_head", n)), "written");
        ok(gr.weight().write_to(&format!("ch/{}_weight", n)), "written");
    }
    ok(cch.node_order().order().write_to(&"ch/order"), "written");
    let t = sym_node("t", 3);
    let pot = |p: Option<u32>, from: u32, to: u32| g.check_dist(p, from, to, "loaded potential is exact");
    if choice("loader", 2) == 0 {
        let mut p = ok(CHPotential::reconstruct_from(&"ch"), "loaded");
        p.init(t);
        for v in 0..3 {
            pot(p.potential(v), v, t);
        }
    } else {
        let l = ok(CHPotLoader::reconstruct_from(&"ch"), "loaded");
        check(same(l.order().order(), cch.node_order().order()), "order reads back");
        let (mut f, mut b) = l.potentials();
        f.init(t);
        b.init(t);
        for v in 0..3 {
            pot(f.potential(v), v, t);
            pot(b.potential(v), t, v);
        }
    }
}
entries!(h_vec, h_overwrite, h_bits, h_graph, h_order, h_cch, h_perfect3, h_perfect5, h_ch_pot);
