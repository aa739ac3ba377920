//! One-to-many / many-to-many: RPHAST, simultaneous-source RPHAST, hub labels
use harness::*;
use rust_road_router::algo::contraction_hierarchy as ch;
use rust_road_router::algo::hl::HubLabels;
use rust_road_router::algo::rphast::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
const E4: [(u32, u32); 7] = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0)];
const E4S: [(u32, u32); 5] = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)];
fn one(g: &Gr, d: u32, s: u32, t: u32) {
    check(g.is_dist(std::cmp::min(d, INFINITY), s, t), "RPHAST distance is exact");
}
/// several selections and sources on one object
fn rphast<GF: LinkIterGraph, GB: LinkIterGraph>(g: &Gr, r: &mut RPHAST<GF, GB>, runs: &[(&[u32], &[u32])]) {
    let mut q = RPHASTQuery::new(r);
    for (targets, sources) in runs {
        r.select(targets);
        for &s in *sources {
            let res = q.query(s, r);
            for &t in *targets {
                one(g, res.distance(t), s, t);
            }
        }
    }
}
fn sse<GF: LinkIterGraph, GB: LinkIterGraph>(g: &Gr, r: &mut RPHAST<GF, GB>, runs: &[(&[u32], &[u32])]) {
    let mut q = SSERPHASTQuery::new(r);
    for (targets, sources) in runs {
        r.select(targets);
        let res = q.query(sources, r);
        for &t in *targets {
            let d = res.distances(t);
            check(d.len() == sources.len(), "one distance per source");
            for (i, &s) in sources.iter().enumerate() {
                one(g, d[i], s, t);
            }
        }
    }
}
fn on_cch(g: &Gr, order: Vec<u32>, perfect: bool, simultaneous: bool, runs: &[(&[u32], &[u32])]) {
    let cch = build_cch(g, order);
    let c = customize(&cch, &g.owned());
    let run = |r: &mut RPHAST<BorrowedGraph, BorrowedGraph>| if simultaneous { sse(g, r, runs) } else { rphast(g, r, runs) };
    if perfect {
        let c = customize_perfect(c);
        run(&mut RPHAST::new(c.forward_graph(), c.backward_graph(), cch.node_order().clone()));
    } else {
        run(&mut RPHAST::new(c.forward_graph(), c.backward_graph(), cch.node_order().clone()));
    }
}
fn on_ch(g: &Gr, order: Vec<u32>, simultaneous: bool, runs: &[(&[u32], &[u32])]) {
    let o = NodeOrder::from_node_order(order);
    let (f, b) = ch::overlay(&g.owned(), o.clone(), g.n);
    let mut r = RPHAST::new(f, b, o);
    if simultaneous {
        sse(g, &mut r, runs)
    } else {
        rphast(g, &mut r, runs)
    }
}
/// RPHAST on the customized CCH, four nodes, all orders, two selections in a row
#[no_mangle]
pub extern "C" fn h_rphast() {
    on_cch(&Gr::sym(4, &E4S), sym_perm("order", 4), false, false, &[(&[1], &[0]), (&[3, 2], &[0])]);
}
#[no_mangle]
pub extern "C" fn h_rphast_perfect() {
    let o = [[0, 1, 2, 3], [1, 2, 0, 3], [3, 1, 2, 0], [2, 0, 3, 1]][choice("order", 4)].to_vec();
    on_cch(&Gr::sym(4, &E4S), o, true, false, &[(&[3], &[0]), (&[2, 1], &[3, 0])]);
}
/// RPHAST on a CH (search graphs with few arcs), repeated targets
#[no_mangle]
pub extern "C" fn h_rphast_ch() {
    on_ch(&Gr::sym(4, &E4S), sym_perm("order", 4), false, &[(&[3, 2, 3], &[0]), (&[0], &[3, 1])]);
}
#[no_mangle]
pub extern "C" fn h_rphast_k3() {
    // every target set and source of three nodes, all orders
    let ts = sym_perm("targets", 3);
    let k = 1 + choice("k", 3);
    on_cch(&Gr::complete(3), sym_perm("order", 3), false, false, &[(&ts[..k], &[sym_node("source", 3)])]);
}
#[no_mangle]
pub extern "C" fn h_sse() {
    let o = [[0, 1, 2, 3], [1, 2, 0, 3], [3, 1, 2, 0], [2, 0, 3, 1]][choice("order", 4)].to_vec();
    on_cch(&Gr::sym(4, &E4S), o, choice("perfect", 2) == 1, true, &[(&[3], &[0, 1]), (&[2, 3], &[3, 0])]);
}
#[no_mangle]
pub extern "C" fn h_sse_ch() {
    on_ch(&Gr::sym(4, &E4S), sym_perm("order", 4), true, &[(&[3, 2], &[0, 1]), (&[0], &[3])]);
}
#[no_mangle]
pub extern "C" fn h_sse_k3() {
    on_cch(&Gr::complete(3), sym_perm("order", 3), false, true, &[(&[1, 2], &[0, 2, 1])]);
}
/// the same source given twice, more sources than nodes
#[no_mangle]
pub extern "C" fn h_sse_dup() {
    on_cch(&Gr::sym(3, &[(0, 1), (0, 2), (1, 2)]), sym_perm("order", 3), false, true, &[(&[2], &[0, 1, 0, 0]), (&[2, 1], &[1, 0])]);
}
fn hub(g: &Gr, order: Vec<u32>, cch: bool) {
    let n = g.n as u32;
    let (hl, o) = if cch {
        let cch = build_cch(g, order);
        let c = customize(&cch, &g.owned());
        (HubLabels::new(&c.forward_graph(), &c.backward_graph()), cch.node_order().clone())
    } else {
        let o = NodeOrder::from_node_order(order);
        let (f, b) = ch::overlay(&g.owned(), o.clone(), g.n);
        (HubLabels::new(&f, &b), o)
    };
    for s in 0..n {
        for t in 0..n {
            let (rs, rt) = (o.rank(s), o.rank(t));
            let d = hl.dist(rs, rt);
            let d = std::cmp::min(d.unwrap_or(INFINITY), INFINITY);
            check(g.is_dist(d, s, t), "hub label distance is exact");
            if let Some((h, x)) = hl.hub_and_dist(rs, rt) {
                check(std::cmp::min(x, INFINITY) == d, "hub distance agrees");
                check(h < n, "hub is a node");
                let fw = hl.forward_labels()[rs as usize].iter().find(|l| l.0 == h).map(|l| l.1);
                let bw = hl.backward_labels()[rt as usize].iter().find(|l| l.0 == h).map(|l| l.1);
                check(fw.is_some() && bw.is_some(), "hub is in both labels");
                check(fw.unwrap() + bw.unwrap() == x, "hub labels add up");
            }
        }
    }
    let mut count = 0;
    for v in 0..n as usize {
        for l in [&hl.forward_labels()[v], &hl.backward_labels()[v]] {
            count += l.len();
            for i in 1..l.len() {
                check(l[i - 1].0 < l[i].0, "labels are sorted by hub");
            }
        }
    }
    check(count == hl.num_labels(), "label count");
}
/// hub labels from a CH, finite weights
#[no_mangle]
pub extern "C" fn h_hub_ch() {
    let o = [[0, 1, 2, 3], [1, 2, 0, 3], [3, 1, 2, 0]][choice("order", 3)].to_vec();
    hub(&Gr::sym_range(4, &E4S, 0, INFINITY / 8), o, false);
}
/// hub labels from a CH on three nodes
#[no_mangle]
pub extern "C" fn h_hub_k3() {
    hub(&Gr::sym_range(3, &complete_edges(3), 0, INFINITY / 8), sym_perm("order", 3), false);
}
#[no_mangle]
pub extern "C" fn h_hub4() {
    hub(&Gr::sym_range(4, &E4, 0, INFINITY / 8), sym_perm("order", 4), false);
}
#[no_mangle]
pub extern "C" fn h_t_rphast4() {
    on_cch(&Gr::complete(4), sym_perm("order", 4), false, false, &[(&[3, 2], &[0, 1])]);
}
#[no_mangle]
pub extern "C" fn h_t_sse4() {
    on_cch(&Gr::sym(4, &E4), sym_perm("order", 4), true, true, &[(&[3], &[0, 1]), (&[2, 3], &[3, 0])]);
}
entries!(h_rphast, h_rphast_perfect, h_rphast_ch, h_rphast_k3, h_sse, h_sse_ch, h_sse_k3, h_sse_dup, h_hub_ch, h_hub_k3, h_hub4, h_t_rphast4, h_t_sse4);
