//! alternative routes with the penalty method
use harness::cchx::*;
use harness::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::penalty::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::datastr::graph::*;

/// length of a node path, which has to be a walk of the graph from a to b
fn length(g: &Gr, p: &[u32], a: u32, b: u32) -> u64 {
    check(!p.is_empty() && p[0] == a && p[p.len() - 1] == b, "alternative runs from the source to the target");
    let mut l = 0;
    for x in p.windows(2) {
        match g.edges.iter().position(|&e| e == (x[0], x[1])) {
            Some(e) => l += g.w[e] as u64,
            None => check(false, "alternative uses arcs of the graph"),
        }
    }
    for (i, v) in p.iter().enumerate() {
        check(!p[..i].contains(v), "alternative has no loops");
    }
    l
}
fn arcs(p: &[u32]) -> Vec<(u32, u32)> {
    p.windows(2).map(|x| (x[0], x[1])).collect()
}
/// the ladder 0-1-2 / 3-4-5 with symbolic weights on some arcs
fn ladder(hi: u32, sym: &[(u32, u32)]) -> Gr {
    let e = bidir(6, &[(0, 1), (1, 2), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5)]);
    let mut g = Gr::new(6, &e, e.iter().map(|&(u, v)| 10 + (u * 3 + v * 5) % 7).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if sym.contains(x) {
            g.w[i] = sym_range("w", 0, hi);
        }
    }
    g
}
fn base(g: &Gr, a: u32, b: u32) -> Option<u64> {
    let mut best = None;
    for p in g.simple_paths(a, b) {
        let l = g.path_sum(&p);
        best = Some(match best {
            None => l,
            Some(b) => std::cmp::min(b, l),
        });
    }
    best
}
/// one alternative per query
fn single(g: &Gr, qs: &[(u32, u32)]) {
    let cch = build_cch(g, identity(g.n));
    let data = CCHPotData::new(&cch, &g.owned());
    let og = g.owned();
    let mut s = PenaltyIterative::new(&og, &data);
    for &(a, b) in qs {
        let r = s.alternatives(Query { from: a, to: b });
        if let Some(p) = &r {
            reach("alternative");
            let d = base(g, a, b);
            check(d.is_some(), "alternatives only for connected nodes");
            let l = length(g, p, a, b);
            check(4 * l <= 5 * d.unwrap(), "alternative is at most a quarter longer than the shortest path");
        } else {
            reach("no-alternative");
        }
    }
}
fn multi(g: &Gr, qs: &[(u32, u32)]) {
    let z = ZeroPotential();
    let mut s = Penalty::new(&g.owned(), z, z);
    for &(a, b) in qs {
        let d = base(g, a, b);
        match s.alternatives_iterative(Query { from: a, to: b }) {
            None => {
                reach("none");
                check(d.is_none(), "an answer for connected nodes");
            }
            Some(alts) => {
                check(d.is_some(), "alternatives only for connected nodes");
                let mut seen: Vec<(u32, u32)> = Vec::new();
                check(alts.len() <= 5, "at most five alternatives");
                for p in &alts {
                    reach("alternative");
                    length(g, p, a, b);
                    let x = arcs(p);
                    check(x.iter().any(|e| !seen.contains(e)), "each alternative has an arc the previous ones do not have");
                    seen.extend(x);
                }
            }
        }
    }
}
/// a query leaves no penalties behind: its answer and that of other queries are those of a new server
fn again(g: &Gr, first: (u32, u32), second: (u32, u32), full: bool) {
    let z = ZeroPotential();
    let q = |x: (u32, u32)| Query { from: x.0, to: x.1 };
    let mut s = Penalty::new(&g.owned(), z, z);
    if full {
        let r = s.alternatives(q(first));
        check(r.is_some() == base(g, first.0, first.1).is_some(), "an answer for connected nodes");
    } else {
        s.alternatives_iterative(q(first));
    }
    let x = s.alternatives_iterative(q(second));
    let mut f = Penalty::new(&g.owned(), z, z);
    let y = f.alternatives_iterative(q(second));
    check(x == y, "a query does not depend on the queries before");
}
fn arc() -> [(u32, u32); 2] {
    [[(0, 1), (1, 4)], [(3, 4), (1, 2)], [(1, 0), (4, 1)]][choice("arc", 3)]
}
/// ladder with six nodes, two symbolic weights from 0 to 40, queries 0 to 5 and 3 to 2 on one server
#[no_mangle]
pub extern "C" fn h_single() {
    reals();
    single(&ladder(40, &arc()), &[(0, 5), (3, 2)]);
}
/// ladder with six nodes, two symbolic weights from 0 to 40, queries 0 to 5 and 3 to 2 on one server
#[no_mangle]
pub extern "C" fn h_multi() {
    reals();
    multi(&ladder(40, &arc()), &[(0, 5), (3, 2)]);
}
/// ladder with six nodes, one symbolic weight from 0 to 40, two queries on one server compared to a new server
#[no_mangle]
pub extern "C" fn h_again() {
    reals();
    let e = [(0, 1), (1, 4), (4, 5)][choice("arc", 3)];
    again(&ladder(40, &[e]), (0, 5), [(0, 5), (3, 2)][choice("second", 2)], choice("full", 2) == 1);
}
/// complete graph with four nodes, direct arc of weight 30, two symbolic weights from 0 to 20
#[no_mangle]
pub extern "C" fn h_k4() {
    reals();
    let e = complete_edges(4);
    let mut g = Gr::new(4, &e, e.iter().map(|&(u, v)| if (u, v) == (0, 3) { 30 } else { 10 + (u * 3 + v) % 4 }).collect());
    for (i, x) in g.edges.clone().iter().enumerate() {
        if [(0, 1), (1, 3)].contains(x) {
            g.w[i] = sym_range("w", 0, 20);
        }
    }
    match choice("kind", 2) {
        0 => single(&g, &[(0, 3)]),
        _ => multi(&g, &[(0, 3)]),
    }
}
/// directed graphs: a one-way ring with chords, and two parts with one-way arcs in between (unreachable targets), one symbolic
/// weight from 0 to 40, all pairs
#[no_mangle]
pub extern "C" fn h_directed() {
    reals();
    let e = [vec![(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 0)], vec![(0, 1), (0, 2), (0, 3), (1, 0), (1, 3), (2, 3), (3, 2)]][choice("graph", 2)].clone();
    let mut g = Gr::new(4, &e, e.iter().map(|&(u, v)| 10 + (u * 3 + v * 5) % 7).collect());
    g.w[choice("arc", 3)] = sym_range("w", 0, 40);
    let q = (sym_node("a", 4), sym_node("b", 4));
    match choice("kind", 3) {
        0 => single(&g, &[q, (0, 3)]),
        1 => multi(&g, &[q, (0, 3)]),
        _ => again(&g, q, (0, 3), true),
    }
}
/// ladder with six nodes, weights of 1000 to 1600, one of them 40 times a symbolic factor from 0 to 63; two queries on one server
/// compared to a new server (penalties for rejoining)
#[no_mangle]
pub extern "C" fn h_again_rejoin() {
    reals();
    let mut g = ladder(0, &[]);
    for w in &mut g.w {
        *w *= 100;
    }
    let e = [(1, 4), (4, 3)][choice("arc", 2)];
    let i = g.edges.iter().position(|&x| x == e).unwrap();
    g.w[i] = 40 * sym_range("w", 0, 63);
    again(&g, [(0, 5), (3, 2)][choice("first", 2)], [(0, 5), (1, 3), (4, 2), (5, 0)][choice("second", 4)], choice("full", 2) == 1);
}
/// four nodes, all arcs of weight 0 but one from 0 to 3, all pairs
#[no_mangle]
pub extern "C" fn h_zero() {
    reals();
    let e = bidir(4, &[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]);
    let mut g = Gr::new(4, &e, vec![0; e.len()]);
    let k = choice("arc", 3);
    g.w[k] = sym_range("w", 0, 3);
    let q = (sym_node("a", 4), sym_node("b", 4));
    match choice("kind", 3) {
        0 => single(&g, &[q]),
        1 => multi(&g, &[q]),
        _ => again(&g, q, (1, 3), true),
    }
}
/// ladder with six nodes, weights of 1000 to 1600, one of them 40 times a symbolic factor from 0 to 63; penalties for rejoining
#[no_mangle]
pub extern "C" fn h_rejoin() {
    let mut g = ladder(0, &[]);
    for w in &mut g.w {
        *w *= 100;
    }
    let i = g.edges.iter().position(|&e| e == (1, 4)).unwrap();
    g.w[i] = 40 * sym_range("w", 0, 63);
    match choice("kind", 2) {
        0 => single(&g, &[(0, 5)]),
        _ => multi(&g, &[(0, 5)]),
    }
}
entries!(h_single, h_multi, h_again, h_k4, h_directed, h_rejoin, h_again_rejoin, h_zero);
