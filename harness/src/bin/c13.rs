//! k nearest neighbors
use harness::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::nearest_neighbor::*;
use rust_road_router::algo::dijkstra::query::nearest_neighbor::*;
/// the k closest reachable targets with their exact distances, each at most once
fn check_knn(r: &[(u32, u32)], g: &Gr, s: u32, targets: &[u32], k: usize) {
    check(r.len() <= k, "at most as many neighbors as requested");
    let mut found = vec![false; g.n];
    for &(x, t) in r {
        let t = concretize(t);
        check(targets.contains(&t), "neighbor is a target");
        check(!found[t as usize], "neighbor is reported once");
        found[t as usize] = true;
        check(x < INFINITY, "neighbor is reachable");
        check(g.is_dist(x, s, t), "distance to the neighbor is exact");
    }
    for &t in targets {
        if !found[t as usize] {
            let mut ok = true;
            for p in g.simple_paths(s, t) {
                let l = g.path_sum(&p);
                if r.len() < k {
                    ok &= l >= INFINITY as u64;
                } else {
                    for &(x, _) in r {
                        ok &= l >= x as u64;
                    }
                }
            }
            check(ok, "no other target is closer");
        }
    }
}
/// algorithm, queries (targets, source, k) in a row
fn knn(g: &Gr, order: Vec<u32>, algo: usize, queries: &[(&[u32], u32, usize)]) {
    if algo == 3 {
        let mut nn = DijkstraNearestNeighbor::new(g.owned());
        for &(ts, s, k) in queries {
            check_knn(&nn.select_targets(ts).query(s, k), g, s, ts, k);
        }
        return;
    }
    let cch = build_cch(g, order);
    let data = CCHPotData::new(&cch, &g.owned());
    match algo {
        0 => {
            let mut nn = SeparatorBasedNearestNeighbor::new(&cch, data.backward_potential());
            for &(ts, s, k) in queries {
                check_knn(&nn.select_targets(ts).query(s, k), g, s, ts, k);
            }
        }
        1 => {
            let mut nn = LazyRphastNearestNeighbor::new(data.backward_potential());
            for &(ts, s, k) in queries {
                check_knn(&nn.query(s, ts, k), g, s, ts, k);
            }
        }
        _ => {
            let mut nn = BCCHNearestNeighbor::new(data.customized());
            for &(ts, s, k) in queries {
                check_knn(&nn.select_targets(ts).query(s, k), g, s, ts, k);
            }
        }
    }
}
fn k3(algo: usize) {
    let g = Gr::complete(3);
    let ts: &[u32] = [&[0, 1, 2][..], &[2, 1], &[1, 0]][choice("targets", 3)];
    let k = 1 + choice("k", 3);
    knn(&g, sym_perm("order", 3), algo, &[(ts, 0, k)]);
}
/// complete digraph on three nodes, all orders, k = 1..3, per algorithm
#[no_mangle]
pub extern "C" fn h_sep_k3() {
    k3(0)
}
#[no_mangle]
pub extern "C" fn h_lazy_k3() {
    k3(1)
}
#[no_mangle]
pub extern "C" fn h_bucket_k3() {
    k3(2)
}
#[no_mangle]
pub extern "C" fn h_dijkstra_k3() {
    k3(3)
}
/// bucket search, four nodes, all orders, k = 1 and 2
#[no_mangle]
pub extern "C" fn h_bucket4() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]);
    knn(&g, sym_perm("order", 4), 2, &[(&[3, 1, 2], 0, 1 + choice("k", 2))]);
}
fn reuse(algo: usize) {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3)]);
    let o = [[0, 1, 2, 3], [3, 1, 0, 2]][choice("order", 2)].to_vec();
    knn(&g, o, algo, &[(&[2, 3, 1], 0, 2), (&[3, 0], 1, 2), (&[1, 2], 0, 1), (&[2], 3, 1)]);
}
/// consecutive target sets and queries on one object, per algorithm
#[no_mangle]
pub extern "C" fn h_sep_reuse() {
    reuse(0)
}
#[no_mangle]
pub extern "C" fn h_lazy_reuse() {
    reuse(1)
}
#[no_mangle]
pub extern "C" fn h_bucket_reuse() {
    reuse(2)
}
#[no_mangle]
pub extern "C" fn h_dijkstra_reuse() {
    reuse(3)
}
/// several queries for one target selection
#[no_mangle]
pub extern "C" fn h_same_selection() {
    let g = Gr::sym(4, &[(0, 1), (1, 2), (2, 3), (3, 0)]);
    let o = [[0, 1, 2, 3], [3, 1, 0, 2]][choice("order", 2)].to_vec();
    let cch = build_cch(&g, o);
    let data = CCHPotData::new(&cch, &g.owned());
    let ts = [3, 1, 2];
    match choice("algorithm", 3) {
        0 => {
            let mut nn = SeparatorBasedNearestNeighbor::new(&cch, data.backward_potential());
            let mut sel = nn.select_targets(&ts);
            for s in [0, 2] {
                check_knn(&sel.query(s, 2), &g, s, &ts, 2);
            }
        }
        1 => {
            let mut nn = BCCHNearestNeighbor::new(data.customized());
            let mut sel = nn.select_targets(&ts);
            for s in [0, 2] {
                check_knn(&sel.query(s, 2), &g, s, &ts, 2);
            }
        }
        _ => {
            let mut nn = DijkstraNearestNeighbor::new(g.owned());
            let mut sel = nn.select_targets(&ts);
            for s in [0, 2] {
                check_knn(&sel.query(s, 2), &g, s, &ts, 2);
            }
        }
    }
}
/// bidirected path 0-1-...-n-1; the edges listed in `sy` have symbolic weights, the others weight 10
fn path_graph(n: usize, sy: &[u32]) -> Gr {
    let und: Vec<(u32, u32)> = (0..n as u32 - 1).map(|i| (i, i + 1)).collect();
    let e = bidir(n, &und);
    let w: Vec<u32> = sy.iter().map(|_| sym_range("w", 0, INFINITY)).collect();
    let ws = e
        .iter()
        .map(|&(u, v)| match sy.iter().position(|&x| x == std::cmp::min(u, v)) {
            Some(i) => w[i],
            None => 10,
        })
        .collect();
    Gr::new(n, &e, ws)
}
/// nested dissection order of a path
fn dissect(lo: u32, hi: u32, out: &mut Vec<u32>) {
    if lo >= hi {
        return;
    }
    let m = (lo + hi) / 2;
    dissect(lo, m, out);
    dissect(m + 1, hi, out);
    out.push(m);
}
/// more targets than fit in one cell: the separator tree is traversed (path of 19 nodes, two symbolic weights, all sources in turn)
#[no_mangle]
pub extern "C" fn h_sep_cells() {
    let n = 19;
    let g = path_graph(n, &[5, 8]);
    let mut o = Vec::new();
    dissect(0, n as u32, &mut o);
    let ts: Vec<u32> = (0..n as u32).filter(|i| i % 6 != 1).collect();
    let s = [1, 4, 7, 9, 13][choice("source", 5)];
    knn(&g, o, 0, &[(&ts, s, 1 + choice("k", 3))]);
}
/// all four algorithms on a larger path with symbolic weights
#[no_mangle]
pub extern "C" fn h_path_all() {
    let n = 12;
    let g = path_graph(n, &[3, 6]);
    let mut o = Vec::new();
    dissect(0, n as u32, &mut o);
    knn(&g, o, choice("algorithm", 4), &[(&[0, 2, 4, 5, 7, 11, 9, 10, 8], [1, 6][choice("source", 2)], 2)]);
}
/// several components
#[no_mangle]
pub extern "C" fn h_components() {
    let n = 20;
    let mut und: Vec<(u32, u32)> = (0..9).map(|i| (i, i + 1)).collect();
    und.extend((10..19).map(|i| (i, i + 1)));
    let e = bidir(n, &und);
    let w = sym_w("w");
    let g = Gr::new(n, &e, e.iter().map(|&(u, v)| if std::cmp::min(u, v) == 13 { w } else { 3 }).collect());
    let mut o = Vec::new();
    dissect(0, 10, &mut o);
    dissect(10, 20, &mut o);
    let ts: Vec<u32> = (0..20).filter(|i| i % 5 != 3).collect();
    knn(&g, o, choice("algorithm", 4), &[(&ts, [12, 3][choice("source", 2)], 3)]);
}
#[no_mangle]
pub extern "C" fn h_t_sep_cells() {
    let n = 19;
    let g = path_graph(n, &[2, 5, 8, 12]);
    let mut o = Vec::new();
    dissect(0, n as u32, &mut o);
    let ts: Vec<u32> = (0..n as u32).filter(|i| i % 6 != 1).collect();
    knn(&g, o, 0, &[(&ts, sym_node("source", n), 1 + choice("k", 4))]);
}
#[no_mangle]
pub extern "C" fn h_t_k4() {
    let g = Gr::complete(4);
    knn(&g, [[0, 1, 2, 3], [2, 0, 3, 1]][choice("order", 2)].to_vec(), choice("algorithm", 4), &[(&[1, 2, 3], 0, 1 + choice("k", 3))]);
}
entries!(
    h_sep_k3, h_lazy_k3, h_bucket_k3, h_dijkstra_k3, h_bucket4, h_sep_reuse, h_lazy_reuse, h_bucket_reuse, h_dijkstra_reuse, h_same_selection, h_sep_cells, h_path_all, h_components, h_t_sep_cells,
    h_t_k4
);
