//! time-dependent potentials: bounds per time range and per interval
use harness::tdx::*;
use harness::*;
use rust_road_router::algo::ch_potentials::td_query::Server as TopoServer;
use rust_road_router::algo::customizable_contraction_hierarchy::customization::ftd_for_pot;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::metric_merging;
use rust_road_router::algo::td_astar::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent as fl;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::util::in_range_option::InRangeOption;

fn pool() -> Vec<Pts> {
    vec![
        vec![(0, 5 * M)],
        vec![(0, 10 * M), (20 * M, 3 * M), (50 * M, 20 * M)],
        vec![(0, 4 * M), (30 * M, 4 * M), (36 * M, 9 * M), (45 * M, 2 * M)],
        vec![(0, 1000), (30 * M, 20 * M)],
    ]
}
fn network(which: usize) -> (TG, Vec<u32>) {
    let p = pool();
    let f = |v: &[usize]| v.iter().map(|&i| p[i].clone()).collect::<Vec<_>>();
    match which {
        // diamond 0 -> {1, 2} -> 3 with a direct arc
        0 => (TG::new(4, vec![(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)], f(&[1, 0, 1, 2, 1])), vec![1, 2, 0, 3]),
        // path in both directions
        1 => (TG::new(4, vec![(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)], f(&[1, 0, 3, 1, 2, 3])), vec![1, 2, 0, 3]),
        // directed cycle with a chord
        2 => (TG::new(4, vec![(0, 1), (1, 2), (1, 3), (2, 3), (3, 0)], f(&[1, 3, 1, 2, 3])), vec![1, 3, 0, 2]),
        // the target cannot be reached
        _ => (TG::new(4, vec![(0, 1), (1, 0), (2, 3), (3, 0)], f(&[1, 0, 3, 1])), vec![0, 1, 2, 3]),
    }
}
fn r(s: u32, e: u32) -> TRange<Timestamp> {
    TRange { start: s * M, end: e * M }
}
fn ranges_of(k: usize) -> Vec<TRange<Timestamp>> {
    [vec![], vec![r(0, 30), r(20, 50), r(40, 80)], vec![r(10, 40), r(10, 60), r(30, 40), r(50, 86)]][k].clone()
}
fn float_td(tg: &TG) -> fl::TDGraph {
    let mut fi = vec![0u32];
    let (mut dep, mut tt) = (Vec::new(), Vec::new());
    for p in &tg.f {
        for &(x, y) in p {
            dep.push(x);
            tt.push(y);
        }
        fi.push(dep.len() as u32);
    }
    fl::TDGraph::new(tg.g.fo.clone(), tg.g.head.clone(), fi, dep, tt)
}
/// earliest arrival from a at t (None: unreachable)
fn earliest(tg: &TG, a: u32, b: u32, t: u64, at: &dyn Fn(usize, u64) -> u64) -> Option<u64> {
    let mut best: Option<u64> = None;
    for p in tg.g.simple_paths(a, b) {
        let l = tg.arrival(&p, t, at);
        best = Some(match best {
            None => l,
            Some(b) => std::cmp::min(b, l),
        });
    }
    best
}
/// the potential of a node at its earliest arrival is a lower bound of the remaining travel time (up to `tol` ms)
fn admissible<P: TDPotential>(tg: &TG, pot: &mut P, q: (u32, u32, u32), nodes: &[u32], timed: bool, tol: u64, at: &dyn Fn(usize, u64) -> u64) {
    let (a, b, dep) = q;
    pot.init(a, b, dep);
    for &v in nodes {
        let t = match earliest(tg, a, v, dep as u64, at) {
            None => continue,
            Some(t) => t,
        };
        let h = pot.potential(v, if timed { Some(t as u32) } else { None });
        match (h, earliest(tg, v, b, t, at)) {
            (None, rest) => {
                reach("no-potential");
                check(rest.is_none(), "no potential only if the target cannot be reached");
            }
            (Some(h), Some(rest)) => {
                reach("potential");
                check(h as u64 + t <= rest + tol, "the potential is a lower bound of the remaining travel time");
                if v == b {
                    check(h == 0, "the potential of the target is zero");
                }
            }
            (Some(_), None) => (),
        }
    }
}
const PAIRS: [[(u32, u32); 2]; 4] = [[(0, 3), (1, 3)], [(0, 3), (3, 0)], [(0, 3), (3, 1)], [(0, 3), (2, 1)]];
/// metrics for time ranges: any departure within the day, two nodes in any order
#[no_mangle]
pub extern "C" fn h_multi_pot() {
    let net = choice("net", 4);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][choice("pair", 2)];
    let cch = build_cch(&tg.g, order);
    let (k, reduce) = [(0, None), (1, None), (2, None), (2, Some(2))][choice("ranges", 4)];
    let mut pot = MultiMetric::new(MultiMetricPreprocessed::new(&cch, ranges_of(k), &tg.td(), reduce));
    let dep = sym_range("dep", 0, DAY - 1);
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    pot.init(b, a, 7 * M);
    pot.potential(0, Some(8 * M));
    let nodes = [[0, 1, 3], [3, 2, 0]][choice("nodes", 2)];
    admissible(&tg, &mut pot, (a, b, dep), &nodes, choice("timed", 2) == 1, 0, &at);
}
/// departures on the second day
#[no_mangle]
pub extern "C" fn h_multi_second_day() {
    let net = choice("net", 4);
    let (tg, order) = if net == 3 {
        let p = vec![(0, 20 * M)];
        (TG::new(4, vec![(0, 1), (1, 2), (2, 3)], vec![p.clone(), pool()[3].clone(), p]), vec![1, 2, 0, 3])
    } else {
        network(net)
    };
    let (a, b) = PAIRS[net][if net == 3 { 0 } else { choice("pair", 2) }];
    let cch = build_cch(&tg.g, order);
    let mut pot = MultiMetric::new(MultiMetricPreprocessed::new(&cch, ranges_of(2), &tg.td(), None));
    let dep = sym_range("dep", DAY, DAY + 50 * M);
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    admissible(&tg, &mut pot, (a, b, dep), &[0, 1, 3], true, 0, &at);
}
fn topo<P: TDPotential>(tg: &TG, pot: P, qs: &[(u32, u32, u32)]) {
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    let mut s: TopoServer<TDGraph, TDDijkstraOps, P, true, true, true> = TopoServer::new(&tg.td(), pot, TDDijkstraOps());
    for &(a, b, dep) in qs {
        let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
        let d = r.distance();
        tg.check(d, a, b, dep, &at, "earliest arrival with the potential is exact");
        if let Some(d) = d {
            tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "path realises the travel time");
        }
    }
}
/// queries with the multi metric potential: any departure within the day, recycled or not, permuted ids
#[no_mangle]
pub extern "C" fn h_multi_query() {
    let net = choice("net", 4);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][0];
    let cch = build_cch(&tg.g, order);
    let pot = MultiMetric::new(MultiMetricPreprocessed::new(&cch, ranges_of(1 + choice("ranges", 2)), &tg.td(), None));
    let dep = sym_range("dep", 0, DAY - 1);
    if choice("recycle", 2) == 0 {
        topo(&tg, pot, &[(a, b, dep)]);
    } else {
        topo(&tg, TDRecyclingPotential::new(pot), &[(a, b, 7 * M), (b, a, 7 * M), (a, b, dep)]);
    }
}
/// potentials with live data (simple: upper bounds only, or an additional metric for the next hour), live values symbolic
#[no_mangle]
pub extern "C" fn h_multi_live() {
    let net = choice("net", 3);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][choice("pair", 2)];
    let cch = build_cch(&tg.g, order);
    let dep = [0, 22 * M, 60 * M][choice("dep", 3)];
    let soon = [3_000_000, 9 * M][choice("soon", 2)];
    let live: Vec<_> = (0..tg.f.len())
        .map(|e| if e == 0 || e == 3 { InRangeOption::some((sym_range("live", 0, 20 * M), dep + soon)) } else { InRangeOption::NONE })
        .collect();
    let lg = PessimisticLiveTDGraph::new(tg.td(), live);
    let mut mmp = MultiMetricPreprocessed::new(&cch, ranges_of(2), &tg.td(), [None, Some(2)][choice("reduce", 2)]);
    if choice("kind", 2) == 0 {
        mmp.customize_simple_live(&lg, dep);
    } else {
        mmp.reserve_space_for_additional_metrics(1);
        mmp.customize_live(&lg, dep);
    }
    let mut pot = MultiMetric::new(mmp);
    let at = |e: usize, t: u64| lg.eval(e as u32, t as u32) as u64;
    admissible(&tg, &mut pot, (a, b, dep), &[3, 0, 1], true, 0, &at);
}
/// merging up to three metrics with two weights (one symbolic, 0 to 7) each, any task order: a partition of the requested size, closest pair first
#[no_mangle]
pub extern "C" fn h_merge() {
    rayon::verif_set_mode(3);
    let k = 1 + choice("metrics", 3);
    let m = 2;
    let target = 1 + choice("target", 3);
    let w: Vec<Vec<u32>> = [3, 0, 5][..k].iter().map(|&x| vec![sym_range("w", 0, 7), x]).collect();
    let refs: Vec<&[u32]> = w.iter().map(|x| &x[..]).collect();
    let groups = metric_merging::merge(&refs, target);
    let mut seen = vec![0; k];
    for g in &groups {
        check(!g.is_empty(), "no empty group");
        for &i in g {
            seen[i] += 1;
        }
    }
    check(seen.iter().all(|&s| s == 1), "every metric is in exactly one group");
    check(groups.len() == std::cmp::min(k, target), "number of groups");
    if k > 1 && groups.len() == k - 1 {
        let d = |i: usize, j: usize| (0..m).map(|e| w[i][e].abs_diff(w[j][e]) as u64).map(|x| x * x).sum::<u64>();
        let g = groups.iter().find(|g| g.len() == 2).unwrap();
        let dist = d(g[0], g[1]);
        for i in 0..k {
            for j in i + 1..k {
                check(dist <= d(i, j), "the closest pair is merged");
            }
        }
    }
}
/// interval potentials from a CATCHUp customization: any departure within the day, nodes in any order
#[no_mangle]
pub extern "C" fn h_interval_pot() {
    let net = choice("net", 4);
    let (tg, order) = network(net);
    let k = choice("pair", 2);
    let (a, b) = PAIRS[net][k];
    let cch = build_cch(&tg.g, order);
    let data = ftd_for_pot::customize::<4>(&cch, &float_td(&tg));
    let mut pot = IntervalMinPotential::new(&cch, data);
    let dep = sym_range("dep", 0, DAY - 1);
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    pot.init(b, a, 7 * M);
    pot.potential(0, Some(8 * M));
    let nodes = [[0, 1, 3], [3, 2, 0]][k];
    admissible(&tg, &mut pot, (a, b, dep), &nodes, true, tg.g.n as u64, &at);
}
/// the same, potentials without a time, departures on the second day
#[no_mangle]
pub extern "C" fn h_interval_untimed() {
    let net = choice("net", 4);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][0];
    let cch = build_cch(&tg.g, order);
    let data = ftd_for_pot::customize::<3>(&cch, &float_td(&tg));
    let mut pot = IntervalMinPotential::new(&cch, data);
    let dep = sym_range("dep", DAY, 2 * DAY);
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    admissible(&tg, &mut pot, (a, b, dep), &[0, 2, 1], false, tg.g.n as u64, &at);
}
/// queries with the interval potential
#[no_mangle]
pub extern "C" fn h_interval_query() {
    let net = choice("net", 4);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][0];
    let cch = build_cch(&tg.g, order);
    let data = ftd_for_pot::customize::<4>(&cch, &float_td(&tg));
    let pot = IntervalMinPotential::new(&cch, data);
    let dep = sym_range("dep", 0, DAY - 1);
    let mut s: TopoServer<TDGraph, TDDijkstraOps, _, true, true, true> = TopoServer::new(&tg.td(), pot, TDDijkstraOps());
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
    match (r.distance(), earliest(&tg, a, b, dep as u64, &at)) {
        (Some(d), Some(e)) => {
            let t = d as u64 + dep as u64;
            check((e <= t) & (t <= e + tg.g.n as u64), "the query finds the earliest arrival up to rounding");
            tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "path realises the travel time");
        }
        (d, e) => check(d.is_none() && e.is_none(), "a path is found if there is one"),
    }
}
/// interval potentials with live data, live values symbolic
#[no_mangle]
pub extern "C" fn h_interval_live() {
    let net = choice("net", 3);
    let (tg, order) = network(net);
    let (a, b) = PAIRS[net][choice("pair", 2)];
    let cch = build_cch(&tg.g, order);
    let dep = [0, 22 * M, 60 * M][choice("dep", 3)];
    let soon = [3_000_000, 9 * M][choice("soon", 2)];
    let live: Vec<_> = (0..tg.f.len())
        .map(|e| if e == 0 || e == 3 { InRangeOption::some((sym_range("live", 0, 20 * M), dep + soon)) } else { InRangeOption::NONE })
        .collect();
    let lg = PessimisticLiveTDGraph::new(tg.td(), live);
    let data = ftd_for_pot::customize::<4>(&cch, &float_td(&tg));
    let at = |e: usize, t: u64| lg.eval(e as u32, t as u32) as u64;
    let q = (a, b, dep);
    if choice("kind", 2) == 0 {
        admissible(&tg, &mut IntervalMinPotential::new_for_simple_live(&cch, data, &lg, dep), q, &[3, 0, 1], true, tg.g.n as u64, &at);
    } else {
        admissible(&tg, &mut IntervalMinPotential::new_for_live(&cch, data, &lg, dep), q, &[3, 0, 1], true, tg.g.n as u64, &at);
    }
}
entries!(h_multi_pot, h_multi_second_day, h_multi_query, h_multi_live, h_merge, h_interval_pot, h_interval_untimed, h_interval_query, h_interval_live);
