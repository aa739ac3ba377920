//! integer time-dependent travel time functions, graphs, and earliest arrival queries
use harness::tdx::*;
use harness::*;
use rust_road_router::algo::a_star::{BaselinePotential, ZeroPotential};
use rust_road_router::algo::ch_potentials::td_query::Server as TopoServer;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::dijkstra::Server as DijkServer;
use rust_road_router::algo::td_astar::TDRecyclingPotential;
use rust_road_router::algo::time_dependent_sampling::Server as TDSServer;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;

fn plf_parts(p: &Pts) -> (Vec<u32>, Vec<u32>) {
    let (mut x, mut y): (Vec<u32>, Vec<u32>) = p.iter().copied().unzip();
    if p.len() > 1 {
        x.push(DAY);
        y.push(p[0].1);
    }
    (x, y)
}
/// travel times symbolic (up to 20000 s, FIFO), 3 points, departures around the breakpoints, the period and beyond
#[no_mangle]
pub extern "C" fn h_eval_values() {
    let xs = [vec![0, 20 * M], vec![0, 20 * M, 50 * M], vec![0, 1, DAY - 1]][choice("xs", 3)].clone();
    let p: Pts = xs.iter().map(|&x| (x, sym_range("tt", 0, 20 * M))).collect();
    assume(fifo(&p));
    let (x, y) = plf_parts(&p);
    let f = PiecewiseLinearFunction::new(&x, &y);
    let ts = [0, 1, 7 * M + 3, 20 * M - 1, 20 * M, 20 * M + 1, 49 * M, DAY - 1, DAY, DAY + 30 * M + 1];
    let i = choice("t", ts.len());
    let t = ts[i];
    let r = f.eval(t);
    check(r as u64 == ev(&p, t as u64), "evaluation interpolates arrival times");
    let (mut lo, mut hi) = (true, true);
    for &(_, y) in &p {
        lo &= f.lower_bound() <= y;
        hi &= f.upper_bound() >= y;
    }
    check(lo & hi & (f.lower_bound() <= r) & (r <= f.upper_bound()), "global bounds");
    if i + 1 < ts.len() {
        check(ts[i + 1] + f.eval(ts[i + 1]) >= t + r, "FIFO");
    }
}
/// concrete functions, any two departures up to 2^31 ms: exact value, FIFO property, periodicity
#[no_mangle]
pub extern "C" fn h_eval_departures() {
    let s = shapes();
    let p = &s[choice("shape", s.len())];
    let (x, y) = plf_parts(p);
    let f = PiecewiseLinearFunction::new(&x, &y);
    let t = sym_range("t", 0, INFINITY);
    let r = f.eval(t);
    check(r as u64 == ev(p, t as u64), "evaluation interpolates arrival times");
    check(f.eval(t + DAY) == r, "functions are periodic");
    let t2 = sym_range("t2", 0, 2 * DAY);
    assume(t2 >= t);
    check(t2 as u64 + f.eval(t2) as u64 >= t as u64 + r as u64, "FIFO");
}
/// bounds over a range of departures (symbolic, up to one period long, within two periods)
#[no_mangle]
pub extern "C" fn h_range_bounds() {
    let s = shapes();
    let p = &s[choice("shape", s.len())];
    let (x, y) = plf_parts(p);
    let f = PiecewiseLinearFunction::new(&x, &y);
    let (a, b) = (sym_range("start", 0, DAY), sym_range("end", 0, 2 * DAY));
    assume(a < b);
    assume(b - a <= DAY);
    assume(b < 2 * DAY);
    let lo = f.lower_bound_in_range(a..b);
    let hi = f.upper_bound_in_range(a..b);
    let t = sym_range("t", 0, 2 * DAY);
    assume(a <= t);
    assume(t <= b);
    let r = f.eval(t);
    check((lo <= r) & (r <= hi), "bounds hold within the range");
    // and are attained: at the ends or at a breakpoint in between
    let (mut alo, mut ahi) = (false, false);
    let mut cand = |x: u64, v: u64| {
        let inr = (x >= a as u64) & (x <= b as u64);
        alo |= inr & (v == lo as u64);
        ahi |= inr & (v == hi as u64);
    };
    cand(a as u64, ev(p, a as u64));
    cand(b as u64, ev(p, b as u64));
    for &(x, v) in p {
        for k in 0..3 {
            cand(x as u64 + k * DAY as u64, v as u64);
        }
    }
    check(alo & ahi, "bounds are attained within the range");
}
/// average over a time window (wrapping or not), symbolic travel times; exact if the window starts and ends at breakpoints
#[no_mangle]
pub extern "C" fn h_average() {
    let k = choice("shape", 3);
    let xs = [vec![0], vec![0, 20 * M], vec![0, 20 * M, 50 * M]][k].clone();
    let p: Pts = xs.iter().map(|&x| (x, sym_range("tt", 0, 20 * M))).collect();
    assume(fifo(&p));
    let (x, y) = plf_parts(&p);
    let f = PiecewiseLinearFunction::new(&x, &y);
    let (a, b) = [(20 * M, 50 * M), (50 * M, 20 * M), (0, 20 * M), (7 * M, 9 * M), (80 * M, 3 * M), (60 * M, 0), (5, 5)][choice("window", 7)];
    let avg = f.average(WrappingRange::new(a..b));
    check((avg >= f.lower_bound()) & (avg <= f.upper_bound()), "the average is between the bounds");
    if k == 2 && (a, b) == (20 * M, 50 * M) {
        check(2 * avg as u64 / 2 == (p[1].1 as u64 + p[2].1 as u64) / 2, "average over one segment");
    }
    if k == 0 {
        check(avg == p[0].1, "average of a constant");
    }
}
/// graph construction from raw data (first or last point missing), permutation, line graph, constant bounds
#[no_mangle]
pub extern "C" fn h_graph() {
    let first = choice("first", 2) == 1;
    let last = choice("last", 2) == 1;
    let (v0, v1, v2) = (sym_range("tt", 1, 10 * M), sym_range("tt", 0, 10 * M), sym_range("tt", 0, 10 * M));
    let mut raw: Pts = vec![(10 * M, v0), (30 * M, v1), (70 * M, v2)];
    let mut full = raw.clone();
    full.insert(0, (0, v0)); // constant before the first point
    if first {
        raw[0].0 = 0;
        full = raw.clone();
    }
    if last {
        raw.push((DAY, v0));
    }
    assume(fifo(&full));
    let c = sym_range("c", 0, INFINITY);
    // edges 0->1 (raw), 0->2 (constant), 2->1 (constant), 1->0 (raw)
    let (mut fi, mut dep, mut tt) = (vec![0u32], vec![], vec![]);
    let fs: Vec<Pts> = vec![raw.clone(), vec![(0, c)], vec![(if choice("c-time", 2) == 1 { 5 } else { 0 }, 7)], raw.clone()];
    // order of edges by tail: 0->1, 0->2, 1->0, 2->1
    let fs: Vec<Pts> = vec![fs[0].clone(), fs[1].clone(), fs[3].clone(), fs[2].clone()];
    for p in &fs {
        for &(x, y) in p {
            dep.push(x);
            tt.push(y);
        }
        fi.push(dep.len() as u32);
    }
    let norm: Vec<Pts> = vec![full.clone(), vec![(0, c)], full.clone(), vec![(0, 7)]];
    let mut g = TDGraph::new(vec![0, 2, 3, 4], vec![1, 2, 0, 1], fi, dep, tt);
    check(g.num_nodes() == 3 && g.num_arcs() == 4 && g.degree(0) == 2 && g.num_constant() == 2, "sizes");
    let at = [0, 5 * M, 10 * M, 29 * M, 30 * M, 50 * M + 1, DAY - 1][choice("at", 7)];
    for e in 0..4 {
        check(g.travel_time_function(e as u32).eval(at) as u64 == ev(&norm[e], at as u64), "functions are kept when building the graph");
    }
    match choice("what", 4) {
        0 => {
            let order = NodeOrder::from_node_order(sym_perm("order", 3));
            let pg = TDGraph::permutated(&g, &order);
            let mut seen = vec![0; 4];
            for r in 0..3 {
                for (NodeIdT(h), EdgeIdT(e)) in LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&pg, r) {
                    let (a, b) = (order.node(r), order.node(h));
                    let orig = [(0, 1), (0, 2), (1, 0), (2, 1)].iter().position(|&x| x == (a, b));
                    check(orig.is_some(), "arcs of the permuted graph are arcs of the graph");
                    let o = orig.unwrap();
                    seen[o] += 1;
                    check(pg.travel_time_function(e).eval(at) as u64 == ev(&norm[o], at as u64), "permuting keeps functions");
                }
            }
            check(seen == vec![1, 1, 1, 1], "permuting keeps all arcs");
        }
        1 => {
            let turn = sym_range("turn", 0, 1000);
            let lg = g.line_graph(|a, b| if (a, b) == (0, 2) { None } else { Some(turn) });
            // turns: 0->2 (1->0) forbidden, 1->3 (0->2->1), 2->0, 2->1, 3->2
            check(lg.num_nodes() == 4 && lg.num_arcs() == 4, "one arc per allowed turn");
            let t = [(1u32, 3u32), (2, 0), (2, 1), (3, 2)];
            for (e, &(a, b)) in t.iter().enumerate() {
                check(lg.edge_indices(a, b).next().map(|x| x.0) == Some(e as u32), "turns");
                check(lg.travel_time_function(e as u32).eval(at) as u64 == ev(&norm[a as usize], at as u64) + turn as u64, "turn costs are added");
            }
        }
        2 => {
            g.to_constant_lower();
            for e in 0..4 {
                let r = g.travel_time_function(e as u32).eval(at);
                let mut lo = norm[e][0].1;
                for &(_, y) in &norm[e] {
                    lo = std::cmp::min(lo, y);
                }
                check(r == lo, "constant lower bounds");
            }
        }
        _ => {
            g.fix_zero_travel_times();
            for e in 0..4 {
                let r = g.travel_time_function(e as u32).eval(at) as u64;
                let o = ev(&norm[e], at as u64);
                check((r >= 1) & (r >= o) & (r <= o + 1), "only zero travel times change");
            }
        }
    }
}
fn live_of(k: usize, v: u32) -> InRangeOption<Weight> {
    if k == 0 {
        InRangeOption::NONE
    } else {
        InRangeOption::some(v)
    }
}
/// live travel times that fade into the prediction: value before, FIFO, bounded by live and prediction, eventually the prediction
#[no_mangle]
pub extern "C" fn h_live() {
    let s = shapes();
    let p = s[choice("shape", s.len())].clone();
    let g = TG::new(2, vec![(0, 1)], vec![p.clone()]);
    let live = sym_range("live", 0, 40 * M);
    let soon = [0, 10 * M, 19 * M + 1, DAY + 5][choice("soon", 4)];
    let has = choice("has-live", 2);
    let lg = LiveTDGraph::new(g.td(), soon, vec![live_of(has, live)]);
    let t = sym_range("t", 0, 2 * DAY);
    let r = lg.eval(0, t);
    let pred = ev(&p, t as u64) as u32;
    if has == 0 {
        check(r == pred, "prediction without live data");
        return;
    }
    if t < soon {
        check(r == live, "live travel time until the switch");
    } else {
        check((r >= std::cmp::min(pred, live)) & (r <= std::cmp::max(pred, live)), "between live and predicted");
        check((t - soon < 80 * M) | (r == pred), "the prediction finally applies");
    }
    let t2 = sym_range("t2", 0, 2 * DAY);
    assume(t2 >= t);
    check(t2 as u64 + lg.eval(0, t2) as u64 >= t as u64 + r as u64, "FIFO with live data");
}
/// pessimistic live data: never below the prediction, FIFO, blocked edges, upper bound from now on
#[no_mangle]
pub extern "C" fn h_pessimistic() {
    let s = shapes();
    let p = s[choice("shape", s.len())].clone();
    let g = TG::new(2, vec![(0, 1)], vec![p.clone()]);
    let live = sym_range("live", 0, INFINITY);
    let soon = [10 * M, 19 * M + 1, DAY + 5][choice("soon", 3)];
    let has = choice("has-live", 2);
    let l = if has == 1 { InRangeOption::some((live, soon)) } else { InRangeOption::NONE };
    let lg = PessimisticLiveTDGraph::new(g.td(), vec![l]);
    let t = sym_range("t", 0, 2 * DAY);
    let r = lg.eval(0, t);
    let pred = ev(&p, t as u64) as u32;
    check(r >= pred, "never faster than predicted");
    check(lg.live_ended_at(0) == if has == 1 { soon } else { 0 }, "end of the live data");
    if has == 0 || t >= soon {
        check(r == pred, "the prediction applies without or after the live data");
    } else {
        check(r <= std::cmp::max(live, pred), "at most the live travel time");
        check((r as u64 + t as u64) <= std::cmp::max(soon as u64 + ev(&p, soon as u64), t as u64 + pred as u64), "never later than waiting for the end of the live data");
        let sw = lg.live_starts_switching_at(0).unwrap();
        check((t > sw) | (sw == 0) | (r == std::cmp::max(live, pred)), "the live travel time applies before the switch");
    }
    match choice("second", 3) {
        0 => {
            let t2 = sym_range("t2", 0, 2 * DAY);
            assume(t2 >= t);
            check(t2 as u64 + lg.eval(0, t2) as u64 >= t as u64 + r as u64, "FIFO with live data");
        }
        1 => {
            let now = sym_range("now", 0, 2 * DAY);
            assume(now <= t);
            check(lg.upper_bound(0, now) >= r, "upper bound from now on");
        }
        _ => {
            // lower bound between now and a later time
            let now = sym_range("now", 0, DAY);
            let until = sym_range("until", 0, DAY);
            assume(now <= t);
            assume(t <= until);
            assume(now < until);
            check(lg.live_lower_bound(0, now, until) <= r, "lower bound until a time");
        }
    }
}
fn diamond(consts: usize) -> TG {
    // 0->1, 0->2, 1->2, 1->3, 2->3, 3->0: three time-dependent arcs, the others constant (symbolic or fixed)
    let s = shapes();
    let c = |sym: bool, v: u32| if sym { sym_range("c", 0, 30 * M) } else { v };
    let f = vec![
        s[1].clone(),
        vec![(0, c(consts > 0, 4 * M))],
        s[2].clone(),
        vec![(0, c(consts > 1, 9 * M))],
        s[3].clone(),
        vec![(0, c(consts > 2, 1))],
    ];
    TG::new(4, vec![(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 0)], f)
}
const DEPS: [u32; 6] = [0, 7 * M, 20 * M, 45 * M, DAY - 5, DAY + 30 * M];
/// time-dependent Dijkstra: symbolic constant arcs, departures from a list
#[no_mangle]
pub extern "C" fn h_dijkstra_consts() {
    let tg = diamond(2);
    let dep = DEPS[choice("dep", DEPS.len())];
    let (a, b) = [(0, 3), (1, 2), (0, 2), (2, 1), (0, 0)][choice("pair", 5)];
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    let mut s = DijkServer::<TDGraph, TDDijkstraOps>::new(tg.td());
    let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
    let d = r.distance();
    tg.check(d, a, b, dep, &at, "earliest arrival is exact");
    if let Some(d) = d {
        tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "path realises the travel time");
    }
}
/// time-dependent Dijkstra: concrete functions, any departure within two days, two queries
#[no_mangle]
pub extern "C" fn h_dijkstra_departures() {
    let tg = diamond(0);
    let dep = sym_range("dep", 0, 2 * DAY);
    let (a, b) = [(0, 3), (1, 2), (0, 2)][choice("pair", 3)];
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    let mut s = DijkServer::<TDGraph, TDDijkstraOps>::new(tg.td());
    for (a, b) in [(2, 1), (a, b)] {
        let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
        let d = r.distance();
        if b != 1 {
            tg.check(d, a, b, dep, &at, "earliest arrival is exact");
            if let Some(d) = d {
                tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "path realises the travel time");
            }
        }
    }
}
/// queries with live data (fading and pessimistic), live values symbolic
#[no_mangle]
pub extern "C" fn h_dijkstra_live() {
    let tg = diamond(0);
    let dep = [0, 7 * M, 45 * M][choice("dep", 3)];
    let (a, b) = [(0, 3), (0, 2)][choice("pair", 2)];
    let soon = dep + 9 * M;
    let lives: Vec<Option<u32>> = (0..6).map(|e| if e == 0 || e == 4 { Some(sym_range("live", 0, INFINITY)) } else { None }).collect();
    if choice("kind", 2) == 0 {
        assume(lives[0].unwrap() <= 60 * M);
        assume(lives[4].unwrap() <= 60 * M);
        let lg = LiveTDGraph::new(tg.td(), soon, lives.iter().map(|&l| InRangeOption::new(l)).collect());
        let lg2 = lg.clone();
        let at = |e: usize, t: u64| lg2.eval(e as u32, t as u32) as u64; // evaluation itself is the subject of other entries
        let mut s = DijkServer::<LiveTDGraph, LiveTDDijkstraOps>::new(lg);
        let d = s.td_query(TDQuery { from: a, to: b, departure: dep }).distance();
        tg.check(d, a, b, dep, &at, "earliest arrival with live data is exact");
    } else {
        let lg = PessimisticLiveTDGraph::new(tg.td(), lives.iter().map(|&l| InRangeOption::new(l.map(|l| (l, soon)))).collect());
        let lg2 = lg.clone();
        let at = |e: usize, t: u64| lg2.eval(e as u32, t as u32) as u64;
        let mut s = DijkServer::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps>::new(lg);
        let d = s.td_query(TDQuery { from: a, to: b, departure: dep }).distance();
        tg.check(d, a, b, dep, &at, "earliest arrival with live data is exact");
    }
}
fn topo<P: td_astar::TDPotential>(tg: &TG, pot: P, qs: &[(u32, u32, u32)]) {
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    let mut s: TopoServer<TDGraph, TDDijkstraOps, P, true, true, true> = TopoServer::new(&tg.td(), pot, TDDijkstraOps());
    for &(a, b, dep) in qs {
        let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
        let d = r.distance();
        tg.check(d, a, b, dep, &at, "topocore earliest arrival is exact");
        if let Some(d) = d {
            tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "topocore path realises the travel time");
        }
    }
}
/// topocore server (with component and chain skipping) with zero, exact lower bound and recycled potentials
#[no_mangle]
pub extern "C" fn h_topo() {
    let tg = diamond(2);
    let dep = [0, 7 * M, DAY - 5][choice("dep", 3)];
    let (a, b) = [(0, 3), (1, 2), (2, 1), (0, 2)][choice("pair", 4)];
    let qs = [(b, a, 5), (a, b, dep), (a, b, dep), (a, b, dep + 13 * M)];
    match choice("pot", 3) {
        0 => topo(&tg, ZeroPotential(), &qs[1..2]),
        1 => topo(&tg, BaselinePotential::new(&tg.lower().owned()), &qs[..2]),
        _ => topo(&tg, TDRecyclingPotential::new(BaselinePotential::new(&tg.lower().owned())), &qs[1..]),
    }
}
/// topocore server on a core with attached components and a chain
#[no_mangle]
pub extern "C" fn h_topo_attached() {
    let s = shapes();
    let e = vec![(0, 1), (0, 3), (1, 0), (1, 2), (2, 0), (2, 5), (3, 0), (3, 4), (4, 3), (5, 2)];
    let f = vec![s[1].clone(), s[3].clone(), vec![(0, 3)], vec![(0, sym_range("c", 0, 30 * M))], s[2].clone(), vec![(0, 8)], s[1].clone(), s[2].clone(), vec![(0, sym_range("c", 0, 30 * M))], s[3].clone()];
    let tg = TG::new(6, e, f);
    let dep = [0, 19 * M, DAY - 5][choice("dep", 3)];
    let (a, b) = [(4, 5), (5, 4), (4, 0), (3, 4), (1, 4), (2, 0)][choice("pair", 6)];
    if choice("pot", 2) == 0 {
        topo(&tg, ZeroPotential(), &[(a, b, dep)]);
    } else {
        topo(&tg, BaselinePotential::new(&tg.lower().owned()), &[(a, b, dep)]);
    }
}
/// sampling heuristic: finds a real path whenever there is one, never shorter than the earliest arrival
#[no_mangle]
pub extern "C" fn h_sampling() {
    let tg = diamond(choice("consts", 2));
    let dep = [0, 45 * M, DAY + 30 * M][choice("dep", 3)];
    let (a, b) = [(0, 3), (1, 2), (3, 3), (2, 1)][choice("pair", 4)];
    let cch = build_cch(&tg.g, vec![2, 0, 3, 1]);
    let mut s = TDSServer::new(tg.td(), &cch);
    let mut r = s.td_query(TDQuery { from: a, to: b, departure: dep });
    let d = r.distance();
    let at = |e: usize, t: u64| ev(&tg.f[e], t);
    check(d.is_some(), "a path is found");
    let d = d.unwrap();
    let mut ge = false;
    for p in tg.g.simple_paths(a, b) {
        ge |= tg.arrival(&p, dep as u64, &at) <= dep as u64 + d as u64;
    }
    check(ge, "not faster than the earliest arrival");
    tg.check_path(&r.node_path().unwrap(), d, a, b, dep, &at, "sampled path realises the travel time");
}
entries!(h_eval_values, h_eval_departures, h_range_bounds, h_average, h_graph, h_live, h_pessimistic, h_dijkstra_consts, h_dijkstra_departures, h_dijkstra_live, h_topo, h_topo_attached, h_sampling);
