//! CATCHUp: time-dependent customizable contraction hierarchies
use harness::*;
use rust_road_router::algo::catchup::{self, partial_profiles, profiles, profiles_naive, Server};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;

const M: u32 = 1_000_000;
type Pts = Vec<(u32, u32)>;
const TOL: f64 = 0.001;

/// reference: value in seconds at a time in seconds (non-negative, below three days)
fn ev(p: &Pts, t: f64) -> f64 {
    if p.len() == 1 {
        return p[0].1 as f64 / 1000.0;
    }
    let mut x = t;
    while x >= 86400.0 {
        x -= 86400.0;
    }
    let at = |i: usize| if i < p.len() { (p[i].0 as f64 / 1000.0, p[i].1 as f64 / 1000.0) } else { (86400.0, p[0].1 as f64 / 1000.0) };
    let mut i = 0;
    while i + 1 < p.len() && x >= at(i + 1).0 {
        i += 1;
    }
    let ((x0, y0), (x1, y1)) = (at(i), at(i + 1));
    y0 + (x - x0) * ((y1 - y0) / (x1 - x0))
}
struct FG {
    g: Gr,
    f: Vec<Pts>,
}
impl FG {
    fn new(n: usize, e: &[(u32, u32)], f: Vec<Pts>) -> FG {
        FG { g: Gr::new(n, e, vec![1; e.len()]), f }
    }
    fn td(&self) -> TDGraph {
        let mut fi = vec![0u32];
        let (mut dep, mut tt) = (Vec::new(), Vec::new());
        for p in &self.f {
            for &(x, y) in p {
                dep.push(x);
                tt.push(y);
            }
            fi.push(dep.len() as u32);
        }
        TDGraph::new(self.g.fo.clone(), self.g.head.clone(), fi, dep, tt)
    }
    fn check(&self, d: Option<FlWeight>, a: u32, b: u32, dep: f64, msg: &str) {
        let paths = self.g.simple_paths(a, b);
        match d {
            None => {
                reach("not-found");
                check(paths.is_empty(), msg);
            }
            Some(d) => {
                reach("found");
                let arr = dep + f64::from(d);
                let (mut le, mut eq) = (true, false);
                for p in &paths {
                    let mut t = dep;
                    for &e in p {
                        t += ev(&self.f[e], t);
                    }
                    le &= arr <= t + TOL;
                    eq |= t - TOL <= arr;
                }
                check(le, msg);
                check(eq, msg);
            }
        }
    }
    fn check_path(&self, p: &[(u32, Timestamp)], d: FlWeight, a: u32, b: u32, dep: f64, msg: &str) {
        check(!p.is_empty() && p[0].0 == a && p[p.len() - 1].0 == b && p.len() <= 2 * self.g.n, msg);
        let mut t = dep;
        let near = |x: f64, y: f64| (x <= y + TOL) & (y <= x + TOL);
        check(near(f64::from(p[0].1), t), msg);
        for k in 1..p.len() {
            let mut ok = false;
            let next = f64::from(p[k].1);
            for e in self.g.fo[p[k - 1].0 as usize]..self.g.fo[p[k - 1].0 as usize + 1] {
                if self.g.head[e as usize] == p[k].0 {
                    ok |= near(t + ev(&self.f[e as usize], t), next);
                }
            }
            check(ok, msg);
            t = next;
        }
        check(near(t, dep + f64::from(d)), msg);
    }
}
fn pool() -> Vec<Pts> {
    vec![
        vec![(0, 5 * M)],
        vec![(0, 10 * M), (20 * M, 3 * M), (50 * M, 30 * M)],
        vec![(0, 4 * M), (30 * M, 4 * M), (36 * M, 9 * M), (45 * M, 2 * M)],
        vec![(0, 1000), (30 * M, 20 * M)],
    ]
}
fn departure(name: &str) -> f64 {
    sym_range(name, 0, 86_400_000 - 1) as f64 / 1000.0
}
/// triangle 0-1-2 with four arcs, functions picked from a pool, symbolic departure in milliseconds
#[no_mangle]
pub extern "C" fn h_triangle() {
    reals();
    let p = pool();
    let k = [choice("f0", 4), choice("f1", 4), choice("f2", 4)];
    let fg = FG::new(3, &[(0, 1), (0, 2), (1, 2)], k.iter().map(|&i| p[i].clone()).collect());
    let order = [vec![0, 1, 2], vec![1, 0, 2]][choice("order", 2)].clone();
    let cch = build_cch(&fg.g, order);
    let td = fg.td();
    let c = catchup::customize(&cch, &td);
    let mut s = Server::new(&cch, &c);
    let dep = departure("dep");
    let mut r = s.td_query(TDQuery { from: 0, to: 2, departure: Timestamp::new(dep) });
    fg.check(r.distance(), 0, 2, dep, "CATCHUp arrival is the earliest arrival");
    if let Some(d) = r.distance() {
        fg.check_path(&r.node_path().unwrap(), d, 0, 2, dep, "CATCHUp path");
    }
}
/// four nodes, five arcs, every order class that creates shortcuts
fn network(which: usize) -> (FG, Vec<u32>) {
    let p = pool();
    let f = |v: &[usize]| v.iter().map(|&i| p[i].clone()).collect::<Vec<_>>();
    match which {
        // diamond 0 -> {1, 2} -> 3 with a direct arc
        0 => (FG::new(4, &[(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)], f(&[1, 0, 1, 0, 1])), vec![1, 2, 0, 3]),
        // the same, the middle nodes are the top of the order
        1 => (FG::new(4, &[(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)], f(&[3, 1, 3, 0, 2])), vec![0, 3, 1, 2]),
        // directed cycle with a chord
        2 => (FG::new(4, &[(0, 1), (1, 2), (1, 3), (2, 3), (3, 0)], f(&[1, 3, 1, 2, 3])), vec![1, 3, 0, 2]),
        // path in both directions
        3 => (FG::new(4, &[(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)], f(&[1, 0, 3, 1, 2, 3])), vec![1, 2, 0, 3]),
        // two disconnected parts
        _ => (FG::new(4, &[(0, 1), (1, 0), (2, 3)], f(&[1, 0, 3])), vec![0, 1, 2, 3]),
    }
}
const QUERIES: [[(u32, u32); 2]; 5] = [[(0, 3), (1, 3)], [(0, 3), (3, 0)], [(0, 3), (2, 1)], [(0, 3), (3, 1)], [(0, 3), (0, 1)]];
/// two queries in a row on one server, five networks with four nodes, departure of the second one symbolic
#[no_mangle]
pub extern "C" fn h_network() {
    reals();
    let net = choice("net", 5);
    let (fg, order) = network(net);
    let q = QUERIES[net];
    let q = if choice("swap", 2) == 1 { [q[1], q[0]] } else { q };
    let cch = build_cch(&fg.g, order);
    let td = fg.td();
    let c = catchup::customize(&cch, &td);
    let mut s = Server::new(&cch, &c);
    let first = Timestamp::new([0.0, 25_000.0, 86_399.0][choice("first", 3)]);
    let _ = s.td_query(TDQuery { from: q[1].0, to: q[1].1, departure: first }).distance();
    let dep = departure("dep");
    let mut r = s.td_query(TDQuery { from: q[0].0, to: q[0].1, departure: Timestamp::new(dep) });
    fg.check(r.distance(), q[0].0, q[0].1, dep, "CATCHUp arrival is the earliest arrival");
    if let Some(d) = r.distance() {
        fg.check_path(&r.node_path().unwrap(), d, q[0].0, q[0].1, dep, "CATCHUp path");
    }
}
/// evaluate a list of interpolation points that covers the time
fn ev_points(p: &[TTFPoint], t: f64, msg: &str) -> f64 {
    check(!p.is_empty(), msg);
    if p.len() == 1 {
        return f64::from(p[0].val);
    }
    check(f64::from(p[0].at) <= t + TOL && t <= f64::from(p[p.len() - 1].at) + TOL, msg);
    let mut i = 0;
    while i + 2 < p.len() && t >= f64::from(p[i + 1].at) {
        i += 1;
    }
    let (x0, y0, x1, y1) = (f64::from(p[i].at), f64::from(p[i].val), f64::from(p[i + 1].at), f64::from(p[i + 1].val));
    y0 + (t - x0) * ((y1 - y0) / (x1 - x0))
}
fn check_profile(fg: &FG, pts: &[TTFPoint], paths: &[(Timestamp, Vec<u32>)], a: u32, b: u32, dep: f64) {
    if pts.is_empty() {
        check(fg.g.simple_paths(a, b).is_empty() && paths.is_empty(), "no profile only without a path");
        return;
    }
    let v = ev_points(pts, dep, "profile covers the departure");
    fg.check(Some(FlWeight::new(v)), a, b, dep, "profile gives the earliest arrival");
    // the path valid at the departure has that travel time
    check(!paths.is_empty() && f64::from(paths[0].0) <= dep + TOL, "path list covers the departure");
    let mut i = 0;
    while i + 1 < paths.len() && dep >= f64::from(paths[i + 1].0) {
        i += 1;
    }
    let (mut t, mut at) = (dep, a);
    for &e in &paths[i].1 {
        check(fg.g.fo[at as usize] <= e && e < fg.g.fo[at as usize + 1], "profile path is connected");
        at = fg.g.head[e as usize];
        t += ev(&fg.f[e as usize], t);
    }
    check(at == b, "profile path ends at the target");
    check((t <= dep + v + TOL) & (dep + v <= t + TOL), "profile path has the profile travel time");
}
/// profile query, five networks with four nodes, symbolic departure
#[no_mangle]
pub extern "C" fn h_profile() {
    reals();
    let net = choice("net", 5);
    let (fg, order) = network(net);
    let (a, b) = QUERIES[net][choice("q", 2)];
    let cch = build_cch(&fg.g, order);
    let td = fg.td();
    let c = catchup::customize(&cch, &td);
    let mut s = profiles::Server::new(&cch, &c);
    if choice("again", 2) == 1 {
        let _ = s.distance(QUERIES[net][0].0, QUERIES[net][0].1);
    }
    let (_, pts, paths) = s.distance(a, b);
    check_profile(&fg, &pts, &paths, a, b, departure("dep"));
}
/// naive profile query
#[no_mangle]
pub extern "C" fn h_profile_naive() {
    reals();
    let net = choice("net", 5);
    let (fg, order) = network(net);
    let (a, b) = QUERIES[net][choice("q", 2)];
    let cch = build_cch(&fg.g, order);
    let td = fg.td();
    let c = catchup::customize(&cch, &td);
    let mut s = profiles_naive::Server::new(&cch, &c);
    if choice("again", 2) == 1 {
        let _ = s.distance(QUERIES[net][0].0, QUERIES[net][0].1);
    }
    let dep = departure("dep");
    match s.distance(a, b) {
        None => fg.check(None, a, b, dep, "no profile only without a path"),
        Some(pts) => {
            let v = ev_points(&pts, dep, "profile covers the departure");
            fg.check(Some(FlWeight::new(v)), a, b, dep, "profile gives the earliest arrival");
        }
    }
}
/// profile query over a part of the day: one fixed network, query and range
#[no_mangle]
pub extern "C" fn h_profile_partial() {
    reals();
    let (fg, order) = network(3);
    let (a, b) = QUERIES[3][0];
    let cch = build_cch(&fg.g, order);
    let td = fg.td();
    let c = catchup::customize(&cch, &td);
    let mut s = partial_profiles::Server::new(&cch, &c);
    let (_, pts, paths) = s.distance(a, b, Timestamp::new(0.0), Timestamp::new(40_000.0));
    check_profile(&fg, &pts, &paths, a, b, 1000.0);
}
entries!(h_triangle, h_network, h_profile, h_profile_naive, h_profile_partial);
