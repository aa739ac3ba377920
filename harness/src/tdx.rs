//! Graphs with integer time-dependent travel time functions and their reference side.
use crate::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;

pub const DAY: u32 = 86_400_000;
pub const M: u32 = 1_000_000;
/// points of a periodic function: (departure, travel time), first at 0; empty breakpoints: a constant
pub type Pts = Vec<(u32, u32)>;
/// reference: value at any time, arrival times interpolated and rounded down
pub fn ev(p: &Pts, t: u64) -> u64 {
    if p.len() == 1 {
        return p[0].1 as u64;
    }
    let mut k = 0;
    while t >= (k + 1) * DAY as u64 {
        k += 1;
    }
    let x = t - k * DAY as u64;
    let mut i = 0;
    while i + 1 < p.len() && x >= p[i + 1].0 as u64 {
        i += 1;
    }
    let (x0, y0) = (p[i].0 as u64, p[i].1 as u64);
    if x == x0 {
        return y0;
    }
    let (x1, y1) = if i + 1 < p.len() { (p[i + 1].0 as u64, p[i + 1].1 as u64) } else { (DAY as u64, p[0].1 as u64) };
    x0 + y0 + (x - x0) * ((x1 + y1) - (x0 + y0)) / (x1 - x0) - x
}
pub fn fifo(p: &Pts) -> bool {
    let mut ok = true;
    for i in 0..p.len() {
        let n = if i + 1 < p.len() { p[i + 1] } else { (DAY, p[0].1) };
        ok &= p[i].0 as u64 + p[i].1 as u64 <= n.0 as u64 + n.1 as u64;
    }
    ok
}
pub fn shapes() -> Vec<Pts> {
    vec![
        vec![(0, 5 * M)],
        vec![(0, 10 * M), (20 * M, 3 * M), (50 * M, 30 * M)],
        vec![(0, 0), (1, 70), (40 * M, 40 * M + 7), (80 * M, 7)],
        vec![(0, 1000), (30 * M, 20 * M)],
    ]
}
/// graph with one function per edge
#[derive(Clone)]
pub struct TG {
    pub g: Gr,
    pub f: Vec<Pts>,
}
impl TG {
    pub fn new(n: usize, e: Vec<(u32, u32)>, f: Vec<Pts>) -> TG {
        let w = vec![1; e.len()];
        TG { g: Gr::new(n, &e, w), f }
    }
    pub fn td(&self) -> TDGraph {
        let mut fi = vec![0u32];
        let (mut dep, mut tt) = (Vec::new(), Vec::new());
        for p in &self.f {
            for &(x, y) in p {
                dep.push(x);
                tt.push(y);
            }
            fi.push(dep.len() as u32);
        }
        TDGraph::new(self.g.fo.clone(), self.g.head.clone(), fi, dep, tt)
    }
    /// lower bounds as a static graph
    pub fn lower(&self) -> Gr {
        let mut w = Vec::new();
        for p in &self.f {
            let mut m = p[0].1;
            for &(_, y) in p {
                m = std::cmp::min(m, y);
            }
            w.push(m);
        }
        self.g.with_weights(w)
    }
    pub fn arrival(&self, path: &[usize], dep: u64, at: &dyn Fn(usize, u64) -> u64) -> u64 {
        let mut t = dep;
        for &e in path {
            t += at(e, t);
        }
        t
    }
    /// `d` is the travel time of the earliest arrival (None: unreachable)
    pub fn check(&self, d: Option<u32>, a: u32, b: u32, dep: u32, at: &dyn Fn(usize, u64) -> u64, msg: &str) {
        let paths = self.g.simple_paths(a, b);
        match d {
            None => {
                // unreachable: only if every path exceeds the representable range
                reach("not-found");
                let mut ok = true;
                for p in &paths {
                    ok &= self.arrival(p, dep as u64, at) >= INFINITY as u64;
                }
                check(ok, msg);
            }
            Some(d) => {
                reach("found");
                let (mut le, mut eq) = (true, false);
                for p in &paths {
                    let l = self.arrival(p, dep as u64, at);
                    le &= dep as u64 + d as u64 <= l;
                    eq |= dep as u64 + d as u64 == l;
                }
                check(le & eq, msg);
            }
        }
    }
    pub fn check_path(&self, p: &[u32], d: u32, a: u32, b: u32, dep: u32, at: &dyn Fn(usize, u64) -> u64, msg: &str) {
        check(!p.is_empty() && p[0] == a && p[p.len() - 1] == b && p.len() <= 2 * self.g.n, msg);
        let mut t = dep as u64;
        for k in 1..p.len() {
            let mut best: Option<u64> = None;
            for e in self.g.fo[p[k - 1] as usize]..self.g.fo[p[k - 1] as usize + 1] {
                if self.g.head[e as usize] == p[k] {
                    let l = t + at(e as usize, t);
                    best = Some(match best {
                        None => l,
                        Some(b) => std::cmp::min(b, l),
                    });
                }
            }
            check(best.is_some(), msg);
            t = best.unwrap();
        }
        check(t == dep as u64 + d as u64, msg);
    }
}
