//! Concrete-topology / symbolic-weight graphs and the reference ("oracle") side of the harnesses.
use crate::*;
use rust_road_router::datastr::graph::*;

/// A directed multigraph; edges sorted by tail, so the index in `edges` is the edge id.
#[derive(Clone)]
pub struct Gr {
    pub n: usize,
    pub edges: Vec<(u32, u32)>,
    pub fo: Vec<u32>,
    pub head: Vec<u32>,
    pub w: Vec<u32>,
}
/// symbolic weight, 0..=INFINITY
pub fn sym_w(name: &str) -> u32 {
    sym_range(name, 0, INFINITY)
}
impl Gr {
    /// edges must be given sorted by tail
    pub fn new(n: usize, edges: &[(u32, u32)], w: Vec<u32>) -> Gr {
        assert_eq!(edges.len(), w.len());
        let mut fo = vec![0u32];
        let mut e = 0;
        for u in 0..n as u32 {
            while e < edges.len() && edges[e].0 == u {
                e += 1;
            }
            fo.push(e as u32);
        }
        assert_eq!(e, edges.len());
        Gr { n, edges: edges.to_vec(), fo, head: edges.iter().map(|e| e.1).collect(), w }
    }
    /// all weights symbolic in 0..=INFINITY
    pub fn sym(n: usize, edges: &[(u32, u32)]) -> Gr {
        let w = edges.iter().map(|_| sym_w("w")).collect();
        Gr::new(n, edges, w)
    }
    pub fn sym_range(n: usize, edges: &[(u32, u32)], lo: u32, hi: u32) -> Gr {
        let w = edges.iter().map(|_| sym_range("w", lo, hi)).collect();
        Gr::new(n, edges, w)
    }
    /// the complete digraph without loops
    pub fn complete(n: usize) -> Gr {
        Gr::sym(n, &complete_edges(n))
    }
    /// every subset of the given edges (case split), weights symbolic
    pub fn sym_topology(n: usize, edges: &[(u32, u32)]) -> Gr {
        let sel: Vec<(u32, u32)> = edges.iter().copied().filter(|_| choice("edge", 2) == 1).collect();
        Gr::sym(n, &sel)
    }
    pub fn owned(&self) -> OwnedGraph {
        OwnedGraph::new(self.fo.clone(), self.head.clone(), self.w.clone())
    }
    pub fn borrowed(&self) -> BorrowedGraph {
        FirstOutGraph::new(&self.fo[..], &self.head[..], &self.w[..])
    }
    pub fn with_weights(&self, w: Vec<u32>) -> Gr {
        Gr { w, ..self.clone() }
    }
    pub fn reversed(&self) -> Gr {
        let mut idx: Vec<usize> = (0..self.edges.len()).collect();
        idx.sort_by_key(|&i| self.edges[i].1);
        let e: Vec<(u32, u32)> = idx.iter().map(|&i| (self.edges[i].1, self.edges[i].0)).collect();
        Gr::new(self.n, &e, idx.iter().map(|&i| self.w[i]).collect())
    }
    /// all simple paths (as edge lists)
    pub fn simple_paths(&self, s: u32, t: u32) -> Vec<Vec<usize>> {
        fn rec(g: &Gr, u: u32, t: u32, seen: &mut Vec<bool>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if u == t {
                out.push(cur.clone());
                return;
            }
            seen[u as usize] = true;
            for e in g.fo[u as usize] as usize..g.fo[u as usize + 1] as usize {
                let v = g.head[e];
                if !seen[v as usize] {
                    cur.push(e);
                    rec(g, v, t, seen, cur, out);
                    cur.pop();
                }
            }
            seen[u as usize] = false;
        }
        let mut out = Vec::new();
        rec(self, s, t, &mut vec![false; self.n], &mut Vec::new(), &mut out);
        out
    }
    pub fn path_sum(&self, p: &[usize]) -> u64 {
        let mut s = 0u64;
        for &e in p {
            s += self.w[e] as u64;
        }
        s
    }
    /// is `d` (INFINITY = unreachable) the exact shortest distance?  Linear certificate over all simple paths.
    pub fn is_dist(&self, d: u32, s: u32, t: u32) -> bool {
        let mut le = d <= INFINITY;
        let mut eq = d == INFINITY;
        for p in self.simple_paths(s, t) {
            let l = self.path_sum(&p);
            le &= d as u64 <= l;
            eq |= d as u64 == l;
        }
        le & eq
    }
    /// branch-free shortest distance by Bellman-Ford (an expression, for further computations)
    pub fn dists_from(&self, s: u32) -> Vec<u32> {
        let mut d = vec![INFINITY; self.n];
        d[s as usize] = 0;
        for _ in 1..self.n {
            for (i, &(u, v)) in self.edges.iter().enumerate() {
                let l = d[u as usize] + self.w[i];
                d[v as usize] = std::cmp::min(d[v as usize], l);
            }
        }
        d
    }
    pub fn check_dist(&self, r: Option<u32>, s: u32, t: u32, msg: &str) {
        match r {
            Some(d) => {
                reach("found");
                check(self.is_dist(d, s, t) & (d < INFINITY), msg)
            }
            None => {
                reach("not-found");
                check(self.is_dist(INFINITY, s, t), msg)
            }
        }
    }
    /// `p` is an s-t walk along edges of the graph whose length (cheapest parallel edges) is `d`
    pub fn check_node_path(&self, p: &[u32], d: u32, s: u32, t: u32, msg: &str) {
        check(!p.is_empty() && p[0] == s && p[p.len() - 1] == t, msg);
        check(p.len() <= 2 * self.n + 2, msg);
        let mut sum = 0u64;
        for k in 1..p.len() {
            let (u, v) = (p[k - 1], p[k]);
            check((u as usize) < self.n && (v as usize) < self.n, msg);
            let mut best: Option<u32> = None;
            for e in self.fo[u as usize]..self.fo[u as usize + 1] {
                if self.head[e as usize] == v {
                    let w = self.w[e as usize];
                    best = Some(match best {
                        Some(b) => std::cmp::min(b, w),
                        None => w,
                    });
                }
            }
            match best {
                Some(w) => sum += w as u64,
                None => check(false, msg),
            }
        }
        check(sum == d as u64, msg);
    }
    /// `p` is a list of edge ids forming an s-t walk of length `d`
    pub fn check_edge_path(&self, p: &[u32], d: u32, s: u32, t: u32, msg: &str) {
        check(p.len() <= 2 * self.n + 2, msg);
        let mut cur = s;
        let mut sum = 0u64;
        for &e in p {
            check((e as usize) < self.edges.len(), msg);
            check(self.edges[e as usize].0 == cur, msg);
            cur = self.edges[e as usize].1;
            sum += self.w[e as usize] as u64;
        }
        check(cur == t, msg);
        check(sum == d as u64, msg);
    }
}
pub fn complete_edges(n: usize) -> Vec<(u32, u32)> {
    let mut e = Vec::new();
    for i in 0..n as u32 {
        for j in 0..n as u32 {
            if i != j {
                e.push((i, j));
            }
        }
    }
    e
}
/// both directions of the given undirected edges, sorted by tail
pub fn bidir(n: usize, und: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut e = Vec::new();
    for u in 0..n as u32 {
        for v in 0..n as u32 {
            if und.contains(&(u, v)) || und.contains(&(v, u)) {
                e.push((u, v));
            }
        }
    }
    e
}
/// every permutation of 0..n (case split)
pub fn sym_perm(name: &str, n: usize) -> Vec<u32> {
    let mut left: Vec<u32> = (0..n as u32).collect();
    let mut out = Vec::new();
    while !left.is_empty() {
        let i = choice(name, left.len());
        out.push(left.remove(i));
    }
    out
}
pub fn sym_node(name: &str, n: usize) -> u32 {
    choice(name, n) as u32
}
