//! goal directed search with consistent potentials
use harness::*;
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server as BiServer;
use rust_road_router::algo::dijkstra::query::dijkstra::Server;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

/// an arbitrary potential that is consistent for one target
#[derive(Clone)]
struct TablePot {
    pot: Vec<u32>,
    target: u32,
}
impl Potential for TablePot {
    fn init(&mut self, target: NodeId) {
        check(target == self.target, "potential initialized with the target of the query");
    }
    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        Some(self.pot[node as usize])
    }
}
fn sym_pot(g: &Gr, t: u32) -> TablePot {
    let pot: Vec<u32> = (0..g.n).map(|v| if v as u32 == t { 0 } else { sym_range("pot", 0, INFINITY - 1) }).collect();
    for (i, &(u, v)) in g.edges.iter().enumerate() {
        assume(pot[u as usize] as u64 <= g.w[i] as u64 + pot[v as usize] as u64);
    }
    TablePot { pot, target: t }
}
fn uni<P: Potential>(s: &mut Server<OwnedGraph, DefaultOpsWithLinkPath, P>, g: &Gr, a: u32, b: u32) {
    let mut r = s.query(Query { from: a, to: b });
    let d = r.distance();
    g.check_dist(d, a, b, "A* distance is exact");
    if let Some(d) = d {
        let p = r.node_path().unwrap();
        g.check_node_path(&p, d, a, b, "A* path is a shortest path");
    }
}
fn bi<P: BiDirPotential, D: BidirChooseDir>(s: &mut BiServer<OwnedGraph, OwnedGraph, P, D>, g: &Gr, a: u32, b: u32) {
    let mut r = s.query(Query { from: a, to: b });
    let d = r.distance();
    g.check_dist(d, a, b, "bidirectional A* distance is exact");
    if let Some(d) = d {
        let p = r.node_path().unwrap();
        g.check_node_path(&p, d, a, b, "bidirectional A* path is a shortest path");
    }
}
#[no_mangle]
pub extern "C" fn h_astar_any() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0)]);
    let p = sym_pot(&g, 3);
    uni(&mut Server::with_potential(g.owned(), p), &g, 0, 3);
}
#[no_mangle]
pub extern "C" fn h_astar_exact() {
    // perfect potentials, two queries, all pairs
    let g = Gr::complete(3);
    let mut s = Server::with_potential(g.owned(), BaselinePotential::new(&g.owned()));
    for _ in 0..2 {
        uni(&mut s, &g, sym_node("a", 3), sym_node("b", 3));
    }
}
#[no_mangle]
pub extern "C" fn h_astar_recycling() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2), (2, 1), (2, 0)]);
    let mut s = Server::with_potential(g.owned(), RecyclingPotential::new(BaselinePotential::new(&g.owned())));
    for _ in 0..3 {
        uni(&mut s, &g, sym_node("a", 3), sym_node("b", 3));
    }
}
#[no_mangle]
pub extern "C" fn h_astar_permuted() {
    // the search runs on a permuted graph, the potential on the original one
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2), (2, 1), (2, 0)]);
    let order = NodeOrder::from_node_order(sym_perm("order", 3));
    let pg = OwnedGraph::permutated(&g.owned(), &order);
    let pot = PotentialForPermutated { potential: BaselinePotential::new(&g.owned()), order: order.clone() };
    let mut s = Server::<_, DefaultOps, _>::with_potential(pg, pot);
    let (a, b) = (0, sym_node("b", 3));
    let d = s.query(Query { from: order.rank(a), to: order.rank(b) }).distance();
    g.check_dist(d, a, b, "A* on the permuted graph");
    // and bidirectional
    let pg = OwnedGraph::permutated(&g.owned(), &order);
    let pot = PotentialForPermutated {
        potential: SymmetricBiDirPotential::<_, _>::new(BaselinePotential::new(&g.owned()), BaselinePotential::new(&g.reversed().owned())),
        order: order.clone(),
    };
    let mut s = BiServer::<_, _, _, ChooseMinKeyDir>::new_with_potentials(pg, pot);
    let d = s.query(Query { from: order.rank(a), to: order.rank(b) }).distance();
    g.check_dist(d, a, b, "bidirectional A* on the permuted graph");
}
fn sym_any<const IP: bool, D: BidirChooseDir>(g: &Gr, a: u32, b: u32) {
    let fw = sym_pot(g, b);
    let bw = sym_pot(&g.reversed(), a);
    let pot = SymmetricBiDirPotential::<_, _, IP>::new(fw, bw);
    bi::<_, D>(&mut BiServer::new_with_potentials(g.owned(), pot), g, a, b);
}
fn small_edges() -> Vec<(u32, u32)> {
    vec![(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0)]
}
fn small() -> Gr {
    Gr::sym(4, &small_edges())
}
#[no_mangle]
pub extern "C" fn h_sym_any() {
    sym_any::<true, ChooseMinKeyDir>(&small(), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_sym_any_alt() {
    sym_any::<true, AlternatingDirs>(&small(), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_sym_any_noip() {
    sym_any::<false, AlternatingDirs>(&small(), 0, 3);
}
#[no_mangle]
pub extern "C" fn h_sym_exact() {
    let g = small();
    let (a, b) = (sym_node("a", 4), sym_node("b", 4));
    let pot = SymmetricBiDirPotential::<_, _, true>::new(BaselinePotential::new(&g.owned()), BaselinePotential::new(&g.reversed().owned()));
    bi::<_, ChooseMinKeyDir>(&mut BiServer::new_with_potentials(g.owned(), pot), &g, a, b);
}
#[no_mangle]
pub extern "C" fn h_avg_exact() {
    let g = Gr::sym_range(4, &small_edges(), 0, 1 << 20);
    let (a, b) = (0, 3);
    let pot = AveragePotential::<_, _, true>::new(BaselinePotential::new(&g.owned()), BaselinePotential::new(&g.reversed().owned()));
    bi::<_, ChooseMinKeyDir>(&mut BiServer::new_with_potentials(g.owned(), pot), &g, a, b);
}
#[no_mangle]
pub extern "C" fn h_avg_lb() {
    avg_lb(&[(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]);
}
#[no_mangle]
pub extern "C" fn h_t_avg_lb() {
    avg_lb(&small_edges());
}
fn avg_lb(e: &[(u32, u32)]) {
    // potentials are exact distances for a metric of lower bounds
    let g = Gr::sym_range(4, e, 0, 1 << 20);
    let lb = Gr::sym_range(4, e, 0, 1 << 20);
    for i in 0..g.w.len() {
        assume(lb.w[i] <= g.w[i]);
    }
    let pot = AveragePotential::<_, _, false>::new(BaselinePotential::new(&lb.owned()), BaselinePotential::new(&lb.reversed().owned()));
    bi::<_, ChooseMinKeyDir>(&mut BiServer::new_with_potentials(g.owned(), pot), &g, 0, 3);
}
fn check_alt(g: &Gr, data: &ALTPotData) {
    // both potentials are consistent and zero at the target
    let t = sym_node("t", g.n);
    let mut fw = data.forward_potential();
    fw.init(t);
    let mut bw = data.backward_potential();
    bw.init(t);
    let f: Vec<Option<u32>> = (0..g.n as u32).map(|v| fw.potential(v)).collect();
    let b: Vec<Option<u32>> = (0..g.n as u32).map(|v| bw.potential(v)).collect();
    check(f[t as usize] == Some(0) && b[t as usize] == Some(0), "landmark potential is zero at the target");
    for v in 0..g.n as u32 {
        lower(g, f[v as usize], v, t);
        lower(g, b[v as usize], t, v);
    }
    for (i, &(u, v)) in g.edges.iter().enumerate() {
        if let (Some(x), Some(y)) = (f[u as usize], f[v as usize]) {
            check(x as u64 <= g.w[i] as u64 + y as u64, "landmark potential is consistent");
        }
        if let (Some(x), Some(y)) = (b[v as usize], b[u as usize]) {
            check(x as u64 <= g.w[i] as u64 + y as u64, "landmark potential is consistent");
        }
    }
}
fn lower(g: &Gr, p: Option<u32>, s: u32, t: u32) {
    let lim = p.unwrap_or(INFINITY);
    let mut ok = true;
    for q in g.simple_paths(s, t) {
        ok &= lim as u64 <= g.path_sum(&q);
    }
    check(ok, "landmark potential is a lower bound");
}
#[no_mangle]
pub extern "C" fn h_alt() {
    let g = Gr::complete(3);
    let l = if choice("num", 2) == 0 { vec![sym_node("l", 3)] } else { vec![0, 1] };
    check_alt(&g, &ALTPotData::new(&g.owned(), l));
}
#[no_mangle]
pub extern "C" fn h_alt_query() {
    let g = Gr::sym_range(4, &small_edges(), 0, 1 << 24);
    let data = ALTPotData::new(&g.owned(), vec![3, 1]);
    let (a, b) = (0, 2);
    uni(&mut Server::with_potential(g.owned(), data.forward_potential()), &g, a, b);
    let pot = SymmetricBiDirPotential::<_, _>::new(data.forward_potential(), data.backward_potential());
    bi::<_, ChooseMinKeyDir>(&mut BiServer::new_with_potentials(g.owned(), pot), &g, a, b);
}
#[no_mangle]
pub extern "C" fn h_alt_farthest() {
    let g = Gr::sym_range(3, &complete_edges(3), 1, 1 << 24);
    let l = ALTPotData::farthest_landmarks(&g.owned(), 2, 0);
    check(l.len() == 2 && l.iter().all(|&x| x < 3), "requested number of landmarks");
    let d = g.dists_from(0);
    // the first landmark is a node farthest from the initial node
    let mut ok = true;
    for v in 0..3 {
        ok &= d[v] <= d[l[0] as usize];
    }
    check(ok, "first landmark is farthest from the start");
    check(l[1] != l[0], "landmarks are spread");
    check_alt(&g, &ALTPotData::new(&g.owned(), l));
}
#[no_mangle]
pub extern "C" fn h_alt_avoid() {
    let g = Gr::sym_range(3, &complete_edges(3), 1, 1 << 24);
    let mut rng = StdRng::seed_from_u64(42);
    check_alt(&g, &ALTPotData::new_with_avoid(&g.owned(), 2, &mut rng));
}
entries!(
    h_astar_any, h_astar_exact, h_astar_recycling, h_astar_permuted, h_sym_any, h_sym_any_alt, h_sym_any_noip, h_sym_exact, h_avg_exact, h_avg_lb, h_t_avg_lb, h_alt, h_alt_query,
    h_alt_farthest, h_alt_avoid
);
