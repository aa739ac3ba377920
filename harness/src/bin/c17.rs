//! graph views and transformations
use harness::*;
use rust_road_router::datastr::graph::first_out_graph::degrees_to_first_out;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
type A = (u32, u32, u32);
/// same arcs (tail, head, weight) with the same multiplicities
fn same_arcs(a: &[A], b: &[A]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for x in a {
        let (mut ca, mut cb) = (0u32, 0u32);
        for (c, l) in [(&mut ca, a), (&mut cb, b)] {
            for y in l {
                if x.0 == y.0 && x.1 == y.1 {
                    *c += (x.2 == y.2) as u32;
                }
            }
        }
        ok &= ca == cb;
    }
    ok
}
fn arcs<G: LinkIterable<Link>>(g: &G) -> Vec<A> {
    let mut r = Vec::new();
    for u in 0..g.num_nodes() as u32 {
        for l in LinkIterable::<Link>::link_iter(g, u) {
            check((l.node as usize) < g.num_nodes(), "head is a node");
            r.push((u, concretize(l.node), l.weight));
        }
    }
    r
}
fn gr_arcs(g: &Gr) -> Vec<A> {
    g.edges.iter().zip(&g.w).map(|(&(u, v), &w)| (u, v, w)).collect()
}
/// all multigraphs (loops and parallel arcs included) of n nodes with up to `deg` arcs per node
fn multigraph(n: usize, deg: usize) -> Gr {
    let mut e = Vec::new();
    for u in 0..n as u32 {
        for _ in 0..choice("deg", deg + 1) {
            e.push((u, sym_node("head", n)));
        }
    }
    Gr::sym(n, &e)
}
fn check_views(g: &Gr) {
    let o = g.owned();
    check(o.num_nodes() == g.n && o.num_arcs() == g.edges.len(), "size");
    check(same_arcs(&arcs(&o), &gr_arcs(g)), "arcs as given");
    let uw = UnweightedOwnedGraph::new(g.fo.clone(), g.head.clone());
    check(uw.num_nodes() == g.n && uw.num_arcs() == g.edges.len(), "size of the unweighted graph");
    for u in 0..g.n as u32 {
        let r = g.fo[u as usize]..g.fo[u as usize + 1];
        check(o.degree(u) == r.len() && uw.degree(u) == r.len(), "degree");
        check(o.neighbor_edge_indices(u) == r && uw.neighbor_edge_indices(u) == r, "edge ids of a node");
        let mut k = r.start;
        for ((((NodeIdT(v), EdgeIdT(e)), (NodeIdT(v2), w2, EdgeIdT(e2))), NodeIdT(v3)), (NodeIdT(v4), EdgeIdT(e4))) in
            LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&o, u)
                .zip(LinkIterable::<(NodeIdT, u32, EdgeIdT)>::link_iter(&o, u))
                .zip(LinkIterable::<NodeIdT>::link_iter(&uw, u))
                .zip(LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&uw, u))
        {
            check(e == k && e2 == k && e4 == k, "edge ids in order");
            let h = g.head[k as usize];
            check(v == h && v2 == h && v3 == h && v4 == h, "heads of all views");
            check(w2 == g.w[k as usize], "weight");
            let l = EdgeRandomAccessGraph::<Link>::link(&o, k);
            check((l.node == h) & (l.weight == g.w[k as usize]), "link by id");
            check(EdgeRandomAccessGraph::<NodeIdT>::link(&uw, k).0 == h, "link by id");
            k += 1;
        }
        check(k == r.end, "all links are iterated");
        for v in 0..g.n as u32 {
            let want: Vec<u32> = r.clone().filter(|&e| g.head[e as usize] == v).collect();
            let got: Vec<u32> = o.edge_indices(u, v).map(|e| e.0).collect();
            let got2: Vec<u32> = uw.edge_indices(u, v).map(|e| e.0).collect();
            check(got == want && got2 == want, "ids of the arcs between two nodes");
        }
    }
}
/// all multigraphs of three nodes with up to two arcs per node: iteration, ids and lookup
#[no_mangle]
pub extern "C" fn h_views() {
    check_views(&multigraph(3, 2))
}
fn check_reversed(g: &Gr) {
    let o = g.owned();
    let rev: Vec<A> = gr_arcs(g).iter().map(|&(u, v, w)| (v, u, w)).collect();
    let r = OwnedGraph::reversed(&o);
    check(r.num_nodes() == g.n && r.num_arcs() == g.edges.len(), "size of the reversed graph");
    check(same_arcs(&arcs(&r), &rev), "reversed arcs");
    let rr = OwnedGraph::reversed(&r);
    check(same_arcs(&arcs(&rr), &gr_arcs(g)), "reversing twice");
    let uw = UnweightedOwnedGraph::new(g.fo.clone(), g.head.clone());
    let ur = UnweightedOwnedGraph::reversed(&uw);
    check(ur.num_nodes() == g.n && ur.num_arcs() == g.edges.len() && ur.first_out() == r.first_out(), "size of the reversed unweighted graph");
    let mut l = Vec::new();
    for u in 0..g.n as u32 {
        for NodeIdT(v) in LinkIterable::<NodeIdT>::link_iter(&ur, u) {
            l.push((u, v, 0));
        }
    }
    check(same_arcs(&l, &rev.iter().map(|&(u, v, _)| (u, v, 0)).collect::<Vec<_>>()), "reversed unweighted arcs");
    let ri = ReversedGraphWithEdgeIds::reversed(&o);
    check(ri.num_nodes() == g.n && ri.num_arcs() == g.edges.len(), "size of the reversed graph with ids");
    let mut seen = vec![false; g.edges.len()];
    for u in 0..g.n as u32 {
        check(ri.degree(u) == g.edges.iter().filter(|e| e.1 == u).count(), "degree in the reversed graph");
        for (NodeIdT(v), Reversed(EdgeIdT(e))) in ri.link_iter(u) {
            check((e as usize) < seen.len() && !seen[e as usize], "edge id once");
            seen[e as usize] = true;
            check(g.edges[e as usize] == (v, u), "edge id belongs to the arc");
        }
    }
    check(seen.iter().all(|&x| x), "all edge ids");
}
/// all multigraphs of three nodes with up to two arcs per node: reversed graphs of all three kinds
#[no_mangle]
pub extern "C" fn h_reversed() {
    check_reversed(&multigraph(3, 2))
}
/// graphs without arcs and without nodes
#[no_mangle]
pub extern "C" fn h_empty() {
    let g = Gr::new(choice("n", 3), &[], vec![]);
    check_views(&g);
    check_reversed(&g);
    let (u, d) = g.owned().ch_split(&NodeOrder::identity(g.n));
    check(u.num_nodes() == g.n && d.num_nodes() == g.n && u.num_arcs() == 0 && d.num_arcs() == 0, "split of a graph without arcs");
    check(OwnedGraph::permutated(&g.owned(), &NodeOrder::identity(g.n)).num_nodes() == g.n, "permuted graph without arcs");
    check(line_graph(&g.owned(), |_, _| Some(0)).num_nodes() == 0, "line graph without arcs");
    unify_parallel_edges(&mut g.owned());
}
/// view without infinite arcs: exactly the finite arcs are iterated; its reverse has exactly these arcs; symbolic weights
#[no_mangle]
pub extern "C" fn h_infinity_filter() {
    let g = Gr::sym(3, &[(0, 1), (0, 1), (1, 2), (2, 2), (2, 0)]);
    let f = InfinityFilteringGraph(g.owned());
    let fin: Vec<A> = gr_arcs(&g).into_iter().filter(|a| a.2 < INFINITY).collect();
    check(f.num_nodes() == 3, "nodes");
    check(same_arcs(&arcs(&f), &fin), "finite arcs");
    let mut n = 0;
    for u in 0..3 {
        for NodeIdT(v) in LinkIterable::<NodeIdT>::link_iter(&f, u) {
            check(fin[n].0 == u && fin[n].1 == v, "finite arcs without weight");
            n += 1;
        }
    }
    check(n == fin.len(), "all finite arcs without weight");
    let r = OwnedGraph::reversed(&f);
    check(same_arcs(&arcs(&r), &fin.iter().map(|&(u, v, w)| (v, u, w)).collect::<Vec<_>>()), "reversed finite arcs");
    let r = UnweightedOwnedGraph::reversed(&f);
    check(r.num_arcs() == fin.len(), "reversed unweighted finite arcs");
}
/// all multigraphs of three nodes with up to two arcs for two of them, all orders: permuted and split graphs
#[no_mangle]
pub extern "C" fn h_permutated() {
    let mut e = Vec::new();
    for u in [0, 2] {
        for _ in 0..choice("deg", 3) {
            e.push((u, sym_node("head", 3)));
        }
    }
    let g = Gr::sym(3, &e);
    permuted(&g, sym_perm("order", 3));
}
/// complete digraph of four nodes plus parallel arcs, all orders
#[no_mangle]
pub extern "C" fn h_permutated4() {
    let mut e = complete_edges(4);
    e.push((3, 0));
    e.push((3, 3));
    permuted(&Gr::sym(4, &e), sym_perm("order", 4));
}
fn permuted(g: &Gr, ord: Vec<u32>) {
    let o = g.owned();
    let order = NodeOrder::from_node_order(ord.clone());
    let n = g.n as u32;
    check(order.len() == g.n, "length");
    for r in 0..n {
        check(order.node(r) == ord[r as usize] && order.rank(ord[r as usize]) == r, "order and ranks are inverse");
    }
    let back = NodeOrder::from_ranks(order.ranks().to_vec());
    check(back.order() == &ord[..] && order.order() == &ord[..], "ranks describe the order");
    for u in 0..n {
        check(NodeOrder::identity(g.n).rank(u) == u && NodeOrder::identity(g.n).node(u) == u, "identity");
    }
    let want: Vec<A> = gr_arcs(g).iter().map(|&(u, v, w)| (order.rank(u), order.rank(v), w)).collect();
    let p = OwnedGraph::permutated(&o, &order);
    check(p.num_nodes() == g.n, "nodes of the permuted graph");
    check(same_arcs(&arcs(&p), &want), "permuted arcs");
    for u in 0..n {
        let h: Vec<u32> = LinkIterable::<NodeIdT>::link_iter(&p, u).map(|x| x.0).collect();
        check(h.windows(2).all(|x| x[0] <= x[1]), "arcs of a node sorted by head");
    }
    let f = OwnedGraph::permutated_filtered(&o, &order, Box::new(|u, v| u < v));
    check(same_arcs(&arcs(&f), &want.iter().copied().filter(|a| a.0 < a.1).collect::<Vec<_>>()), "permuted arcs filtered by permuted ids");
    let (up, down) = o.ch_split(&order);
    check(up.num_nodes() == g.n && down.num_nodes() == g.n, "nodes of the split");
    let wu: Vec<A> = gr_arcs(g).into_iter().filter(|a| order.rank(a.0) < order.rank(a.1)).collect();
    check(same_arcs(&arcs(&up), &wu), "upward arcs");
    let wd: Vec<A> = gr_arcs(g).into_iter().filter(|a| order.rank(a.0) > order.rank(a.1)).map(|(u, v, w)| (v, u, w)).collect();
    // loops may go to either side
    check(same_arcs(&arcs(&down).into_iter().filter(|a| a.0 != a.1).collect::<Vec<_>>(), &wd), "downward arcs, reversed");
}
/// parallel arcs get the smallest weight; other arcs keep theirs; all multigraphs of two nodes, up to three arcs each
#[no_mangle]
pub extern "C" fn h_unify() {
    let g = multigraph(2, 3);
    let mut o = g.owned();
    unify_parallel_edges(&mut o);
    check(o.first_out() == &g.fo[..] && o.head() == &g.head[..], "topology unchanged");
    for (i, e) in g.edges.iter().enumerate() {
        let (mut le, mut eq) = (true, false);
        for (j, f) in g.edges.iter().enumerate() {
            if e == f {
                le &= o.weight()[i] <= g.w[j];
                eq |= o.weight()[i] == g.w[j];
            }
        }
        check(le & eq, "smallest weight of the parallel arcs");
    }
}
/// line graph: one node per arc, one arc per permitted turn, weight of the arc plus turn costs; all permissions symbolic
#[no_mangle]
pub extern "C" fn h_line_graph() {
    let e = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 2)];
    let g = Gr::sym_range(3, &e, 0, 1000);
    let mut want: Vec<A> = Vec::new();
    let mut cost = vec![vec![None; 5]; 5];
    for i in 0..5 {
        for j in 0..5 {
            if e[i].1 == e[j].0 && choice("allowed", 2) == 1 {
                let c = sym_range("cost", 0, 1000);
                cost[i][j] = Some(c);
                want.push((i as u32, j as u32, g.w[i] + c));
            }
        }
    }
    let l = line_graph(&g.owned(), |a, b| cost[a as usize][b as usize]);
    check(l.num_nodes() == 5, "a node for every arc");
    check(same_arcs(&arcs(&l), &want), "an arc for every permitted turn");
}
/// adjacency lists and degrees
#[no_mangle]
pub extern "C" fn h_adjacency() {
    let g = multigraph(3, 2);
    let lists: Vec<Vec<Link>> = (0..3).map(|u| g.edges.iter().zip(&g.w).filter(|x| x.0 .0 == u).map(|x| Link { node: x.0 .1, weight: *x.1 }).collect()).collect();
    let ul: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|x| x.node).collect()).collect();
    let o = OwnedGraph::from_adjancecy_lists(lists);
    check(o.first_out() == &g.fo[..] && o.head() == &g.head[..], "topology of the lists");
    check(same_arcs(&arcs(&o), &gr_arcs(&g)), "weights of the lists");
    let u = UnweightedOwnedGraph::from_adjancecy_lists(ul);
    check(u.first_out() == &g.fo[..] && u.head() == &g.head[..], "topology of the unweighted lists");
    let degs: Vec<u32> = (0..3).map(|_| sym_range("d", 0, 1000)).collect();
    let fo: Vec<u32> = degrees_to_first_out(degs.iter().copied()).collect();
    check(fo.len() == 4 && fo[0] == 0, "first_out length");
    check((fo[1] == degs[0]) & (fo[2] == degs[0] + degs[1]) & (fo[3] == degs[0] + degs[1] + degs[2]), "prefix sums of degrees");
}
/// changing weights: swap and mutable access keep the topology and return the old weights
#[no_mangle]
pub extern "C" fn h_swap_weights() {
    let g = Gr::sym(3, &[(0, 1), (0, 2), (1, 2)]);
    let mut o = g.owned();
    let new: Vec<u32> = (0..3).map(|_| sym_w("n")).collect();
    let mut x = new.clone();
    o.swap_weights(&mut x);
    check((0..3).fold(true, |a, i| a & (x[i] == g.w[i]) & (o.weight()[i] == new[i])), "weights swapped");
    o.weights_mut()[1] = 5;
    check((o.weight()[1] == 5) & (o.weight()[0] == new[0]) & (o.weight()[2] == new[2]), "weight written");
    let b = o.borrowed();
    check((b.weight()[1] == 5) & (b.weight()[2] == new[2]) && b.head() == &g.head[..], "borrowed view");
    let (f, h, w) = o.decompose();
    check(f == g.fo && h == g.head && w.len() == 3, "decomposed");
}
entries!(h_views, h_reversed, h_empty, h_infinity_filter, h_permutated, h_permutated4, h_unify, h_line_graph, h_adjacency, h_swap_weights);
