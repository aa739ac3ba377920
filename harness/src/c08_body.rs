// Shared by c08 (parallel) and c08n (sequential).
fn chooser(n: usize) -> usize {
    // up to three ready tasks: any of them; more: the first or the last
    if n <= 3 {
        choice("task", n)
    } else if choice("task-end", 2) == 0 {
        0
    } else {
        n - 1
    }
}
fn any_schedule() {
    rayon::verif_set_chooser(chooser);
    rayon::verif_set_mode(3);
}
/// for the customization itself the order of tasks is chosen freely, the rest runs FIFO
fn fixed_schedule(threads: usize) {
    rayon::verif_set_mode(1);
    rayon::verif_set_num_threads(threads);
}
fn both(g: &Gr, order: Vec<u32>, from: u32, to: u32, perfect: bool, sched: fn()) {
    let cch = build_cch(g, order);
    if perfect {
        fixed_schedule(1);
    } else {
        sched();
    }
    let c = customize(&cch, &g.owned());
    if perfect {
        let mut c = c;
        sched();
        let (up, down) = customization::customize_perfect_without_rebuild(&mut c);
        fixed_schedule(1);
        let c = customization::rebuild_customized_perfect(c, &up, &down);
        check_arcs_exact(&c, g, true, "perfect arcs are exact for every schedule");
        query_path(&mut CCHServer::new(c), g, from, to, "perfect customization is exact for every schedule");
    } else {
        fixed_schedule(1);
        check_arcs_exact(&c, g, false, "arcs are path lengths for every schedule");
        query_path(&mut CCHServer::new(c), g, from, to, "customization is exact for every schedule");
    }
}
/// complete graph on three nodes plus a pendant, thread counts 1..3, tasks run at spawn, in FIFO or in LIFO order
#[no_mangle]
pub extern "C" fn h_k4_threads() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 0), (1, 2), (2, 1), (2, 3)]);
    let cch = build_cch(&g, [vec![0, 1, 2, 3], vec![3, 1, 0, 2], vec![0, 3, 2, 1]][choice("order", 3)].clone());
    rayon::verif_set_mode(choice("mode", 3));
    rayon::verif_set_num_threads(1 + choice("threads", 3));
    let c = customize_perfect(customize(&cch, &g.owned()));
    check_arcs_exact(&c, &g, true, "perfect arcs are exact for every thread count");
    query_path(&mut CCHServer::new(c), &g, 0, 3, "customization is exact for every thread count");
}
/// star: three cells below one separator node, all task orders
#[no_mangle]
pub extern "C" fn h_star_orders() {
    let g = Gr::sym(4, &[(0, 3), (1, 3), (3, 1), (3, 2)]);
    both(&g, vec![0, 1, 2, 3], 0, 2, false, any_schedule);
}
#[no_mangle]
pub extern "C" fn h_star_perfect() {
    // two cells below a three-node separator, whose own arcs are improved by perfect customization; all task orders
    let g = Gr::sym(5, &[(0, 2), (0, 3), (2, 1), (3, 2), (3, 4), (4, 2)]);
    both(&g, vec![0, 1, 2, 3, 4], 0, 1, true, any_schedule);
}
/// nested cells (two levels of separators), all task orders
#[no_mangle]
pub extern "C" fn h_tree_orders() {
    let g = Gr::sym(7, &[(0, 2), (2, 1), (2, 6), (6, 5), (5, 3), (5, 4), (4, 5)].iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
    both(&g, vec![0, 1, 3, 4, 2, 5, 6], 0, 3, false, any_schedule);
}
#[no_mangle]
pub extern "C" fn h_tree_perfect() {
    // nested cells with cycles through the separators, so that upper triangles matter; perfect, all task orders
    let g = Gr::sym(7, &[(0, 2), (0, 6), (1, 2), (2, 5), (3, 5), (4, 3), (5, 6), (6, 4), (6, 2)]);
    both(&g, vec![0, 1, 3, 4, 2, 5, 6], 0, 3, true, any_schedule);
}
/// directed CCH, all task orders
#[no_mangle]
pub extern "C" fn h_directed_orders() {
    let g = Gr::sym(5, &[(0, 3), (1, 4), (3, 1), (3, 2), (4, 3)]);
    let cch = build_cch(&g, vec![0, 1, 2, 3, 4]);
    let d = cch.to_directed_cch();
    any_schedule();
    let c = customize_directed(&d, &g.owned());
    fixed_schedule(1);
    query_path(&mut CCHServer::new(c), &g, 0, 2, "directed customization is exact for every schedule");
}
#[no_mangle]
pub extern "C" fn h_directed_perfect() {
    let g = Gr::sym(5, &[(0, 2), (0, 3), (2, 1), (3, 2), (3, 4), (4, 2)]);
    let cch = build_cch(&g, vec![0, 1, 2, 3, 4]);
    let d = cch.to_directed_cch();
    fixed_schedule(1);
    let mut c = customize_directed(&d, &g.owned());
    any_schedule();
    let (up, down) = customization::directed::customize_directed_perfect_without_rebuild(&mut c);
    fixed_schedule(1);
    let c = customization::rebuild_customized_perfect(c, &up, &down);
    check_arcs_exact(&c, &g, false, "directed perfect arcs are path lengths");
    query_path(&mut CCHServer::new(c), &g, 0, 1, "directed perfect customization is exact for every schedule");
}
/// a path of n nodes with two symbolic bypass arcs, ordered by nested dissection: small cells are customized as a whole
fn long_path(n: u32, threads: usize, mode: usize) {
    let mut e: Vec<(u32, u32)> = Vec::new();
    for i in 0..n - 1 {
        e.push((i, i + 1));
        e.push((i + 1, i));
    }
    let (a, b, c) = (n / 4, n / 2 + 3, n - 5);
    e.push((a, b));
    e.push((b, c));
    e.sort();
    let mut w: Vec<u32> = e.iter().enumerate().map(|(i, _)| 1 + i as u32 % 3).collect();
    for (i, x) in e.iter().enumerate() {
        if *x == (a, b) || *x == (b, c) || *x == (a + 1, a + 2) {
            w[i] = sym_w("w");
        }
    }
    let g = Gr::new(n as usize, &e, w);
    let mut order = Vec::new();
    fn nd(lo: u32, hi: u32, out: &mut Vec<u32>) {
        if lo >= hi {
            return;
        }
        let m = (lo + hi) / 2;
        nd(lo, m, out);
        nd(m + 1, hi, out);
        out.push(m);
    }
    nd(0, n, &mut order);
    fixed_schedule(threads);
    rayon::verif_set_mode(mode);
    let cch = build_cch(&g, order);
    let basic = customize(&cch, &g.owned());
    let mut s = CCHServer::new(customize_perfect(customize(&cch, &g.owned())));
    let mut s2 = CCHServer::new(basic);
    for (x, y) in [(0, n - 1), (a - 1, c), (n - 1, a + 1)] {
        query_path(&mut s, &g, x, y, "perfect customization with small cells is exact");
        query_path(&mut s2, &g, x, y, "customization with small cells is exact");
    }
}
#[no_mangle]
pub extern "C" fn h_cells_70() {
    // 70 nodes, one thread: cells of fewer than two nodes use the cell routine; FIFO, LIFO and at-spawn order
    long_path(70, 1, choice("mode", 3));
}
#[no_mangle]
pub extern "C" fn h_cells_130() {
    // 130 nodes, one or two threads: cells of up to three nodes use the cell routine
    long_path(130, 1 + choice("threads", 2), 2);
}
/// two components: cells below the empty top separator
#[no_mangle]
pub extern "C" fn h_two_components() {
    let g = Gr::sym(6, &[(0, 1), (1, 2), (2, 0), (3, 4), (4, 3), (5, 4)]);
    let (a, b) = [(0, 2), (5, 3), (0, 4)][choice("pair", 3)];
    both(&g, vec![0, 3, 5, 1, 4, 2], a, b, true, any_schedule);
}
/// perfect search graph built by any number of chunks (threads 1..5), tasks in FIFO or LIFO order
#[no_mangle]
pub extern "C" fn h_rebuild_chunks() {
    let g = Gr::sym(5, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (4, 2)]);
    let cch = build_cch(&g, [vec![4, 0, 1, 2, 3], vec![0, 2, 1, 3, 4], vec![1, 4, 3, 0, 2]][choice("order", 3)].clone());
    let mut c = customize(&cch, &g.owned());
    let (up, down) = customization::customize_perfect_without_rebuild(&mut c);
    rayon::verif_set_mode(1 + choice("mode", 2));
    rayon::verif_set_num_threads(1 + choice("threads", 5));
    let c = customization::rebuild_customized_perfect(c, &up, &down);
    fixed_schedule(1);
    check_arcs_exact(&c, &g, true, "perfect arcs are exact for every number of chunks");
    query_path(&mut CCHServer::new(c), &g, 0, 4, "perfect search graph is exact for every number of chunks");
}
#[no_mangle]
pub extern "C" fn h_t_tree7() {
    let g = Gr::sym(7, &bidir(7, &[(0, 2), (2, 1), (2, 6), (6, 5), (5, 3), (5, 4)]));
    both(&g, vec![0, 1, 3, 4, 2, 5, 6], 0, 3, true, any_schedule);
}
