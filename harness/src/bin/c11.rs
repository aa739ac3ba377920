//! CH and CCH potentials
use harness::*;
use rust_road_router::algo::a_star::Potential;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
fn check_pot(p: Option<u32>, g: &Gr, s: u32, t: u32, msg: &str) {
    g.check_dist(p, s, t, msg)
}
const E4: [(u32, u32); 7] = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 1), (2, 3), (3, 0)];
/// forward CCH potential of every node, two targets in a row
#[no_mangle]
pub extern "C" fn h_cch_forward() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]);
    let cch = build_cch(&g, sym_perm("order", 4));
    let data = CCHPotData::new(&cch, &g.owned());
    check(data.num_nodes() == 4, "node count");
    let mut p = data.forward_potential();
    p.init(1);
    check_pot(p.potential(0), &g, 0, 1, "CCH potential is the exact distance to the target");
    p.init(3);
    for s in [0, 2, 3, 0] {
        check_pot(p.potential(s), &g, s, 3, "CCH potential is the exact distance to the target");
    }
}
#[no_mangle]
pub extern "C" fn h_cch_backward() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]);
    let cch = build_cch(&g, sym_perm("order", 4));
    let data = CCHPotData::new(&cch, &g.owned());
    let mut p = data.backward_potential();
    p.init(0);
    for t in [3, 2] {
        check_pot(p.potential(t), &g, 0, t, "backward CCH potential is the exact distance from the source");
    }
}
/// three nodes, complete, all orders, all targets, all three CCH based potentials
#[no_mangle]
pub extern "C" fn h_cch_k3() {
    let g = Gr::complete(3);
    let cch = build_cch(&g, sym_perm("order", 3));
    let data = CCHPotData::new(&cch, &g.owned());
    let t = sym_node("target", 3);
    match choice("kind", 3) {
        0 => {
            let mut p = data.forward_potential();
            p.init(t);
            for s in 0..3 {
                check_pot(p.potential(s), &g, s, t, "CCH potential is the exact distance to the target");
            }
        }
        1 => {
            let mut p = data.backward_potential();
            p.init(t);
            for s in 0..3 {
                check_pot(p.potential(s), &g, t, s, "backward CCH potential is the exact distance from the source");
            }
        }
        _ => {
            let mut p = data.ch_forward_potential();
            p.init(t);
            for s in 0..3 {
                check_pot(p.potential(s), &g, s, t, "CH potential is the exact distance to the target");
            }
        }
    }
}
/// potential on a basic (not perfect) customization
#[no_mangle]
pub extern "C" fn h_cch_basic() {
    let g = Gr::sym(4, &E4);
    let cch = build_cch(&g, [vec![0, 1, 2, 3], vec![1, 2, 0, 3], vec![3, 1, 2, 0]][choice("order", 3)].clone());
    let c = customize(&cch, &g.owned());
    let mut p = BorrowedCCHPot::new_from_customized(&c);
    p.init(3);
    for s in [0, 1] {
        check_pot(p.potential(s), &g, s, 3, "CCH potential is the exact distance to the target");
    }
}
#[no_mangle]
pub extern "C" fn h_ch_pot() {
    let g = Gr::sym(4, &E4);
    let cch = build_cch(&g, [vec![0, 1, 2, 3], vec![1, 2, 0, 3], vec![3, 1, 2, 0]][choice("order", 3)].clone());
    let data = CCHPotData::new(&cch, &g.owned());
    let mut p = data.ch_forward_potential();
    p.init(0);
    check_pot(p.potential(2), &g, 2, 0, "CH potential is the exact distance to the target");
    p.init(3);
    for s in [0, 1] {
        check_pot(p.potential(s), &g, s, 3, "CH potential is the exact distance to the target");
    }
}
/// CH potential on a hierarchy from witness-search contraction, forward and backward
#[no_mangle]
pub extern "C" fn h_ch_overlay_pot() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]);
    let o = NodeOrder::from_node_order(sym_perm("order", 4));
    let (f, b) = rust_road_router::algo::contraction_hierarchy::overlay(&g.owned(), o.clone(), 4);
    let mut p = CHPotential::new(f.clone(), b.clone(), o.clone());
    p.init(3);
    for s in [0, 1, 2] {
        check_pot(p.potential(s), &g, s, 3, "CH potential is the exact distance to the target");
    }
    let mut p = CHPotential::new(b, f, o);
    p.init(0);
    check_pot(p.potential(3), &g, 0, 3, "backward CH potential is the exact distance from the source");
}
fn bucket(g: &Gr, order: Vec<u32>, targets: &[&[u32]], sources: &[u32]) {
    let cch = build_cch(g, order);
    let c = customize_perfect(customize(&cch, &g.owned()));
    let mut p = BucketCHPotential::new(c.forward_graph(), c.backward_graph(), cch.node_order().clone());
    for ts in targets {
        p.init(ts);
        for &s in sources {
            let d = p.potential(s).to_vec();
            check(d.len() == ts.len(), "one distance per target");
            for (i, &t) in ts.iter().enumerate() {
                let x = std::cmp::min(d[i], INFINITY);
                check(g.is_dist(x, s, t), "bucket potential is the exact distance to each target");
            }
        }
    }
}
/// distances to several targets at once, several target sets in a row
#[no_mangle]
pub extern "C" fn h_bucket() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)]);
    bucket(&g, sym_perm("order", 4), &[&[1, 3], &[2]], &[0, 3]);
}
#[no_mangle]
pub extern "C" fn h_bucket_k3() {
    let g = Gr::complete(3);
    let ts: Vec<&[u32]> = match choice("targets", 3) {
        0 => vec![&[0, 1, 2]],
        1 => vec![&[2, 1], &[0]],
        _ => vec![&[1, 2]],
    };
    bucket(&g, sym_perm("order", 3), &ts, &[0, 2]);
}
#[no_mangle]
pub extern "C" fn h_bucket_ch() {
    // hierarchy from witness-search contraction
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 2), (2, 3), (3, 1)]);
    let o = NodeOrder::from_node_order(sym_perm("order", 4));
    let (f, b) = rust_road_router::algo::contraction_hierarchy::overlay(&g.owned(), o.clone(), 4);
    let mut p = BucketCHPotential::new(f, b, o);
    p.init(&[3, 2]);
    for s in [0, 1] {
        let d = p.potential(s).to_vec();
        for (i, &t) in [3, 2].iter().enumerate() {
            check(g.is_dist(std::cmp::min(d[i], INFINITY), s, t), "bucket potential is the exact distance to each target");
        }
    }
}
/// unpacked shortest path tree towards / from a node (hierarchy ranks as ids)
fn tree<const F: bool>(p: &mut CCHPotentialWithPathUnpacking<F>, g: &Gr, root: u32, nodes: &[u32]) {
    let o = p.cch().node_order().clone();
    p.init(o.rank(root));
    for &s in nodes {
        let d = p.potential(o.rank(s));
        if F {
            g.check_dist(d, root, s, "path potential is the exact distance");
        } else {
            g.check_dist(d, s, root, "path potential is the exact distance");
        }
        if let Some(d) = d {
            p.unpack_path(NodeIdT(o.rank(s)));
            let mut path = vec![s];
            let mut cur = o.rank(s);
            while cur != o.rank(root) {
                check(path.len() <= g.n, "path is simple");
                cur = p.target_shortest_path_tree()[cur as usize].0;
                path.push(o.node(cur));
            }
            if F {
                path.reverse();
                g.check_node_path(&path, d, root, s, "unpacked tree path is a shortest path");
            } else {
                g.check_node_path(&path, d, s, root, "unpacked tree path is a shortest path");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_path_forward() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 2)]);
    let cch = build_cch(&g, sym_perm("order", 4));
    let data = CCHPotData::new(&cch, &g.owned());
    let mut p = data.forward_path_potential();
    tree(&mut p, &g, 2, &[0]);
    tree(&mut p, &g, 3, &[0, 1, 2]);
}
#[no_mangle]
pub extern "C" fn h_path_backward() {
    let g = Gr::sym(4, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 2)]);
    let cch = build_cch(&g, sym_perm("order", 4));
    let data = CCHPotData::new(&cch, &g.owned());
    let mut p = data.backward_path_potential();
    tree(&mut p, &g, 0, &[3, 2]);
    tree(&mut p, &g, 1, &[2, 3]);
}
/// nested shortcuts
#[no_mangle]
pub extern "C" fn h_path_chain() {
    let g = Gr::sym(6, &[(0, 1), (1, 2), (1, 4), (2, 3), (3, 4), (4, 5)]);
    let cch = build_cch(&g, [vec![3, 2, 4, 1, 0, 5], vec![1, 2, 3, 4, 5, 0], vec![4, 3, 2, 1, 0, 5]][choice("order", 3)].clone());
    let data = CCHPotData::new(&cch, &g.owned());
    if choice("dir", 2) == 0 {
        tree(&mut data.forward_path_potential(), &g, 5, &[0, 2, 3]);
    } else {
        tree(&mut data.backward_path_potential(), &g, 0, &[5, 3, 4]);
    }
}
#[no_mangle]
pub extern "C" fn h_t_bucket() {
    let g = Gr::sym(4, &E4);
    bucket(&g, sym_perm("order", 4), &[&[1, 3], &[2, 0, 3]], &[0, 3, 1]);
}
#[no_mangle]
pub extern "C" fn h_t_cch4() {
    let g = Gr::complete(4);
    let cch = build_cch(&g, sym_perm("order", 4));
    let data = CCHPotData::new(&cch, &g.owned());
    let mut p = data.forward_potential();
    p.init(3);
    for s in 0..3 {
        check_pot(p.potential(s), &g, s, 3, "CCH potential is the exact distance to the target");
    }
}
entries!(
    h_cch_forward, h_cch_backward, h_cch_k3, h_cch_basic, h_ch_pot, h_ch_overlay_pot, h_bucket, h_bucket_k3, h_bucket_ch, h_path_forward, h_path_backward, h_path_chain, h_t_bucket, h_t_cch4
);
