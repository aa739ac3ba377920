//! Floating point travel time functions: linking, merging, bounds, inverse, live updates
use harness::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;

const DAY: f64 = 86_400.0;
const TOL: f64 = 0.001;
type Pts = Vec<TTFPoint>;

fn pt(at: f64, val: f64) -> TTFPoint {
    TTFPoint {
        at: Timestamp::new(at),
        val: FlWeight::new(val),
    }
}
/// a periodic function with the given breakpoints (seconds) and symbolic values in whole seconds
fn func(name: &str, at: &[u32], hi: u32) -> Pts {
    let mut v: Vec<u32> = Vec::new();
    for (i, &a) in at.iter().enumerate() {
        let y = sym_range(&format!("{}{}", name, i), 0, hi);
        if i > 0 {
            // first in, first out
            assume(v[i - 1] <= y + (a - at[i - 1]));
        }
        v.push(y);
    }
    let n = at.len();
    if n > 1 {
        assume(v[n - 1] <= v[0] + (86_400 - at[n - 1]));
    }
    let mut p: Pts = at.iter().zip(&v).map(|(&a, &y)| pt(a as f64, y as f64)).collect();
    if n > 1 {
        p.push(pt(DAY, v[0] as f64));
    }
    p
}
fn fixed(at: &[(u32, u32)]) -> Pts {
    let mut p: Pts = at.iter().map(|&(a, y)| pt(a as f64, y as f64)).collect();
    if at.len() > 1 {
        p.push(pt(DAY, at[0].1 as f64));
    }
    p
}
/// reference evaluation of a list of points that covers t
fn at(p: &[TTFPoint], t: f64, msg: &str) -> f64 {
    check(!p.is_empty(), msg);
    if p.len() == 1 {
        return f64::from(p[0].val);
    }
    check(f64::from(p[0].at) <= t + TOL && t <= f64::from(p[p.len() - 1].at) + TOL, msg);
    let mut i = 0;
    while i + 2 < p.len() && t >= f64::from(p[i + 1].at) {
        i += 1;
    }
    let (x0, y0, x1, y1) = (f64::from(p[i].at), f64::from(p[i].val), f64::from(p[i + 1].at), f64::from(p[i + 1].val));
    y0 + (t - x0) * ((y1 - y0) / (x1 - x0))
}
fn per(p: &[TTFPoint], t: f64) -> f64 {
    let mut x = t;
    while x >= DAY {
        x -= DAY;
    }
    at(p, x, "reference")
}
fn near(a: f64, b: f64) -> bool {
    (a <= b + TOL) & (b <= a + TOL)
}
/// a point in time between two whole seconds, in nanoseconds (finer than the EPSILON of the algorithms)
fn nanos(name: &str, lo: u32, hi: u32) -> f64 {
    let t = sym_u64(name);
    assume(t >= lo as u64 * 1_000_000_000);
    assume(t <= hi as u64 * 1_000_000_000);
    t as f64 / 1e9
}
fn time(name: &str) -> f64 {
    let t = nanos(name, 0, 86_400);
    assume(t < DAY);
    t
}
/// the result is a valid periodic function
fn valid(p: &[TTFPoint], msg: &str) {
    check(!p.is_empty() && p[0].at == Timestamp::ZERO, msg);
    if p.len() > 1 {
        check(p[p.len() - 1].at == Timestamp::new(DAY), msg);
        check(near(f64::from(p[0].val), f64::from(p[p.len() - 1].val)), msg);
    }
    for w in p.windows(2) {
        check(w[0].at < w[1].at, msg);
    }
}
const SHAPES: [&[u32]; 4] = [&[0], &[0, 30_000], &[0, 86_000], &[0, 40_000, 40_100]];
/// evaluation: any whole number of days
#[no_mangle]
pub extern "C" fn h_evaluate() {
    reals();
    let f = func("f", SHAPES[choice("shape", 4)], 1000);
    let t = nanos("t", 0, 3 * 86_400);
    let p = PeriodicPiecewiseLinearFunction::new(&f);
    let v = f64::from(p.evaluate(Timestamp::new(t)));
    check(near(v, per(&f, t)), "evaluation interpolates linearly");
    check((f64::from(p.lower_bound()) <= v + TOL) & (v <= f64::from(p.upper_bound()) + TOL), "static bounds");
    check(!p.constant() || f.len() == 1 || near(v, f64::from(f[0].val)), "constant functions are constant");
}
/// inverse evaluation finds the departure for an arrival
#[no_mangle]
pub extern "C" fn h_inverse() {
    reals();
    let f = func("f", SHAPES[choice("shape", 4)], 1000);
    let arr = nanos("arr", 86_400, 2 * 86_400);
    let dep = f64::from(FlWeight::from(PeriodicPiecewiseLinearFunction::new(&f).inverse_evaluate(Timestamp::new(arr))));
    check((arr - 1001.0 <= dep) & (dep <= arr + TOL), "departure in range");
    check(near(dep + per(&f, dep), arr), "departing at the inverse arrives on time");
}
fn link_case(f: Pts, g: Pts) {
    let l = PeriodicPiecewiseLinearFunction::new(&f).link(&PeriodicPiecewiseLinearFunction::new(&g));
    valid(&l, "linked function is valid");
    let t = time("t");
    let first = per(&f, t);
    check(near(at(&l, t, "linked function covers the day"), first + per(&g, t + first)), "linking composes travel times");
}
/// link: first function concrete, second with symbolic values
#[no_mangle]
pub extern "C" fn h_link_second() {
    reals();
    let f = [vec![(0, 700)], vec![(0, 10), (40_000, 900)], vec![(0, 500), (40_000, 600), (40_500, 100)], vec![(0, 100_000)]][choice("first", 4)].clone();
    link_case(fixed(&f), func("g", SHAPES[choice("second", 4)], 1000));
}
/// link: both functions with symbolic values
#[no_mangle]
pub extern "C" fn h_t_link() {
    reals();
    let y = sym_range("f", 0, 1000);
    link_case(fixed(&[vec![(0, y)], vec![(0, y), (50_000, 500)]][choice("first", 2)]), func("g", SHAPES[choice("second", 3)], 1000));
}
/// link: first function with a symbolic value, second concrete
#[no_mangle]
pub extern "C" fn h_link_first() {
    reals();
    let y = sym_range("f", 0, 1000);
    let (f, g) = [
        (vec![(0, y)], vec![(0, 700)]),
        (vec![(0, y)], vec![(0, 10), (40_000, 900)]),
        (vec![(0, y)], vec![(0, 500), (500, 600), (900, 300)]),
        (vec![(0, y), (30_000, 400)], vec![(0, 700)]),
        (vec![(0, y), (30_000, 400)], vec![(0, 10), (40_000, 900)]),
    ][choice("functions", 5)]
    .clone();
    link_case(fixed(&f), fixed(&g));
}
/// link: first function with a symbolic slope, second with several breakpoints
#[no_mangle]
pub extern "C" fn h_t_link_first() {
    reals();
    let y = sym_range("f", 0, 1000);
    let f = [vec![(0, y), (30_000, 400)], vec![(0, 600), (85_000, y)]][choice("first", 2)].clone();
    link_case(fixed(&f), fixed(&[(0, 500), (500, 600), (900, 300)]));
}
fn merge_case(f: Pts, g: Pts) {
    let (m, better) = PeriodicPiecewiseLinearFunction::new(&f).merge(&PeriodicPiecewiseLinearFunction::new(&g), &mut Vec::new());
    valid(&m, "merged function is valid");
    let t = time("t");
    let (a, b) = (per(&f, t), per(&g, t));
    let v = at(&m, t, "merged function covers the day");
    check((v <= a + TOL) & (v <= b + TOL) & ((a <= v + TOL) | (b <= v + TOL)), "merging takes the minimum");
    check(!better.is_empty() && better[0].0 == Timestamp::ZERO, "choice covers the day");
    let mut i = 0;
    while i + 1 < better.len() && t >= f64::from(FlWeight::from(better[i + 1].0)) {
        i += 1;
    }
    check(near(if better[i].1 { a } else { b }, v), "the chosen function has the minimum");
}
/// merge: one function concrete, the other with symbolic values
#[no_mangle]
pub extern "C" fn h_merge() {
    reals();
    let f = fixed(&[vec![(0, 400)], vec![(0, 100), (40_000, 900)], vec![(0, 500), (30_000, 500), (50_000, 200)]][choice("f", 3)]);
    let g = func("g", SHAPES[choice("g", 3)], 1000);
    if choice("swap", 2) == 1 {
        merge_case(g, f);
    } else {
        merge_case(f, g);
    }
}
/// bound functions and approximation of functions with four breakpoints
#[no_mangle]
pub extern "C" fn h_bounds() {
    reals();
    let f = func("f", [&[0u32, 20_000, 40_000, 60_000][..], &[0, 40_000, 40_002, 40_004], &[0, 86_390, 86_396]][choice("shape", 3)], [4, 1000][choice("hi", 2)]);
    let p = PeriodicPiecewiseLinearFunction::new(&f);
    let t = time("t");
    let v = per(&f, t);
    let (mut b1, mut b2) = (Vec::new(), Vec::new());
    let (lo, hi) = match choice("op", 3) {
        0 => p.bound_ttfs(&mut b1, &mut b2),
        1 => (p.lower_bound_ttf(&mut b1, &mut b2), p.upper_bound_ttf(&mut b1, &mut b2)),
        _ => {
            let a = p.approximate(&mut b1);
            let a = at(&a, t, "approximation covers the day");
            check((a <= v + 1.0 + TOL) & (v <= a + 1.0 + TOL), "approximation within one second");
            return;
        }
    };
    valid(&lo, "lower bound is valid");
    valid(&hi, "upper bound is valid");
    check(at(&lo, t, "lower") <= v + TOL, "lower bound function");
    check(v <= at(&hi, t, "upper") + TOL, "upper bound function");
}
fn approx_case(f: Vec<(u32, u32)>, w: f64, g_exact: bool) {
    let f = fixed(&f);
    let y = sym_range("g", 0, 1000) as f64;
    let g = vec![pt(0.0, y), pt(50_000.0, 450.0), pt(DAY, y)];
    let shift = |p: &Pts, d: f64| p.iter().map(|q| pt(f64::from(FlWeight::from(q.at)), f64::from(q.val) + d)).collect::<Vec<_>>();
    let fa = ATTFContainer::Approx(shift(&f, 0.0), shift(&f, w));
    let ga = if g_exact { ATTFContainer::Exact(g.clone()) } else { ATTFContainer::Approx(shift(&g, 0.0), shift(&g, 10.0)) };
    let mut buffers = MergeBuffers::new();
    let (fp, gp) = (PeriodicPiecewiseLinearFunction::new(&f), PeriodicPiecewiseLinearFunction::new(&g));
    let (m, better) = PeriodicATTF::from(&fa).merge(&PeriodicATTF::from(&ga), &mut buffers, |s, e, b| {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        fp.append_range(s, e, &mut x);
        gp.append_range(s, e, &mut y);
        let _ = b;
        PartialPiecewiseLinearFunction::new(&x).merge(&PartialPiecewiseLinearFunction::new(&y), s, e, &mut Vec::new())
    });
    let t = time("t");
    let (a, b) = (per(&f, t), per(&g, t));
    let mut i = 0;
    check(!better.is_empty() && better[0].0 == Timestamp::ZERO, "choice covers the day");
    while i + 1 < better.len() && t >= f64::from(FlWeight::from(better[i + 1].0)) {
        i += 1;
    }
    check(if better[i].1 { a <= b + TOL } else { b <= a + TOL }, "the chosen function has the minimum");
    let (lo, hi) = match &m {
        ATTFContainer::Exact(p) => (at(p, t, "merged"), at(p, t, "merged")),
        ATTFContainer::Approx(l, u) => (at(l, t, "merged lower"), at(u, t, "merged upper")),
    };
    check((lo <= a + TOL) & (lo <= b + TOL), "merged lower bound");
    check((a <= hi + TOL) | (b <= hi + TOL), "merged upper bound");
}
/// merge of approximated functions decides exactly where needed
#[no_mangle]
pub extern "C" fn h_approx_merge() {
    reals();
    let f = [vec![(0, 400)], vec![(0, 500), (30_000, 500), (50_000, 200)]][choice("f", 2)].clone();
    let (w, g_exact) = [(0.0, false), (30.0, true)][choice("bounds", 2)];
    approx_case(f, w, g_exact);
}
/// merge of approximated functions: more shapes and widths
#[no_mangle]
pub extern "C" fn h_t_approx_merge() {
    reals();
    let f = [vec![(0, 400)], vec![(0, 100), (40_000, 900)], vec![(0, 500), (30_000, 500), (50_000, 200)]][choice("f", 3)].clone();
    approx_case(f, [0.0, 30.0][choice("width", 2)], choice("g_exact", 2) == 1);
}
/// partial functions: copies, sub functions, merge and link over a part of the day
#[no_mangle]
pub extern "C" fn h_partial() {
    reals();
    let y = sym_range("f", 0, 1000);
    partial_case(fixed(&[vec![(0, y)], vec![(0, 300), (25_000, y)], vec![(0, y), (86_000, 300)]][choice("shape", 3)]));
}
/// partial functions with several symbolic values
#[no_mangle]
pub extern "C" fn h_t_partial() {
    reals();
    partial_case(func("f", SHAPES[choice("shape", 3)], 1000));
}
fn partial_case(f: Pts) {
    let (s, e) = [(0u32, 86_400u32), (10_000, 30_000), (20_000, 86_000), (80_000, 100_000)][choice("range", 4)];
    let (sf, ef) = (Timestamp::new(s as f64), Timestamp::new(e as f64));
    let t = nanos("t", s, e);
    let mut part = Vec::new();
    PeriodicPiecewiseLinearFunction::new(&f).append_range(sf, ef, &mut part);
    let p = PartialPiecewiseLinearFunction::new(&part);
    let a = per(&f, t);
    check(near(at(&part, t, "copy covers the range"), a), "copied range");
    check(near(f64::from(p.eval(Timestamp::new(t))), a), "partial evaluation");
    match choice("op", 3) {
        0 => {
            let sub = p.sub_plf(sf, ef);
            check(near(at(&sub, t, "sub function covers the range"), a), "sub function");
        }
        1 => {
            // periodic: as at 3600 s on the next day
            let g = vec![pt(0.0, 300.0), pt(25_000.0, 700.0), pt(50_000.0, 200.0), pt(DAY, 300.0), pt(DAY + 25_000.0, 700.0)];
            let q = PartialPiecewiseLinearFunction::new(&g).sub_plf(sf, ef);
            let (m, better) = p.merge(&q, sf, ef, &mut Vec::new());
            let b = at(&g, t, "reference");
            let v = at(&m, t, "merged covers the range");
            check((v <= a + TOL) & (v <= b + TOL) & ((a <= v + TOL) | (b <= v + TOL)), "merging takes the minimum");
            let mut i = 0;
            check(!better.is_empty() && f64::from(FlWeight::from(better[0].0)) <= t + TOL, "choice covers the range");
            while i + 1 < better.len() && t >= f64::from(FlWeight::from(better[i + 1].0)) {
                i += 1;
            }
            check(near(if better[i].1 { a } else { b }, v), "the chosen function has the minimum");
        }
        _ => {
            let g = fixed(&[(0, 100), (40_000, 900)]);
            let mut second = Vec::new();
            let (fs, fe) = (p.eval(sf), p.eval(ef));
            PeriodicPiecewiseLinearFunction::new(&g).append_range(sf + fs, ef + fe, &mut second);
            let l = PartialATTF::Exact(p).link(&PartialATTF::Exact(PartialPiecewiseLinearFunction::new(&second)), sf, ef);
            if let ATTFContainer::Exact(l) = l {
                check(near(at(&l, t, "linked covers the range"), a + per(&g, t + a)), "linking composes travel times");
            } else {
                check(false, "exact functions link exactly");
            }
        }
    }
}
/// live update: the reported value until its end, then first-in-first-out onto the prediction
#[no_mangle]
pub extern "C" fn h_live() {
    reals();
    let f = [vec![(0, 400)], vec![(0, 100), (40_000, 900)], vec![(0, 500), (30_000, 500), (30_400, 100)]][choice("f", 3)].clone();
    let n = f.len();
    let mut dep: Vec<u32> = f.iter().map(|p| p.0 * 1000).collect();
    let tt: Vec<u32> = f.iter().map(|p| p.1 * 1000).collect();
    dep.truncate(n);
    let g = TDGraph::new(vec![0, 1, 1], vec![1], vec![0, n as u32], dep, tt);
    let now = 29_000u32;
    if choice("no_live_data", 2) == 1 {
        let lg = LiveGraph::new(g, Timestamp::new(now as f64), &[None]);
        let t = nanos("t", 0, 2 * 86_400);
        let v = f64::from(lg.travel_time_function(0).evaluate(Timestamp::new(t)));
        check(near(v, per(&fixed(&f), t)), "the prediction without live data");
        return;
    }
    let live = sym_range("live", 0, 2000);
    let soon = now + [1u32, 900, 10_000][choice("soon", 3)];
    let lg = LiveGraph::new(g, Timestamp::new(now as f64), &[Some((live * 1000, soon * 1000))]);
    let t = nanos("t", now, 2 * 86_400);
    let u = lg.travel_time_function(0);
    let v = f64::from(u.evaluate(Timestamp::new(t)));
    let p = per(&fixed(&f), t);
    let l = live as f64;
    // the live value, then the travel time approaches the prediction with slope one
    let expect = if t <= soon as f64 {
        l
    } else {
        let d = t - soon as f64;
        let ps = per(&fixed(&f), soon as f64);
        if ps < l {
            if p >= l - d { p } else { l - d }
        } else if p <= l + d {
            p
        } else {
            l + d
        }
    };
    check(near(v, expect), "live value, then a first-in-first-out transition to the prediction");
    check((f64::from(u.lower_bound()) <= v + TOL) & (v <= f64::from(u.upper_bound()) + TOL), "static bounds with live data");
}
entries!(h_evaluate, h_inverse, h_link_second, h_link_first, h_merge, h_bounds, h_approx_merge, h_partial, h_live, h_t_link, h_t_link_first, h_t_approx_merge, h_t_partial);
