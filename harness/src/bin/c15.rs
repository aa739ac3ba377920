//! containers with fast reset
use harness::*;
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::rank_select_map::FastClearBitVec;
use rust_road_router::datastr::timestamped_vector::*;
use rust_road_router::util::in_range_option::InRangeOption;
const N: usize = 2;
/// Finds the reset counter of `x`: the u32 word of the object which `reset` increments.
fn counter_word<T>(x: &mut T, reset: impl Fn(&mut T)) -> Option<usize> {
    let words = std::mem::size_of::<T>() / 4;
    let p = x as *mut T as *mut u32;
    let read = |i: usize| unsafe { std::ptr::read_volatile(p.add(i)) };
    // padding is not initialised: never look at it; the counter is the only word that may differ
    let before: Vec<u32> = (0..words).map(read).collect();
    reset(x);
    let mut r = None;
    for i in 0..words {
        if read(i) == before[i].wrapping_add(1) {
            r = Some(i);
        }
    }
    r
}
fn poke<T>(x: &mut T, word: usize, v: u32) {
    unsafe { std::ptr::write_volatile((x as *mut T as *mut u32).add(word), v) }
}
/// one operation on the vector and on the plain reference vector
fn op(v: &mut TimestampedVector<Weight>, m: &mut [u32; N], kinds: usize) {
    match choice("op", kinds) {
        0 => {
            let i = choice("i", N);
            let x = sym_u32("x");
            v.set(i, x);
            m[i] = x;
        }
        1 => {
            let i = choice("i", N);
            let x = sym_u32("x");
            v[i] = x;
            m[i] = x;
        }
        2 => {
            v.reset();
            *m = [INFINITY; N];
        }
        3 => {
            let i = choice("i", N);
            check(v[i] == m[i], "value seen before modification");
            let x = sym_range("d", 0, 9);
            check(*unsafe { v.get_unchecked_mut(i) } == m[i], "mutable access sees the current value");
            let y = std::cmp::min(m[i], x);
            let r = unsafe { v.get_unchecked_mut(i) };
            *r = std::cmp::min(*r, x);
            m[i] = y;
        }
        _ => {
            let i = choice("i", N);
            let x = sym_range("d", 0, 9);
            v[i] = v[i] / 2 + x;
            m[i] = m[i] / 2 + x;
        }
    }
}
fn same(v: &TimestampedVector<Weight>, m: &[u32; N]) {
    let mut ok = v.len() == N && !v.is_empty();
    for i in 0..N {
        ok &= v[i] == m[i];
        ok &= *unsafe { v.get_unchecked(i) } == m[i];
    }
    check(ok, "vector holds the values written since the last reset, otherwise the default");
}
/// any four operations (set, index, reset, read-modify-write) with symbolic values on two elements
#[no_mangle]
pub extern "C" fn h_history() {
    let mut v = TimestampedVector::<Weight>::new(N);
    let mut m = [INFINITY; N];
    same(&v, &m);
    for _ in 0..4 {
        op(&mut v, &mut m, 5);
        same(&v, &m);
    }
}
/// any history with any number of resets (symbolic, up to 2^32-1) between writes and two more resets: counter overflow included
#[no_mangle]
pub extern "C" fn h_overflow() {
    let mut v = TimestampedVector::<Weight>::new(N);
    let mut m = [INFINITY; N];
    let w = counter_word(&mut v, |v| v.reset());
    for _ in 0..2 {
        op(&mut v, &mut m, 3);
    }
    if let Some(w) = w {
        // a number of resets without overflow
        let now = unsafe { std::ptr::read_volatile((&v as *const _ as *const u32).add(w)) };
        let t = sym_u32("t");
        assume(t > now);
        poke(&mut v, w, t);
        m = [INFINITY; N];
        same(&v, &m);
        reach("advanced");
    }
    op(&mut v, &mut m, 2);
    same(&v, &m);
    for _ in 0..3 {
        v.reset();
        m = [INFINITY; N];
        same(&v, &m);
    }
    for _ in 0..2 {
        op(&mut v, &mut m, 4);
        same(&v, &m);
    }
}
/// after an overflow of the reset counter, the counter is advanced (symbolic) again past the old timestamps
#[no_mangle]
pub extern "C" fn h_overflow_again() {
    let mut v = TimestampedVector::<Weight>::new(N);
    let mut m = [INFINITY; N];
    let w = counter_word(&mut v, |v| v.reset());
    let Some(w) = w else { return };
    let i = choice("i", N);
    let t0 = sym_u32("t0");
    assume(t0 > 1);
    poke(&mut v, w, t0);
    v[i] = 7;
    v.set((i + 1) % N, 8);
    poke(&mut v, w, u32::MAX);
    if t0 == u32::MAX {
        m[i] = 7;
        m[(i + 1) % N] = 8;
    }
    same(&v, &m);
    v.reset();
    m = [INFINITY; N];
    same(&v, &m);
    op(&mut v, &mut m, 2);
    let before = unsafe { std::ptr::read_volatile((&v as *const _ as *const u32).add(w)) };
    let t1 = sym_u32("t1");
    assume(t1 > before);
    poke(&mut v, w, t1);
    m = [INFINITY; N];
    same(&v, &m);
    op(&mut v, &mut m, 4);
    same(&v, &m);
}
/// the other element types: pairs, flags, options and growing lists
#[no_mangle]
pub extern "C" fn h_types() {
    let mut a = TimestampedVector::<(Weight, Weight)>::new(2);
    let mut b = TimestampedVector::<bool>::new(2);
    let mut c = TimestampedVector::<InRangeOption<u32>>::new(2);
    let mut d = TimestampedVector::<Vec<u32>>::new(2);
    let mut e = TimestampedVector::<(Weight, Weight, Weight)>::new(2);
    let (mut ma, mut mb, mut mc, mut md, mut me) = ([(INFINITY, INFINITY); 2], [false; 2], [None; 2], [vec![], vec![]], [(INFINITY, INFINITY, INFINITY); 2]);
    for _ in 0..3 {
        let i = choice("i", 2);
        let x = sym_range("x", 0, u32::MAX - 1);
        if choice("op", 2) == 0 {
            a[i].1 = x;
            ma[i].1 = x;
            b[i] = true;
            mb[i] = true;
            c[i] = InRangeOption::some(x);
            mc[i] = Some(x);
            d[i].push(x);
            md[i].push(x);
            e.set(i, (1, x, 2));
            me[i] = (1, x, 2);
        } else {
            a.reset();
            b.reset();
            c.reset();
            d.reset();
            e.reset();
            ma = [(INFINITY, INFINITY); 2];
            mb = [false; 2];
            mc = [None; 2];
            md = [vec![], vec![]];
            me = [(INFINITY, INFINITY, INFINITY); 2];
        }
        for i in 0..2 {
            check(a[i] == ma[i], "pairs");
            check(b[i] == mb[i], "flags");
            check(c[i].value() == mc[i], "options");
            check(d[i].len() == md[i].len() && d[i].iter().zip(&md[i]).fold(true, |z, (x, y)| z & (x == y)), "lists");
            check(e[i] == me[i], "triples");
        }
    }
}
/// shared distance array: any history of sets and resets, including overflow of the reset counter (symbolic)
#[no_mangle]
pub extern "C" fn h_atomic() {
    let mut v = AtomicDists::new(N);
    let mut m = [INFINITY; N];
    let w = counter_word(&mut v, |v| v.reset());
    let over = choice("over", 4);
    for k in 0..4 {
        if choice("op", 2) == 0 {
            let i = choice("i", N);
            let x = sym_u32("x");
            v.set(i, x);
            m[i] = x;
        } else {
            v.reset();
            m = [INFINITY; N];
        }
        if let (Some(w), true) = (w, over == k) {
            let now = unsafe { std::ptr::read_volatile((&v as *const _ as *const u32).add(w)) };
            let t = sym_u32("t");
            assume(t > now);
            poke(&mut v, w, t);
            m = [INFINITY; N];
            reach("advanced");
        }
        let mut ok = v.len() == N;
        for i in 0..N {
            ok &= v.get(i) == m[i];
        }
        check(ok, "distances hold the values written since the last reset");
    }
}
/// clearlist vector: any five operations (write, write default, reset) with a symbolic default
#[no_mangle]
pub extern "C" fn h_clearlist() {
    let d = sym_u32("default");
    let mut v = ClearlistVector::new(N, d);
    let mut m = [d; N];
    for _ in 0..5 {
        match choice("op", 3) {
            0 => {
                let i = choice("i", N);
                let x = sym_u32("x");
                v[i] = x;
                m[i] = x;
            }
            1 => {
                let i = choice("i", N);
                v[i] = d;
                m[i] = d;
            }
            _ => {
                v.reset();
                m = [d; N];
            }
        }
        let mut ok = true;
        for i in 0..N {
            ok &= v[i] == m[i];
        }
        check(ok, "vector holds the values written since the last reset, otherwise the default");
    }
}
/// flag array of 150 bits: any four operations (set one of the bits 0, 1, 63, 64, 149; clear), bits and iteration compared
#[no_mangle]
pub extern "C" fn h_flags() {
    let n = 150;
    let pos = [0usize, 1, 63, 64, 149];
    let mut v = FastClearBitVec::new(n);
    let mut m = vec![false; n];
    for _ in 0..4 {
        let o = choice("op", pos.len() + 1);
        if o < pos.len() {
            v.set(pos[o]);
            m[pos[o]] = true;
        } else {
            v.clear();
            m = vec![false; n];
        }
        flags_same(&v, &m);
    }
}
fn flags_same(v: &FastClearBitVec, m: &[bool]) {
    for i in 0..m.len() {
        check(v.get(i) == m[i], "bit is set exactly if set since the last clear");
    }
    let mut seen = vec![false; m.len()];
    for i in v.set_bits_iter() {
        check(i < m.len() && m[i] && !seen[i], "iteration yields set bits once");
        seen[i] = true;
    }
    check(m.iter().zip(&seen).all(|(a, b)| a == b), "iteration yields all set bits");
}
/// flag array of 150 bits: two bits at any (symbolic) positions are set, cleared, and a third one set
#[no_mangle]
pub extern "C" fn h_flags_sym() {
    let n = 150;
    let mut v = FastClearBitVec::new(n);
    let (a, b, c, p) = (sym_range("a", 0, n as u32 - 1), sym_range("b", 0, n as u32 - 1), sym_range("c", 0, n as u32 - 1), sym_range("p", 0, n as u32 - 1));
    check(!v.get(p as usize), "initially clear");
    v.set(a as usize);
    v.set(b as usize);
    check(v.get(p as usize) == ((p == a) | (p == b)), "exactly the set bits");
    v.clear();
    check(!v.get(p as usize), "cleared");
    v.set(c as usize);
    check(v.get(p as usize) == (p == c), "exactly the set bit");
    let mut it = v.set_bits_iter();
    let x = it.next();
    check(x.is_some() && x.unwrap() == c as usize, "iteration yields the bit");
    check(it.next().is_none(), "iteration yields nothing else");
}
/// options without overhead: every value but the sentinel is kept
#[no_mangle]
pub extern "C" fn h_option() {
    let x = sym_u32("x");
    check(InRangeOption::<u32>::NONE.value().is_none(), "none");
    check(InRangeOption::<u32>::default().value().is_none(), "default");
    assume(x != u32::MAX);
    check(InRangeOption::new(Some(x)).value() == Some(x), "value kept");
    check(InRangeOption::some(x).value() == Some(x), "value kept");
    check(unsafe { InRangeOption::some(x).assume_some() } == x, "value kept");
    check(InRangeOption::<u32>::new(None).value().is_none(), "none kept");
    let p = InRangeOption::some((x, sym_u32("y")));
    check(p.value().is_some(), "pair kept");
}
entries!(h_history, h_overflow, h_overflow_again, h_types, h_atomic, h_clearlist, h_flags, h_flags_sym, h_option);
