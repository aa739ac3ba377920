//! priority queues
use harness::*;
use rust_road_router::datastr::heap::Heap;
use rust_road_router::datastr::index_heap::*;
use rust_road_router::datastr::graph::INFINITY;
#[derive(Copy, Clone, Eq, PartialEq, Debug, Ord, PartialOrd)]
struct St {
    key: u32,
    id: u32,
}
impl Indexing for St {
    fn as_index(&self) -> usize {
        self.id as usize
    }
}
fn key(hi: u32) -> u32 {
    sym_range("key", 0, hi)
}
/// reference: the content of the queue
struct Model {
    m: Vec<Option<u32>>,
}
impl Model {
    fn new(n: usize) -> Model {
        Model { m: vec![None; n] }
    }
    fn len(&self) -> usize {
        self.m.iter().filter(|x| x.is_some()).count()
    }
    fn check(&self, h: &IndexdMinHeap<St>) {
        check(h.len() == self.len() && h.is_empty() == (self.len() == 0), "length");
        check(h.elements().len() == self.len(), "elements");
        for id in 0..self.m.len() {
            check(h.contains_index(id) == self.m[id].is_some(), "contains exactly the queued elements");
            match (h.get(id), self.m[id]) {
                (Some(e), Some(k)) => check((e.key == k) & (e.id == id as u32), "get returns the current key"),
                (None, None) => (),
                _ => check(false, "get finds exactly the queued elements"),
            }
        }
    }
    fn check_min(&self, e: Option<&St>) {
        match e {
            None => check(self.len() == 0, "empty exactly if nothing is queued"),
            Some(e) => {
                let id = concretize(e.id) as usize;
                check(self.m[id].is_some(), "reported element is queued");
                let mut ok = e.key == self.m[id].unwrap();
                for k in self.m.iter().flatten() {
                    ok &= e.key <= *k;
                }
                check(ok, "reported element has the smallest key");
            }
        }
    }
    fn pop(&mut self, h: &mut IndexdMinHeap<St>) -> bool {
        self.check_min(h.peek());
        let e = h.pop();
        self.check_min(e.as_ref());
        match e {
            None => false,
            Some(e) => {
                self.m[concretize(e.id) as usize] = None;
                true
            }
        }
    }
    fn drain(&mut self, h: &mut IndexdMinHeap<St>) {
        while self.pop(h) {
            self.check(h);
        }
        check(h.is_empty(), "all elements come out");
    }
}
fn filled(n: usize, hi: u32) -> (IndexdMinHeap<St>, Model) {
    let mut h = IndexdMinHeap::new(n);
    let mut m = Model::new(n);
    for id in 0..n {
        let k = key(hi);
        h.push(St { key: k, id: id as u32 });
        m.m[id] = Some(k);
    }
    (h, m)
}
/// five elements with symbolic keys are pushed and popped
#[no_mangle]
pub extern "C" fn h_push_pop() {
    let (mut h, mut m) = filled(5, INFINITY);
    m.check(&h);
    m.drain(&mut h);
}
/// a heap with two levels of inner nodes: 4 concrete elements pushed first, then 3 with symbolic keys; all popped
#[no_mangle]
pub extern "C" fn h_two_levels() {
    let n = 9;
    let mut h = IndexdMinHeap::new(n);
    let mut m = Model::new(n);
    for (id, k) in [(3, 10), (0, 20), (5, 30), (7, 40), (8, 25), (1, 50)] {
        h.push(St { key: k, id });
        m.m[id as usize] = Some(k);
    }
    for id in [2, 6, 4] {
        let k = key(60);
        h.push(St { key: k, id });
        m.m[id as usize] = Some(k);
    }
    m.check(&h);
    m.drain(&mut h);
}
/// four elements, then one key change (any element, any new key, by update_key), then everything is popped
#[no_mangle]
pub extern "C" fn h_update_key() {
    let (mut h, mut m) = filled(4, INFINITY);
    let id = choice("id", 4);
    let k = key(INFINITY);
    h.update_key(St { key: k, id: id as u32 });
    m.m[id] = Some(k);
    m.check(&h);
    m.drain(&mut h);
}
fn change(up: bool, symbolic: &[u32]) {
    let n = 8;
    let mut h = IndexdMinHeap::new(n);
    let mut m = Model::new(n);
    for id in 0..n as u32 {
        let k = if symbolic.contains(&id) { key(100) } else { 10 + 10 * ((id * 3 + 1) % 8) };
        h.push(St { key: k, id });
        m.m[id as usize] = Some(k);
    }
    let id = [0, 1, 5, 7][choice("id", 4)];
    let k = key(200);
    if up {
        assume(k >= m.m[id].unwrap());
        h.increase_key(St { key: k, id: id as u32 });
    } else {
        assume(k <= m.m[id].unwrap());
        h.decrease_key(St { key: k, id: id as u32 });
    }
    m.m[id] = Some(k);
    m.check(&h);
    m.drain(&mut h);
}
/// eight elements (one with a symbolic key), one is increased to any larger key, then everything is popped
#[no_mangle]
pub extern "C" fn h_increase() {
    change(true, &[5])
}
/// eight elements (two with symbolic keys), one is decreased to any smaller key, then everything is popped
#[no_mangle]
pub extern "C" fn h_decrease() {
    change(false, &[2, 5])
}
/// any history of four operations (push_unless_contained, pop, update_key, clear) on three elements, keys symbolic
#[no_mangle]
pub extern "C" fn h_history() {
    history(3, 4)
}
/// any history of five operations on four elements
#[no_mangle]
pub extern "C" fn h_t_history() {
    history(4, 5)
}
fn history(n: usize, ops: usize) {
    let mut h = IndexdMinHeap::new(n);
    let mut m = Model::new(n);
    for _ in 0..ops {
        match choice("op", 4) {
            0 => {
                let id = choice("id", n);
                let k = key(INFINITY);
                h.push_unless_contained(St { key: k, id: id as u32 });
                if m.m[id].is_none() {
                    m.m[id] = Some(k);
                }
            }
            1 => {
                m.pop(&mut h);
            }
            2 => {
                let id = choice("id", n);
                if m.m[id].is_some() {
                    let k = key(INFINITY);
                    h.update_key(St { key: k, id: id as u32 });
                    m.m[id] = Some(k);
                }
            }
            _ => {
                h.clear();
                m.m = vec![None; n];
            }
        }
        m.check(&h);
    }
    m.drain(&mut h);
}
/// drain empties the queue and yields every element once; partially consumed drains too; the queue is usable afterwards
#[no_mangle]
pub extern "C" fn h_drain() {
    let (mut h, m) = filled(4, INFINITY);
    let mut seen = vec![false; 4];
    for e in h.drain() {
        let id = concretize(e.id) as usize;
        check(!seen[id] && e.key == m.m[id].unwrap(), "drain yields every element once");
        seen[id] = true;
    }
    check(seen.iter().all(|&x| x), "drain yields all elements");
    let mut m = Model::new(4);
    m.check(&h);
    for id in [2usize, 0, 3] {
        let k = key(9);
        h.push(St { key: k, id: id as u32 });
        m.m[id] = Some(k);
    }
    m.drain(&mut h);
}
/// after clear nothing is contained and the queue can be refilled
#[no_mangle]
pub extern "C" fn h_clear() {
    let (mut h, mut m) = filled(4, INFINITY);
    m.pop(&mut h);
    h.clear();
    let mut m = Model::new(4);
    m.check(&h);
    for id in [3usize, 1] {
        let k = key(9);
        h.push(St { key: k, id: id as u32 });
        m.m[id] = Some(k);
    }
    m.check(&h);
    m.drain(&mut h);
}

// ---- max-heap that keeps popped elements
struct Max {
    heap: Vec<u32>,
    popped: Vec<u32>,
}
fn same_multiset(a: &[u32], b: &[u32]) -> bool {
    // each value of a occurs as often in b
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for x in a {
        let (mut ca, mut cb) = (0u32, 0u32);
        for y in a {
            ca += (x == y) as u32;
        }
        for y in b {
            cb += (x == y) as u32;
        }
        ok &= ca == cb;
    }
    ok
}
impl Max {
    fn check(&self, h: &Heap<u32>) {
        match h.peek() {
            None => check(self.heap.is_empty(), "peek: empty"),
            Some(x) => {
                let (mut ok, mut isin) = (true, false);
                for y in &self.heap {
                    ok &= *x >= *y;
                    isin |= *x == *y;
                }
                check(ok & isin, "peek: largest element");
            }
        }
        check(same_multiset(&self.popped, h.popped()), "popped elements are kept");
    }
    fn pop(&mut self, h: &mut Heap<u32>) -> bool {
        let x = match h.pop() {
            None => {
                check(self.heap.is_empty(), "pop: empty");
                return false;
            }
            Some(x) => *x,
        };
        check(self.heap.iter().fold(true, |a, y| a & (x >= *y)), "pop: largest element");
        // remove one occurrence
        let mut at = None;
        for (i, y) in self.heap.iter().enumerate() {
            if *y == x {
                at = Some(i);
                break;
            }
        }
        check(at.is_some(), "pop: contained element");
        self.heap.swap_remove(at.unwrap());
        self.popped.push(x);
        true
    }
}
/// five symbolic elements: push, pop two, push one more, retain by a symbolic threshold, pop the rest
#[no_mangle]
pub extern "C" fn h_max_retain() {
    max_retain(4, 1, 1)
}
#[no_mangle]
pub extern "C" fn h_max_retain_all_in_heap() {
    // no pops before retain
    max_retain(5, 0, 0)
}
fn max_retain(n: usize, pops: usize, more: usize) {
    let mut h = Heap::new();
    let mut m = Max { heap: vec![], popped: vec![] };
    for _ in 0..n {
        let k = key(INFINITY);
        h.push(k);
        m.heap.push(k);
    }
    m.check(&h);
    for _ in 0..pops {
        m.pop(&mut h);
        m.check(&h);
    }
    for _ in 0..more {
        let k = key(INFINITY);
        h.push(k);
        m.heap.push(k);
        m.check(&h);
    }
    let bits: Vec<bool> = vec![];
    drop(bits);
    let t = key(INFINITY);
    let keep_small = choice("side", 2) == 0;
    let f = |x: &u32| if keep_small { *x < t } else { *x > t };
    h.retain(f);
    m.heap.retain(f);
    m.popped.retain(f);
    m.check(&h);
    while m.pop(&mut h) {
        m.check(&h);
    }
}
/// fifteen elements in any of three shapes, two with symbolic keys: the removal of a symbolic one keeps the heap order of the tail
#[no_mangle]
pub extern "C" fn h_max_retain_big() {
    let mut h = Heap::new();
    let mut m = Max { heap: vec![], popped: vec![] };
    let order: [[u32; 13]; 2] = [[130, 120, 110, 100, 90, 80, 70, 60, 50, 40, 30, 20, 10], [10, 130, 20, 120, 30, 110, 40, 100, 50, 90, 60, 80, 70]];
    let o = order[choice("shape", 2)];
    for (i, &k) in o.iter().enumerate() {
        if i == 4 {
            let k = key(140);
            h.push(k);
            m.heap.push(k);
        }
        h.push(k);
        m.heap.push(k);
    }
    let rm = [130, 120, 100, 70, 20][choice("remove", 5)];
    h.retain(|x| *x != rm);
    m.heap.retain(|x| *x != rm);
    m.check(&h);
    while m.pop(&mut h) {
        m.check(&h);
    }
}
/// any history of five operations (push, pop, clear) on the max-heap
#[no_mangle]
pub extern "C" fn h_max_history() {
    let mut h = Heap::new();
    let mut m = Max { heap: vec![], popped: vec![] };
    for _ in 0..5 {
        match choice("op", 3) {
            0 => {
                let k = key(INFINITY);
                h.push(k);
                m.heap.push(k);
            }
            1 => {
                m.pop(&mut h);
            }
            _ => {
                h.clear();
                m.heap.clear();
                m.popped.clear();
            }
        }
        m.check(&h);
    }
    while m.pop(&mut h) {
        m.check(&h);
    }
}
entries!(
    h_push_pop, h_two_levels, h_update_key, h_increase, h_decrease, h_history, h_t_history, h_drain, h_clear, h_max_retain,
    h_max_retain_all_in_heap, h_max_retain_big, h_max_history
);
