//! bit vectors, rank/select maps and edge tail lookup
use harness::*;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::*;
/// a bit vector in which exactly the bits of `pos` are free (symbolic); returns it with the bits
fn sym_bits(size: usize, pos: &[usize]) -> (BitVec, Vec<u64>) {
    let mut words = vec![0u64; (size + 63) / 64];
    let mut bits = Vec::new();
    for &p in pos {
        let b = sym_bool("bit") as u64;
        words[p / 64] |= b << (p % 64);
        bits.push(b);
    }
    let mut v = BitVec::new(size);
    let bytes = v.data_bytes_mut();
    check(bytes.len() == words.len() * 8, "storage size");
    for (i, w) in words.iter().enumerate() {
        for k in 0..8 {
            bytes[i * 8 + k] = (w >> (8 * k)) as u8;
        }
    }
    (v, bits)
}
fn below(pos: &[usize], bits: &[u64], key: usize) -> u64 {
    let mut s = 0;
    for (i, &p) in pos.iter().enumerate() {
        if p < key {
            s += bits[i];
        }
    }
    s
}
fn rank(size: usize, pos: &[usize], keys: &[usize]) {
    let (v, bits) = sym_bits(size, pos);
    check(v.len() == size, "size");
    check(v.count_ones() as u64 == below(pos, &bits, size), "number of set bits");
    let m = RankSelectMap::new(v);
    check(m.len() as u64 == below(pos, &bits, size), "number of entries");
    check(m.is_empty() == (below(pos, &bits, size) == 0), "emptiness");
    check(m.get(size).is_none(), "keys outside are not contained");
    let key = keys[choice("key", keys.len())];
    let isin = pos.iter().position(|&p| p == key).map(|i| bits[i] != 0).unwrap_or(false);
    match m.get(key) {
        Some(r) => {
            check(isin, "only inserted keys are found");
            check(r as u64 == below(pos, &bits, key), "local id is the number of smaller keys");
            check(m.at(key) == r, "at agrees with get");
            check(m.at_or_next_lower(key) == r, "at_or_next_lower agrees with get");
        }
        None => {
            check(!isin, "inserted keys are found");
            let b = below(pos, &bits, key);
            if b > 0 {
                check(m.at_or_next_lower(key) as u64 == b - 1, "id of the next lower key");
            }
        }
    }
}
const POS: [usize; 10] = [0, 1, 30, 63, 64, 100, 127, 130, 140, 149];
/// 150 bits, all subsets of ten positions: rank, membership and size for the listed keys
#[no_mangle]
pub extern "C" fn h_rank() {
    rank(150, &POS, &[0, 1, 2, 31, 63, 64, 65, 127, 128, 130, 148, 149])
}
/// 1300 bits (three prefix blocks), all subsets of nine positions around the block borders
#[no_mangle]
pub extern "C" fn h_rank_blocks() {
    rank(1300, &[5, 510, 511, 512, 600, 1023, 1024, 1290, 1299], &[0, 5, 511, 512, 513, 599, 1023, 1024, 1025, 1298, 1299])
}
/// sizes that are multiples of the word and of the block size
#[no_mangle]
pub extern "C" fn h_rank_multiple() {
    let size = [64usize, 512, 1024][choice("size", 3)];
    rank(size, &[0, 7, 62, 63, size - 2, size - 1][..if size == 64 { 4 } else { 6 }], &[0, 1, 63, size - 1])
}
fn inverse(size: usize, pos: &[usize], fixed: &[usize]) {
    let mut all: Vec<usize> = pos.iter().chain(fixed).copied().collect();
    all.sort_unstable();
    all.dedup();
    let mut v = BitVec::new(size);
    let mut contained = Vec::new();
    for &p in &all {
        if fixed.contains(&p) || sym_bool("bit") {
            v.set(p);
            contained.push(p);
        }
    }
    let m = InvertableRankSelectMap::new(RankSelectMap::new(v));
    check(m.len() == contained.len(), "number of entries");
    for (i, &p) in contained.iter().enumerate() {
        check(m.get(p) == Some(i), "rank");
        check(m.inverse(i) == p, "inverse of the rank is the key");
    }
}
/// inverse lookup, all subsets of ten positions in 150 bits
#[no_mangle]
pub extern "C" fn h_inverse() {
    inverse(150, &POS, &[])
}
/// inverse lookup, all subsets of nine positions spread over six prefix blocks, so that blocks may be empty
#[no_mangle]
pub extern "C" fn h_inverse_blocks() {
    inverse(3000, &[5, 511, 512, 1030, 1540, 2046, 2048, 2500, 2999], &[])
}
/// inverse lookup with more than 256 entries: 300 or 515 fixed bits and all subsets of five positions around them
#[no_mangle]
pub extern "C" fn h_inverse_groups() {
    let fixed: Vec<usize> = match choice("shape", 3) {
        0 => (600..900).collect(),
        1 => (0..300).map(|i| i * 7 + 1).collect(),
        _ => (520..1035).collect(),
    };
    inverse(2600, &[0, 512, 2150, 2500, 2599], &fixed)
}
/// select inside one word: any word with ten free bits
#[no_mangle]
pub extern "C" fn h_inverse_word() {
    inverse(64, &[0, 3, 7, 8, 15, 16, 31, 32, 48, 63], &[])
}
/// bit vector: three operations (set, unset, clear, set_all, unset_all_around) at symbolic positions, any size up to 130
#[no_mangle]
pub extern "C" fn h_bitvec() {
    let n = [1usize, 64, 65, 130][choice("n", 4)];
    let mut v = BitVec::new(n);
    let mut m = vec![false; n];
    let idx = |_: ()| [0usize, n / 2, n - 1][choice("i", 3)];
    for _ in 0..3 {
        match choice("op", 5) {
            0 => {
                let i = idx(());
                v.set(i);
                m[i] = true;
            }
            1 => {
                let i = idx(());
                v.unset(i);
                m[i] = false;
            }
            2 => {
                v.clear();
                m = vec![false; n];
            }
            3 => {
                v.set_all();
                m = vec![true; n];
            }
            _ => {
                let i = idx(());
                v.unset_all_around(i);
                for k in 0..n {
                    if k / 64 == i / 64 {
                        m[k] = false;
                    }
                }
            }
        }
    }
    let mut ok = v.len() == n && !v.is_empty();
    for i in 0..n {
        ok &= v.get(i) == m[i];
    }
    check(ok, "bits as last written");
    check(v.count_ones() == m.iter().filter(|&&x| x).count(), "number of set bits");
    let r = RankSelectMap::new(v);
    check(r.len() == m.iter().filter(|&&x| x).count(), "map contains the set bits");
}
/// bit vector of 130 bits: two sets and an unset at symbolic positions, observed at a symbolic position
#[no_mangle]
pub extern "C" fn h_bitvec_sym() {
    let n = 130;
    let mut v = BitVec::new(n);
    let s = |x: &str| sym_range(x, 0, n as u32 - 1);
    let (a, b, c, p) = (s("a"), s("b"), s("c"), s("p"));
    v.set(a as usize);
    v.set(b as usize);
    v.unset(c as usize);
    check(v.get(p as usize) == (((p == a) | (p == b)) & (p != c)), "bits as last written");
    v.set_all();
    v.unset(c as usize);
    check(v.get(p as usize) == (p != c), "bits as last written");
    v.unset_all_around(a as usize);
    check(v.get(p as usize) == ((p != c) & (p / 64 != a / 64)), "bits as last written");
}
fn tails(degs: &[usize]) {
    let mut fo = vec![0u32];
    let mut tail = Vec::new();
    for (u, &d) in degs.iter().enumerate() {
        for _ in 0..d {
            tail.push(u as u32);
        }
        fo.push(tail.len() as u32);
    }
    let m = tail.len();
    let g = rust_road_router::datastr::graph::OwnedGraph::new(fo.clone(), vec![0; m], vec![0; m]);
    let map = LinkIdToTailMapper::new(&g);
    for e in 0..m {
        check(map.link_id_to_tail(e as u32) == tail[e], "tail of an edge by map");
        check(link_id_to_tail(&fo, e as u32) == tail[e], "tail of an edge by search");
    }
}
/// tail lookup for all graphs of five nodes with degrees 0 to 2
#[no_mangle]
pub extern "C" fn h_tails() {
    let d: Vec<usize> = (0..5).map(|_| choice("deg", 3)).collect();
    tails(&d)
}
/// tail lookup by search for any symbolic degrees (0 to 40) of five nodes and any edge; by map with larger concrete degrees
#[no_mangle]
pub extern "C" fn h_tails_sym() {
    let d: Vec<u32> = (0..5).map(|_| sym_range("deg", 0, 40)).collect();
    let mut fo = vec![0u32];
    for x in &d {
        fo.push(fo[fo.len() - 1] + x);
    }
    let e = sym_u32("e");
    assume(e < fo[5]);
    let t = concretize(link_id_to_tail(&fo, e)) as usize;
    check(t < 5, "tail is a node");
    check((fo[t] <= e) & (e < fo[t + 1]), "edge belongs to its tail");
}
/// tail lookup with hundreds of edges and one to three degree-zero nodes in between
#[no_mangle]
pub extern "C" fn h_tails_big() {
    let z = choice("zeros", 4);
    let mut d = vec![300];
    d.extend(vec![0; z]);
    d.push([212, 213, 1][choice("deg", 3)]);
    d.extend(vec![0; choice("zeros", 3)]);
    d.push(520);
    d.extend(vec![0; choice("zeros", 3)]);
    tails(&d)
}
entries!(
    h_rank, h_rank_blocks, h_rank_multiple, h_inverse, h_inverse_blocks, h_inverse_groups, h_inverse_word, h_bitvec, h_bitvec_sym, h_tails, h_tails_sym,
    h_tails_big
);
