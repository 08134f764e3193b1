//! C19 out-of-range arguments, C20 serialisation, C21 configuration agreement, C22 space.
use crate::alloc::retained;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use serde::{de::DeserializeOwned, Serialize};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, LevelTree, RsVec, SparseRSVec, SubtreeSize, Tree, WaveletMatrix};

// ---------------------------------------------------------------------------------------------
// C19

/// an index that is not below `len`
fn beyond(src: &mut Src, len: usize) -> usize {
    let v = match src.pick(&[3, 3, 2, 2, 3, 3]) {
        5 => alias(src, len),
        0 => len,
        1 => len.saturating_add(src.uupto(130)),
        2 => usize::MAX - src.uupto(130),
        3 => {
            let b = src.upto(63);
            let d = src.upto(2);
            (1u64 << b).wrapping_add(d).wrapping_sub(1) as usize
        }
        _ => *src.choose(&[usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX / 64, usize::MAX / 64 + 1]),
    };
    v.max(len)
}

/// any index: inside, at the end, or beyond
fn any_index(src: &mut Src, len: usize) -> usize {
    if len > 0 && src.flag() { src.uupto(len - 1) } else { beyond(src, len) }
}

macro_rules! np {
    ($e:expr, $($w:tt)*) => {
        match guarded(|| $e) {
            Ok(v) => v,
            Err(p) => return Err(format!("{}: {p}", format!($($w)*))),
        }
    };
}

fn read_width(src: &mut Src) -> usize {
    match src.pick(&[4, 2, 2]) {
        0 => src.urange(1, 64),
        1 => *src.choose(&[64usize, 63, 1, 65, 66, 128]),
        _ => beyond(src, 65),
    }
}

pub fn oob_bits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if src.chance(1, 60) { 100_000 } else { 700 };
    let m = gen_bits(src, max);
    let n = m.len();
    let ones = m.iter().filter(|&&b| b).count();
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(n > 1);
    let mut bv = build_bv(src, &m);
    let mask = BitVec::from_ones(n);
    let rs = rs_of(src, &m);
    for _ in 0..6 {
        let p = beyond(src, n);
        ensure_eq!(np!(bv.get(p), "BitVec::get({p})"), None, "BitVec::get({p}), {n} bits");
        ensure_eq!(np!(bv.is_bit_set(p), "BitVec::is_bit_set({p})"), None, "BitVec::is_bit_set({p}), {n} bits");
        ensure_eq!(np!(rs.get(p), "RsVec::get({p})"), None, "RsVec::get({p}), {n} bits");
        ensure_eq!(np!(rs.rank1(p), "RsVec::rank1({p})"), ones, "RsVec::rank1({p}), {n} bits");
        ensure_eq!(np!(rs.rank0(p), "RsVec::rank0({p})"), n - ones, "RsVec::rank0({p}), {n} bits");
        let r = beyond(src, ones);
        ensure_eq!(np!(rs.select1(r), "RsVec::select1({r})"), n, "RsVec::select1({r}), {ones} one-bits");
        let r = beyond(src, n - ones);
        ensure_eq!(np!(rs.select0(r), "RsVec::select0({r})"), n, "RsVec::select0({r}), {} zero-bits", n - ones);
        let v = src.upto(3);
        ensure!(np!(bv.set(p, v).is_err(), "BitVec::set({p}, {v})"), "BitVec::set({p}, {v}) of {n} bits is accepted");
        {
            let mv = bv.mask_and(&mask).map_err(|e| format!("mask of equal length refused: {e}"))?;
            ensure_eq!(np!(mv.get(p), "masked get({p})"), None, "masked get({p}), {n} bits");
            ensure_eq!(np!(mv.is_bit_set(p), "masked is_bit_set({p})"), None, "masked is_bit_set({p}), {n} bits");
        }
        // windows that start or end outside, or are too wide
        let (p, l) = (any_index(src, n), read_width(src));
        let e = model_get_bits(&m, p, l);
        ensure_eq!(np!(bv.get_bits(p, l), "BitVec::get_bits({p}, {l})"), e, "BitVec::get_bits({p}, {l}), {n} bits");
        ensure_eq!(np!(rs.get_bits(p, l), "RsVec::get_bits({p}, {l})"), e, "RsVec::get_bits({p}, {l}), {n} bits");
        {
            let mv = bv.mask_and(&mask).map_err(|e| format!("mask of equal length refused: {e}"))?;
            ensure_eq!(np!(mv.get_bits(p, l), "masked get_bits({p}, {l})"), e, "masked get_bits({p}, {l}), {n} bits");
        }
        let (i, l) = (any_index(src, n), read_width(src));
        let e = i.checked_mul(l).and_then(|p| model_get_bits(&m, p, l));
        ensure_eq!(np!(bv.unpack_element(i, l), "unpack_element({i}, {l})"), e, "unpack_element({i}, {l}), {n} bits");
        // a read of no bits answers nothing
        let p = any_index(src, n);
        let z = np!(bv.get_bits(p, 0), "BitVec::get_bits({p}, 0)");
        ensure!(matches!(z, None | Some(0)), "BitVec::get_bits({p}, 0) = {z:?}");
        let z = np!(rs.get_bits(p, 0), "RsVec::get_bits({p}, 0)");
        ensure!(matches!(z, None | Some(0)), "RsVec::get_bits({p}, 0) = {z:?}");
        // flipping a bit that does not exist panics instead of corrupting
        if src.chance(1, 4) {
            let p = beyond(src, n);
            ensure!(guarded(|| bv.flip_bit(p)).is_err(), "flip_bit({p}) of {n} bits is accepted");
        }
        // splitting behind the end gives the vector back
        let p = beyond(src, n + 1);
        let all = std::mem::take(&mut bv);
        match np!(all.split_at(p), "split_at({p})") {
            Ok((a, b)) => return Err(format!("split_at({p}) of {n} bits gives {} and {} bits", a.len(), b.len())),
            Err(v) => bv = v,
        }
        // masks of another length are refused
        let o = gen_len(src, 300);
        if o != n {
            let other = BitVec::from_ones(o);
            ensure!(bv.mask_or(&other).is_err() && bv.mask_and(&other).is_err() && bv.mask_xor(&other).is_err(), "mask of {o} bits accepted for {n} bits");
            ensure!(bv.mask_custom(&other, |a, _| a).is_err(), "custom mask of {o} bits accepted for {n} bits");
            ensure!(bv.apply_mask_or(&other).is_err() && bv.apply_mask_and(&other).is_err() && bv.apply_mask_xor(&other).is_err(), "apply mask of {o} bits accepted for {n} bits");
            ensure!(bv.apply_mask_custom(&other, |a, b| a ^ b).is_err(), "custom apply mask of {o} bits accepted for {n} bits");
        }
    }
    check_bv(&bv, &m, "after refused operations")?;
    let k = beyond(src, n);
    np!(bv.drop_last(k), "drop_last({k})");
    check_bv(&bv, &[], "after dropping more bits than there are")
}

pub fn oob_sorted(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if src.chance(1, 60) { 30_000 } else { 200 };
    let v = gen_sorted(src, max, true);
    let n = v.len();
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(n > 1);
    let ef = EliasFanoVec::from_slice(&v);
    let last = v.last().copied().unwrap_or(0);
    if last == u64::MAX {
        ctx.label("full universe");
    }
    let len = match src.pick(&[2, 1, 1]) {
        0 => last.saturating_add(1),
        1 => last.saturating_add(1).saturating_add(src.upto(100)),
        _ => u64::MAX,
    };
    let sparse = if last < len { Some(SparseRSVec::new(&v, len)) } else { None };
    for _ in 0..8 {
        let i = beyond(src, n);
        ensure_eq!(np!(ef.get(i), "EliasFanoVec::get({i})"), None, "EliasFanoVec::get({i}), {n} elements");
        ensure_eq!(np!(ef.select(i), "EliasFanoVec::select({i})"), None, "EliasFanoVec::select({i}), {n} elements");
        ensure_eq!(np!(ef.delta(i), "EliasFanoVec::delta({i})"), None, "EliasFanoVec::delta({i}), {n} elements");
        let q = src.word();
        if v.first().is_none_or(|&f| q < f) {
            ensure_eq!(np!(ef.predecessor(q), "predecessor({q})"), None, "predecessor({q}) below all elements");
        }
        if v.last().is_none_or(|&l| q > l) {
            ensure_eq!(np!(ef.successor(q), "successor({q})"), None, "successor({q}) above all elements");
            ensure_eq!(np!(ef.rank(q), "rank({q})"), n as u64, "rank({q}) above all elements");
        }
        if let Some(s) = &sparse {
            let p = len.saturating_add(match src.pick(&[2, 2, 1]) {
                0 => 0,
                1 => src.upto(100),
                _ => src.word(),
            });
            ensure_eq!(np!(s.get(p), "sparse get({p})"), None, "sparse get({p}), length {len}");
            ensure_eq!(np!(s.is_set(p), "sparse is_set({p})"), None, "sparse is_set({p}), length {len}");
            ensure_eq!(np!(s.rank1(p), "sparse rank1({p})"), n as u64, "sparse rank1({p}), length {len}");
            ensure_eq!(np!(s.rank0(p), "sparse rank0({p})"), len - n as u64, "sparse rank0({p}), length {len}");
            ensure_eq!(np!(s.select1(i), "sparse select1({i})"), len, "sparse select1({i}), {n} one-bits");
        }
    }
    Ok(())
}

pub fn oob_tree(src: &mut Src, ctx: &mut Ctx) -> Res {
    let balanced = src.flag();
    let max = if src.chance(1, 60) { 100_000 } else { 1500 };
    let m = if balanced { gen_tree_bits(src, max) } else { gen_parens(src, max) };
    let n = m.len();
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(n > 1);
    let t: BpTree = BpTree::from_bit_vector(build_bv(src, &m));
    let total: i64 = m.iter().map(|&b| if b { 1 } else { -1 }).sum();
    for _ in 0..8 {
        let i = beyond(src, n);
        let rel = src.upto(40) as i64 - 20;
        ensure_eq!(np!(t.fwd_search(i, rel), "fwd_search({i}, {rel})"), None, "fwd_search({i}, {rel}), {n} bits");
        ensure_eq!(np!(t.bwd_search(i, rel), "bwd_search({i}, {rel})"), None, "bwd_search({i}, {rel}), {n} bits");
        ensure_eq!(np!(t.close(i), "close({i})"), None, "close({i}), {n} bits");
        ensure_eq!(np!(t.open(i), "open({i})"), None, "open({i}), {n} bits");
        ensure_eq!(np!(t.enclose(i), "enclose({i})"), None, "enclose({i}), {n} bits");
        ensure_eq!(np!(t.excess(i), "excess({i})"), total, "excess({i}), {n} bits");
        if balanced {
            let l = (n / 2 + 1 + src.uupto(3)).max(beyond(src, n)).min(1 << 61) as u64;
            ensure_eq!(np!(t.level_leftmost(l), "level_leftmost({l})"), None, "level_leftmost({l}), {n} bits");
            ensure_eq!(np!(t.level_rightmost(l), "level_rightmost({l})"), None, "level_rightmost({l}), {n} bits");
            if let Some(r) = t.root() {
                ensure_eq!(np!(t.level_ancestor(r, l), "level_ancestor(root, {l})"), None, "level_ancestor(root, {l}), {n} bits");
            }
        }
    }
    Ok(())
}

fn bits_arg(src: &mut Src, k: usize) -> BitVec {
    let b: Vec<bool> = (0..k).map(|_| src.flag()).collect();
    BitVec::from_bools(&b)
}

pub fn oob_wavelet(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true).min(130);
    let max = if src.chance(1, 60) { 5_000 } else { 120 };
    let v = gen_seq(src, max, k);
    let n = v.len();
    ctx.note(|| show_seq(&v, k));
    ctx.nontrivial_if(n > 1);
    let w = build_wm(src, &v, k);
    let kk = w.bits_per_element();
    ensure!(kk == k || n == 0, "bits_per_element {kk}, expected {k}");
    let narrow = kk <= 64;
    macro_rules! none {
        ($e:expr, $($t:tt)*) => {{
            let g = np!($e, $($t)*);
            if let Some(x) = g {
                return Err(format!("{} answers {:?} ({n} elements of {kk} bits)", format!($($t)*), x));
            }
        }};
    }
    for _ in 0..5 {
        let good = bits_arg(src, kk);
        let u = if kk < 64 { src.word() & ((1 << kk) - 1) } else { src.word() };
        let i = beyond(src, n);
        none!(w.get_value(i), "get_value({i})");
        none!(w.get_u64(i), "get_u64({i})");
        none!(w.get_sorted(i), "get_sorted({i})");
        none!(w.get_sorted_u64(i), "get_sorted_u64({i})");
        let i1 = beyond(src, n + 1);
        none!(w.rank(i1, &good), "rank({i1}, symbol)");
        none!(w.rank_u64(i1, u), "rank_u64({i1}, {u})");
        let r = beyond(src, n);
        none!(w.select(r, &good), "select({r}, symbol)");
        none!(w.select_u64(r, u), "select_u64({r}, {u})");
        let o = any_index(src, n);
        none!(w.select_offset(o, r, &good), "select_offset({o}, {r}, symbol)");
        none!(w.select_offset_u64(o, r, u), "select_offset_u64({o}, {r}, {u})");
        let r = src.uupto(3);
        none!(w.select_offset(i, r, &good), "select_offset({i}, {r}, symbol)");
        none!(w.select_offset_u64(i, r, u), "select_offset_u64({i}, {r}, {u})");

        // ranges: reversed, or reaching outside
        let (a, b) = match src.pick(&[3, 3, 2]) {
            0 => {
                let b = if n == 0 { 0 } else { src.uupto(n) };
                (beyond(src, b + 1), b)
            }
            1 => (any_index(src, n), beyond(src, n + 1)),
            _ => (beyond(src, n + 1), beyond(src, n + 1)),
        };
        none!(w.rank_range(a..b, &good), "rank_range({a}..{b}, symbol)");
        none!(w.rank_range_u64(a..b, u), "rank_range_u64({a}..{b}, {u})");
        none!(w.rank_offset(a, b, &good), "rank_offset({a}, {b}, symbol)");
        none!(w.rank_offset_u64(a, b, u), "rank_offset_u64({a}, {b}, {u})");
        let q = any_index(src, n);
        none!(w.quantile(a..b, q), "quantile({a}..{b}, {q})");
        none!(w.quantile_u64(a..b, q), "quantile_u64({a}..{b}, {q})");
        none!(w.range_min(a..b), "range_min({a}..{b})");
        none!(w.range_min_u64(a..b), "range_min_u64({a}..{b})");
        none!(w.range_max(a..b), "range_max({a}..{b})");
        none!(w.range_max_u64(a..b), "range_max_u64({a}..{b})");
        none!(w.range_median(a..b), "range_median({a}..{b})");
        none!(w.range_median_u64(a..b), "range_median_u64({a}..{b})");
        none!(w.predecessor(a..b, &good), "predecessor({a}..{b}, symbol)");
        none!(w.predecessor_u64(a..b, u), "predecessor_u64({a}..{b}, {u})");
        none!(w.successor(a..b, &good), "successor({a}..{b}, symbol)");
        none!(w.successor_u64(a..b, u), "successor_u64({a}..{b}, {u})");
        // empty range, quantile behind a range
        if n > 0 {
            let a = src.uupto(n - 1);
            let b = src.urange(a, n);
            let q = beyond(src, b - a);
            none!(w.quantile(a..b, q), "quantile({a}..{b}, {q})");
            none!(w.quantile_u64(a..b, q), "quantile_u64({a}..{b}, {q})");
            none!(w.range_min(a..a), "range_min({a}..{a})");
            none!(w.range_max(a..a), "range_max({a}..{a})");
            none!(w.range_median(a..a), "range_median({a}..{a})");
            none!(w.predecessor(a..a, &good), "predecessor({a}..{a}, symbol)");
            none!(w.successor(a..a, &good), "successor({a}..{a}, symbol)");
            none!(w.range_min_u64(a..a), "range_min_u64({a}..{a})");
            none!(w.range_max_u64(a..a), "range_max_u64({a}..{a})");
            none!(w.range_median_u64(a..a), "range_median_u64({a}..{a})");
            none!(w.predecessor_u64(a..a, u), "predecessor_u64({a}..{a}, {u})");
            none!(w.successor_u64(a..a, u), "successor_u64({a}..{a}, {u})");
            // symbols of the wrong width
            let wrong = match src.pick(&[2, 2, 1, 1]) {
                0 => kk - 1,
                1 => kk + 1,
                2 => 0,
                _ => kk + 64,
            };
            let bad = bits_arg(src, wrong);
            none!(w.rank(n, &bad), "rank({n}, symbol of {wrong} bits)");
            none!(w.rank_range(0..n, &bad), "rank_range(0..{n}, symbol of {wrong} bits)");
            none!(w.rank_offset(0, n, &bad), "rank_offset(0, {n}, symbol of {wrong} bits)");
            none!(w.select(0, &bad), "select(0, symbol of {wrong} bits)");
            none!(w.select_offset(0, 0, &bad), "select_offset(0, 0, symbol of {wrong} bits)");
            none!(w.predecessor(0..n, &bad), "predecessor(0..{n}, symbol of {wrong} bits)");
            none!(w.successor(0..n, &bad), "successor(0..{n}, symbol of {wrong} bits)");
            if !narrow {
                ctx.label("elements wider than 64 bits");
                none!(w.get_u64(0), "get_u64(0)");
                none!(w.get_sorted_u64(0), "get_sorted_u64(0)");
                none!(w.rank_u64(n, u), "rank_u64({n}, {u})");
                none!(w.rank_range_u64(0..n, u), "rank_range_u64(0..{n}, {u})");
                none!(w.rank_offset_u64(0, n, u), "rank_offset_u64(0, {n}, {u})");
                none!(w.select_u64(0, u), "select_u64(0, {u})");
                none!(w.select_offset_u64(0, 0, u), "select_offset_u64(0, 0, {u})");
                none!(w.quantile_u64(0..n, 0), "quantile_u64(0..{n}, 0)");
                none!(w.range_min_u64(0..n), "range_min_u64(0..{n})");
                none!(w.range_max_u64(0..n), "range_max_u64(0..{n})");
                none!(w.range_median_u64(0..n), "range_median_u64(0..{n})");
                none!(w.predecessor_u64(0..n, u), "predecessor_u64(0..{n}, {u})");
                none!(w.successor_u64(0..n, u), "successor_u64(0..{n}, {u})");
                ensure!(w.iter_u64().is_none() && w.iter_sorted_u64().is_none(), "u64 iterators over elements of {kk} bits");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Observation: everything a structure answers, as a list of numbers. Used to compare a structure
// with its serialised copy (C20) and with the same structure in another build (C21).

#[derive(Default)]
struct Obs(Vec<u64>);
impl Obs {
    fn u(&mut self, v: u64) {
        self.0.push(v);
    }
    fn o(&mut self, v: Option<u64>) {
        match v {
            None => self.0.push(0xDEAD_BEEF_0000_0001),
            Some(x) => {
                self.0.push(0xDEAD_BEEF_0000_0002);
                self.0.push(x);
            }
        }
    }
    fn os(&mut self, v: Option<usize>) {
        self.o(v.map(|x| x as u64))
    }
    fn bits(&mut self, b: &BitVec) {
        self.u(b.len() as u64);
        let mut i = 0;
        while i < b.len() {
            let n = (b.len() - i).min(64);
            self.o(b.get_bits(i, n));
            i += n;
        }
    }
}

fn spread(seed: u64, n: usize, max: usize) -> Vec<usize> {
    // indices 0..=n, all of them if few
    if n <= max {
        return (0..=n).collect();
    }
    let mut r = Rng::new(seed);
    let mut v: Vec<usize> = (0..max).map(|_| r.upto(n as u64) as usize).collect();
    v.extend([0, 1, n - 1, n]);
    v
}

fn obs_bv(b: &BitVec) -> Vec<u64> {
    let mut o = Obs::default();
    o.bits(b);
    o.u(b.count_ones());
    o.u(b.heap_size() as u64);
    o.u(b.iter().fold(0, |a, x| mix(a ^ x)));
    o.0
}

fn obs_rs(r: &RsVec, seed: u64) -> Vec<u64> {
    let mut o = Obs::default();
    let n = r.len();
    o.u(n as u64);
    for p in spread(seed, n, 600) {
        o.o(r.get(p));
        o.u(r.rank1(p) as u64);
        o.u(r.rank0(p) as u64);
        o.u(r.select0(p) as u64);
        o.u(r.select1(p) as u64);
        o.o(r.get_bits(p, (n - p).min(64)));
    }
    o.u(r.iter0().fold(0, |a, x| mix(a ^ x as u64)));
    o.u(r.iter1().rev().fold(0, |a, x| mix(a ^ x as u64)));
    o.u(r.heap_size() as u64);
    o.0
}

fn obs_ef(e: &EliasFanoVec, q: &[u64]) -> Vec<u64> {
    let mut o = Obs::default();
    o.u(e.len() as u64);
    o.0.extend(e.iter());
    for i in spread(q.len() as u64, e.len(), 300) {
        o.o(e.get(i));
        o.o(e.delta(i));
    }
    for &x in q {
        o.o(e.predecessor(x));
        o.o(e.successor(x));
        o.u(e.rank(x));
    }
    o.u(e.heap_size() as u64);
    o.0
}

fn obs_sparse(s: &SparseRSVec, q: &[u64]) -> Vec<u64> {
    let mut o = Obs::default();
    o.u(s.len());
    o.0.extend(s.iter1());
    for &x in q {
        o.o(s.get(x));
        o.u(s.rank1(x));
        o.u(s.rank0(x));
    }
    for i in 0..10 {
        o.u(s.select1(i * 7));
    }
    o.0
}

fn obs_rmq(b: &BinaryRmq, f: &FastRmq, v: &[u64], seed: u64) -> Result<Vec<u64>, String> {
    let mut o = Obs::default();
    o.0.extend(b.iter());
    o.0.extend(f.iter());
    if v.is_empty() {
        return Ok(o.0);
    }
    let mut r = Rng::new(seed);
    for _ in 0..200 {
        let i = r.upto(v.len() as u64 - 1) as usize;
        let j = i + r.upto((v.len() - 1 - i) as u64) as usize;
        // which of several equal minima is reported is not specified: observe the value
        let (x, y) = (b.range_min(i, j), f.range_min(i, j));
        ensure!((i..=j).contains(&x) && (i..=j).contains(&y), "range_min({i}, {j}) outside the range");
        o.u(v[x]);
        o.u(v[y]);
    }
    Ok(o.0)
}

fn obs_bp(t: &BpTree, m: &[bool], seed: u64) -> Vec<u64> {
    let mut o = Obs::default();
    o.u(t.size() as u64);
    o.os(t.root());
    let n = m.len();
    let mut r = Rng::new(seed);
    for p in spread(seed, n, 300) {
        let wide = if r.next() & 1 == 0 { 10 } else { 1 + n as u64 / 2 };
        let rel = r.upto(2 * wide) as i64 - wide as i64;
        o.os(t.fwd_search(p, rel));
        o.os(t.bwd_search(p, rel));
        o.os(t.close(p));
        o.os(t.enclose(p));
        if p < n && m[p] {
            o.os(t.parent(p));
            o.os(t.next_sibling(p));
            o.os(t.previous_sibling(p));
            o.os(t.first_child(p));
            o.os(t.last_child(p));
            o.os(t.level_next(p));
            o.os(t.level_prev(p));
            let d = t.depth(p);
            o.u(d);
            o.os(t.level_ancestor(p, r.upto(d + 1)));
            o.os(t.level_leftmost(r.upto(d + 1)));
            o.os(t.level_rightmost(r.upto(d + 1)));
            o.os(t.subtree_size(p));
        }
    }
    o.u(t.heap_size() as u64);
    o.0
}

fn obs_wm(w: &WaveletMatrix, k: usize, v: &[Sym], seed: u64) -> Vec<u64> {
    let mut o = Obs::default();
    let n = w.len();
    o.u(n as u64);
    o.u(w.bits_per_element() as u64);
    for x in w.iter() {
        o.bits(&x);
    }
    let mut r = Rng::new(seed);
    if n > 0 {
        for _ in 0..40 {
            let a = r.upto(n as u64 - 1) as usize;
            let b = a + 1 + r.upto((n - 1 - a) as u64) as usize;
            let s = if r.next() & 1 == 0 { v[r.upto(n as u64 - 1) as usize].clone() } else { (0..k).map(|_| r.next() & 1 == 1).collect() };
            let s = BitVec::from_bools(&s);
            o.os(w.rank_range(a..b, &s));
            o.os(w.select_offset(a, r.upto(3) as usize, &s));
            for x in [w.quantile(a..b, r.upto((b - a) as u64) as usize), w.predecessor(a..b, &s), w.successor(a..b, &s), w.range_median(a..b)] {
                match x {
                    Some(x) => o.bits(&x),
                    None => o.u(7),
                }
            }
        }
    }
    o.u(w.heap_size() as u64);
    o.0
}

// ---------------------------------------------------------------------------------------------
// C20

/// mostly `usual`, sometimes `large`
fn scaled(src: &mut Src, usual: usize, large: usize) -> usize {
    if src.chance(1, 100) { large } else { usual }
}

fn round_trip<T: Serialize + DeserializeOwned>(t: &T, what: &str, obs: impl Fn(&T) -> Result<Vec<u64>, String>) -> Res {
    let before = obs(t)?;
    let js = np!(serde_json::to_string(t), "{what} to JSON").map_err(|e| format!("{what} to JSON: {e}"))?;
    let a: T = np!(serde_json::from_str(&js), "{what} from JSON").map_err(|e| format!("{what} from JSON: {e}"))?;
    let oa = np!(obs(&a), "{what} after JSON round trip")?;
    ensure!(oa == before, "{what} answers differently after a JSON round trip ({})", first_diff(&before, &oa));
    let bin = np!(bincode::serialize(t), "{what} to bincode").map_err(|e| format!("{what} to bincode: {e}"))?;
    let b: T = np!(bincode::deserialize(&bin), "{what} from bincode").map_err(|e| format!("{what} from bincode: {e}"))?;
    let ob = np!(obs(&b), "{what} after bincode round trip")?;
    ensure!(ob == before, "{what} answers differently after a bincode round trip ({})", first_diff(&before, &ob));
    // a second generation is identical to the first
    let bin2 = bincode::serialize(&b).map_err(|e| e.to_string())?;
    ensure!(bin2 == bin, "{what}: a deserialised copy serialises differently");
    Ok(())
}

fn first_diff(a: &[u64], b: &[u64]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("observation {i}: {} before, {} after", a[i], b[i]),
        None => format!("{} observations before, {} after", a.len(), b.len()),
    }
}

pub fn serde_vec(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 20_000, 1_000_000);
    let m = gen_bits(src, max);
    let seed = src.upto(0xFFFF);
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(m.len() > 64);
    let bv = build_bv(src, &m);
    round_trip(&bv, "BitVec", |b| Ok(obs_bv(b)))?;
    // a deserialised vector keeps growing correctly
    let bin = bincode::serialize(&bv).map_err(|e| e.to_string())?;
    let mut g: BitVec = bincode::deserialize(&bin).map_err(|e| e.to_string())?;
    let w = src.word();
    let n = src.urange(1, 64);
    g.append_bits(w, n);
    g.append(true);
    let mut m2 = m.clone();
    m2.extend((0..n).map(|i| w >> i & 1 == 1));
    m2.push(true);
    check_bv(&g, &m2, "deserialised vector after appending")?;
    ensure!(bincode::deserialize::<BitVec>(&bin).map_err(|e| e.to_string())? == bv, "BitVec differs from its serialised copy");
    let rs = RsVec::from_bit_vec(bv);
    round_trip(&rs, "RsVec", |r| Ok(obs_rs(r, seed)))?;
    let copy: RsVec = bincode::deserialize(&bincode::serialize(&rs).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(copy == rs, "RsVec differs from its serialised copy");
    check_bv(&copy.into_bit_vec(), &m, "bits of a deserialised RsVec")
}

pub fn serde_sorted(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 2000, 60_000);
    let v = gen_sorted(src, max, true);
    let q = gen_queries(src, &v, 60);
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() > 1);
    round_trip(&EliasFanoVec::from_slice(&v), "EliasFanoVec", |e| Ok(obs_ef(e, &q)))?;
    if v.last().is_none_or(|&l| l < u64::MAX) {
        let len = v.last().map_or(src.upto(10), |&l| l + 1);
        round_trip(&SparseRSVec::new(&v, len), "SparseRSVec", |s| Ok(obs_sparse(s, &q)))?;
    }
    Ok(())
}

pub fn serde_rmq(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 1500, 60_000);
    let n = src.logsize(max);
    let v = gen_values(src, n);
    let seed = src.upto(0xFFFF);
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() > 1);
    let (b, f) = (BinaryRmq::from_vec(v.clone()), FastRmq::from_vec(v.clone()));
    round_trip(&b, "BinaryRmq", |b| obs_rmq(b, &f, &v, seed))?;
    round_trip(&f, "FastRmq", |f| obs_rmq(&b, f, &v, seed))
}

pub fn serde_tree(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 6000, 300_000);
    let m = if src.flag() { gen_tree_bits(src, max) } else { gen_parens(src, max) };
    let seed = src.upto(0xFFFF);
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(m.len() > 2);
    let t: BpTree = BpTree::from_bit_vector(build_bv(src, &m));
    round_trip(&t, "BpTree", |t| Ok(obs_bp(t, &m, seed)))
}

pub fn serde_wavelet(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true);
    let max = scaled(src, 300, 10_000);
    let v = gen_seq(src, max, k);
    let seed = src.upto(0xFFFF);
    ctx.note(|| show_seq(&v, k));
    ctx.nontrivial_if(v.len() > 1);
    let w = build_wm(src, &v, k);
    round_trip(&w, "WaveletMatrix", |w| Ok(obs_wm(w, k, &v, seed)))
}

// ---------------------------------------------------------------------------------------------
// C21: the digest of everything observed, compared between builds by the runner.

fn feed_all(ctx: &mut Ctx, o: Vec<u64>) {
    for x in o {
        ctx.feed(x);
    }
}
fn feed_bytes<T: Serialize>(ctx: &mut Ctx, t: &T) -> Res {
    let b = bincode::serialize(t).map_err(|e| e.to_string())?;
    ctx.feed(b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        ctx.feed(u64::from_le_bytes(w));
    }
    Ok(())
}

pub fn agree(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.upto(0xFFFF);
    match src.pick(&[4, 3, 2, 4, 3]) {
        0 => {
            let max = scaled(src, 30_000, 1_000_000);
            let m = gen_bits(src, max);
            ctx.note(|| show_bits(&m));
            ctx.nontrivial_if(m.len() > 64);
            ctx.label("bit vector");
            let bv = build_bv(src, &m);
            let o = obs_bv(&bv);
            feed_all(ctx, o);
            let rs = RsVec::from_bit_vec(bv);
            let o = obs_rs(&rs, seed);
            feed_all(ctx, o);
            feed_bytes(ctx, &rs)?;
        }
        1 => {
            let max = scaled(src, 3000, 60_000);
            let v = gen_sorted(src, max, true);
            let q = gen_queries(src, &v, 200);
            ctx.note(|| show_vals(&v));
            ctx.nontrivial_if(v.len() > 1);
            ctx.label("sorted sequence");
            let e = EliasFanoVec::from_slice(&v);
            let o = obs_ef(&e, &q);
            feed_all(ctx, o);
            feed_bytes(ctx, &e)?;
        }
        2 => {
            let max = scaled(src, 1500, 60_000);
            let n = src.logsize(max);
            let v = gen_values(src, n);
            ctx.note(|| show_vals(&v));
            ctx.nontrivial_if(v.len() > 1);
            ctx.label("range minimum");
            let (b, f) = (BinaryRmq::from_vec(v.clone()), FastRmq::from_vec(v.clone()));
            let o = obs_rmq(&b, &f, &v, seed)?;
            feed_all(ctx, o);
            feed_bytes(ctx, &b)?;
            feed_bytes(ctx, &f)?;
        }
        3 => {
            let max = scaled(src, 8000, 300_000);
            let m = if src.flag() { gen_tree_bits(src, max) } else { gen_parens(src, max) };
            ctx.note(|| show_bits(&m));
            ctx.nontrivial_if(m.len() > 2);
            ctx.label("tree");
            let t: BpTree = BpTree::from_bit_vector(build_bv(src, &m));
            let o = obs_bp(&t, &m, seed);
            feed_all(ctx, o);
            feed_bytes(ctx, &t)?;
        }
        _ => {
            let k = gen_k(src, true);
            let max = scaled(src, 400, 10_000);
            let v = gen_seq(src, max, k);
            ctx.note(|| show_seq(&v, k));
            ctx.nontrivial_if(v.len() > 1);
            ctx.label("wavelet matrix");
            let w = build_wm(src, &v, k);
            let o = obs_wm(&w, k, &v, seed);
            feed_all(ctx, o);
            feed_bytes(ctx, &w)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

/// `heap_size` is what an exact copy of the structure allocates.
fn exact<T: Clone + mem_dbg::MemSize>(t: &T, heap: usize, what: &str) -> Res {
    // the optional measurement traits agree
    let all = mem_dbg::MemSize::mem_size(t, mem_dbg::SizeFlags::default());
    let own = std::mem::size_of::<T>();
    ensure_eq!(all, own + heap, "{what}: mem_size reports {all}, the structure itself takes {own} and heap_size {heap} bytes");
    let (c, n) = retained(|| t.clone());
    drop(c);
    ensure!(heap as isize == n, "{what}: heap_size reports {heap} bytes, a copy of the structure holds {n} bytes");
    Ok(())
}

/// A structure that was just built from exactly sized input holds its content and at most what
/// growing vectors leave unused: twice its content (`moved` bytes of it were handed in and may not
/// grow), and a constant.
fn held(n: isize, heap: usize, moved: usize, what: &str) -> Res {
    let bound = moved + 2 * heap.saturating_sub(moved) + 256;
    ensure!(n <= bound as isize, "{what}: the structure reports {heap} bytes and holds {n} bytes, more than {bound}");
    Ok(())
}

fn rs_bound(bits: usize) -> usize {
    // the bits, 28 bits for each 512, and a constant for the last incomplete blocks
    bits.div_ceil(64) * 8 + (bits * 28).div_ceil(512 * 8) + RS_CONST
}
const RS_CONST: usize = 64;

pub fn space_bits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if src.chance(1, 10) { 600_000 } else { 20_000 };
    let m = gen_bits(src, max);
    let n = m.len();
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(n > 64);
    let bv = build_bv(src, &m);
    exact(&bv, bv.heap_size(), "BitVec")?;
    ensure!(bv.heap_size() <= n.div_ceil(64) * 8, "BitVec of {n} bits uses {} bytes", bv.heap_size());
    // and after a short history
    let mut hv = bv.clone();
    for _ in 0..src.uupto(6) {
        match src.pick(&[2, 3, 2, 3, 2, 1]) {
            0 => hv.append(src.flag()),
            1 => {
                let k = src.uupto(64);
                hv.append_bits(src.word(), k);
            }
            2 => hv.append_word(src.word()),
            3 => {
                let k = if src.flag() { src.uupto(200) } else { src.uupto(hv.len() + 3) };
                hv.drop_last(k);
            }
            4 => {
                let k = src.uupto(hv.len().min(400));
                let (a, b) = hv.split_at(k).map_err(|_| "split_at within the length failed".to_string())?;
                for x in [&a, &b] {
                    exact(x, x.heap_size(), "BitVec after a split")?;
                    ensure!(x.heap_size() <= x.len().div_ceil(64) * 8, "BitVec of {} bits after a split uses {} bytes", x.len(), x.heap_size());
                }
                hv = if src.flag() { a } else { b };
            }
            _ => {
                let o = BitVec::from_ones(src.uupto(300));
                hv.extend_bitvec(&o);
            }
        }
        ensure!(hv.heap_size() <= hv.len().div_ceil(64) * 8, "BitVec of {} bits uses {} bytes after a history", hv.len(), hv.heap_size());
    }
    exact(&hv, hv.heap_size(), "BitVec after a history")?;
    drop(hv);
    let (z, n0) = retained(|| BitVec::from_zeros(n));
    held(n0, z.heap_size(), 0, "BitVec of zeros")?;
    let (z, n0) = retained(|| BitVec::from_ones(n));
    held(n0, z.heap_size(), 0, "BitVec of ones")?;
    let (z, n0) = retained(|| BitVec::from_bools(&m));
    held(n0, z.heap_size(), 0, "BitVec from booleans")?;
    drop(z);
    let moved = bv.heap_size();
    let (rs, n0) = retained(|| RsVec::from_bit_vec(bv.clone()));
    drop(bv);
    held(n0, rs.heap_size(), moved, "RsVec")?;
    exact(&rs, rs.heap_size(), "RsVec")?;
    ensure!(rs.heap_size() <= rs_bound(n), "RsVec of {n} bits uses {} bytes, more than {}", rs.heap_size(), rs_bound(n));
    let back = rs.into_bit_vec();
    ensure!(back.heap_size() <= n.div_ceil(64) * 8, "BitVec of {n} bits uses {} bytes after the round trip", back.heap_size());
    Ok(())
}

pub fn space_sorted(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if src.chance(1, 10) { 60_000 } else { 3000 };
    let v = gen_sorted(src, max, true);
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() > 1);
    let (e, n0) = retained(|| EliasFanoVec::from_slice(&v));
    held(n0, e.heap_size(), 0, "EliasFanoVec")?;
    exact(&e, e.heap_size(), "EliasFanoVec")?;
    let n = v.len();
    if n > 0 {
        // n * log(u/n) lower bits, and 2-4n upper ones with rank/select support
        let u = v[n - 1] - v[0];
        let width = (((u as u128 + 1) as f64 / n as f64).log2().max(0.0) + 2.0) * n as f64;
        let bound = width as usize / 8 + 8 + rs_bound(5 * n + 64);
        ensure!(e.heap_size() <= bound, "EliasFanoVec of {n} elements, universe {u}, uses {} bytes, more than {bound}", e.heap_size());
    }
    if v.last().is_none_or(|&l| l < u64::MAX) {
        let (s, n0) = retained(|| SparseRSVec::new(&v, v.last().map_or(0, |&l| l + 1)));
        held(n0, s.heap_size(), 0, "SparseRSVec")?;
        exact(&s, s.heap_size(), "SparseRSVec")?;
        ensure!(s.heap_size() <= e.heap_size() + 64, "SparseRSVec of {n} ones uses {} bytes, Elias-Fano of the same positions {}", s.heap_size(), e.heap_size());
    }
    Ok(())
}

pub fn space_tree(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 40_000, 400_000);
    let m = gen_tree_bits(src, max);
    let n = m.len();
    ctx.note(|| show_bits(&m));
    ctx.nontrivial_if(n > 2);
    let bv = build_bv(src, &m);
    let moved = bv.heap_size();
    let (t, n0) = retained(|| BpTree::<512>::from_bit_vector(bv.clone()));
    drop(bv);
    held(n0, t.heap_size(), moved, "BpTree")?;
    exact(&t, t.heap_size(), "BpTree")?;
    // 2 bits per node with rank/select support, and a heap of three numbers for each 512 bits
    let leaves = n.div_ceil(512);
    let bound = rs_bound(n) + 24 * (leaves + leaves.next_power_of_two() + 1);
    ensure!(t.heap_size() <= bound, "BpTree of {n} bits uses {} bytes, more than {bound}", t.heap_size());
    Ok(())
}

pub fn space_wavelet(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true);
    let max = scaled(src, 2000, 60_000);
    let v = gen_seq(src, max, k);
    let n = v.len();
    ctx.note(|| show_seq(&v, k));
    ctx.nontrivial_if(n > 1);
    let w = build_wm(src, &v, k);
    exact(&w, w.heap_size(), "WaveletMatrix")?;
    if k <= 64 {
        let flat: Vec<u64> = v.iter().map(|x| x.iter().rev().fold(0, |a, &b| a << 1 | u64::from(b))).collect();
        let pc = k <= 12 && n % 2 == 1;
        let (w, n0) = retained(|| if pc { WaveletMatrix::from_slice_pc(&flat, k as u16) } else { WaveletMatrix::from_slice(&flat, k as u16) });
        held(n0, w.heap_size(), 0, "WaveletMatrix")?;
    }
    let bound = k * (rs_bound(n) + 160);
    ensure!(w.heap_size() <= bound, "WaveletMatrix of {n} elements of {k} bits uses {} bytes, more than {bound}", w.heap_size());
    Ok(())
}

pub fn space_rmq(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = scaled(src, 4000, 300_000);
    let n = src.logsize(max);
    let v = gen_values(src, n);
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() > 1);
    let n = v.len();
    let (b, n0) = retained(|| BinaryRmq::from_vec(v.clone()));
    held(n0, b.heap_size(), 8 * n, "BinaryRmq")?;
    exact(&b, b.heap_size(), "BinaryRmq")?;
    let log = n.next_power_of_two().trailing_zeros() as usize + 1;
    ensure!(b.heap_size() <= 8 * n + 4 * n * log, "BinaryRmq of {n} values uses {} bytes", b.heap_size());
    let (f, n0) = retained(|| FastRmq::from_vec(v.clone()));
    held(n0, f.heap_size(), 8 * n, "FastRmq")?;
    exact(&f, f.heap_size(), "FastRmq")?;
    // a block for each 128 values
    let nb = n / 128 + 1;
    let logb = nb.next_power_of_two().trailing_zeros() as usize + 1;
    let bound = 8 * n + nb * (8 + 4 * logb + 1 + 64);
    ensure!(f.heap_size() <= bound, "FastRmq of {n} values uses {} bytes, more than {bound}", f.heap_size());
    Ok(())
}
