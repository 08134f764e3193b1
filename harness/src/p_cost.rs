//! C24: the work a query does, counted in basic blocks, against the documented order of growth.
//!
//! The bounds are the documented function of the size with constants several times above what the
//! code needs, so that they separate orders of growth and not implementations of the same order.
use crate::engine::*;
use crate::steps::{alive, steps};
use crate::{ensure, ensure_eq};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, IsAncestor, LevelTree, RsVec, SparseRSVec, SubtreeSize, Tree, WaveletMatrix};

fn lg(n: usize) -> u64 {
    u64::from(usize::BITS - n.leading_zeros())
}

/// record the largest relative cost seen, for the evidence
struct Meter {
    /// worst observed, and its bound
    worst: std::collections::BTreeMap<&'static str, (u64, u64)>,
    /// measure only (to choose the bounds)
    survey: bool,
}
impl Meter {
    fn new() -> Self {
        Meter { worst: Default::default(), survey: std::env::var_os("VV_COST").is_some() }
    }
    fn see(&mut self, op: &'static str, cost: u64, bound: u64, what: &str) -> Result<(), String> {
        let w = self.worst.entry(op).or_insert((0, bound));
        if u128::from(cost) * u128::from(w.1) > u128::from(w.0) * u128::from(bound) {
            *w = (cost, bound);
        }
        if cost > bound && !self.survey {
            return Err(format!("{op} on {what} took {cost} steps, more than {bound}"));
        }
        Ok(())
    }
    fn note(&self, ctx: &mut Ctx) {
        if self.survey {
            for (o, (c, b)) in &self.worst {
                println!("COST {o} {c} {b}");
            }
        }
        let s: Vec<String> = self.worst.iter().map(|(o, (c, b))| format!("{o} {c}/{b}")).collect();
        ctx.note(|| format!("; steps/bound: {}", s.join(" ")));
    }
}

macro_rules! cost {
    ($m:expr, $what:expr, $op:literal, $bound:expr, $e:expr) => {{
        let (r, c) = steps(|| $e);
        let b: u64 = $bound;
        $m.see($op, c, b, &$what)?;
        r
    }};
}

fn size(src: &mut Src, lo: u64, hi: u64) -> usize {
    let e = src.range(lo, hi);
    let base = 1usize << e;
    base + src.uupto(base - 1)
}

/// Long bit vectors, mostly of one value, with the other in regular, clustered or rare places.
fn words(src: &mut Src, n: usize) -> (Vec<u64>, String) {
    let total = n / 64 + 1;
    let mut w: Vec<u64> = Vec::with_capacity(total);
    let mut desc = String::new();
    let inv = src.flag();
    while w.len() < total {
        let rest = total - w.len();
        let seg = (if src.chance(1, 2) { rest } else { src.logsize(rest) + 1 }).min(rest);
        match src.pick(&[2, 4, 2, 2, 1]) {
            0 => {
                w.resize(w.len() + seg, 0);
                desc.push_str(&format!("{seg} empty, "));
            }
            1 => {
                // one bit in each stride
                let s = 1usize << src.range(0, 18);
                let s = s + src.uupto(s);
                let a = w.len();
                w.resize(a + seg, 0);
                let mut i = 0;
                while i < seg {
                    w[a + i] = 1 << (i * 7 % 64);
                    i += s;
                }
                desc.push_str(&format!("{seg} with a bit each {s}, "));
            }
            2 => {
                let mut r = Rng::new(src.upto(0xFFFF));
                w.extend((0..seg).map(|_| r.next()));
                desc.push_str(&format!("{seg} random, "));
            }
            3 => {
                let k = src.range(1, 12);
                let mut r = Rng::new(src.upto(0xFFFF));
                for _ in 0..seg {
                    let x = if r.upto((1 << k) - 1) == 0 { r.next() & r.next() & r.next() } else { 0 };
                    w.push(x);
                }
                desc.push_str(&format!("{seg} with density 2^-{k}, "));
            }
            _ => {
                w.resize(w.len() + seg, u64::MAX);
                desc.push_str(&format!("{seg} full, "));
            }
        }
    }
    if inv {
        for x in &mut w {
            *x = !*x;
        }
        desc.push_str("inverted");
    }
    (w, desc)
}

/// the search in a super block, and a binary search for it
fn select_bound(n: usize) -> u64 {
    400 + 12 * lg(n / 4096)
}

fn targets(src: &mut Src, n: usize, count: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let mut r = Rng::new(src.upto(0xFFFF));
    let mut v: Vec<usize> = (0..count).map(|_| r.upto(n as u64 - 1) as usize).collect();
    v.extend([0, 1 % n, n / 2, n - 1, n.saturating_sub(2), 8192 % n, 8191 % n]);
    v
}

pub fn cost_rs(src: &mut Src, ctx: &mut Ctx) -> Res {
    if !alive() {
        return Err("HARNESS steps are not counted".into());
    }
    let n = size(src, 10, 25);
    let (w, desc) = words(src, n);
    let nw = w.len() as u64;
    let mut bv = BitVec::from_vec(w);
    bv.drop_last(bv.len() - n);
    let what = format!("{n} bits (words: {desc})");
    ctx.note(|| what.clone());
    ctx.nontrivial_if(n > 1 << 16);
    ctx.label_if(n > 1 << 22, "more than 2^22 bits");
    let mut m = Meter::new();
    let rs = cost!(m, what, "RsVec::from_bit_vec", 1000 + 120 * nw, RsVec::from_bit_vec(bv));
    let ones = rs.rank1(n);
    for p in targets(src, n, 60) {
        cost!(m, what, "RsVec::rank1", 120, rs.rank1(p));
        cost!(m, what, "RsVec::rank0", 120, rs.rank0(p));
        cost!(m, what, "RsVec::get", 60, rs.get(p));
        cost!(m, what, "RsVec::get_bits", 60, rs.get_bits(p, 64));
    }
    for r in targets(src, ones, 80) {
        cost!(m, what, "RsVec::select1", select_bound(n), rs.select1(r));
    }
    for r in targets(src, n - ones, 80) {
        cost!(m, what, "RsVec::select0", select_bound(n), rs.select0(r));
    }
    // position iterators: no step of a walk costs more than a query
    let k = 500;
    let mut i1 = rs.iter1();
    let mut i0 = rs.iter0();
    for _ in 0..k {
        cost!(m, what, "iter1 next", select_bound(n), i1.next());
        cost!(m, what, "iter0 next", select_bound(n), i0.next());
        cost!(m, what, "iter1 next_back", select_bound(n), i1.next_back());
        cost!(m, what, "iter0 next_back", select_bound(n), i0.next_back());
    }
    m.note(ctx);
    Ok(())
}

pub fn cost_ef(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = size(src, 8, 20);
    // dense runs, far outliers, wide gaps, runs of equal values
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let mut cur = src.upto(1 << 20);
    let mut desc = String::new();
    let mut distinct = true;
    while v.len() < n {
        let rest = n - v.len();
        let seg = (if src.chance(1, 2) { rest } else { src.logsize(rest) + 1 }).min(rest);
        let kind = src.pick(&[4, 2, 2, 1]);
        let gap = 1u64 << src.range(1, 22);
        let mut r = Rng::new(src.upto(0xFFFF));
        for _ in 0..seg {
            v.push(cur);
            cur += match kind {
                0 => 1,
                1 => 1 + r.upto(gap),
                2 => 1 + r.upto(3),
                _ => 0,
            };
        }
        if kind == 3 {
            distinct = false;
            cur += 1;
        }
        desc.push_str(&format!("{seg} of kind {kind}, "));
        cur += 1 + if src.flag() { 1u64 << src.range(0, 55) } else { 0 };
    }
    if src.chance(1, 2) {
        v[n - 1] = u64::MAX - src.upto(9);
        desc.push_str("outlier");
    }
    let what = format!("{n} sorted values ({desc})");
    ctx.note(|| what.clone());
    ctx.nontrivial_if(n > 4096);
    let mut m = Meter::new();
    let ef = cost!(m, what, "EliasFanoVec::from_slice", 2000 + 150 * n as u64, EliasFanoVec::from_slice(&v));
    let b = select_bound(4 * n + 64) + 200;
    let bs = 2 * b + 30 * lg(n);
    let mut r = Rng::new(src.upto(0xFFFF));
    for i in targets(src, n, 80) {
        cost!(m, what, "EliasFanoVec::get", b, ef.get(i));
        cost!(m, what, "EliasFanoVec::delta", 2 * b, ef.delta(i));
        let lo = v[i];
        let hi = v.get(i + 1).copied().unwrap_or(u64::MAX);
        for q in [lo, lo.saturating_sub(1), lo.saturating_add(1), lo + r.upto(hi - lo), v[0].saturating_sub(1), v[n - 1].saturating_add(1)] {
            cost!(m, what, "EliasFanoVec::predecessor", bs, ef.predecessor(q));
            cost!(m, what, "EliasFanoVec::successor", bs, ef.successor(q));
            if distinct {
                cost!(m, what, "EliasFanoVec::rank", bs, ef.rank(q));
            }
        }
    }
    let it = ef.iter();
    cost!(m, what, "Elias-Fano iterator min", b, it.clone().min());
    cost!(m, what, "Elias-Fano iterator max", b, it.clone().max());
    let mut it = ef.iter();
    let skip = src.uupto(n - 1);
    cost!(m, what, "Elias-Fano iterator nth", 2 * b, it.nth(skip));
    for _ in 0..30 {
        cost!(m, what, "Elias-Fano iterator next", b, it.next());
        cost!(m, what, "Elias-Fano iterator next_back", b, it.next_back());
        cost!(m, what, "Elias-Fano iterator min", b, it.clone().min());
        cost!(m, what, "Elias-Fano iterator max", b, it.clone().max());
    }
    let back = src.uupto(n - 1);
    cost!(m, what, "Elias-Fano iterator nth_back", 2 * b, it.nth_back(back));
    if distinct && v[n - 1] < u64::MAX {
        let s = SparseRSVec::new(&v, v[n - 1] + 1);
        for i in targets(src, n, 40) {
            cost!(m, what, "SparseRSVec::select1", b, s.select1(i));
            for q in [v[i], v[i].saturating_add(1), v[i].saturating_sub(1)] {
                cost!(m, what, "SparseRSVec::rank1", bs, s.rank1(q));
                cost!(m, what, "SparseRSVec::rank0", bs, s.rank0(q));
                cost!(m, what, "SparseRSVec::is_set", bs, s.is_set(q));
            }
        }
    }
    m.note(ctx);
    Ok(())
}

pub fn cost_rmq(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = size(src, 8, 18);
    let v = crate::gen::gen_values(src, n);
    let what = format!("{n} values");
    ctx.note(|| format!("{what} {}", crate::gen::show_vals(&v)));
    ctx.nontrivial_if(n > 4096);
    let mut m = Meter::new();
    let c = v.clone();
    let b = cost!(m, what, "BinaryRmq::from_vec", 2000 + 40 * n as u64 * lg(n), BinaryRmq::from_vec(c));
    let c = v.clone();
    let f = cost!(m, what, "FastRmq::from_vec", 20_000 + 30 * n as u64 * lg(n), FastRmq::from_vec(c));
    let t = targets(src, n, 200);
    for i in 0..t.len() {
        let (x, y) = (t[i], t[(i * 7 + 3) % t.len()]);
        let (x, y) = (x.min(y), x.max(y));
        let near = (x + 1 + i % 300).min(n - 1);
        for (x, y) in [(x, y), (x, near), (0, y), (x, n - 1)] {
            let g = cost!(m, what, "BinaryRmq::range_min", 60, b.range_min(x, y));
            let h = cost!(m, what, "FastRmq::range_min", 1500, f.range_min(x, y));
            cost!(m, what, "BinaryRmq::range_min_with_range", 90, b.range_min_with_range(x..=y));
            cost!(m, what, "FastRmq::range_min_with_range", 1600, f.range_min_with_range(x..=y));
            ensure_eq!(v[g], v[h], "values at the minima of {x}..={y}");
        }
    }
    m.note(ctx);
    Ok(())
}

fn bp<const B: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let nodes = size(src, 8, 21);
    // a tree of phases: paths, stars, random walks; and what was opened is closed
    let mut bits: Vec<bool> = Vec::with_capacity(2 * nodes);
    let mut depth = 0usize;
    let mut opened = 0usize;
    let mut desc = String::new();
    while opened < nodes {
        let rest = nodes - opened;
        let seg = (if src.chance(1, 3) { rest } else { src.logsize(rest) + 1 }).min(rest);
        let kind = src.pick(&[2, 2, 2, 2]);
        let mut r = Rng::new(src.upto(0xFFFF));
        for _ in 0..seg {
            let open = match kind {
                0 => true,
                1 => {
                    // star: close the last leaf first
                    if bits.last() == Some(&true) && depth > 1 {
                        bits.push(false);
                        depth -= 1;
                    }
                    true
                }
                2 => {
                    while depth > 1 && r.next() & 1 == 0 {
                        bits.push(false);
                        depth -= 1;
                    }
                    true
                }
                _ => {
                    // close most of what is open
                    let k = if depth > 1 { r.upto(depth as u64 - 1).min(3) } else { 0 };
                    for _ in 0..k {
                        bits.push(false);
                        depth -= 1;
                    }
                    true
                }
            };
            bits.push(open);
            depth += 1;
            opened += 1;
        }
        desc.push_str(&format!("{seg} of kind {kind}, "));
        if src.chance(1, 4) && depth > 1 {
            let k = src.uupto(depth - 1);
            bits.extend(std::iter::repeat_n(false, k));
            depth -= k;
        }
    }
    bits.extend(std::iter::repeat_n(false, depth));
    let n = bits.len();
    let what = format!("a tree of {nodes} nodes, block size {B} ({desc})");
    ctx.note(|| what.clone());
    ctx.nontrivial_if(n > 1 << 14);
    ctx.label_if(n / B > 1 << 12, "more than 2^12 blocks");
    let mut m = Meter::new();
    let bv = BitVec::from_bools(&bits);
    let t = cost!(m, what, "BpTree::from_bit_vector", 20_000 + 60 * n as u64 + 200 * (n / B) as u64, BpTree::<B>::from_bit_vector(bv));
    // two partial blocks bit by bit, and a walk up and down the tree of blocks
    let s = 400 + 8 * B as u64 + 60 * lg(n / B);
    let sel = select_bound(n);
    let mut r = Rng::new(src.upto(0xFFFF));
    for i in targets(src, n, 120) {
        let o = targets_one(&mut r, n);
        cost!(m, what, "close", s, t.close(i));
        cost!(m, what, "open", s, t.open(i));
        cost!(m, what, "enclose", s, t.enclose(i));
        let rel = r.upto(depth as u64 + 20) as i64 - 10;
        cost!(m, what, "fwd_search", s, t.fwd_search(i, rel));
        cost!(m, what, "bwd_search", s, t.bwd_search(i, rel));
        cost!(m, what, "excess", s, t.excess(i));
        if bits[i] {
            cost!(m, what, "parent", s, t.parent(i));
            cost!(m, what, "first_child", s, t.first_child(i));
            cost!(m, what, "last_child", 2 * s, t.last_child(i));
            cost!(m, what, "next_sibling", 2 * s, t.next_sibling(i));
            cost!(m, what, "previous_sibling", 2 * s, t.previous_sibling(i));
            cost!(m, what, "is_leaf", s, t.is_leaf(i));
            cost!(m, what, "depth", s, t.depth(i));
            cost!(m, what, "subtree_size", 2 * s, t.subtree_size(i));
            cost!(m, what, "level_next", 2 * s, t.level_next(i));
            cost!(m, what, "level_prev", 2 * s, t.level_prev(i));
            let d = t.depth(i);
            let k = r.upto(d);
            cost!(m, what, "level_ancestor", s, t.level_ancestor(i, k));
            if bits[o] {
                cost!(m, what, "is_ancestor", 2 * s, t.is_ancestor(i, o));
            }
            cost!(m, what, "node_index", s, t.node_index(i));
            let l = r.upto(d + 2);
            cost!(m, what, "level_leftmost", 2 * s, t.level_leftmost(l));
            cost!(m, what, "level_rightmost", 2 * s, t.level_rightmost(l));
        }
        let id = i % nodes;
        cost!(m, what, "node_handle", sel, t.node_handle(id));
        cost!(m, what, "size", s, t.size());
        cost!(m, what, "root", s, t.root());
        if bits[i] && r.upto(3) == 0 {
            // each step of a walk costs at most a few of the queries above
            let mut c = cost!(m, what, "children", 2 * s, t.children(i));
            let mut d = cost!(m, what, "subtree_iter", 4 * s + sel, t.subtree_iter(i));
            let mut e = cost!(m, what, "subtree_post_iter", 4 * s + 2 * sel, t.subtree_post_iter(i));
            for _ in 0..8 {
                cost!(m, what, "children next", 4 * s, c.next());
                cost!(m, what, "subtree_iter next", s + 2 * sel, d.next());
                cost!(m, what, "subtree_post_iter next", 2 * s + 2 * sel, e.next());
            }
            let mut d = cost!(m, what, "dfs_iter", 4 * s + sel, t.dfs_iter());
            let mut e = cost!(m, what, "dfs_post_iter", 4 * s + sel, t.dfs_post_iter());
            for _ in 0..8 {
                cost!(m, what, "dfs_iter next", s + 2 * sel, d.next());
                cost!(m, what, "dfs_post_iter next", 2 * s + 2 * sel, e.next());
            }
        }
    }
    m.note(ctx);
    Ok(())
}
fn targets_one(r: &mut Rng, n: usize) -> usize {
    r.upto(n as u64 - 1) as usize
}
pub fn cost_bp(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.pick(&[4, 1, 1]) {
        0 => bp::<512>(src, ctx),
        1 => bp::<64>(src, ctx),
        _ => bp::<128>(src, ctx),
    }
}

pub fn cost_wavelet(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.urange(1, 16);
    let n = size(src, 8, 18);
    let mask = (1u64 << k) - 1;
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let mut desc = String::new();
    while v.len() < n {
        let rest = n - v.len();
        let seg = (if src.chance(1, 2) { rest } else { src.logsize(rest) + 1 }).min(rest);
        let kind = src.pick(&[2, 2, 2, 1]);
        let s = src.word() & mask;
        let mut r = Rng::new(src.upto(0xFFFF));
        for _ in 0..seg {
            v.push(match kind {
                0 => r.next() & mask,
                1 => s,
                2 => s ^ u64::from(r.upto(4000) == 0) & mask,
                _ => r.upto(3) & mask,
            });
        }
        desc.push_str(&format!("{seg} of kind {kind}, "));
    }
    let what = format!("{n} symbols of {k} bits ({desc})");
    ctx.note(|| what.clone());
    ctx.nontrivial_if(n > 4096);
    let mut m = Meter::new();
    let kn = (k * n) as u64;
    let w = match src.uupto(3) {
        0 => cost!(m, what, "WaveletMatrix::from_slice", 20_000 + 20 * kn * lg(n), WaveletMatrix::from_slice(&v, k as u16)),
        1 => {
            let bv = BitVec::pack_sequence_u64(&v, k);
            cost!(m, what, "WaveletMatrix::from_bit_vec", 20_000 + 20 * kn * lg(n), WaveletMatrix::from_bit_vec(&bv, k as u16))
        }
        2 => cost!(m, what, "WaveletMatrix::from_slice_pc", 20_000 + 60 * kn + 200 * (mask + 1), WaveletMatrix::from_slice_pc(&v, k as u16)),
        _ => {
            let bv = BitVec::pack_sequence_u64(&v, k);
            cost!(m, what, "WaveletMatrix::from_bit_vec_pc", 20_000 + 60 * kn + 200 * (mask + 1), WaveletMatrix::from_bit_vec_pc(&bv, k as u16))
        }
    };
    // each level: a few rank queries; for select also a select query
    let kk = k as u64;
    let rk = 200 + 150 * kk;
    let sk = rk + kk * (select_bound(n) + 100);
    let mut r = Rng::new(src.upto(0xFFFF));
    for i in targets(src, n, 40) {
        let j = targets_one(&mut r, n);
        let (a, b) = (i.min(j), i.max(j) + 1);
        let s = if r.next() & 1 == 0 { v[j] } else { r.next() & mask };
        let q = r.upto((b - a) as u64 - 1) as usize;
        ensure_eq!(cost!(m, what, "get_u64", rk, w.get_u64(i)), Some(v[i]), "get_u64({i})");
        cost!(m, what, "rank_u64", rk, w.rank_u64(i, s));
        cost!(m, what, "rank_range_u64", rk, w.rank_range_u64(a..b, s));
        cost!(m, what, "quantile_u64", rk, w.quantile_u64(a..b, q));
        cost!(m, what, "range_min_u64", rk, w.range_min_u64(a..b));
        cost!(m, what, "range_max_u64", rk, w.range_max_u64(a..b));
        cost!(m, what, "range_median_u64", rk, w.range_median_u64(a..b));
        cost!(m, what, "predecessor_u64", 2 * rk, w.predecessor_u64(a..b, s));
        cost!(m, what, "successor_u64", 2 * rk, w.successor_u64(a..b, s));
        cost!(m, what, "get_sorted_u64", rk, w.get_sorted_u64(i));
        let occ = w.rank_u64(n, s).unwrap_or(0);
        if occ > 0 {
            let x = r.upto(occ as u64 - 1) as usize;
            cost!(m, what, "select_u64", sk, w.select_u64(x, s));
            cost!(m, what, "select_offset_u64", sk, w.select_offset_u64(a, x, s));
        }
        let sb = BitVec::pack_sequence_u64(&[s], k);
        cost!(m, what, "rank", rk, w.rank(i, &sb));
        cost!(m, what, "rank_range", rk, w.rank_range(a..b, &sb));
        cost!(m, what, "quantile", rk, w.quantile(a..b, q));
        cost!(m, what, "predecessor", 2 * rk, w.predecessor(a..b, &sb));
        cost!(m, what, "successor", 2 * rk, w.successor(a..b, &sb));
        cost!(m, what, "get_value", rk, w.get_value(i));
        cost!(m, what, "get_sorted", rk, w.get_sorted(i));
        cost!(m, what, "range_min", rk, w.range_min(a..b));
        cost!(m, what, "range_max", rk, w.range_max(a..b));
        cost!(m, what, "range_median", rk, w.range_median(a..b));
        cost!(m, what, "rank_offset_u64", rk, w.rank_offset_u64(a, b, s));
        cost!(m, what, "rank_offset", rk, w.rank_offset(a, b, &sb));
        // ranks that do not exist
        let x = occ + r.upto(3) as usize;
        cost!(m, what, "select_u64", sk, w.select_u64(x, s));
        cost!(m, what, "select", sk, w.select(x, &sb));
        cost!(m, what, "select_offset_u64", sk, w.select_offset_u64(a, x, s));
        cost!(m, what, "select_offset", sk, w.select_offset(a, x, &sb));
        if r.upto(3) == 0 {
            if let Some(mut it) = w.iter_u64() {
                cost!(m, what, "iter_u64 nth", rk, it.nth(i / 2));
                cost!(m, what, "iter_u64 next", rk, it.next());
                cost!(m, what, "iter_u64 next_back", rk, it.next_back());
            }
            if let Some(mut it) = w.iter_sorted_u64() {
                cost!(m, what, "iter_sorted_u64 nth", rk, it.nth(i / 2));
                cost!(m, what, "iter_sorted_u64 next", rk, it.next());
                cost!(m, what, "iter_sorted_u64 next_back", rk, it.next_back());
            }
            let mut it = w.iter();
            cost!(m, what, "iter nth", rk, it.nth(i / 2));
            cost!(m, what, "iter next", rk, it.next());
        }
        if occ > 0 {
            let x = r.upto(occ as u64 - 1) as usize;
            cost!(m, what, "select", sk, w.select(x, &sb));
            cost!(m, what, "select_offset", sk, w.select_offset(a, x, &sb));
        }
    }
    ensure!(w.len() == n, "len");
    m.note(ctx);
    Ok(())
}
