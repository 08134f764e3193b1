//! C09 Elias-Fano, C10 sparse bit vectors, and the Elias-Fano part of C07.
use crate::engine::*;
use crate::gen::*;
use crate::drive::drive;
use crate::{ensure, ensure_eq};
use vers_vecs::{EliasFanoVec, SparseRSVec};

fn check_ef(ef: &EliasFanoVec, v: &[u64], queries: &[u64]) -> Res {
    ensure_eq!(ef.len(), v.len(), "len");
    ensure_eq!(ef.is_empty(), v.is_empty(), "is_empty");
    for (i, &x) in v.iter().enumerate() {
        ensure_eq!(ef.get(i), Some(x), "get({i})");
        ensure_eq!(ef.get_unchecked(i), x, "get_unchecked({i})");
        ensure_eq!(ef.select(i), Some(x), "select({i})");
        let d = if i == 0 { x } else { x - v[i - 1] };
        ensure_eq!(ef.delta(i), Some(d), "delta({i})");
    }
    for i in [v.len(), v.len() + 1, v.len() + 64, (1 << 32) + v.len() / 2, (1 << 63) + v.len() / 2, usize::MAX] {
        ensure_eq!(ef.get(i), None, "get({i}) of {}", v.len());
        ensure_eq!(ef.select(i), None, "select({i}) of {}", v.len());
        ensure_eq!(ef.delta(i), None, "delta({i}) of {}", v.len());
    }
    for &q in queries {
        let lt = v.partition_point(|&x| x < q);
        let le = v.partition_point(|&x| x <= q);
        ensure_eq!(ef.rank(q), lt as u64, "rank({q})");
        let p = if le > 0 { Some(v[le - 1]) } else { None };
        let s = v.get(lt).copied();
        ensure_eq!(ef.predecessor(q), p, "predecessor({q})");
        ensure_eq!(ef.successor(q), s, "successor({q})");
        if let Some(p) = p {
            ensure_eq!(ef.predecessor_unchecked(q), p, "predecessor_unchecked({q})");
        }
        if let Some(s) = s {
            ensure_eq!(ef.successor_unchecked(q), s, "successor_unchecked({q})");
        }
    }
    Ok(())
}

fn ef_case(src: &mut Src, ctx: &mut Ctx, max: usize, q: usize) -> Res {
    let v = gen_sorted(src, max, false);
    let queries = gen_queries(src, &v, q);
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() >= 2);
    ctx.label_if(v.windows(2).any(|w| w[0] == w[1]), "duplicates");
    ctx.label_if(v.len() > 6 && v.windows(6).any(|w| w[5] - w[0] < (v[v.len() - 1] - v[0]) / v.len() as u64 / 2), "dense cluster");
    ctx.label_if(v.last().is_some_and(|l| l - v[0] > 1 << 62), "universe above 2^62");
    check_ef(&EliasFanoVec::from_slice(&v), &v, &queries)?;
    for &x in &v {
        ctx.feed(x);
    }
    Ok(())
}
pub fn ef_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    ef_case(src, ctx, 2000, 200)
}
pub fn ef_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    ef_case(src, ctx, 150_000, 10_000)
}
pub fn ef_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    ef_case(src, ctx, 1_000_000, 1_500)
}
/// Every sorted sequence of up to 7 values below 8, every query below 10, at several offsets.
pub fn ef_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut i = src.upto(EF_ENUM - 1);
    let off = [0u64, 1, 1000, u64::MAX - 40][(i % 4) as usize];
    i /= 4;
    let scale = [1u64, 5][(i % 2) as usize];
    i /= 2;
    // i codes a multiset: bits are a 0/1 path with up to 8 ups
    let mut v = Vec::new();
    let mut cur = 0u64;
    for b in 0..13 {
        if i >> b & 1 == 1 {
            v.push(off + cur * scale);
        } else {
            cur += 1;
        }
        if cur >= 8 {
            break;
        }
    }
    let q: Vec<u64> = (off.saturating_sub(2)..=off.saturating_add(8 * scale)).collect();
    ctx.note(|| show_vals(&v));
    ctx.nontrivial_if(v.len() >= 2);
    check_ef(&EliasFanoVec::from_slice(&v), &v, &q)
}
pub const EF_ENUM: u64 = 8 << 13;

// ---------------------------------------------------------------- C07
pub fn iter_ef(src: &mut Src, ctx: &mut Ctx) -> Res {
    iter_ef_of(src, ctx, 3000)
}
pub fn iter_ef_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    iter_ef_of(src, ctx, 100_000)
}
fn iter_ef_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let v = gen_sorted(src, max, false);
    let mut ef = EliasFanoVec::from_slice(&v);
    ctx.note(|| show_vals(&v));
    match src.uupto(3) {
        3 => drive(src, ctx, (&mut ef).into_iter(), &v, "Elias-Fano by mutable reference", Some(|i| (i.clone().min(), i.max()))),
        0 => drive(src, ctx, ef.iter(), &v, "Elias-Fano iter()", Some(|i| (i.clone().min(), i.max()))),
        1 => drive(src, ctx, (&ef).into_iter(), &v, "Elias-Fano by reference", Some(|i| (i.clone().min(), i.max()))),
        _ => drive(src, ctx, ef.into_iter(), &v, "Elias-Fano by value", Some(|i| (i.clone().min(), i.max()))),
    }
}

// ---------------------------------------------------------------- C10
fn check_sparse(s: &SparseRSVec, ones: &[u64], len: u64, queries: &[u64]) -> Res {
    ensure_eq!(s.len(), len, "len");
    ensure_eq!(s.is_empty(), len == 0, "is_empty");
    for (k, &p) in ones.iter().enumerate() {
        ensure_eq!(s.select1(k), p, "select1({k})");
    }
    for k in [ones.len(), ones.len() + 1, ones.len() + 100, (1 << 32) + ones.len() / 2, usize::MAX] {
        ensure_eq!(s.select1(k), len, "select1({k}) with {} ones", ones.len());
    }
    ensure!(s.iter1().eq(ones.iter().copied()), "iter1 differs from the positions of ones {}", show_vals(ones));
    for &q in queries {
        let lt = ones.partition_point(|&x| x < q) as u64;
        let set = ones.binary_search(&q).is_ok();
        ensure_eq!(s.rank1(q), lt, "rank1({q})");
        let r0 = if q >= len { len - ones.len() as u64 } else { q - lt };
        ensure_eq!(s.rank0(q), r0, "rank0({q})");
        let e = if q < len { Some(set) } else { None };
        ensure_eq!(s.is_set(q), e, "is_set({q})");
        ensure_eq!(s.get(q), e.map(u64::from), "get({q})");
        if q < len {
            ensure_eq!(s.is_set_unchecked(q), set, "is_set_unchecked({q})");
            ensure_eq!(s.get_unchecked(q), set as u64, "get_unchecked({q})");
        }
    }
    Ok(())
}

pub fn sparse_list(src: &mut Src, ctx: &mut Ctx) -> Res {
    sparse_list_of(src, ctx, 2000, 200)
}
pub fn sparse_list_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    sparse_list_of(src, ctx, 200_000, 5_000)
}
fn sparse_list_of(src: &mut Src, ctx: &mut Ctx, max: usize, queries: usize) -> Res {
    let mut v = gen_sorted(src, max, true);
    if v.last() == Some(&u64::MAX) {
        // a vector cannot have a bit at that position
        v.pop();
    }
    let min = v.last().map_or(0, |x| x + 1);
    let len = match src.uupto(2) {
        0 => min,
        1 => min.saturating_add(src.upto(200)),
        _ => min + src.upto(u64::MAX - min),
    };
    let mut q = gen_queries(src, &v, queries);
    q.extend([len, len.saturating_sub(1), len.saturating_add(1)]);
    ctx.note(|| format!("len {len}, ones {}", show_vals(&v)));
    ctx.nontrivial_if(v.len() >= 2);
    ctx.label_if(v.is_empty() && len > 0, "no one-bits");
    ctx.label_if(v.first().is_some_and(|&x| x > 0), "starts with zeros");
    check_sparse(&SparseRSVec::new(&v, len), &v, len, &q)
}

pub fn sparse_bits(src: &mut Src, ctx: &mut Ctx) -> Res {
    sparse_bits_of(src, ctx, 20_000)
}
pub fn sparse_bits_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    sparse_bits_of(src, ctx, 1_000_000)
}
fn sparse_bits_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let bv = build_bv(src, &m);
    let inv = src.flag();
    let conv = src.pick(&[3, 1, 1]);
    let s = match (inv, conv) {
        (true, 1) => SparseRSVec::from(&bv),
        (true, 2) => SparseRSVec::from(bv.clone()),
        (true, _) => SparseRSVec::from_bitvec_inverted(&bv),
        (false, _) => SparseRSVec::from_bitvec(&bv),
    };
    // the conversion trait does not document which kind of bits it compresses: the first bit
    // tells, and every answer has to agree with it
    let inv = inv && (conv == 0 || m.is_empty() || s.get(0) != Some(u64::from(m[0])));
    let v: Vec<u64> = positions(&m, !inv).into_iter().map(|x| x as u64).collect();
    let n = m.len() as u64;
    let mut q: Vec<u64> = if n <= 3000 {
        (0..n + 70).collect()
    } else {
        let mut q = gen_queries(src, &v, 1000);
        let mut r = Rng::new(n);
        for _ in 0..1000 {
            q.push(r.upto(n + 10));
        }
        q
    };
    q.extend([n, n + 1, u64::MAX]);
    ctx.note(|| format!("inverted {inv}, {}", show_bits(&m)));
    ctx.nontrivial_if(m.len() > 64);
    check_sparse(&s, &v, n, &q)
}

/// sparse vectors made from more than 2^32 bits
pub fn sparse_bits_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = (1usize << 32) + src.uupto(200_000);
    let inv = src.flag();
    let mut ex: Vec<u64> = (0..src.uupto(3000)).map(|_| big_pos(src, len) as u64).collect();
    ex.sort_unstable();
    ex.dedup();
    let mut bv = if inv { vers_vecs::BitVec::from_ones(len) } else { vers_vecs::BitVec::from_zeros(len) };
    for &e in &ex {
        bv.flip_bit(e as usize);
    }
    let s = if inv { SparseRSVec::from_bitvec_inverted(&bv) } else { SparseRSVec::from_bitvec(&bv) };
    let mut q = gen_queries(src, &ex, 2000);
    for _ in 0..2000 {
        q.push(big_pos(src, len) as u64);
    }
    let n = len as u64;
    q.extend([n - 1, n, n + 1, u64::MAX]);
    ctx.note(|| format!("inverted {inv}, {len} bits, {} exceptions", ex.len()));
    ctx.nontrivial_if(true);
    check_sparse(&s, &ex, n, &q)
}
