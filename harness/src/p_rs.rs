//! C05 rank, C06 select, C07 element iterators, C08 position iterators.
use crate::drive::drive;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use vers_vecs::{BitVec, RsVec};

pub fn prefix_ones(m: &[bool]) -> Vec<u32> {
    let mut p = Vec::with_capacity(m.len() + 1);
    let mut c = 0u32;
    p.push(0);
    for &b in m {
        c += b as u32;
        p.push(c);
    }
    p
}

fn note_bits(ctx: &mut Ctx, m: &[bool]) {
    ctx.note(|| show_bits(m));
    ctx.label_if(m.len() > 512, "several blocks");
    ctx.label_if(m.len() > 8192, "several super blocks");
    ctx.label_if(m.len() > 8192 * 8, "more than 8 super blocks");
    ctx.nontrivial_if(m.len() > 64);
}

// ---------------------------------------------------------------- C05
fn check_rank_all(rs: &RsVec, m: &[bool], p: &[u32]) -> Res {
    for pos in 0..=m.len() {
        let o = p[pos] as usize;
        if rs.rank1(pos) != o || rs.rank0(pos) != pos - o {
            ensure_eq!(rs.rank1(pos), o, "rank1({pos})");
            ensure_eq!(rs.rank0(pos), pos - o, "rank0({pos})");
        }
    }
    let t = p[m.len()] as usize;
    for pos in [m.len(), m.len() + 1, m.len() + 63, m.len() + 511, m.len() * 2, m.len() + 100_000, (1 << 32) + m.len() / 2, (1 << 48) + m.len() / 3, (1 << 63) + m.len() / 2, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        ensure_eq!(rs.rank1(pos), t, "rank1({pos}) behind the end of {} bits", m.len());
        ensure_eq!(rs.rank0(pos), m.len() - t, "rank0({pos}) behind the end of {} bits", m.len());
    }
    Ok(())
}

fn rank_case(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let rs = rs_of(src, &m);
    note_bits(ctx, &m);
    ensure_eq!(rs.len(), m.len(), "len");
    ensure_eq!(rs.is_empty(), m.is_empty(), "is_empty");
    let p = prefix_ones(&m);
    check_rank_all(&rs, &m, &p)?;
    check_reads(src, &rs, &m)?;
    let bv = if src.flag() { rs.into_bit_vec() } else { BitVec::from(rs) };
    check_bv(&bv, &m, "converted back")
}

fn check_reads(src: &mut Src, rs: &RsVec, m: &[bool]) -> Res {
    for (i, &b) in m.iter().enumerate() {
        if rs.get(i) != Some(b as u64) || rs.get_unchecked(i) != b as u64 {
            ensure_eq!(rs.get(i), Some(b as u64), "get({i})");
            ensure_eq!(rs.get_unchecked(i), b as u64, "get_unchecked({i})");
        }
    }
    for d in [0usize, 1, 64, 511] {
        ensure_eq!(rs.get(m.len() + d), None, "get behind the end");
    }
    for _ in 0..30 {
        let p = gen_pos(src, m.len());
        let n = if src.chance(1, 4) { *src.choose(&[64usize, 65, 63, 32, 100]) } else { src.urange(1, 66) };
        let e = model_get_bits(m, p, n);
        ensure_eq!(rs.get_bits(p, n), e, "get_bits({p}, {n})");
        if let Some(e) = e {
            ensure_eq!(rs.get_bits_unchecked(p, n), e, "get_bits_unchecked({p}, {n})");
        }
    }
    Ok(())
}

pub fn rank_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    rank_case(src, ctx, 3000)
}
pub fn rank_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    rank_case(src, ctx, 150_000)
}
pub fn rank_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    rank_case(src, ctx, 3_000_000)
}

/// Vectors with more than 2^32 bits: counts and positions do not fit 32 bits.
pub fn huge(src: &mut Src, ctx: &mut Ctx, rank: bool) -> Res {
    let extra = src.uupto(200_000);
    let len = (1usize << 32) + extra;
    let ones = src.flag();
    // background of one value, a sorted list of exceptions
    let mut ex: Vec<usize> = Vec::new();
    for _ in 0..400 {
        let a = match src.pick(&[2, 2, 2, 1]) {
            0 => src.uupto(len - 1),
            1 => (1usize << 32) - 300 + src.uupto(600.min(extra + 299)),
            2 => src.uupto(len / 8192 - 1) * 8192 + src.uupto(2),
            _ => len - 1 - src.uupto(1000),
        };
        ex.push(a.min(len - 1));
    }
    ex.sort_unstable();
    ex.dedup();
    let mut bv = if ones { BitVec::from_ones(len) } else { BitVec::from_zeros(len) };
    for &e in &ex {
        bv.flip_bit(e);
    }
    let rs = RsVec::from_bit_vec(bv);
    ctx.note(|| format!("{len} bits, all {} but for {} positions", ones as u8, ex.len()));
    ctx.nontrivial_if(true);
    let before = |p: usize| ex.partition_point(|&e| e < p);
    let mut pts: Vec<usize> = ex.iter().flat_map(|&e| [e.saturating_sub(1), e, e + 1]).collect();
    for _ in 0..2000 {
        pts.push(src.uupto(len + 10));
        let k = src.uupto(len / 8192);
        pts.push(k * 8192 + src.uupto(1));
    }
    if rank {
        for &p in &pts {
            let p0 = p.min(len);
            let x = before(p0);
            let (r0, r1) = if ones { (x, p0 - x) } else { (p0 - x, x) };
            ensure_eq!(rs.rank0(p), r0, "rank0({p})");
            ensure_eq!(rs.rank1(p), r1, "rank1({p})");
        }
    } else {
        for (i, &e) in ex.iter().enumerate() {
            let g = if ones { rs.select0(i) } else { rs.select1(i) };
            ensure_eq!(g, e, "select of exception {i}");
        }
        for &p in &pts {
            if p < len && ex.binary_search(&p).is_err() {
                let r = p - before(p);
                let g = if ones { rs.select1(r) } else { rs.select0(r) };
                ensure_eq!(g, p, "select of background bit {r}");
            }
        }
        for d in [0usize, 1, 1000] {
            let (n_ex, n_bg) = (ex.len() + d, len - ex.len() + d);
            let (a, b) = if ones { (rs.select0(n_ex), rs.select1(n_bg)) } else { (rs.select1(n_ex), rs.select0(n_bg)) };
            ensure_eq!(a, len, "select of a missing exception");
            ensure_eq!(b, len, "select of a missing background bit");
        }
        // the position iterators agree
        let got: Vec<usize> = if ones { rs.iter0().collect() } else { rs.iter1().collect() };
        ensure_eq!(got, ex, "position iterator");
        let mut got: Vec<usize> = if ones { rs.iter0().rev().collect() } else { rs.iter1().rev().collect() };
        got.reverse();
        ensure_eq!(got, ex, "reversed position iterator");
    }
    Ok(())
}
pub fn rank_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    huge(src, ctx, true)
}
pub fn select_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    huge(src, ctx, false)
}

// ---------------------------------------------------------------- C06

fn select_case(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let rs = rs_of(src, &m);
    note_bits(ctx, &m);
    let (z, o) = (positions(&m, false), positions(&m, true));
    ctx.label_if(z.len() > 8192 || o.len() > 8192, "several select samples");
    for (r, &p) in z.iter().enumerate() {
        if rs.select0(r) != p {
            ensure_eq!(rs.select0(r), p, "select0({r})");
        }
    }
    for (r, &p) in o.iter().enumerate() {
        if rs.select1(r) != p {
            ensure_eq!(rs.select1(r), p, "select1({r})");
        }
    }
    for d in [0usize, 1, 2, 63, 511, 512, 8191, 8192, 8193, 100_000, 1 << 32, 1 << 48, usize::MAX / 4] {
        ensure_eq!(rs.select0(z.len() + d), m.len(), "select0 of a rank {d} beyond the last of {} zeros", z.len());
        ensure_eq!(rs.select1(o.len() + d), m.len(), "select1 of a rank {d} beyond the last of {} ones", o.len());
    }
    ensure_eq!(rs.select0(usize::MAX), m.len(), "select0(MAX)");
    ensure_eq!(rs.select1(usize::MAX), m.len(), "select1(MAX)");
    // inverse laws through the public interface alone
    for _ in 0..50 {
        if m.is_empty() {
            break;
        }
        let p = gen_pos(src, m.len());
        if m[p] {
            ensure_eq!(rs.select1(rs.rank1(p)), p, "select1(rank1({p}))");
        } else {
            ensure_eq!(rs.select0(rs.rank0(p)), p, "select0(rank0({p}))");
        }
    }
    Ok(())
}
pub fn select_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    select_case(src, ctx, 3000)
}
pub fn select_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    select_case(src, ctx, 200_000)
}
pub fn select_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    select_case(src, ctx, 3_000_000)
}

/// One block, every pattern of a few words: the in-block search.
pub fn select_block(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.urange(1, 24);
    let ws: Vec<u64> = (0..n).map(|_| src.word()).collect();
    let mut m = Vec::new();
    for w in &ws {
        for i in 0..64 {
            m.push(w >> i & 1 == 1);
        }
    }
    let cut = src.uupto(63);
    m.truncate(m.len() - cut);
    let rs = rs_of(src, &m);
    note_bits(ctx, &m);
    for v in [false, true] {
        let ps = positions(&m, v);
        for r in 0..ps.len() + 3 {
            let e = ps.get(r).copied().unwrap_or(m.len());
            let g = if v { rs.select1(r) } else { rs.select0(r) };
            ensure_eq!(g, e, "select{}({r})", v as u8);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generic iterator driver
pub trait Extra<T> {
    fn minmax(self) -> Option<(Option<T>, Option<T>)>;
}

// ---------------------------------------------------------------- C07
pub fn iter_bits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[2usize, 10, 130, 2000]);
    iter_bits_of(src, ctx, max)
}
pub fn iter_bits_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[10_000usize, 70_000, 400_000]);
    iter_bits_of(src, ctx, max)
}
fn iter_bits_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let model: Vec<u64> = m.iter().map(|&b| b as u64).collect();
    let mut bv = build_bv(src, &m);
    match src.uupto(7) {
        6 => drive(src, ctx, (&mut bv).into_iter(), &model, "&mut BitVec into_iter", None),
        7 => {
            let mut rs = RsVec::from_bit_vec(bv);
            drive(src, ctx, (&mut rs).into_iter(), &model, "&mut RsVec into_iter", None)
        }
        0 => drive(src, ctx, bv.iter(), &model, "BitVec::iter", None),
        1 => drive(src, ctx, (&bv).into_iter(), &model, "&BitVec into_iter", None),
        2 => drive(src, ctx, bv.into_iter(), &model, "BitVec::into_iter", None),
        3 => drive(src, ctx, RsVec::from_bit_vec(bv).iter(), &model, "RsVec::iter", None),
        4 => {
            let rs = RsVec::from_bit_vec(bv);
            drive(src, ctx, (&rs).into_iter(), &model, "&RsVec into_iter", None)
        }
        _ => drive(src, ctx, RsVec::from_bit_vec(bv).into_iter(), &model, "RsVec::into_iter", None),
    }
}

// ---------------------------------------------------------------- C08
fn pos_case(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let rs = rs_of(src, &m);
    let v = src.flag();
    let model = positions(&m, v);
    ctx.note(|| show_bits(&m));
    match (v, src.uupto(2)) {
        (true, 0) => drive(src, ctx, rs.iter1(), &model, "iter1", Some(|i| (i.clone().min(), i.max()))),
        (true, 1) => drive(src, ctx, rs.into_iter1(), &model, "into_iter1", Some(|i| (i.clone().min(), i.max()))),
        (true, _) => {
            if src.flag() {
                drive(src, ctx, rs.select_iter::<false>(), &model, "select_iter<false>", None)
            } else {
                drive(src, ctx, rs.into_select_iter::<false>(), &model, "into_select_iter<false>", None)
            }
        }
        (false, 0) => drive(src, ctx, rs.iter0(), &model, "iter0", Some(|i| (i.clone().min(), i.max()))),
        (false, 1) => drive(src, ctx, rs.into_iter0(), &model, "into_iter0", Some(|i| (i.clone().min(), i.max()))),
        (false, _) => {
            if src.flag() {
                drive(src, ctx, rs.select_iter::<true>(), &model, "select_iter<true>", None)
            } else {
                drive(src, ctx, rs.into_select_iter::<true>(), &model, "into_select_iter<true>", None)
            }
        }
    }
}
pub fn pos_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    pos_case(src, ctx, 700)
}
pub fn pos_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    pos_case(src, ctx, 150_000)
}
pub fn pos_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    pos_case(src, ctx, 3_000_000)
}

/// full walks in both directions
pub fn pos_walk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_bits(src, 300_000);
    let rs = rs_of(src, &m);
    note_bits(ctx, &m);
    for v in [false, true] {
        let e = positions(&m, v);
        let (f, mut b): (Vec<usize>, Vec<usize>) = if v { (rs.iter1().collect(), rs.iter1().rev().collect()) } else { (rs.iter0().collect(), rs.iter0().rev().collect()) };
        b.reverse();
        for (g, w) in [(f, "forward"), (b, "backward")] {
            ensure_eq!(g.len(), e.len(), "{w} walk over {}-bits: number of items", v as u8);
            if g != e {
                let i = (0..e.len()).find(|&i| g[i] != e[i]).unwrap();
                return Err(format!("{w} walk over {}-bits: item {i} is {}, expected {}", v as u8, g[i], e[i]));
            }
        }
        bit_set(&rs, v, &e)?;
    }
    Ok(())
}

#[cfg(all(feature = "simd", target_arch = "x86_64", target_feature = "avx", target_feature = "avx2", target_feature = "avx512f", target_feature = "avx512bw"))]
fn bit_set(rs: &RsVec, v: bool, e: &[usize]) -> Res {
    let limit = e.len() + 100;
    let g: Vec<usize> = if v { rs.bit_set_iter1().take(limit).collect() } else { rs.bit_set_iter0().take(limit).collect() };
    for i in 0..g.len().max(e.len()) {
        if g.get(i) != e.get(i) {
            return Err(format!("bit_set_iter{} over {} bits: item {i} is {:?}, expected {:?}", v as u8, rs.len(), g.get(i), e.get(i)));
        }
    }
    // resumed, skipping ahead, and called again behind its end
    fn skips(mut it: impl Iterator<Item = usize>, e: &[usize]) -> Res {
        let (mut at, mut n) = (0, 0);
        loop {
            let g = it.nth(n);
            if g != e.get(at + n).copied() {
                return Err(format!("after {at} items of {}: nth({n}) gave {g:?}, expected {:?}", e.len(), e.get(at + n)));
            }
            if g.is_none() {
                break;
            }
            at += n + 1;
            n = (n * 5 + 1) % 47;
        }
        for _ in 0..20 {
            ensure_eq!(it.next(), None, "next after the end");
        }
        Ok(())
    }
    let r = if v { skips(rs.bit_set_iter1(), e) } else { skips(rs.bit_set_iter0(), e) };
    r.map_err(|m| format!("bit_set_iter{} over {} bits: {m}", v as u8, rs.len()))?;
    Ok(())
}
#[cfg(not(all(feature = "simd", target_arch = "x86_64", target_feature = "avx", target_feature = "avx2", target_feature = "avx512f", target_feature = "avx512bw")))]
fn bit_set(_: &RsVec, _: bool, _: &[usize]) -> Res {
    Ok(())
}

pub fn bit_set_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    bit_set_of(src, ctx, 2000)
}
pub fn bit_set_mid(src: &mut Src, ctx: &mut Ctx) -> Res {
    bit_set_of(src, ctx, 30_000)
}
fn bit_set_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let rs = rs_of(src, &m);
    note_bits(ctx, &m);
    for v in [false, true] {
        let e = positions(&m, v);
        bit_set(&rs, v, &e)?;
        let f: Vec<usize> = if v { rs.iter1().collect() } else { rs.iter0().collect() };
        ensure!(f == e, "iter{} over {} bits differs from the positions", v as u8, m.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- beyond 2^32 bits, mixed content
pub fn rank_huge_mixed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = Big::new(src);
    let rs = RsVec::from_bit_vec(big.bv());
    let n = big.len;
    ctx.note(|| big.show());
    ctx.nontrivial_if(true);
    ensure_eq!(rs.len(), n, "len");
    for _ in 0..4000 {
        let p = big_pos(src, n);
        let r = big.rank1(p);
        ensure_eq!(rs.rank1(p), r, "rank1({p})");
        ensure_eq!(rs.rank0(p), p - r, "rank0({p})");
        ensure_eq!(rs.get(p), Some(big.bit(p) as u64), "get({p})");
        let w = src.urange(1, 64);
        ensure_eq!(rs.get_bits(p, w), big.bits(p, w), "get_bits({p}, {w})");
    }
    let t = big.rank1(n);
    for p in [n, n + 1, n + (1 << 32), 1 << 40, usize::MAX] {
        ensure_eq!(rs.rank1(p), t, "rank1({p}) of {n} bits");
        ensure_eq!(rs.rank0(p), n - t, "rank0({p}) of {n} bits");
        ensure_eq!(rs.get(p), None, "get({p}) of {n} bits");
    }
    let bv = if src.flag() { rs.into_bit_vec() } else { BitVec::from(rs) };
    ensure_eq!(bv.len(), n, "len after converting back");
    for _ in 0..500 {
        let p = big_pos(src, n);
        let w = src.urange(1, 64);
        ensure_eq!(bv.get_bits(p, w), big.bits(p, w), "after converting back: get_bits({p}, {w})");
    }
    Ok(())
}

pub fn select_huge_mixed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = Big::new(src);
    let rs = RsVec::from_bit_vec(big.bv());
    let n = big.len;
    ctx.note(|| big.show());
    ctx.nontrivial_if(true);
    for _ in 0..6000 {
        let p = big_pos(src, n);
        let r = big.rank1(p);
        if big.bit(p) {
            ensure_eq!(rs.select1(r), p, "select1({r})");
        } else {
            ensure_eq!(rs.select0(p - r), p, "select0({})", p - r);
        }
    }
    let t = big.rank1(n);
    for d in [0usize, 1, 1000, 1 << 32, 1 << 40] {
        ensure_eq!(rs.select1(t + d), n, "select1({}) with {t} ones", t + d);
        ensure_eq!(rs.select0(n - t + d), n, "select0({}) with {} zeros", n - t + d, n - t);
    }
    Ok(())
}

/// drive an iterator over very many items, known by index
fn drive_huge<I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone, T: PartialEq + std::fmt::Debug>(src: &mut Src, mut it: I, n: usize, f: impl Fn(usize) -> T, what: &str) -> Res {
    let (mut lo, mut hi) = (0usize, n);
    for _ in 0..60 {
        let rem = hi - lo;
        ensure_eq!(it.len(), rem, "{what}: len after {lo} from the front and {} from the back", n - hi);
        ensure_eq!(it.size_hint(), (rem, Some(rem)), "{what}: size_hint");
        let back = src.flag();
        let k = match src.pick(&[4, 2, 2, 1]) {
            0 => 0,
            1 => src.uupto(20_000),
            2 if rem > 1 << 32 => (1usize << 32) - src.uupto(3),
            2 => src.uupto(rem),
            _ => src.uupto(rem.min(1 << 28)),
        };
        let e = if k >= rem {
            lo = hi;
            None
        } else if back {
            hi -= k + 1;
            Some(f(hi))
        } else {
            lo += k + 1;
            Some(f(lo - 1))
        };
        let g = match (back, k) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, _) => it.nth(k),
            (true, _) => it.nth_back(k),
        };
        ensure_eq!(g, e, "{what}: {} by {k} to [{lo}, {hi}) of {n}", if back { "back" } else { "front" });
        if src.chance(1, 8) {
            ensure_eq!(it.clone().count(), hi - lo, "{what}: count");
            ensure_eq!(it.clone().last(), if lo < hi { Some(f(hi - 1)) } else { None }, "{what}: last");
        }
    }
    Ok(())
}

pub fn iter_bits_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = Big::new(src);
    ctx.note(|| big.show());
    ctx.nontrivial_if(true);
    let bv = big.bv();
    let f = |i: usize| big.bit(i) as u64;
    drive_huge(src, bv.iter(), big.len, f, "BitVec::iter")?;
    let rs = RsVec::from_bit_vec(bv);
    drive_huge(src, rs.iter(), big.len, f, "RsVec::iter")?;
    drive_huge(src, rs.into_iter(), big.len, f, "RsVec::into_iter")
}

/// position iterators over more than 2^32 bits: a background of one value, and exceptions
pub fn pos_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let extra = src.uupto(200_000);
    let len = (1usize << 32) + extra;
    let ones = src.flag();
    let mut ex: Vec<usize> = (0..src.uupto(400)).map(|_| big_pos(src, len)).collect();
    ex.sort_unstable();
    ex.dedup();
    let mut bv = if ones { BitVec::from_ones(len) } else { BitVec::from_zeros(len) };
    for &e in &ex {
        bv.flip_bit(e);
    }
    let rs = RsVec::from_bit_vec(bv);
    ctx.note(|| format!("{len} bits, all {} but for {} positions", ones as u8, ex.len()));
    ctx.nontrivial_if(true);
    // background bit number r lies behind as many exceptions as have fewer than or exactly r background bits before them
    let shifted: Vec<usize> = ex.iter().enumerate().map(|(i, &e)| e - i).collect();
    let bg = |r: usize| r + shifted.partition_point(|&s| s <= r);
    let n = len - ex.len();
    for _ in 0..6 {
        if ones {
            drive_huge(src, rs.iter1(), n, bg, "iter1 over the background")?;
            drive_huge(src, rs.iter0(), ex.len(), |i| ex[i], "iter0 over the exceptions")?;
        } else {
            drive_huge(src, rs.iter0(), n, bg, "iter0 over the background")?;
            drive_huge(src, rs.iter1(), ex.len(), |i| ex[i], "iter1 over the exceptions")?;
        }
    }
    bit_set(&rs, !ones, &ex)?;
    if ones {
        drive_huge(src, rs.into_iter1(), n, bg, "into_iter1 over the background")
    } else {
        drive_huge(src, rs.into_iter0(), n, bg, "into_iter0 over the background")
    }
}
