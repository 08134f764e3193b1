//! C16 wavelet access and rank, C17 wavelet select, C18 order statistics, and the wavelet part of C07.
use crate::engine::*;
use crate::gen::*;
use crate::drive::drive;
use crate::{ensure, ensure_eq};
use std::cmp::Ordering;
use vers_vecs::{BitVec, WaveletMatrix};

/// the symbol as a query argument; its tail may hold anything
fn arg(src: &mut Src, s: &Sym) -> BitVec {
    build_bv(src, s)
}

fn note(ctx: &mut Ctx, v: &[Sym], k: usize) {
    ctx.note(|| show_seq(v, k));
    ctx.nontrivial_if(v.len() > 1);
    ctx.label_if(k > 64, "wider than 64 bits");
    ctx.label_if(v.len() > 512, "several blocks");
    ctx.label_if(v.len() > 8192, "several super blocks");
}

/// a symbol to query: in the sequence, near one, or any
fn query_sym(src: &mut Src, v: &[Sym], k: usize) -> Sym {
    match src.pick(&[4, 3, 2]) {
        0 if !v.is_empty() => src.choose(v).clone(),
        1 if !v.is_empty() => {
            let mut s = src.choose(v).clone();
            let b = src.uupto(k - 1);
            s[b] = !s[b];
            s
        }
        _ => rand_sym(src, k),
    }
}
/// a range with 0 <= a <= b <= n
fn gen_range(src: &mut Src, n: usize) -> (usize, usize) {
    let (a, b) = match src.pick(&[4, 2, 2, 2]) {
        3 => {
            let mut r = Rng::new(src.upto(0xFFFF));
            (aligned(&mut r, n), aligned(&mut r, n))
        }
        0 => (src.uupto(n), src.uupto(n)),
        1 => {
            let a = src.uupto(n);
            (a, (a + src.uupto(5)).min(n))
        }
        _ => (*src.choose(&[0, n / 2, n.saturating_sub(1)]), n),
    };
    (a.min(b), a.max(b))
}

// ---------------------------------------------------------------- C16
fn check_get(w: &WaveletMatrix, v: &[Sym], k: usize, what: &str) -> Res {
    ensure_eq!(w.len(), v.len(), "{what}: len");
    ensure_eq!(w.is_empty(), v.is_empty(), "{what}: is_empty");
    ensure_eq!(w.bits_per_element(), k, "{what}: bits_per_element");
    #[allow(deprecated)]
    let deprecated = w.bit_len() as usize;
    ensure_eq!(deprecated, k, "{what}: bit_len");
    for (i, s) in v.iter().enumerate() {
        if k <= 64 {
            ensure_eq!(w.get_u64(i), Some(to_u64(s)), "{what}: get_u64({i})");
            ensure_eq!(w.get_u64_unchecked(i), to_u64(s), "{what}: get_u64_unchecked({i})");
        } else {
            ensure_eq!(w.get_u64(i), None, "{what}: get_u64({i}) with {k} bits");
        }
        if i < 300 || i % 17 == 0 {
            match w.get_value(i) {
                None => return Err(format!("{what}: get_value({i}) of {} is None", v.len())),
                Some(g) => check_bv(&g, s, &format!("{what}: get_value({i})"))?,
            }
            check_bv(&w.get_value_unchecked(i), s, &format!("{what}: get_value_unchecked({i})"))?;
        }
    }
    for i in [v.len(), v.len() + 1, v.len() + 100_000, v.len().max(1 << 16), (1 << 32) + v.len() / 2, 1 << 63, usize::MAX] {
        ensure_eq!(w.get_u64(i), None, "{what}: get_u64({i}) of {}", v.len());
        ensure!(w.get_value(i).is_none(), "{what}: get_value({i}) of {} is not None", v.len());
    }
    Ok(())
}

fn check_rank(src: &mut Src, w: &WaveletMatrix, v: &[Sym], k: usize, times: usize) -> Res {
    for _ in 0..times {
        let s = query_sym(src, v, k);
        let q = arg(src, &s);
        let u = to_u64(&s);
        let (a, b) = gen_range(src, v.len());
        let e = v[a..b].iter().filter(|x| **x == s).count();
        let all = v[..b].iter().filter(|x| **x == s).count();
        let t = show(&s);
        ensure_eq!(w.rank(b, &q), Some(all), "rank({b}, {t})");
        ensure_eq!(w.rank_unchecked(b, &q), all, "rank_unchecked({b}, {t})");
        if a < v.len() {
            ensure_eq!(w.rank_range(a..b, &q), Some(e), "rank_range({a}..{b}, {t})");
            ensure_eq!(w.rank_offset(a, b, &q), Some(e), "rank_offset({a}, {b}, {t})");
        }
        ensure_eq!(w.rank_range_unchecked(a..b, &q), e, "rank_range_unchecked({a}..{b}, {t})");
        ensure_eq!(w.rank_offset_unchecked(a, b, &q), e, "rank_offset_unchecked({a}, {b}, {t})");
        if k <= 64 {
            ensure_eq!(w.rank_u64(b, u), Some(all), "rank_u64({b}, {t})");
            ensure_eq!(w.rank_u64_unchecked(b, u), all, "rank_u64_unchecked({b}, {t})");
            if a < v.len() {
                ensure_eq!(w.rank_range_u64(a..b, u), Some(e), "rank_range_u64({a}..{b}, {t})");
                ensure_eq!(w.rank_offset_u64(a, b, u), Some(e), "rank_offset_u64({a}, {b}, {t})");
            }
            ensure_eq!(w.rank_range_u64_unchecked(a..b, u), e, "rank_range_u64_unchecked({a}..{b}, {t})");
            ensure_eq!(w.rank_offset_u64_unchecked(a, b, u), e, "rank_offset_u64_unchecked({a}, {b}, {t})");
        } else {
            ensure_eq!(w.rank_u64(b, u), None, "rank_u64({b}) with {k} bits");
            ensure_eq!(w.rank_range_u64(a..b, u), None, "rank_range_u64({a}..{b}) with {k} bits");
            ensure_eq!(w.rank_offset_u64(a, b, u), None, "rank_offset_u64({a}, {b}) with {k} bits");
        }
        if v.len() > 2000 {
            // more ranges of long sequences
            let occ: Vec<usize> = (0..v.len()).filter(|&i| v[i] == s).collect();
            let mut r = Rng::new(src.upto(0xFFFF));
            for i in 0..60 {
                let (a, b) = if i % 3 == 0 { (r.upto(v.len() as u64) as usize, r.upto(v.len() as u64) as usize) } else { (aligned(&mut r, v.len()), aligned(&mut r, v.len())) };
                let (a, b) = (a.min(b), a.max(b));
                let (ra, rb) = (occ.partition_point(|&p| p < a), occ.partition_point(|&p| p < b));
                ensure_eq!(w.rank(b, &q), Some(rb), "rank({b}, {t})");
                ensure_eq!(w.rank_range_unchecked(a..b, &q), rb - ra, "rank_range_unchecked({a}..{b}, {t})");
                ensure_eq!(w.rank_offset_unchecked(a, b, &q), rb - ra, "rank_offset_unchecked({a}, {b}, {t})");
                if k <= 64 {
                    ensure_eq!(w.rank_u64(b, u), Some(rb), "rank_u64({b}, {t})");
                    ensure_eq!(w.rank_range_u64_unchecked(a..b, u), rb - ra, "rank_range_u64_unchecked({a}..{b}, {t})");
                }
            }
        }
        // symbols of another width
        let wrong = if src.flag() { [s.clone(), vec![false]].concat() } else { s[1..].to_vec() };
        let wq = arg(src, &wrong);
        ensure_eq!(w.rank(b, &wq), None, "rank of a {}-bit symbol, elements have {k} bits", wrong.len());
        ensure_eq!(w.rank_range(a..b, &wq), None, "rank_range of a {}-bit symbol, elements have {k} bits", wrong.len());
        ensure_eq!(w.rank_offset(a, b, &wq), None, "rank_offset of a {}-bit symbol, elements have {k} bits", wrong.len());
        // ranges that leave the sequence
        let n = v.len();
        ensure_eq!(w.rank(n + 1, &q), None, "rank({}) of {n}", n + 1);
        ensure_eq!(w.rank_range(a..n + 1, &q), None, "rank_range({a}..{}) of {n}", n + 1);
        ensure_eq!(w.rank_offset(a, n + 1, &q), None, "rank_offset({a}, {}) of {n}", n + 1);
        ensure_eq!(w.rank_offset(n + 1, n + 1, &q), None, "rank_offset({0}, {0}) of {n}", n + 1);
        ensure_eq!(w.rank_u64(n + 1, u), None, "rank_u64({}) of {n}", n + 1);
        ensure_eq!(w.rank_range_u64(a..n + 1, u), None, "rank_range_u64({a}..{}) of {n}", n + 1);
        ensure_eq!(w.rank_offset_u64(a, n + 1, u), None, "rank_offset_u64({a}, {}) of {n}", n + 1);
        if a < b {
            ensure_eq!(w.rank_offset(b, a, &q), None, "rank_offset({b}, {a})");
            ensure_eq!(w.rank_offset_u64(b, a, u), None, "rank_offset_u64({b}, {a})");
        }
    }
    Ok(())
}

pub fn wm_rank(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true);
    let v = gen_seq(src, 1200, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_get(&w, &v, k, "matrix")?;
    check_rank(src, &w, &v, k, 12)
}
/// all four constructors encode the same sequence
pub fn wm_construct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.urange(1, 14);
    let v = gen_seq(src, 600, k);
    note(ctx, &v, k);
    for (route, name) in ["from_bit_vec", "from_slice", "from_bit_vec_pc", "from_slice_pc"].iter().enumerate() {
        let w = build_route(src, &v, k, route);
        check_get(&w, &v, k, name)?;
        check_rank(src, &w, &v, k, 3).map_err(|e| format!("{name}: {e}"))?;
    }
    Ok(())
}
/// every sequence over small alphabets
pub const WM_ENUM: u64 = 1 << 13;
pub fn wm_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    // k = 1: up to 7 symbols, k = 2: up to 5, k = 3: up to 3; coded in one number with a leading one
    let i = src.upto(WM_ENUM - 1);
    let k = [1usize, 2, 3][(i % 3) as usize];
    let mut c = i / 3;
    let n = (c % 7) as usize;
    c /= 7;
    let mut v: Vec<Sym> = Vec::new();
    let mut r = Rng::new(c);
    for j in 0..n {
        let s = if j * k < 9 { c >> (j * k) } else { r.next() };
        v.push(from_u64(s & ((1 << k) - 1), k));
    }
    note(ctx, &v, k);
    let words: Vec<u64> = v.iter().map(to_u64).collect();
    let bv = BitVec::from_bools(&packed(&v));
    for (name, w) in [
        ("from_bit_vec", WaveletMatrix::from_bit_vec(&bv, k as u16)),
        ("from_slice", WaveletMatrix::from_slice(&words, k as u16)),
        ("from_bit_vec_pc", WaveletMatrix::from_bit_vec_pc(&bv, k as u16)),
        ("from_slice_pc", WaveletMatrix::from_slice_pc(&words, k as u16)),
    ] {
        check_get(&w, &v, k, name)?;
        for a in 0..n {
            for b in a..=n {
                for s in 0..1u64 << k {
                    let e = words[a..b].iter().filter(|&&x| x == s).count();
                    ensure_eq!(w.rank_range_u64(a..b, s), Some(e), "{name}: rank_range_u64({a}..{b}, {s})");
                }
            }
        }
    }
    Ok(())
}
pub fn wm_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.urange(1, 10);
    let v = gen_seq(src, 150_000, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_get(&w, &v, k, "matrix")?;
    check_rank(src, &w, &v, k, 10)?;
    check_select(src, &w, &v, k, 6)?;
    check_stats(src, &w, &v, k, 4)
}

// ---------------------------------------------------------------- C17
fn check_select(src: &mut Src, w: &WaveletMatrix, v: &[Sym], k: usize, times: usize) -> Res {
    let n = v.len();
    for _ in 0..times {
        let s = query_sym(src, v, k);
        let q = arg(src, &s);
        let u = to_u64(&s);
        let t = show(&s);
        let occ: Vec<usize> = (0..n).filter(|&i| v[i] == s).collect();
        let mut ranks: Vec<usize> = if occ.len() <= 40 { (0..occ.len()).collect() } else { (0..20).map(|_| src.uupto(occ.len() - 1)).collect() };
        if occ.len() > 40 {
            let mut r = Rng::new(src.upto(0xFFFF));
            ranks.extend((0..40).map(|_| aligned(&mut r, occ.len() - 1)));
        }
        // occurrences that do not exist
        ranks.extend([occ.len(), occ.len() + 1, occ.len() + src.uupto(n + 3), n, alias(src, occ.len()), usize::MAX]);
        for r in ranks {
            let e = occ.get(r).copied();
            ensure_eq!(w.select(r, &q), e, "select({r}, {t}) with {} occurrences", occ.len());
            if r != usize::MAX {
                ensure_eq!(w.select_unchecked(r, &q), e.unwrap_or(n), "select_unchecked({r}, {t}) with {} occurrences in {n}", occ.len());
            }
            if k <= 64 {
                ensure_eq!(w.select_u64(r, u), e, "select_u64({r}, {t}) with {} occurrences", occ.len());
                if r != usize::MAX {
                    ensure_eq!(w.select_u64_unchecked(r, u), e.unwrap_or(n), "select_u64_unchecked({r}, {t}) with {} occurrences in {n}", occ.len());
                }
            } else {
                ensure_eq!(w.select_u64(r, u), None, "select_u64({r}) with {k} bits");
            }
            // round trip with rank
            if let Some(p) = e {
                ensure_eq!(w.rank(p, &q), Some(r), "rank(select({r}, {t}), {t})");
            }
        }
        for _ in 0..if n > 2000 { 12 } else { 4 } {
            if n == 0 {
                break;
            }
            let off = if src.chance(1, 3) { aligned(&mut Rng::new(src.upto(0xFFFF)), n - 1) } else { src.uupto(n - 1) };
            let before = occ.partition_point(|&p| p < off);
            let left = occ.len() - before;
            let r = match src.pick(&[3, 2]) {
                0 if left > 0 => src.uupto(left - 1),
                _ if src.chance(1, 3) => alias(src, left),
                _ => left + src.uupto(n),
            };
            let e = occ.get(before.saturating_add(r)).copied();
            ensure_eq!(w.select_offset(off, r, &q), e, "select_offset({off}, {r}, {t}) with {left} occurrences left");
            ensure_eq!(w.select_offset_unchecked(off, r, &q), e.unwrap_or(n), "select_offset_unchecked({off}, {r}, {t}) with {left} occurrences left of {n}");
            if k <= 64 {
                ensure_eq!(w.select_offset_u64(off, r, u), e, "select_offset_u64({off}, {r}, {t}) with {left} occurrences left");
                ensure_eq!(w.select_offset_u64_unchecked(off, r, u), e.unwrap_or(n), "select_offset_u64_unchecked({off}, {r}, {t}) with {left} occurrences left of {n}");
            } else {
                ensure_eq!(w.select_offset_u64(off, r, u), None, "select_offset_u64({off}, {r}) with {k} bits");
            }
        }
        for off in [n, n + 1, alias(src, n), usize::MAX] {
            ensure_eq!(w.select_offset(off, 0, &q), None, "select_offset({off}, 0) of {n}");
            ensure_eq!(w.select_offset_u64(off, 0, u), None, "select_offset_u64({off}, 0) of {n}");
        }
        let wrong = if src.flag() { [s.clone(), vec![false]].concat() } else { s[1..].to_vec() };
        let wq = arg(src, &wrong);
        ensure_eq!(w.select(0, &wq), None, "select of a {}-bit symbol, elements have {k} bits", wrong.len());
        ensure_eq!(w.select_offset(0, 0, &wq), None, "select_offset of a {}-bit symbol, elements have {k} bits", wrong.len());
    }
    Ok(())
}
pub fn wm_select(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true);
    let v = gen_seq(src, 1200, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_select(src, &w, &v, k, 6)
}
pub fn wm_select_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.urange(1, 12);
    let v = gen_seq(src, 150_000, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_select(src, &w, &v, k, 8)
}

// ---------------------------------------------------------------- C18
fn ck_sym(got: Option<BitVec>, e: Option<&Sym>, what: &str) -> Res {
    match (got, e) {
        (None, None) => Ok(()),
        (Some(g), Some(e)) => check_bv(&g, e, what),
        (Some(g), None) => Err(format!("{what}: got {g:?}, expected None")),
        (None, Some(e)) => Err(format!("{what}: got None, expected {}", show(e))),
    }
}

fn check_stats(src: &mut Src, w: &WaveletMatrix, v: &[Sym], k: usize, times: usize) -> Res {
    let n = v.len();
    let narrow = k <= 64;
    let num = |s: Option<&Sym>| if narrow { s.map(to_u64) } else { None };
    for _ in 0..times {
        let (a, b) = gen_range(src, n);
        let mut so: Vec<&Sym> = v[a..b].iter().collect();
        so.sort_by(|x, y| cmp_sym(x, y));
        let l = so.len();
        let ks: Vec<usize> = (0..4).map(|_| if l > 0 { src.uupto(l - 1) } else { 0 }).chain([0, l.saturating_sub(1), l, l + 1, usize::MAX]).collect();
        let mut ks: Vec<usize> = ks.into_iter().chain([alias(src, l)]).collect();
        if l > 40 {
            let mut r = Rng::new(src.upto(0xFFFF));
            ks.extend((0..if n > 2000 { 40 } else { 3 }).map(|_| aligned(&mut r, l - 1)));
        }
        for q in ks {
            let e = so.get(q).copied();
            ck_sym(w.quantile(a..b, q), e, &format!("quantile({a}..{b}, {q})"))?;
            ensure_eq!(w.quantile_u64(a..b, q), num(e), "quantile_u64({a}..{b}, {q})");
            if let Some(e) = e {
                check_bv(&w.quantile_unchecked(a..b, q), e, &format!("quantile_unchecked({a}..{b}, {q})"))?;
                if narrow {
                    ensure_eq!(w.quantile_u64_unchecked(a..b, q), to_u64(e), "quantile_u64_unchecked({a}..{b}, {q})");
                }
            }
        }
        let (mn, mx) = (so.first().copied(), so.last().copied());
        let md = if l == 0 { None } else { Some(so[(l - 1) / 2]) };
        ck_sym(w.range_min(a..b), mn, &format!("range_min({a}..{b})"))?;
        ck_sym(w.range_max(a..b), mx, &format!("range_max({a}..{b})"))?;
        ck_sym(w.range_median(a..b), md, &format!("range_median({a}..{b})"))?;
        ensure_eq!(w.range_min_u64(a..b), num(mn), "range_min_u64({a}..{b})");
        ensure_eq!(w.range_max_u64(a..b), num(mx), "range_max_u64({a}..{b})");
        ensure_eq!(w.range_median_u64(a..b), num(md), "range_median_u64({a}..{b})");
        if l > 0 {
            check_bv(&w.range_min_unchecked(a..b), mn.unwrap(), "range_min_unchecked")?;
            check_bv(&w.range_max_unchecked(a..b), mx.unwrap(), "range_max_unchecked")?;
            check_bv(&w.range_median_unchecked(a..b), md.unwrap(), "range_median_unchecked")?;
            if narrow {
                ensure_eq!(w.range_min_u64_unchecked(a..b), to_u64(mn.unwrap()), "range_min_u64_unchecked({a}..{b})");
                ensure_eq!(w.range_max_u64_unchecked(a..b), to_u64(mx.unwrap()), "range_max_u64_unchecked({a}..{b})");
                ensure_eq!(w.range_median_u64_unchecked(a..b), to_u64(md.unwrap()), "range_median_u64_unchecked({a}..{b})");
            }
        }
        for _ in 0..if n > 2000 { 24 } else { 6 } {
            let s = query_sym(src, v, k);
            let q = arg(src, &s);
            let t = show(&s);
            let lt = so.partition_point(|x| cmp_sym(x, &s) == Ordering::Less);
            let le = so.partition_point(|x| cmp_sym(x, &s) != Ordering::Greater);
            let p = if le > 0 { Some(so[le - 1]) } else { None };
            let c = so.get(lt).copied();
            ck_sym(w.predecessor(a..b, &q), p, &format!("predecessor({a}..{b}, {t})"))?;
            ck_sym(w.successor(a..b, &q), c, &format!("successor({a}..{b}, {t})"))?;
            ensure_eq!(w.predecessor_u64(a..b, to_u64(&s)), num(p), "predecessor_u64({a}..{b}, {t})");
            ensure_eq!(w.successor_u64(a..b, to_u64(&s)), num(c), "successor_u64({a}..{b}, {t})");
            // out of bounds and other widths
            ensure!(w.predecessor(a..n + 1, &q).is_none(), "predecessor({a}..{}) of {n} is not None", n + 1);
            ensure!(w.successor(a..n + 1, &q).is_none(), "successor({a}..{}) of {n} is not None", n + 1);
            ensure_eq!(w.predecessor_u64(a..n + 1, to_u64(&s)), None, "predecessor_u64({a}..{}) of {n}", n + 1);
            ensure_eq!(w.successor_u64(a..n + 1, to_u64(&s)), None, "successor_u64({a}..{}) of {n}", n + 1);
            let wrong = if src.flag() { [s.clone(), vec![false]].concat() } else { s[1..].to_vec() };
            let wq = arg(src, &wrong);
            ensure!(w.predecessor(a..b, &wq).is_none(), "predecessor of a {}-bit symbol, elements have {k} bits", wrong.len());
            ensure!(w.successor(a..b, &wq).is_none(), "successor of a {}-bit symbol, elements have {k} bits", wrong.len());
        }
        ensure!(w.quantile(a..n + 1, 0).is_none(), "quantile({a}..{}, 0) of {n} is not None", n + 1);
        ensure_eq!(w.quantile_u64(a..n + 1, 0), None, "quantile_u64({a}..{}, 0) of {n}", n + 1);
        ensure!(w.range_max(a..n + 1).is_none(), "range_max({a}..{}) of {n} is not None", n + 1);
        ensure_eq!(w.range_max_u64(a..n + 1), None, "range_max_u64({a}..{}) of {n}", n + 1);
        ensure!(w.range_median(a..n + 1).is_none(), "range_median({a}..{}) of {n} is not None", n + 1);
        ensure_eq!(w.range_median_u64(a..n + 1), None, "range_median_u64({a}..{}) of {n}", n + 1);
    }
    // the whole sequence in order
    let mut so: Vec<&Sym> = v.iter().collect();
    so.sort_by(|x, y| cmp_sym(x, y));
    let step = (n / 300).max(1);
    for i in (0..n).step_by(step) {
        ck_sym(w.get_sorted(i), Some(so[i]), &format!("get_sorted({i})"))?;
        check_bv(&w.get_sorted_unchecked(i), so[i], &format!("get_sorted_unchecked({i})"))?;
        ensure_eq!(w.get_sorted_u64(i), num(Some(so[i])), "get_sorted_u64({i})");
        if narrow {
            ensure_eq!(w.get_sorted_u64_unchecked(i), to_u64(so[i]), "get_sorted_u64_unchecked({i})");
        }
    }
    for i in [n, n + 1, alias(src, n), usize::MAX] {
        ensure!(w.get_sorted(i).is_none(), "get_sorted({i}) of {n} is not None");
        ensure_eq!(w.get_sorted_u64(i), None, "get_sorted_u64({i}) of {n}");
    }
    Ok(())
}
pub fn wm_stats(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = gen_k(src, true);
    let v = gen_seq(src, 800, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_stats(src, &w, &v, k, 5)
}
pub fn wm_stats_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.urange(1, 12);
    let v = gen_seq(src, 80_000, k);
    note(ctx, &v, k);
    let w = build_wm(src, &v, k);
    check_stats(src, &w, &v, k, 3)
}

// ---------------------------------------------------------------- C07
pub fn iter_wavelet(src: &mut Src, ctx: &mut Ctx) -> Res {
    iter_wavelet_of(src, ctx, 120)
}
pub fn iter_wavelet_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    iter_wavelet_of(src, ctx, 10_000)
}
fn iter_wavelet_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let k = gen_k(src, true);
    let v = gen_seq(src, max, k);
    let mut w = build_wm(src, &v, k);
    note(ctx, &v, k);
    let mut so = v.clone();
    so.sort_by(cmp_sym);
    let bvs = |x: &[Sym]| x.iter().map(|s| BitVec::from_bools(s)).collect::<Vec<_>>();
    let nums = |x: &[Sym]| x.iter().map(to_u64).collect::<Vec<_>>();
    if k > 64 {
        ensure!(w.iter_u64().is_none(), "iter_u64 with {k} bits is not None");
        ensure!(w.iter_sorted_u64().is_none(), "iter_sorted_u64 with {k} bits is not None");
        ensure!(w.clone().into_iter_u64().is_none(), "into_iter_u64 with {k} bits is not None");
        ensure!(w.clone().into_iter_sorted_u64().is_none(), "into_iter_sorted_u64 with {k} bits is not None");
    }
    match src.uupto(if k > 64 { 4 } else { 8 }) {
        0 => drive(src, ctx, w.iter(), &bvs(&v), "wavelet iter", None),
        1 if src.flag() => drive(src, ctx, (&w).into_iter(), &bvs(&v), "wavelet by reference", None),
        1 => drive(src, ctx, (&mut w).into_iter(), &bvs(&v), "wavelet by mutable reference", None),
        2 => drive(src, ctx, w.into_iter(), &bvs(&v), "wavelet into_iter", None),
        3 => drive(src, ctx, w.iter_sorted(), &bvs(&so), "wavelet iter_sorted", None),
        4 => drive(src, ctx, w.into_iter_sorted(), &bvs(&so), "wavelet into_iter_sorted", None),
        5 => drive(src, ctx, w.iter_u64().ok_or("iter_u64 is None")?, &nums(&v), "wavelet iter_u64", None),
        6 => drive(src, ctx, w.into_iter_u64().ok_or("into_iter_u64 is None")?, &nums(&v), "wavelet into_iter_u64", None),
        7 => drive(src, ctx, w.iter_sorted_u64().ok_or("iter_sorted_u64 is None")?, &nums(&so), "wavelet iter_sorted_u64", Some(|i| (i.clone().min(), i.max()))),
        _ => drive(src, ctx, w.into_iter_sorted_u64().ok_or("into_iter_sorted_u64 is None")?, &nums(&so), "wavelet into_iter_sorted_u64", Some(|i| (i.clone().min(), i.max()))),
    }
}

// ---------------------------------------------------------------- more than 2^32 symbols
/// Symbols of one bit: the sequence is the bit vector. Only prefix counting can build it in little memory.
fn wm_huge(src: &mut Src, ctx: &mut Ctx, what: usize) -> Res {
    let big = Big::new(src);
    let n = big.len;
    ctx.note(|| big.show());
    ctx.nontrivial_if(true);
    let w = WaveletMatrix::from_bit_vec_pc(&big.bv(), 1);
    ensure_eq!(w.len(), n, "len");
    let sym = |b: bool| BitVec::from_bools(&[b]);
    let count = |a: usize, z: usize, b: bool| {
        let o = big.rank1(z) - big.rank1(a);
        if b { o } else { z - a - o }
    };
    for _ in 0..3000 {
        let (p, q) = (big_pos(src, n), big_pos(src, n));
        let (a, z) = (p.min(q), p.max(q));
        let b = src.flag();
        match what {
            0 => {
                ensure_eq!(w.get_u64(p), Some(big.bit(p) as u64), "get_u64({p})");
                ensure_eq!(w.get_value(p), Some(sym(big.bit(p))), "get_value({p})");
                ensure_eq!(w.rank_u64(p, b as u64), Some(count(0, p, b)), "rank_u64({p}, {b})");
                ensure_eq!(w.rank(p, &sym(b)), Some(count(0, p, b)), "rank({p}, {b})");
                ensure_eq!(w.rank_range_u64(a..z, b as u64), Some(count(a, z, b)), "rank_range_u64({a}..{z}, {b})");
                ensure_eq!(w.rank_offset_u64(a, z, b as u64), Some(count(a, z, b)), "rank_offset_u64({a}, {z}, {b})");
            }
            1 => {
                let b = big.bit(z);
                let r = count(0, z, b);
                ensure_eq!(w.select_u64(r, b as u64), Some(z), "select_u64({r}, {b})");
                ensure_eq!(w.select(r, &sym(b)), Some(z), "select({r}, {b})");
                let r = count(a, z, b);
                ensure_eq!(w.select_offset_u64(a, r, b as u64), Some(z), "select_offset_u64({a}, {r}, {b})");
                ensure_eq!(w.select_offset(a, r, &sym(b)), Some(z), "select_offset({a}, {r}, {b})");
                let t = count(a, n, b) + src.uupto(3);
                ensure_eq!(w.select_offset_u64(a, t, b as u64), None, "select_offset_u64({a}, {t}, {b}) of one that does not exist");
            }
            _ => {
                if a == z {
                    continue;
                }
                let zeros = count(a, z, false);
                let k = if src.flag() { src.uupto(z - a - 1) } else { (zeros + src.uupto(2)).saturating_sub(1).min(z - a - 1) };
                ensure_eq!(w.quantile_u64(a..z, k), Some((k >= zeros) as u64), "quantile_u64({a}..{z}, {k})");
                ensure_eq!(w.quantile(a..z, k), Some(sym(k >= zeros)), "quantile({a}..{z}, {k})");
                ensure_eq!(w.range_min_u64(a..z), Some((zeros == 0) as u64), "range_min_u64({a}..{z})");
                ensure_eq!(w.range_max_u64(a..z), Some((zeros < z - a) as u64), "range_max_u64({a}..{z})");
                ensure_eq!(w.range_median_u64(a..z), Some(((z - a - 1) / 2 >= zeros) as u64), "range_median_u64({a}..{z})");
                ensure_eq!(w.get_sorted_u64(p), Some((p >= count(0, n, false)) as u64), "get_sorted_u64({p})");
                let e = |o: bool| if o { Some(b as u64) } else { None };
                let have = [zeros > 0, zeros < z - a];
                let pre = if have[b as usize] { e(true) } else if b && have[0] { Some(0) } else { None };
                let suc = if have[b as usize] { e(true) } else if !b && have[1] { Some(1) } else { None };
                ensure_eq!(w.predecessor_u64(a..z, b as u64), pre, "predecessor_u64({a}..{z}, {b})");
                ensure_eq!(w.successor_u64(a..z, b as u64), suc, "successor_u64({a}..{z}, {b})");
            }
        }
    }
    Ok(())
}
pub fn wm_rank_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    wm_huge(src, ctx, 0)
}
pub fn wm_select_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    wm_huge(src, ctx, 1)
}
pub fn wm_stats_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    wm_huge(src, ctx, 2)
}
