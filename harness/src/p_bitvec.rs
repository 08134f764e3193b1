//! C01 histories of bit vector operations, C02 construction and packing, C03 equality and hashing,
//! C04 masked views.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vers_vecs::{BitVec, RsVec};

fn low(w: u64, n: usize) -> u64 {
    if n >= 64 { w } else { w & ((1u64 << n) - 1) }
}
fn push_word(m: &mut Vec<bool>, w: u64, n: usize) {
    for i in 0..n {
        m.push(i < 64 && w >> i & 1 == 1);
    }
}

// ---------------------------------------------------------------- C01
pub fn history(src: &mut Src, ctx: &mut Ctx) -> Res {
    history_of(src, ctx, &[0, 70, 300, 1200], 200, 40, 40_000)
}
pub fn history_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    history_of(src, ctx, &[20_000, 150_000, 1_000_000], 100_000, 12, 4_000_000)
}
fn history_of(src: &mut Src, ctx: &mut Ctx, starts: &[usize], part: usize, max_ops: usize, limit: usize) -> Res {
    let start_max = *src.choose(starts);
    let mut m: Vec<bool> = gen_bits(src, start_max);
    let mut bv = build_bv(src, &m);
    // whether the bits behind the end are known to be zero
    let mut clean = false;
    let n_ops = src.urange(1, max_ops);
    let mut mutations = 0;
    let mut shrunk = false;
    let mut grew_after_shrink = false;
    check_bv(&bv, &m, "initial")?;
    ctx.note(|| format!("start {}", show_bits(&m)));
    for step in 0..n_ops {
        let op = src.pick(&[4, 6, 4, 4, 10, 5, 6, 3, 3, 3, 4, 2, 2, 2, 2, 3, 2]);
        let before = m.len();
        let what = match op {
            0 => {
                let b = src.flag();
                bv.append(b);
                m.push(b);
                format!("append({b})")
            }
            1 => {
                let n = match src.pick(&[4, 3, 2, 1]) {
                    0 => src.uupto(70),
                    1 => {
                        // to a word boundary, or just around
                        let d = src.uupto(2);
                        (m.len() % 64 + d).saturating_sub(1)
                    }
                    2 => src.uupto(m.len()),
                    _ => {
                        let e = src.uupto(100);
                        m.len() + e
                    }
                };
                bv.drop_last(n);
                let l = m.len().saturating_sub(n);
                m.truncate(l);
                clean = false;
                if n > 0 {
                    shrunk = true;
                }
                format!("drop_last({n})")
            }
            2 => {
                let w = src.word();
                match src.pick(&[1, 1, 1, 1]) {
                    0 => bv.append_bit(w),
                    1 => bv.append_bit_u32(w as u32),
                    2 => bv.append_bit_u16(w as u16),
                    _ => bv.append_bit_u8(w as u8),
                }
                m.push(w & 1 == 1);
                format!("append_bit({w:#x})")
            }
            3 => {
                let w = src.word();
                bv.append_word(w);
                push_word(&mut m, w, 64);
                format!("append_word({w:#x})")
            }
            4 => {
                let w = src.word();
                let n = match src.pick(&[3, 2, 1]) {
                    0 => src.uupto(64),
                    1 => {
                        let d = src.uupto(2);
                        (64 - m.len() % 64 + d).saturating_sub(1).min(64)
                    }
                    _ => 0,
                };
                bv.append_bits(w, n);
                push_word(&mut m, w, n);
                clean = low(w, n) == w && n > 0;
                format!("append_bits({w:#x}, {n})")
            }
            5 => {
                let n = src.urange(1, 64);
                let w = low(src.word(), n);
                // the unchecked version is only specified on vectors without stray trailing bits
                if clean || m.len() % 64 == 0 {
                    bv.append_bits_unchecked(w, n);
                    clean = true;
                    push_word(&mut m, w, n);
                    format!("append_bits_unchecked({w:#x}, {n})")
                } else {
                    bv.append_bits(w, n);
                    clean = true;
                    push_word(&mut m, w, n);
                    format!("append_bits({w:#x}, {n})")
                }
            }
            6 => {
                let o = gen_bits(src, part);
                let ob = build_bv(src, &o);
                match src.pick(&[2, 1, 1]) {
                    0 => bv.extend_bitvec(&ob),
                    1 => bv.extend([&ob]),
                    _ => bv.extend([ob]),
                }
                clean = false;
                m.extend_from_slice(&o);
                format!("extend({})", show_bits(&o))
            }
            7 if !m.is_empty() => {
                let p = gen_pos(src, m.len());
                if src.flag() {
                    bv.flip_bit(p)
                } else {
                    bv.flip_bit_unchecked(p)
                }
                m[p] = !m[p];
                format!("flip_bit({p})")
            }
            8 if !m.is_empty() => {
                let p = gen_pos(src, m.len());
                let w = src.word();
                if src.flag() {
                    ensure!(bv.set(p, w).is_ok(), "set({p}) in range is Err");
                } else {
                    bv.set_unchecked(p, w)
                }
                m[p] = w & 1 == 1;
                format!("set({p}, {w:#x})")
            }
            9 => {
                let p = m.len() + src.logsize(1000);
                let r = bv.set(p, 1).is_err();
                ensure!(r, "set({p}) out of range is Ok");
                format!("set({p}) out of range")
            }
            10 => {
                // split, keep one half or swap the halves
                let at = if m.is_empty() { 0 } else { src.uupto(m.len()) };
                let (a, b) = if src.flag() {
                    match std::mem::take(&mut bv).split_at(at) {
                        Ok(x) => x,
                        Err(_) => return Err(format!("split_at({at}) of {} bits is Err", m.len())),
                    }
                } else {
                    std::mem::take(&mut bv).split_at_unchecked(at)
                };
                let mb = m.split_off(at);
                check_bv(&a, &m, "left half of split")?;
                check_bv(&b, &mb, "right half of split")?;
                clean = false;
                match src.pick(&[1, 1, 1]) {
                    0 => bv = a,
                    1 => {
                        bv = b;
                        m = mb;
                    }
                    _ => {
                        bv = b;
                        bv.extend_bitvec(&a);
                        let mut x = mb;
                        x.extend_from_slice(&m);
                        m = x;
                    }
                }
                shrunk = true;
                format!("split_at({at})")
            }
            11 => {
                let at = m.len() + 1 + src.logsize(1000);
                match std::mem::take(&mut bv).split_at(at) {
                    Ok(_) => return Err(format!("split_at({at}) of {} bits is Ok", m.len())),
                    Err(orig) => bv = orig,
                }
                format!("split_at({at}) out of range")
            }
            12 => {
                let o = gen_bits_len(src, m.len());
                let ob = build_bv(src, &o);
                let k = src.uupto(3);
                let f: fn(bool, bool) -> bool = [|a, b| a | b, |a, b| a & b, |a, b| a ^ b, |a: bool, b| !a & b][k];
                let r = match k {
                    0 => bv.apply_mask_or(&ob),
                    1 => bv.apply_mask_and(&ob),
                    2 => bv.apply_mask_xor(&ob),
                    _ => bv.apply_mask_custom(&ob, |a, b| !a & b),
                };
                ensure!(r.is_ok(), "mask of equal length rejected");
                for (x, y) in m.iter_mut().zip(o) {
                    *x = f(*x, y);
                }
                clean = false;
                format!("apply mask {k}")
            }
            13 => {
                let o = m.len() + 1 + src.uupto(70);
                let o = if src.flag() && m.len() > 70 { o - 71 } else { o };
                if o != m.len() {
                    let ob = BitVec::from_ones(o);
                    let r = [
                        bv.apply_mask_or(&ob).is_err(),
                        bv.apply_mask_and(&ob).is_err(),
                        bv.apply_mask_xor(&ob).is_err(),
                        bv.apply_mask_custom(&ob, |a, b| a ^ b).is_err(),
                        bv.mask_or(&ob).is_err(),
                        bv.mask_and(&ob).is_err(),
                        bv.mask_xor(&ob).is_err(),
                        bv.mask_custom(&ob, |a, b| a ^ b).is_err(),
                    ];
                    ensure!(r == [true; 8], "mask of different length accepted: {r:?}");
                }
                "masks of other length".to_string()
            }
            14 => {
                let c = bv.clone();
                bv = c;
                "clone".to_string()
            }
            15 => {
                bv = RsVec::from_bit_vec(bv).into_bit_vec();
                clean = false;
                "RsVec round trip".to_string()
            }
            16 => {
                // iterate and rebuild
                let v: Vec<u64> = bv.iter().collect();
                bv = BitVec::from_bits_u64(&v);
                clean = false;
                "iterate and rebuild".to_string()
            }
            _ => continue,
        };
        if m.len() % 64 == 0 {
            clean = true;
        }
        mutations += 1;
        if m.len() > before && shrunk {
            grew_after_shrink = true;
        }
        ctx.note(|| what.clone());
        check_bv(&bv, &m, &format!("after step {step} {what}"))?;
        // random windows
        for _ in 0..2 {
            if !m.is_empty() {
                let p = gen_pos(src, m.len());
                let n = src.urange(1, 64);
                ensure_eq!(bv.get_bits(p, n), model_get_bits(&m, p, n), "after {what}: get_bits({p}, {n})");
                if p + n <= m.len() {
                    ensure_eq!(Some(bv.get_bits_unchecked(p, n)), model_get_bits(&m, p, n), "after {what}: get_bits_unchecked({p}, {n})");
                }
                let i = p / n;
                ensure_eq!(bv.unpack_element(i, n), model_get_bits(&m, i * n, n), "after {what}: unpack_element({i}, {n})");
                if i * n + n <= m.len() {
                    ensure_eq!(Some(bv.unpack_element_unchecked(i, n)), model_get_bits(&m, i * n, n), "after {what}: unpack_element_unchecked({i}, {n})");
                }
            }
        }
        if m.len() > limit {
            break;
        }
    }
    for (i, &b) in m.iter().enumerate() {
        ensure_eq!(bv.get(i), Some(b as u64), "final get({i})");
        ensure_eq!(bv.get_unchecked(i), b as u64, "final get_unchecked({i})");
        ensure_eq!(bv.is_bit_set(i), Some(b), "final is_bit_set({i})");
        ensure_eq!(bv.is_bit_set_unchecked(i), b, "final is_bit_set_unchecked({i})");
    }
    ensure_eq!(bv.is_bit_set(m.len()), None, "final is_bit_set(len)");
    ctx.nontrivial_if(mutations >= 3 && !m.is_empty());
    ctx.label_if(grew_after_shrink, "grew after shrinking");
    ctx.label_if(m.len() % 64 == 0 && !m.is_empty(), "ends on a word boundary");
    Ok(())
}

/// all windows of a vector
pub fn windows(src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_bits(src, 400);
    let bv = build_bv(src, &m);
    for p in 0..=m.len() + 1 {
        for n in [1usize, 2, 7, 8, 31, 32, 33, 63, 64, 65, 66, 128] {
            ensure_eq!(bv.get_bits(p, n), model_get_bits(&m, p, n), "get_bits({p}, {n})");
        }
        let n = src.urange(1, 64);
        ensure_eq!(bv.get_bits(p, n), model_get_bits(&m, p, n), "get_bits({p}, {n})");
        ensure_eq!(bv.unpack_element(p, n), model_get_bits(&m, p * n, n), "unpack_element({p}, {n})");
    }
    ctx.nontrivial_if(m.len() > 64);
    ctx.note(|| show_bits(&m));
    Ok(())
}

// ---------------------------------------------------------------- C02
/// few words are drawn one by one, many from a seed in drawn shapes
fn draw_words(src: &mut Src, n: usize) -> Vec<u64> {
    if n <= 300 {
        return (0..n).map(|_| src.word()).collect();
    }
    gen_values(src, n)
}
pub fn construct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[5usize, 70, 300]);
    construct_of(src, ctx, max, 20_000)
}
pub fn construct_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[3_000usize, 30_000, 100_000]);
    construct_of(src, ctx, max, 3_000_000)
}
fn construct_of(src: &mut Src, ctx: &mut Ctx, max: usize, fill: usize) -> Res {
    let n = src.uupto(max);
    let ws = draw_words(src, n);
    let kind = src.uupto(16);
    let lsb: Vec<bool> = ws.iter().map(|w| w & 1 == 1).collect();
    let mut limbs = Vec::new();
    for &w in &ws {
        push_word(&mut limbs, w, 64);
    }
    let (bv, m, name): (BitVec, Vec<bool>, &str) = match kind {
        0 => (BitVec::from_bits(&ws.iter().map(|&w| w as u8).collect::<Vec<_>>()), lsb, "from_bits"),
        1 => (BitVec::from_bits_u16(&ws.iter().map(|&w| w as u16).collect::<Vec<_>>()), lsb, "from_bits_u16"),
        2 => (BitVec::from_bits_u32(&ws.iter().map(|&w| w as u32).collect::<Vec<_>>()), lsb, "from_bits_u32"),
        3 => (BitVec::from_bits_u64(&ws), lsb, "from_bits_u64"),
        4 => (BitVec::from_bits_iter(gen_manner(src).of(ws.iter().map(|&w| w as u32))), lsb, "from_bits_iter u32"),
        5 => (BitVec::from_bits_iter(gen_manner(src).of(lsb.iter().copied())), lsb, "from_bits_iter bool"),
        6 => (BitVec::from_bools(&lsb), lsb, "from_bools"),
        7 => (BitVec::from_bool_iter(gen_manner(src).of(lsb.iter().copied())), lsb, "from_bool_iter"),
        8 => (BitVec::from_limbs(&ws), limbs, "from_limbs"),
        9 => (BitVec::from_limbs_iter(gen_manner(src).of(ws.iter().copied())), limbs, "from_limbs_iter"),
        10 => (BitVec::from_vec(ws.clone()), limbs, "from_vec"),
        11 => (BitVec::from(&ws[..]), limbs, "From<&[u64]>"),
        12 => (BitVec::from(ws.clone()), limbs, "From<Vec<u64>>"),
        13 => (gen_manner(src).of(ws.iter().copied()).collect::<BitVec>(), limbs, "FromIterator"),
        14 => {
            let l = gen_len(src, fill);
            (BitVec::from_zeros(l), vec![false; l], "from_zeros")
        }
        15 => {
            let l = gen_len(src, fill);
            (BitVec::from_ones(l), vec![true; l], "from_ones")
        }
        _ => {
            // narrow limbs in an iterator are still whole limbs
            let ns: Vec<u32> = ws.iter().map(|&w| w as u32).collect();
            let mut l = Vec::new();
            for &w in &ns {
                push_word(&mut l, w as u64, 64);
            }
            (BitVec::from_limbs_iter(ns), l, "from_limbs_iter u32")
        }
    };
    ctx.note(|| format!("{name} {}", show_bits(&m)));
    check_bv(&bv, &m, name)?;
    ctx.nontrivial_if(!m.is_empty());
    // a constructed vector behaves like any other when it grows
    let mut bv = bv;
    let mut m = m;
    let w = src.word();
    let k = src.uupto(64);
    bv.append_bits(w, k);
    push_word(&mut m, w, k);
    bv.append_word(!w);
    push_word(&mut m, !w, 64);
    check_bv(&bv, &m, &format!("{name} after appending"))
}

pub fn packing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[3usize, 40, 200]);
    packing_of(src, ctx, max)
}
pub fn packing_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[2_000usize, 10_000, 40_000]);
    packing_of(src, ctx, max)
}
fn packing_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let n = src.uupto(max);
    let ws = draw_words(src, n);
    let k = match src.pick(&[6, 2, 1]) {
        0 => src.urange(0, 64),
        1 => src.urange(65, 200),
        _ => *src.choose(&[1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
    };
    let ty = src.uupto(7);
    let width = [64usize, 32, 16, 8][ty % 4];
    let vals: Vec<u64> = ws.iter().map(|&w| low(w, width)).collect();
    let bv = match ty {
        0 => BitVec::pack_sequence_u64(&vals, k),
        1 => BitVec::pack_sequence_u32(&vals.iter().map(|&v| v as u32).collect::<Vec<_>>(), k),
        2 => BitVec::pack_sequence_u16(&vals.iter().map(|&v| v as u16).collect::<Vec<_>>(), k),
        3 => BitVec::pack_sequence_u8(&vals.iter().map(|&v| v as u8).collect::<Vec<_>>(), k),
        4 => BitVec::pack_from_iter_u64(gen_manner(src).of(vals.iter().copied()), k),
        5 => BitVec::pack_from_iter_u32(gen_manner(src).of(vals.iter().map(|&v| v as u32)), k),
        6 => BitVec::pack_from_iter_u16(gen_manner(src).of(vals.iter().map(|&v| v as u16)), k),
        _ => BitVec::pack_from_iter_u8(gen_manner(src).of(vals.iter().map(|&v| v as u8)), k),
    };
    let mut m = Vec::new();
    for &v in &vals {
        push_word(&mut m, v, k);
    }
    let what = format!("packing {n} u{width} values into {k} bits (variant {ty})");
    ctx.note(|| format!("{what}: {vals:x?}"));
    check_bv(&bv, &m, &what)?;
    if (1..=64).contains(&k) {
        for (i, &v) in vals.iter().enumerate() {
            ensure_eq!(bv.unpack_element(i, k), Some(low(v, k)), "{what}: unpack_element({i}, {k})");
            ensure_eq!(bv.unpack_element_unchecked(i, k), low(v, k), "{what}: unpack_element_unchecked({i}, {k})");
        }
        ensure_eq!(bv.unpack_element(n, k), None, "{what}: unpack_element behind the end");
    }
    ctx.nontrivial_if(n > 1 && k > 0);
    ctx.label_if(k > width, "padded");
    ctx.label_if(k < width, "truncated");
    Ok(())
}

// ---------------------------------------------------------------- C03
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// a second content that differs as little as possible, or not at all
fn neighbour(src: &mut Src, m: &[bool]) -> Vec<bool> {
    let mut o = m.to_vec();
    match src.pick(&[4, 4, 1, 1, 2]) {
        0 => {}
        1 if !m.is_empty() => {
            let p = gen_pos(src, m.len());
            o[p] = !o[p];
        }
        2 => {
            o.pop();
        }
        3 => {
            let b = src.flag();
            o.push(b)
        }
        4 if m.len() > 1 => {
            // keep the number of ones: swap two positions
            let p = gen_pos(src, m.len());
            let q = gen_pos(src, m.len());
            o.swap(p, q);
        }
        _ => {}
    }
    o
}

pub fn equality(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[3usize, 130, 700, 20_000]);
    let m = gen_bits(src, max);
    let o = neighbour(src, &m);
    let a = build_bv(src, &m);
    let b = build_bv(src, &o);
    let same = m == o;
    ctx.note(|| format!("{} vs {}", show_bits(&m), if same { "the same bits".to_string() } else { show_bits(&o) }));
    ctx.label_if(same, "equal");
    ctx.label_if(!same && m.len() == o.len(), "differs in a bit");
    ctx.nontrivial_if(!m.is_empty());
    ensure_eq!(a == b, same, "BitVec a == b");
    ensure_eq!(b == a, same, "BitVec b == a");
    ensure_eq!(a != b, !same, "BitVec a != b");
    ensure!(a == a.clone(), "a == a.clone()");
    if same {
        ensure_eq!(h(&a), h(&b), "hashes of equal vectors");
        let mut set = std::collections::HashSet::new();
        set.insert(a.clone());
        ensure!(set.contains(&b), "equal vector not found in hash set");
    }
    // equality after further use
    let w = src.word();
    let k = src.uupto(64);
    let (mut a2, mut b2) = (a.clone(), b.clone());
    a2.append_bits(w, k);
    b2.append_bits(w, k);
    ensure_eq!(a2 == b2, same, "after appending the same {k} bits: a == b");
    if same {
        ensure_eq!(h(&a2), h(&b2), "after appending the same {k} bits: hashes");
    }
    let (ra, rb) = (RsVec::from_bit_vec(a), RsVec::from_bit_vec(b));
    rs_equal(&ra, &rb, same)
}

fn rs_equal(ra: &RsVec, rb: &RsVec, same: bool) -> Res {
    for (x, y) in [(ra, rb), (rb, ra)] {
        ensure_eq!(x == y, same, "RsVec ==");
        ensure_eq!(x.full_equals(y), same, "full_equals");
        ensure_eq!(x.sparse_equals::<true>(y), same, "sparse_equals::<true>");
        ensure_eq!(x.sparse_equals::<false>(y), same, "sparse_equals::<false>");
    }
    Ok(())
}

/// vectors beyond the size where comparison switches its strategy
pub fn equality_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = 3_999_990 + src.uupto(1_200_000);
    let m = gen_bits_len(src, len);
    let o = neighbour(src, &m);
    let same = m == o;
    let a = RsVec::from_bit_vec(build_bv(src, &m));
    let b = RsVec::from_bit_vec(build_bv(src, &o));
    ctx.note(|| format!("{} vs {}", show_bits(&m), if same { "the same bits" } else { "a neighbour" }));
    ctx.label_if(same, "equal");
    ctx.nontrivial_if(true);
    rs_equal(&a, &b, same)
}

/// all pairs of short vectors
pub fn equality_enum(src: &mut Src, ctx: &mut Ctx) -> Res {
    // index -> a pair of vectors around a word boundary: prefix of ones, three free bits each
    let idx = src.upto(u64::MAX);
    let base = [0usize, 1, 30, 61, 62, 63, 64, 65, 126, 127, 128, 510, 511, 512][(idx / 900) as usize % 14];
    let p = (idx % 900) as usize;
    let (x, y) = (p % 30, p / 30);
    let mk = |v: usize| -> Vec<bool> {
        // 0..=3 extra bits: 1 + 2 + 4 + 8 = 15 vectors, in two variants of prefix
        let (pre, v) = (v >= 15, v % 15);
        let (l, c) = match v {
            0 => (0, 0),
            1..=2 => (1, v - 1),
            3..=6 => (2, v - 3),
            _ => (3, v - 7),
        };
        let mut m = vec![pre; base];
        for i in 0..l {
            m.push(c >> i & 1 == 1);
        }
        m
    };
    let (mx, my) = (mk(x), mk(y));
    let same = mx == my;
    let a = BitVec::from_bools(&mx);
    let mut w = words_of(&my, u64::MAX);
    w.push(u64::MAX);
    let mut b = BitVec::from_vec(w);
    b.drop_last(b.len() - my.len());
    ensure_eq!(a == b, same, "{} == {}", show_bits(&mx), show_bits(&my));
    ensure_eq!(b == a, same, "{} == {}", show_bits(&my), show_bits(&mx));
    if same {
        ensure_eq!(h(&a), h(&b), "hashes of {}", show_bits(&mx));
    }
    ctx.nontrivial_if(true);
    ctx.note(|| format!("{} == {}", show_bits(&mx), show_bits(&my)));
    rs_equal(&RsVec::from_bit_vec(a), &RsVec::from_bit_vec(b), same)
}

// ---------------------------------------------------------------- C04
pub fn masked(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[5usize, 200, 2000]);
    masked_of(src, ctx, max)
}
pub fn masked_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = *src.choose(&[10_000usize, 80_000, 500_000]);
    masked_of(src, ctx, max)
}
fn masked_of(src: &mut Src, ctx: &mut Ctx, max: usize) -> Res {
    let m = gen_bits(src, max);
    let o = gen_bits_len(src, m.len());
    let a = build_bv(src, &m);
    let b = build_bv(src, &o);
    let op = src.uupto(5);
    fn bin(op: usize, a: u64, b: u64) -> u64 {
        match op {
            0 => a | b,
            1 => a & b,
            2 => a ^ b,
            3 => !(a & b),
            4 => a & !b,
            _ => !(a ^ b),
        }
    }
    let r: Vec<bool> = m.iter().zip(&o).map(|(&x, &y)| bin(op, x as u64, y as u64) & 1 == 1).collect();
    ctx.note(|| format!("op {op} on {} with {}", show_bits(&m), show_bits(&o)));
    ctx.nontrivial_if(m.len() > 1);
    ctx.label_if(m.len() > 128, "several words");
    macro_rules! go {
        ($mv:expr) => {{
            let mv = $mv;
            let ones = r.iter().filter(|&&x| x).count() as u64;
            ensure_eq!(mv.count_ones(), ones, "count_ones");
            ensure_eq!(mv.count_zeros(), r.len() as u64 - ones, "count_zeros");
            for p in 0..r.len() {
                ensure_eq!(mv.get(p), Some(r[p] as u64), "get({p})");
                ensure_eq!(mv.get_unchecked(p), r[p] as u64, "get_unchecked({p})");
                ensure_eq!(mv.is_bit_set(p), Some(r[p]), "is_bit_set({p})");
                ensure_eq!(mv.is_bit_set_unchecked(p), r[p], "is_bit_set_unchecked({p})");
            }
            for d in 0..3 {
                ensure_eq!(mv.get(r.len() + d), None, "get behind the end");
                ensure_eq!(mv.is_bit_set(r.len() + d), None, "is_bit_set behind the end");
            }
            for _ in 0..40 {
                let p = gen_pos(src, r.len());
                let n = if src.chance(1, 4) { *src.choose(&[64usize, 65, 63, 128, 32]) } else { src.urange(1, 66) };
                let e = model_get_bits(&r, p, n);
                ensure_eq!(mv.get_bits(p, n), e, "get_bits({p}, {n})");
                if let Some(e) = e {
                    ensure_eq!(mv.get_bits_unchecked(p, n), e, "get_bits_unchecked({p}, {n})");
                }
            }
            let mut p = 0;
            while p + 64 <= r.len() {
                ensure_eq!(mv.get_bits(p, 64), model_get_bits(&r, p, 64), "get_bits({p}, 64)");
                p += 1 + (p % 7);
            }
            let t = mv.to_bit_vec();
            check_bv(&t, &r, "to_bit_vec")?;
            // the collected vector is an ordinary one
            let mut t = t;
            let mut r2 = r.clone();
            t.append_bits(5, 3);
            push_word(&mut r2, 5, 3);
            check_bv(&t, &r2, "to_bit_vec after appending")?;
        }};
    }
    match op {
        0 => go!(a.mask_or(&b).map_err(|e| format!("rejected: {e}"))?),
        1 => go!(a.mask_and(&b).map_err(|e| format!("rejected: {e}"))?),
        2 => go!(a.mask_xor(&b).map_err(|e| format!("rejected: {e}"))?),
        _ => go!(a.mask_custom(&b, |x, y| bin(op, x, y)).map_err(|e| format!("rejected: {e}"))?),
    }
    if src.flag() {
        go!(a.mask_custom(&b, |x, y| bin(op, x, y)).map_err(|e| format!("rejected: {e}"))?);
    }
    // immediate application agrees, and neither operand changed
    check_bv(&a, &m, "masked vector afterwards")?;
    check_bv(&b, &o, "mask afterwards")?;
    let mut c = a.clone();
    let rr = match op {
        0 => c.apply_mask_or(&b),
        1 => c.apply_mask_and(&b),
        2 => c.apply_mask_xor(&b),
        3 => c.apply_mask_custom(&b, |a, b| !(a & b)),
        4 => c.apply_mask_custom(&b, |a, b| a & !b),
        _ => c.apply_mask_custom(&b, |a, b| !(a ^ b)),
    };
    ensure!(rr.is_ok(), "apply_mask rejected equal lengths");
    check_bv(&c, &r, "apply_mask")?;
    // different lengths are refused
    let d = BitVec::from_zeros(m.len() + 1 + src.uupto(64));
    for (x, y) in [(&a, &d), (&d, &a)] {
        ensure!(x.mask_or(y).is_err() && x.mask_and(y).is_err() && x.mask_xor(y).is_err() && x.mask_custom(y, |p, q| p ^ q).is_err(), "lazy mask of another length accepted");
        let mut z = x.clone();
        ensure!(z.apply_mask_or(y).is_err() && z.apply_mask_and(y).is_err() && z.apply_mask_xor(y).is_err() && z.apply_mask_custom(y, |p, q| p ^ q).is_err(), "mask of another length applied");
        ensure_eq!(z.len(), x.len(), "length after refused mask");
    }
    Ok(())
}

// ---------------------------------------------------------------- beyond 2^32 bits
/// What a history did to a very long vector: pieces of the original and of literal bits, and single changed bits.
struct Pieces<'a> {
    big: &'a Big,
    pieces: Vec<Piece>,
    changed: std::collections::BTreeMap<usize, bool>,
}
enum Piece {
    Base { start: usize, len: usize },
    Lit(Vec<bool>),
}
impl Piece {
    fn len(&self) -> usize {
        match self {
            Piece::Base { len, .. } => *len,
            Piece::Lit(v) => v.len(),
        }
    }
}
impl Pieces<'_> {
    fn len(&self) -> usize {
        self.pieces.iter().map(Piece::len).sum()
    }
    fn under(&self, mut p: usize) -> bool {
        for x in &self.pieces {
            if p < x.len() {
                return match x {
                    Piece::Base { start, .. } => self.big.bit(start + p),
                    Piece::Lit(v) => v[p],
                };
            }
            p -= x.len();
        }
        panic!("position behind the model")
    }
    fn bit(&self, p: usize) -> bool {
        self.changed.get(&p).copied().unwrap_or_else(|| self.under(p))
    }
    fn ones(&self) -> u64 {
        let mut n = 0i64;
        for x in &self.pieces {
            n += match x {
                Piece::Base { start, len } => self.big.rank1(start + len) as i64 - self.big.rank1(*start) as i64,
                Piece::Lit(v) => v.iter().filter(|&&b| b).count() as i64,
            };
        }
        for (&p, &b) in &self.changed {
            n += b as i64 - self.under(p) as i64;
        }
        n as u64
    }
    fn push(&mut self, bits: impl Iterator<Item = bool>) {
        self.pieces.push(Piece::Lit(bits.collect()));
    }
    /// the part behind `at` (the part before it if not `right`)
    fn split(&mut self, at: usize, right: bool) {
        let mut out = Vec::new();
        let mut pos = 0;
        for x in self.pieces.drain(..) {
            let l = x.len();
            let cut = at.clamp(pos, pos + l) - pos;
            let (a, b) = if right { (cut, l) } else { (0, cut) };
            out.push(match x {
                Piece::Base { start, .. } => Piece::Base { start: start + a, len: b - a },
                Piece::Lit(v) => Piece::Lit(v[a..b].to_vec()),
            });
            pos += l;
        }
        self.pieces = out;
        let ch = std::mem::take(&mut self.changed);
        self.changed = if right { ch.into_iter().filter(|x| x.0 >= at).map(|(p, b)| (p - at, b)).collect() } else { ch.into_iter().filter(|x| x.0 < at).collect() };
    }
    fn check(&self, src: &mut Src, bv: &BitVec, what: &str) -> Res {
        let n = self.len();
        ensure_eq!(bv.len(), n, "{what}: len");
        ensure_eq!(bv.is_empty(), n == 0, "{what}: is_empty");
        let near: Vec<usize> = self.changed.keys().copied().rev().step_by(7).take(60).collect();
        for k in 0..600 {
            if n == 0 {
                break;
            }
            let p = if k < near.len() { near[k] } else { big_pos(src, n) };
            let b = self.bit(p);
            ensure_eq!(bv.get(p), Some(b as u64), "{what}: get({p})");
            ensure_eq!(bv.is_bit_set(p), Some(b), "{what}: is_bit_set({p})");
            let w = src.urange(1, 64);
            let e = if p + w <= n { Some((0..w).fold(0u64, |a, i| a | (self.bit(p + i) as u64) << i)) } else { None };
            ensure_eq!(bv.get_bits(p, w), e, "{what}: get_bits({p}, {w})");
            let i = p / w;
            let e = if (i + 1) * w <= n { Some((0..w).fold(0u64, |a, j| a | (self.bit(i * w + j) as u64) << j)) } else { None };
            ensure_eq!(bv.unpack_element(i, w), e, "{what}: unpack_element({i}, {w})");
        }
        for d in [0, 1, 63, 64] {
            ensure_eq!(bv.get(n + d), None, "{what}: get({}) behind the end", n + d);
        }
        Ok(())
    }
}

pub fn history_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = Big::new(src);
    let mut m = Pieces { big: &big, pieces: vec![Piece::Base { start: 0, len: big.len }], changed: Default::default() };
    let mut bv = big.bv();
    ctx.note(|| big.show());
    ctx.nontrivial_if(true);
    m.check(src, &bv, "initial")?;
    for _ in 0..src.urange(4, 8) {
        let n = m.len();
        let what = match src.pick(&[3, 2, 2, 2, 2, 1]) {
            0 => {
                for _ in 0..100 {
                    let p = big_pos(src, n);
                    if src.flag() {
                        let b = m.bit(p);
                        bv.flip_bit(p);
                        m.changed.insert(p, !b);
                    } else {
                        let w = src.word();
                        ensure!(bv.set(p, w).is_ok(), "set({p}) of {n} bits is Err");
                        m.changed.insert(p, w & 1 == 1);
                    }
                }
                "set and flip".to_string()
            }
            1 => {
                for _ in 0..40 {
                    let w = src.word();
                    match src.uupto(2) {
                        0 => {
                            let k = src.urange(1, 64);
                            bv.append_bits(w, k);
                            m.push((0..k).map(|i| w >> i & 1 == 1));
                        }
                        1 => {
                            bv.append_word(w);
                            m.push((0..64).map(|i| w >> i & 1 == 1));
                        }
                        _ => {
                            bv.append(w & 1 == 1);
                            m.push([w & 1 == 1].into_iter());
                        }
                    }
                }
                "appends".into()
            }
            2 => {
                let k = match src.uupto(2) {
                    0 => src.uupto(5000),
                    1 => n - big_pos(src, n),
                    _ => (n.saturating_sub(1 << 32) + src.uupto(100)).saturating_sub(50),
                }
                .min(n - 1);
                bv.drop_last(k);
                m.split(n - k, false);
                format!("drop_last({k})")
            }
            3 => {
                let at = big_pos(src, n).max(1);
                let (a, b) = std::mem::take(&mut bv).split_at(at).map_err(|_| format!("split_at({at}) of {n} bits is Err"))?;
                let right = src.chance(1, 3) && n - at > 1;
                ensure_eq!(a.len(), at, "split_at({at}) of {n} bits: left len");
                ensure_eq!(b.len(), n - at, "split_at({at}) of {n} bits: right len");
                m.split(at, right);
                bv = if right { b } else { a };
                format!("split_at({at}), right {right}")
            }
            4 => {
                let o = gen_bits(src, 2000);
                let ob = build_bv(src, &o);
                if src.flag() {
                    bv.extend_bitvec(&ob);
                    m.push(o.into_iter());
                    "extend".into()
                } else {
                    let mut x = ob;
                    x.extend_bitvec(&bv);
                    bv = x;
                    let ch = std::mem::take(&mut m.changed);
                    m.changed = ch.into_iter().map(|(p, b)| (p + o.len(), b)).collect();
                    let l = o.len();
                    m.pieces.insert(0, Piece::Lit(o));
                    format!("extend a vector of {l} bits by it")
                }
            }
            _ => {
                ensure_eq!(bv.count_ones(), m.ones(), "count_ones of {n} bits");
                ensure_eq!(bv.count_zeros(), n as u64 - m.ones(), "count_zeros of {n} bits");
                bv = bv.clone();
                "clone".into()
            }
        };
        ctx.note(|| what.clone());
        m.check(src, &bv, &what)?;
    }
    ensure_eq!(bv.count_ones(), m.ones(), "final count_ones");
    Ok(())
}

/// constructors and packing beyond 2^32 bits
pub fn construct_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = (1usize << 32) + src.uupto(100_000);
    let seed = src.upto(0xFFFF);
    ctx.nontrivial_if(true);
    let kind = src.uupto(5);
    ctx.note(|| format!("constructor {kind}, {len} bits, seed {seed}"));
    match kind {
        0 | 1 => {
            let v = kind == 1;
            let mut bv = if v { BitVec::from_ones(len) } else { BitVec::from_zeros(len) };
            ensure_eq!(bv.len(), len, "len");
            ensure_eq!(bv.count_ones(), if v { len as u64 } else { 0 }, "count_ones");
            for _ in 0..1000 {
                let p = big_pos(src, len);
                ensure_eq!(bv.get(p), Some(v as u64), "get({p})");
            }
            bv.append_bits(5, 3);
            ensure_eq!(bv.get_bits(len - 2, 5), Some(if v { 0b10111 } else { 0b10100 }), "bits around the old end");
            Ok(())
        }
        2 | 3 => {
            // bits one by one: sparse and dense stretches
            let f = |p: usize| mix(seed ^ (p >> 12) as u64) & 7 == 0 && (p ^ p >> 7) & 5 == 1;
            let bv = if kind == 2 { BitVec::from_bool_iter((0..len).map(f)) } else { BitVec::from_bits_iter((0..len).map(|p| f(p) as u8)) };
            ensure_eq!(bv.len(), len, "len");
            for _ in 0..3000 {
                let p = big_pos(src, len);
                let w = src.urange(1, 64).min(len - p);
                ensure_eq!(bv.get_bits(p, w), Some((0..w).fold(0, |a, i| a | (f(p + i) as u64) << i)), "get_bits({p}, {w})");
            }
            Ok(())
        }
        _ => {
            let k = src.urange(33, 64);
            let n = len.div_ceil(k) + 10;
            let f = |i: usize| mix(seed.wrapping_add(i as u64));
            let bv = if kind == 4 {
                BitVec::pack_from_iter_u64((0..n).map(f), k)
            } else {
                BitVec::pack_sequence_u64(&(0..n).map(f).collect::<Vec<_>>(), k)
            };
            ctx.note(|| format!("{n} elements of {k} bits"));
            ensure_eq!(bv.len(), n * k, "len");
            for _ in 0..3000 {
                let i = (big_pos(src, n * k) / k + src.uupto(2)).min(n - 1);
                ensure_eq!(bv.unpack_element(i, k), Some(low(f(i), k)), "unpack_element({i}, {k})");
                ensure_eq!(bv.unpack_element_unchecked(i, k), low(f(i), k), "unpack_element_unchecked({i}, {k})");
            }
            ensure_eq!(bv.unpack_element(n, k), None, "unpack_element behind the end");
            Ok(())
        }
    }
}

/// equality beyond 2^32 bits
pub fn equality_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let big = Big::new(src);
    let a = big.bv();
    let mut b = BitVec::from_zeros(3);
    b.drop_last(3);
    b.extend_bitvec(&a);
    let n = big.len;
    let change = src.uupto(3);
    let p = big_pos(src, n);
    ctx.note(|| format!("{}, change {change} at {p}", big.show()));
    ctx.nontrivial_if(true);
    let same = match change {
        0 => true,
        1 => {
            b.flip_bit(p);
            false
        }
        2 => {
            // the same number of ones
            let q = big_pos(src, n);
            let (x, y) = (big.bit(p), big.bit(q));
            let _ = b.set(p, y as u64);
            let _ = b.set(q, x as u64);
            x == y
        }
        _ => {
            b.drop_last(1);
            false
        }
    };
    ensure_eq!(a == b, same, "BitVec a == b");
    if same {
        ensure_eq!(h(&a), h(&b), "hashes of equal vectors");
    }
    let (ra, rb) = (RsVec::from_bit_vec(a), RsVec::from_bit_vec(b));
    ensure_eq!(ra == rb, same, "RsVec ==");
    ensure_eq!(ra.full_equals(&rb), same, "full_equals");
    Ok(())
}

/// masks beyond 2^32 bits
pub fn masked_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let x = Big::new(src);
    let y = Big::with(src.upto(0xFFFF), if src.flag() { u64::MAX } else { 0 }, x.len);
    let n = x.len;
    let (mut a, b) = (x.bv(), y.bv());
    let op = src.uupto(2);
    let f = |p: u64, q: u64| match op {
        0 => p | q,
        1 => p & q,
        _ => p ^ q,
    };
    ctx.note(|| format!("op {op} on {} with {}", x.show(), y.show()));
    ctx.nontrivial_if(true);
    let mut ones: u64 = (0..n / 64).map(|i| f(x.word(i), y.word(i)).count_ones() as u64).sum();
    if n % 64 > 0 {
        ones += low(f(x.word(n / 64), y.word(n / 64)), n % 64).count_ones() as u64;
    }
    let ps: Vec<(usize, usize)> = (0..1500).map(|_| (big_pos(src, n), src.urange(1, 64))).collect();
    let t = {
        let v = match op {
            0 => a.mask_or(&b),
            1 => a.mask_and(&b),
            _ => a.mask_xor(&b),
        }
        .map_err(|e| format!("rejected: {e}"))?;
        ensure_eq!(v.count_ones(), ones, "count_ones");
        ensure_eq!(v.count_zeros(), n as u64 - ones, "count_zeros");
        for &(p, w) in &ps {
            let bit = f(x.bit(p) as u64, y.bit(p) as u64) & 1;
            ensure_eq!(v.get(p), Some(bit), "get({p})");
            ensure_eq!(v.is_bit_set(p), Some(bit == 1), "is_bit_set({p})");
            let e = x.bits(p, w).map(|c| low(f(c, y.bits(p, w).unwrap()), w));
            ensure_eq!(v.get_bits(p, w), e, "get_bits({p}, {w})");
        }
        v.to_bit_vec()
    };
    match op {
        0 => a.apply_mask_or(&b),
        1 => a.apply_mask_and(&b),
        _ => a.apply_mask_xor(&b),
    }
    .map_err(|e| format!("rejected: {e}"))?;
    for (v, what) in [(&t, "to_bit_vec"), (&a, "apply_mask")] {
        ensure_eq!(v.len(), n, "{what}: len");
        ensure_eq!(v.count_ones(), ones, "{what}: count_ones");
        for &(p, w) in &ps {
            let e = x.bits(p, w).map(|c| low(f(c, y.bits(p, w).unwrap()), w));
            ensure_eq!(v.get_bits(p, w), e, "{what}: get_bits({p}, {w})");
        }
    }
    Ok(())
}
