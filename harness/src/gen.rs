//! Shared generators.
use crate::engine::*;
use std::cmp::Ordering;
use vers_vecs::{BitVec, RsVec, WaveletMatrix};

/// Lengths biased to the limits the structures have: words, blocks, super blocks, select blocks.
pub fn gen_len(src: &mut Src, max: usize) -> usize {
    let v = match src.pick(&[6, 10, 5, 1]) {
        3 => src.uupto(max),
        0 => src.uupto(140),
        1 => {
            let unit = *src.choose(&[8usize, 64, 128, 512, 1024, 4096, 8192, 65536]);
            let k = src.logsize((max / unit).max(1));
            let d = src.uupto(4);
            (unit * k + d).saturating_sub(2)
        }
        _ => src.logsize(max),
    };
    v.min(max)
}

/// Bit content made of segments of very different density.
pub fn gen_bits_len(src: &mut Src, len: usize) -> Vec<bool> {
    let mut out: Vec<bool> = Vec::with_capacity(len);
    let mut first = true;
    while out.len() < len {
        let rest = len - out.len();
        // often one segment fills everything
        let seg = if first && src.chance(1, 4) {
            rest
        } else {
            match src.pick(&[2, 3, 2]) {
                0 => src.uupto(130) + 1,
                1 => {
                    let unit = *src.choose(&[64usize, 512, 8192, 16384, 65536]);
                    let k = src.uupto(9) + 1;
                    // align the segment end to the unit, +-1
                    let target = (out.len() / unit + k) * unit;
                    let d = src.uupto(2);
                    (target + d).saturating_sub(out.len() + 1).max(1)
                }
                _ => src.logsize(rest) + 1,
            }
        }
        .min(rest);
        first = false;
        match src.pick(&[3, 3, 3, 4, 4, 1, 2, 2, 2]) {
            0 => out.resize(out.len() + seg, false),
            1 => out.resize(out.len() + seg, true),
            2 => {
                let mut r = Rng::new(src.upto(0xFFFF));
                for _ in 0..seg {
                    out.push(r.next() & 1 == 1);
                }
            }
            k @ (3 | 4) => {
                let den = (1u64 << src.range(2, 14)) - 1;
                let mut r = Rng::new(src.upto(0xFFFF));
                for _ in 0..seg {
                    out.push((r.upto(den) == 0) == (k == 3));
                }
            }
            5 => {
                for i in 0..seg {
                    out.push(i & 1 == 1);
                }
            }
            k @ (6 | 7) => {
                let at = src.uupto(seg - 1);
                let base = out.len();
                out.resize(base + seg, k == 7);
                out[base + at] = k == 6;
            }
            _ => {
                let w = src.word();
                for i in 0..seg {
                    out.push(w >> (i % 64) & 1 == 1);
                }
            }
        }
    }
    out
}

pub fn gen_bits(src: &mut Src, max: usize) -> Vec<bool> {
    let len = gen_len(src, max);
    gen_bits_len(src, len)
}

pub fn words_of(bits: &[bool], pad: u64) -> Vec<u64> {
    let mut v = Vec::with_capacity(bits.len() / 64 + 1);
    for c in bits.chunks(64) {
        let mut w = 0u64;
        for (i, &b) in c.iter().enumerate() {
            w |= (b as u64) << i;
        }
        if c.len() < 64 {
            w |= pad & !((1u64 << c.len()) - 1);
        }
        v.push(w);
    }
    v
}

/// Build a `BitVec` with the given content over one of several public routes. Several of them leave
/// arbitrary bits behind the end of the vector, which no operation may expose.
pub fn build_bv(src: &mut Src, bits: &[bool]) -> BitVec {
    let route = src.pick(&[2, 5, 2, 2, 2, 2, 2]);
    let len = bits.len();
    match route {
        0 => BitVec::from_bools(bits),
        1 => {
            // limbs with junk in the tail, then cut
            let pad = if src.flag() { u64::MAX } else { src.word() };
            let mut w = words_of(bits, pad);
            let extra = src.uupto(2);
            for _ in 0..extra {
                w.push(pad);
            }
            let mut bv = BitVec::from_vec(w);
            let drop = bv.len() - len;
            bv.drop_last(drop);
            bv
        }
        2 => {
            // append words and a tail with stray high bits
            let w = words_of(bits, u64::MAX);
            let mut bv = BitVec::new();
            for &x in &w[..len / 64] {
                bv.append_word(x);
            }
            if len % 64 != 0 {
                bv.append_bits(w[len / 64], len % 64);
            }
            bv
        }
        3 => {
            // right half of a split
            let off = src.urange(0, 130);
            let mut all = vec![true; off];
            all.extend_from_slice(bits);
            BitVec::from_bools(&all).split_at(off).map_err(|_| ()).expect("split in range").1
        }
        4 => {
            // left half of a split whose right half is all ones
            let off = src.urange(1, 130);
            let mut all = bits.to_vec();
            all.extend(std::iter::repeat_n(true, off));
            BitVec::from_bools(&all).split_at(len).map_err(|_| ()).expect("split in range").0
        }
        5 => {
            // concatenation of two parts
            let at = if len == 0 { 0 } else { src.uupto(len) };
            let mut a = BitVec::from_bools(&bits[..at]);
            let b = BitVec::from_bools(&bits[at..]);
            a.extend_bitvec(&b);
            a
        }
        _ => {
            let mut bv = if src.flag() { BitVec::from_ones(len) } else { BitVec::from_zeros(len) };
            for (i, &b) in bits.iter().enumerate() {
                bv.set(i, b as u64).expect("in range");
            }
            bv
        }
    }
}

pub fn model_get_bits(bits: &[bool], pos: usize, len: usize) -> Option<u64> {
    if len == 0 || len > 64 || pos > bits.len() || len > bits.len() - pos {
        return None;
    }
    let mut w = 0;
    for i in 0..len {
        w |= (bits[pos + i] as u64) << i;
    }
    Some(w)
}

/// Compare everything readable of a `BitVec` with its model.
pub fn check_bv(bv: &BitVec, bits: &[bool], what: &str) -> Res {
    use crate::{ensure, ensure_eq};
    ensure_eq!(bv.len(), bits.len(), "{what}: len");
    ensure_eq!(bv.is_empty(), bits.is_empty(), "{what}: is_empty");
    let w = words_of(bits, 0);
    for (i, &x) in w.iter().enumerate() {
        let n = (bits.len() - i * 64).min(64);
        ensure_eq!(bv.get_bits(i * 64, n), Some(x), "{what}: get_bits({}, {n})", i * 64);
    }
    let ones = w.iter().map(|x| x.count_ones() as u64).sum::<u64>();
    ensure_eq!(bv.count_ones(), ones, "{what}: count_ones");
    ensure_eq!(bv.count_zeros(), bits.len() as u64 - ones, "{what}: count_zeros");
    ensure!(bv.get(bits.len()).is_none(), "{what}: get(len) is not None");
    let mut limbs = 0;
    for (i, l) in bv.iter_limbs().enumerate() {
        ensure!(i < w.len(), "{what}: more limbs than bits need");
        let n = (bits.len() - i * 64).min(64);
        let mask = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        ensure_eq!(l & mask, w[i], "{what}: limb {i}");
        limbs += 1;
    }
    ensure_eq!(limbs, w.len(), "{what}: number of limbs");
    Ok(())
}

pub fn show_bits(bits: &[bool]) -> String {
    let mut s = format!("len={} ", bits.len());
    if bits.len() <= 256 {
        s.extend(bits.iter().map(|&b| if b { '1' } else { '0' }));
    } else {
        // run-length form
        let mut i = 0;
        let mut runs = 0;
        while i < bits.len() && runs < 40 {
            let mut j = i;
            while j < bits.len() && bits[j] == bits[i] {
                j += 1;
            }
            s.push_str(&format!("{}x{} ", bits[i] as u8, j - i));
            i = j;
            runs += 1;
        }
        if i < bits.len() {
            s.push_str("...");
        }
    }
    s
}

/// position biased to the interesting places of a vector of the given length
pub fn gen_pos(src: &mut Src, len: usize) -> usize {
    if len == 0 {
        return 0;
    }
    match src.pick(&[3, 2, 2]) {
        0 => src.uupto(len - 1),
        1 => len - 1 - src.uupto((len - 1).min(70)),
        _ => {
            let k = src.uupto(len / 64);
            let d = src.uupto(2);
            (k * 64 + d).saturating_sub(1).min(len - 1)
        }
    }
}

/// a number up to n next to a multiple of a power of two
pub fn aligned(r: &mut Rng, n: usize) -> usize {
    let top = (usize::BITS - n.leading_zeros()).clamp(4, 16) as u64;
    let unit = 1usize << (3 + r.upto(top - 3));
    let k = r.upto((n / unit) as u64) as usize;
    (k * unit + r.upto(2) as usize).saturating_sub(1).min(n)
}

pub fn rs_of(src: &mut Src, m: &[bool]) -> RsVec {
    let bv = build_bv(src, m);
    match src.uupto(2) {
        0 => RsVec::from_bit_vec(bv),
        1 => RsVec::from(bv),
        // a copy has no spare capacity
        _ => RsVec::from_bit_vec(bv).clone(),
    }
}

pub fn positions(m: &[bool], v: bool) -> Vec<usize> {
    m.iter().enumerate().filter(|(_, &b)| b == v).map(|(i, _)| i).collect()
}

/// Parenthesis expression, balanced or not, with runs and random walks of different drift.
pub fn gen_parens(src: &mut Src, max: usize) -> Vec<bool> {
    let len = gen_len(src, max);
    if src.chance(1, 4) {
        return gen_bits_len(src, len);
    }
    let mut out: Vec<bool> = Vec::with_capacity(len);
    while out.len() < len {
        let rest = len - out.len();
        let seg = (src.logsize(rest) + 1).min(rest);
        match src.pick(&[2, 2, 3, 2, 2, 2]) {
            0 => out.resize(out.len() + seg, true),
            1 => out.resize(out.len() + seg, false),
            2 => {
                let mut r = Rng::new(src.upto(0xFFFF));
                for _ in 0..seg {
                    out.push(r.next() & 1 == 1);
                }
            }
            3 => {
                for i in 0..seg {
                    out.push(i % 2 == 0);
                }
            }
            4 => {
                let h = seg / 2;
                out.resize(out.len() + h, true);
                out.resize(out.len() + h, false);
                if seg % 2 == 1 {
                    out.push(true);
                }
            }
            _ => {
                // drifting walk
                let up = src.range(1, 7);
                let mut r = Rng::new(src.upto(0xFFFF));
                for _ in 0..seg {
                    out.push(r.upto(7) < up);
                }
            }
        }
    }
    out
}

/// A balanced expression of a single tree (or, rarely, a forest) with up to `max` nodes.
pub fn gen_tree_bits(src: &mut Src, max: usize) -> Vec<bool> {
    let n = match src.pick(&[2, 2, 2]) {
        0 => src.uupto(12),
        1 => src.logsize(max),
        _ => src.uupto(max),
    };
    let forest = src.chance(1, 12);
    let mut out = Vec::with_capacity(2 * n);
    let (mut opened, mut depth) = (0usize, 0usize);
    let mut base = usize::from(!forest);
    while opened < n {
        // a phase of the walk
        let kind = src.pick(&[2, 2, 2, 3, 2, 1]);
        let len = src.logsize(2 * n) + 1;
        let mut r = Rng::new(src.upto(0xFFFF));
        let up = src.range(1, 15);
        let keep = depth;
        for i in 0..len {
            if opened >= n {
                break;
            }
            let can_close = depth > base;
            let open = match kind {
                0 => true,                                  // path down
                1 => !can_close,                            // close everything
                2 => i % 2 == 0,                            // star
                3 => r.upto(15) < up,                       // random walk
                4 => i % 3 < 2,                             // caterpillar
                _ => depth <= keep || r.upto(1) == 0,       // do not close what was open before
            };
            if open || !can_close {
                out.push(true);
                depth += 1;
                opened += 1;
            } else {
                out.push(false);
                depth -= 1;
            }
        }
        base = base.min(usize::from(!forest));
    }
    out.extend(std::iter::repeat_n(false, depth));
    out
}

/// Sorted values: clusters of equal or nearly equal values, separated by gaps of any magnitude.
pub fn gen_sorted(src: &mut Src, max_len: usize, distinct: bool) -> Vec<u64> {
    let n = match src.pick(&[6, 6, 4, 1]) {
        0 => src.uupto(12),
        1 => src.logsize(max_len),
        2 => src.uupto(max_len.min(300)),
        _ => src.uupto(max_len),
    };
    let spread = src.chance(1, 3);
    let mut out: Vec<u64> = Vec::with_capacity(n);
    let mut cur = match src.pick(&[4, 3, 2]) {
        0 => 0,
        1 => src.word(),
        _ => src.upto(1000),
    };
    while out.len() < n {
        // evenly spread over the whole universe, or clusters
        let run = if spread { n } else { (src.logsize((n - out.len()).min(2000)) + 1).min(n - out.len()) };
        // gaps inside the run
        let kind = src.pick(&[3, 3, 3, 3, 2]);
        let bound = match kind {
            0 => 0,
            1 => 1,
            2 => src.upto(30),
            _ => (1u64 << src.upto(if spread { 40 } else { 20 })) - 1,
        };
        let mut r = Rng::new(src.upto(0xFFFF));
        for _ in 0..run {
            out.push(cur);
            let g = match kind {
                0 => 0,
                1 => 1,
                4 => {
                    // mostly tiny, sometimes large
                    if r.upto(15) == 0 { r.upto(bound) } else { r.upto(1) }
                }
                _ => r.upto(bound),
            };
            cur = match cur.checked_add(g.max(distinct as u64)) {
                Some(c) => c,
                None if distinct => return out,
                None => u64::MAX,
            };
        }
        if out.len() < n {
            // jump to the next cluster; leave room sometimes
            let rest = u64::MAX - cur;
            let j = match src.pick(&[3, 3, 1, 1]) {
                0 => src.upto(64),
                1 => {
                    let b = src.upto(63);
                    1u64 << b
                }
                2 => rest - src.upto(100).min(rest),
                _ => src.upto(rest),
            };
            if distinct && rest < j {
                return out;
            }
            cur = cur.saturating_add(j);
        }
    }
    if out.len() > 1 && src.chance(1, 8) {
        // dense body, one far outlier
        let l = out.len();
        out[l - 1] = u64::MAX - src.upto(3);
        if distinct && out[l - 2] >= out[l - 1] {
            out.truncate(l - 1);
            if let Some(c) = out.iter().position(|&x| x >= u64::MAX - 3) {
                out.truncate(c.max(1));
            }
        } else if out[l - 2] > out[l - 1] {
            out[l - 1] = u64::MAX;
        }
    }
    debug_assert!(out.windows(2).all(|w| w[0] < w[1] || (!distinct && w[0] == w[1])));
    out
}

pub fn gen_queries(src: &mut Src, v: &[u64], max: usize) -> Vec<u64> {
    let mut q = vec![0, 1, u64::MAX, u64::MAX - 1];
    if v.is_empty() {
        q.push(src.word());
        return q;
    }
    let step = (v.len() / max).max(1);
    let mut r = Rng::new(src.upto(0xFFFF));
    let mut i = if step > 1 { src.uupto(step - 1) } else { 0 };
    while i < v.len() {
        let x = v[i];
        q.extend([x, x.wrapping_sub(1), x.wrapping_add(1)]);
        if i > 0 {
            q.push(v[i - 1] + r.upto(x - v[i - 1]));
            // the value in between with the longest run of trailing zeros, a likely bucket border
            let (a, b) = (v[i - 1], x);
            if a < b {
                let k = 63 - (a ^ b).leading_zeros();
                let m = b >> k << k;
                q.extend([m, m.wrapping_sub(1)]);
            }
        }
        // same low bits in another bucket
        let k = r.upto(63);
        q.extend([x ^ (1 << k), v[0].wrapping_add((x - v[0]) ^ (1 << k))]);
        i += step;
    }
    if step > 1 {
        // elements whose index is next to a multiple of a power of two
        for _ in 0..max.min(400) {
            let x = v[aligned(&mut r, v.len() - 1)];
            q.extend([x, x.wrapping_sub(1), x.wrapping_add(1)]);
        }
    }
    for _ in 0..4 {
        q.push(src.word());
        q.push(v[0].saturating_add(src.upto(v[v.len() - 1] - v[0])));
    }
    q
}

pub fn show_vals(v: &[u64]) -> String {
    if v.len() <= 60 {
        format!("{v:?}")
    } else {
        format!("{} values {:?} ... {:?}", v.len(), &v[..30], &v[v.len() - 5..])
    }
}

pub fn gen_values(src: &mut Src, n: usize) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::with_capacity(n);
    while out.len() < n {
        let rest = n - out.len();
        let seg = (if src.chance(1, 3) { rest } else { src.logsize(rest) + 1 }).min(rest);
        let base = src.word();
        let mut r = Rng::new(src.upto(0xFFFF));
        match src.pick(&[2, 2, 2, 2, 2, 1, 2]) {
            0 => out.extend((0..seg as u64).map(|i| base.wrapping_add(i))),
            1 => out.extend((0..seg as u64).map(|i| base.wrapping_sub(i))),
            2 => {
                let k = src.upto(4);
                out.extend((0..seg).map(|_| r.upto(k)));
            }
            3 => out.extend((0..seg).map(|_| r.next())),
            4 => out.extend(std::iter::repeat_n(base, seg)),
            5 => out.extend((0..seg).map(|_| u64::MAX - r.upto(2))),
            _ => {
                // a single dip in a plateau
                let at = src.uupto(seg - 1);
                let s = out.len();
                out.extend(std::iter::repeat_n(base | 1, seg));
                out[s + at] = (base | 1) - 1;
            }
        }
    }
    out
}


/// A symbol: its bits from the least significant one.
pub type Sym = Vec<bool>;

pub fn cmp_sym(a: &Sym, b: &Sym) -> Ordering {
    a.iter().rev().cmp(b.iter().rev())
}

pub fn to_u64(s: &Sym) -> u64 {
    s.iter().take(64).enumerate().fold(0, |v, (i, &b)| v | (b as u64) << i)
}

pub fn from_u64(v: u64, k: usize) -> Sym {
    (0..k).map(|i| i < 64 && v >> i & 1 == 1).collect()
}

pub fn show(s: &Sym) -> String {
    if s.len() <= 64 { format!("{}", to_u64(s)) } else { s.iter().rev().map(|&b| if b { '1' } else { '0' }).collect() }
}

pub fn rand_sym(src: &mut Src, k: usize) -> Sym {
    if k <= 64 {
        let w = src.word();
        return from_u64(w, k);
    }
    let mut r = Rng::new(src.upto(0xFFFF));
    match src.uupto(3) {
        0 => (0..k).map(|_| r.next() & 1 == 1).collect(),
        1 => vec![src.flag(); k],
        2 => {
            let mut v = vec![false; k];
            let at = src.uupto(k - 1);
            v[at] = true;
            v
        }
        _ => (0..k).map(|i| i >= k - 3 && r.next() & 1 == 1).collect(),
    }
}

pub fn gen_k(src: &mut Src, wide: bool) -> usize {
    match src.pick(&[16, 6, 4, 2, if wide { 5 } else { 0 }, if wide { 1 } else { 0 }]) {
        0 => src.urange(1, 8),
        1 => src.urange(1, 20),
        2 => *src.choose(&[63usize, 64, 33, 32, 48]),
        3 => src.urange(9, 64),
        4 => *src.choose(&[65usize, 66, 100, 127, 128, 129, 200]),
        _ => *src.choose(&[255usize, 256, 257, 300, 520]),
    }
}

/// a sequence of `k`-bit symbols: few distinct ones, uniform ones, runs, neighbours
pub fn gen_seq(src: &mut Src, max_n: usize, k: usize) -> Vec<Sym> {
    let n = match src.pick(&[4, 6, 4, 4, 1]) {
        4 => src.uupto(max_n),
        0 => src.uupto(8),
        1 => src.uupto(max_n.min(200)),
        2 => src.logsize(max_n),
        _ => (src.logsize(max_n / 64) * 64 + src.uupto(4)).saturating_sub(2).min(max_n),
    };
    let mut alphabet: Vec<Sym> = (0..src.urange(1, 8)).map(|_| rand_sym(src, k)).collect();
    if src.flag() {
        // neighbours of the symbols in all but one bit
        for i in 0..alphabet.len() {
            let mut s = alphabet[i].clone();
            let b = src.uupto(k - 1);
            s[b] = !s[b];
            alphabet.push(s);
        }
    }
    let mut out: Vec<Sym> = Vec::with_capacity(n);
    while out.len() < n {
        let rest = n - out.len();
        let seg = (if src.chance(1, 2) { rest } else { src.logsize(rest) + 1 }).min(rest);
        let mut r = Rng::new(src.upto(0xFFFF));
        match src.pick(&[4, 3, 2, 1]) {
            0 => {
                for _ in 0..seg {
                    out.push(alphabet[r.upto(alphabet.len() as u64 - 1) as usize].clone());
                }
            }
            1 => {
                for _ in 0..seg {
                    out.push((0..k).map(|_| r.next() & 1 == 1).collect());
                }
            }
            2 => {
                let s = src.choose(&alphabet).clone();
                out.extend(std::iter::repeat_n(s, seg));
            }
            _ => {
                let mut run: Vec<Sym> = (0..seg).map(|_| (0..k).map(|_| r.next() & 1 == 1).collect()).collect();
                run.sort_by(cmp_sym);
                if src.flag() {
                    run.reverse();
                }
                out.extend(run);
            }
        }
    }
    out
}

pub fn packed(v: &[Sym]) -> Vec<bool> {
    v.iter().flatten().copied().collect()
}

/// build over a drawn constructor
pub fn build_wm(src: &mut Src, v: &[Sym], k: usize) -> WaveletMatrix {
    let route = if k > 64 {
        0
    } else if k > 14 {
        // counting needs a table of all symbols
        if k <= 18 && src.chance(1, 16) { 2 + src.uupto(1) } else { src.uupto(1) }
    } else {
        src.uupto(3)
    };
    build_route(src, v, k, route)
}

pub fn build_route(src: &mut Src, v: &[Sym], k: usize, route: usize) -> WaveletMatrix {
    let words = || v.iter().map(to_u64).collect::<Vec<_>>();
    match route {
        0 => WaveletMatrix::from_bit_vec(&build_bv(src, &packed(v)), k as u16),
        1 => WaveletMatrix::from_slice(&words(), k as u16),
        2 => WaveletMatrix::from_bit_vec_pc(&build_bv(src, &packed(v)), k as u16),
        _ => WaveletMatrix::from_slice_pc(&words(), k as u16),
    }
}

pub fn show_seq(v: &[Sym], k: usize) -> String {
    format!("{} symbols of {k} bits: {}", v.len(), v.iter().take(40).map(show).collect::<Vec<_>>().join(","))
}

/// An argument that is not below `len` but that a narrowing or wrapping conversion would turn into one that is.
pub fn alias(src: &mut Src, len: usize) -> usize {
    let small = if len > 0 { src.uupto(len - 1) } else { src.uupto(3) };
    let v = match src.pick(&[4, 2, 2, 2, 1, 1]) {
        0 => small + (1usize << 32) * (1 + src.uupto(3)),
        1 => small + (1usize << 16),
        2 => small + (1usize << src.urange(33, 62)),
        3 => small + (1usize << 63),
        4 => small + (1usize << src.urange(8, 31)),
        _ => (1usize << 32) - 1 - src.uupto(2),
    };
    v.max(len)
}

// ---------------------------------------------------------------- content beyond 2^32 bits
/// A vector of more than 2^32 bits whose content is a function of the position.
pub struct Big {
    seed: u64,
    bg: u64,
    pub len: usize,
    /// number of ones before each super block of 128 words
    table: Vec<u64>,
}

fn big_word(seed: u64, bg: u64, i: usize) -> u64 {
    let c = (i >> 7) as u64;
    match mix(seed ^ c) & 15 {
        0 => mix(seed.wrapping_add(i as u64)),
        1 if i & 15 == (c as usize) & 15 => mix(seed.wrapping_add(i as u64)),
        2 => !bg,
        _ => bg,
    }
}

impl Big {
    pub fn new(src: &mut Src) -> Self {
        let len = (1usize << 32) + *src.choose(&[1 << 29, 70_000, 300_000_000]) + src.uupto(20_000);
        let bg = if src.flag() { u64::MAX } else { 0 };
        Self::with(src.upto(0xFFFF), bg, len)
    }
    pub fn with(seed: u64, bg: u64, len: usize) -> Self {
        let mut table = Vec::with_capacity(len / 8192 + 1);
        let mut ones = 0u64;
        for c in 0..=len / 8192 {
            table.push(ones);
            let last = ((c + 1) * 128).min(len.div_ceil(64));
            if (c + 1) * 8192 <= len {
                for i in c * 128..last {
                    ones += big_word(seed, bg, i).count_ones() as u64;
                }
            }
        }
        Big { seed, bg, len, table }
    }
    pub fn word(&self, i: usize) -> u64 {
        big_word(self.seed, self.bg, i)
    }
    pub fn bit(&self, p: usize) -> bool {
        self.word(p / 64) >> (p % 64) & 1 == 1
    }
    pub fn bits(&self, p: usize, n: usize) -> Option<u64> {
        if n > 64 || p > self.len || n > self.len - p {
            return None;
        }
        Some((0..n).fold(0, |a, i| a | (self.bit(p + i) as u64) << i))
    }
    pub fn rank1(&self, p: usize) -> usize {
        let p = p.min(self.len);
        let c = p / 8192;
        let mut r = self.table[c];
        for i in c * 128..p / 64 {
            r += self.word(i).count_ones() as u64;
        }
        if p % 64 > 0 {
            r += (self.word(p / 64) & ((1u64 << (p % 64)) - 1)).count_ones() as u64;
        }
        r as usize
    }
    pub fn bv(&self) -> BitVec {
        let mut b = BitVec::from_limbs_iter((0..self.len.div_ceil(64)).map(|i| self.word(i)));
        b.drop_last(b.len() - self.len);
        b
    }
    pub fn show(&self) -> String {
        format!("{} bits, mostly {}, seed {}", self.len, self.bg & 1, self.seed)
    }
}

/// Positions in a very long vector: near the powers of two where a narrower type would wrap, near the end, anywhere.
pub fn big_pos(src: &mut Src, len: usize) -> usize {
    let p = match src.pick(&[3, 3, 2, 4, 1]) {
        0 => (1usize << 32) + src.uupto(400) - 200,
        1 => len.saturating_sub(src.uupto(1000)),
        2 => (1usize << 31) + src.uupto(400) - 200,
        3 => src.uupto(len),
        _ => (1usize << 32) + src.uupto(len.saturating_sub(1 << 32)),
    };
    p.min(len.saturating_sub(1))
}

/// How an iterator that is handed to a constructor describes itself: any lower and upper bound
/// that the contract of `Iterator` allows, and after the end it may resume, as the contract allows.
#[derive(Clone, Copy)]
pub struct Manner {
    below: usize,
    above: Option<usize>,
    resumes: bool,
}
pub fn gen_manner(src: &mut Src) -> Manner {
    let (below, above) = match src.pick(&[3, 1, 1, 1]) {
        0 => (0, Some(0)),
        1 => (usize::MAX, None),
        2 => (src.uupto(70), None),
        _ => (src.uupto(3) * 64, Some(src.uupto(200))),
    };
    Manner { below, above, resumes: src.chance(1, 4) }
}
impl Manner {
    pub fn of<T: Clone>(self, items: impl Iterator<Item = T>) -> Mannered<T> {
        Mannered { manner: self, items: items.collect::<Vec<_>>(), at: 0 }
    }
}
pub struct Mannered<T> {
    manner: Manner,
    items: Vec<T>,
    at: usize,
}
impl<T: Clone> Iterator for Mannered<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let i = self.at;
        self.at += 1;
        if i > self.items.len() && self.manner.resumes {
            return self.items.last().cloned();
        }
        self.items.get(i).cloned()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let rest = self.items.len().saturating_sub(self.at);
        (rest.saturating_sub(self.manner.below), self.manner.above.map(|a| rest + a))
    }
}
