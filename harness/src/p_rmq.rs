//! C11 range minimum queries.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::ops::Bound;
use vers_vecs::{BinaryRmq, FastRmq};

struct Sparse {
    rows: Vec<Vec<u64>>,
}
impl Sparse {
    fn new(v: &[u64]) -> Self {
        let mut rows = vec![v.to_vec()];
        let mut k = 1;
        while 2 * k <= v.len() {
            let last = rows.last().unwrap();
            let row = (0..v.len() + 1 - 2 * k).map(|i| last[i].min(last[i + k])).collect();
            rows.push(row);
            k *= 2;
        }
        Sparse { rows }
    }
    fn min(&self, i: usize, j: usize) -> u64 {
        let k = usize::BITS - 1 - (j - i + 1).leading_zeros();
        self.rows[k as usize][i].min(self.rows[k as usize][j + 1 - (1 << k)])
    }
}

fn check_range(v: &[u64], got: usize, i: usize, j: usize, m: u64, what: &str) -> Res {
    ensure!(got >= i && got <= j, "{what}: index {got} lies outside [{i}, {j}]");
    ensure!(v[got] == m, "{what}: [{i}, {j}] gave index {got} with value {}, but the minimum is {m}", v[got]);
    Ok(())
}

fn check_one(v: &[u64], b: &BinaryRmq, f: &FastRmq, i: usize, j: usize, m: u64) -> Res {
    check_range(v, b.range_min(i, j), i, j, m, "BinaryRmq::range_min")?;
    check_range(v, f.range_min(i, j), i, j, m, "FastRmq::range_min")
}

fn build(src: &mut Src, v: &[u64]) -> (BinaryRmq, FastRmq) {
    match src.uupto(2) {
        0 => (BinaryRmq::from_vec(v.to_vec()), FastRmq::from_vec(v.to_vec())),
        1 => (BinaryRmq::from(v.to_vec()), FastRmq::from(v.to_vec())),
        _ => (gen_manner(src).of(v.iter().copied()).collect(), gen_manner(src).of(v.iter().copied()).collect()),
    }
}

fn rmq_ranges(src: &mut Src, ctx: &mut Ctx, v: &[u64], b: &BinaryRmq, f: &FastRmq, sp: &Sparse, times: usize) -> Res {
    let n = v.len();
    for _ in 0..times {
        let bound = |src: &mut Src| {
            let x = match src.pick(&[6, 2, 1]) {
                0 => src.uupto(n + 2),
                1 => *src.choose(&[0, n - 1, n, n + 1]),
                _ => *src.choose(&[usize::MAX, usize::MAX - 1]),
            };
            match src.uupto(2) {
                0 => Bound::Included(x),
                1 => Bound::Excluded(x),
                _ => Bound::Unbounded,
            }
        };
        let r = (bound(src), bound(src));
        // the range over the integers, clamped to the data
        let lo: u128 = match r.0 {
            Bound::Included(x) => x as u128,
            Bound::Excluded(x) => x as u128 + 1,
            Bound::Unbounded => 0,
        };
        let hi: i128 = match r.1 {
            Bound::Included(x) => x as i128,
            Bound::Excluded(x) => x as i128 - 1,
            Bound::Unbounded => n as i128 - 1,
        };
        for (what, g) in [("BinaryRmq", guarded(|| b.range_min_with_range(r))), ("FastRmq", guarded(|| f.range_min_with_range(r)))] {
            let g = match g {
                Ok(g) => g,
                Err(m) => return Err(format!("{what}::range_min_with_range({r:?}) on {n} elements panicked: {m}")),
            };
            let (i, j) = (lo.min(n as u128 - 1) as usize, hi.clamp(0, n as i128 - 1) as usize);
            if i <= j {
                check_range(v, g, i, j, sp.min(i, j), &format!("{what}::range_min_with_range({r:?})"))?;
            } else {
                ctx.label("empty range");
                ensure!(g < n, "{what}::range_min_with_range({r:?}) gave index {g} on {n} elements");
            }
        }
    }
    Ok(())
}

fn note(ctx: &mut Ctx, v: &[u64]) {
    ctx.note(|| show_vals(v));
    ctx.nontrivial_if(v.len() > 1);
    ctx.label_if(v.len() > 128, "several blocks");
    ctx.label_if(v.len() > 1024, "more than 8 blocks");
}

/// all ranges
pub fn rmq_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.pick(&[1, 2, 1]) {
        0 => src.urange(1, 40),
        1 => (*src.choose(&[64usize, 128, 256, 384]) + src.uupto(4)).saturating_sub(2),
        _ => src.urange(1, 500),
    };
    let v = gen_values(src, n);
    note(ctx, &v);
    let (b, f) = build(src, &v);
    ensure_eq!(f.len(), n, "FastRmq::len");
    ensure_eq!(b.len(), n, "BinaryRmq::len");
    ensure!(!f.is_empty() && !b.is_empty(), "is_empty");
    ensure!(**b == *v && **f == *v, "the stored values differ from the input");
    for i in 0..n {
        let mut m = u64::MAX;
        for j in i..n {
            m = m.min(v[j]);
            check_one(&v, &b, &f, i, j, m)?;
        }
    }
    let sp = Sparse::new(&v);
    rmq_ranges(src, ctx, &v, &b, &f, &sp, 20)
}

/// block borders and random ranges of long inputs
pub fn rmq_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.logsize(200_000) + 500;
    rmq_long(src, ctx, n)
}
pub fn rmq_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.urange(400_000, 1_500_000);
    rmq_long(src, ctx, n)
}
fn rmq_long(src: &mut Src, ctx: &mut Ctx, n: usize) -> Res {
    let v = gen_values(src, n);
    note(ctx, &v);
    let (b, f) = build(src, &v);
    ensure!(**b == *v && **f == *v, "the stored values differ from the input");
    let sp = Sparse::new(&v);
    let mut r = Rng::new(src.upto(0xFFFF));
    let near = |r: &mut Rng| {
        if r.upto(2) == 0 {
            return aligned(r, n - 1);
        }
        let c = r.upto((n / 128) as u64) as usize * 128 + r.upto(4) as usize;
        c.saturating_sub(2).min(n - 1)
    };
    for k in 0..20_000 {
        let (a, c) = match k % 4 {
            0 => (r.upto(n as u64 - 1) as usize, r.upto(n as u64 - 1) as usize),
            1 => (near(&mut r), near(&mut r)),
            2 => {
                let a = r.upto(n as u64 - 1) as usize;
                (a, (a + r.upto(300) as usize).min(n - 1))
            }
            _ => (near(&mut r), r.upto(n as u64 - 1) as usize),
        };
        let (i, j) = (a.min(c), a.max(c));
        check_one(&v, &b, &f, i, j, sp.min(i, j))?;
    }
    rmq_ranges(src, ctx, &v, &b, &f, &sp, 20)
}

/// more values than 65536 blocks hold; the oracle keeps the minimum of each group of values
pub fn rmq_giant(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.urange(8_400_000, 12_000_000);
    let v = gen_values(src, n);
    note(ctx, &v);
    let f = FastRmq::from_vec(v.clone());
    ensure!(**f == *v, "the stored values differ from the input");
    const G: usize = 4096;
    let groups: Vec<u64> = v.chunks(G).map(|c| *c.iter().min().unwrap()).collect();
    let min = |i: usize, j: usize| {
        let (a, b) = (i / G + 1, j / G);
        if a >= b {
            return *v[i..=j].iter().min().unwrap();
        }
        let m = v[i..a * G].iter().chain(&v[b * G..=j]).min().unwrap();
        *m.min(groups[a..b].iter().min().unwrap())
    };
    let mut r = Rng::new(src.upto(0xFFFF));
    for k in 0..6000 {
        let a = r.upto(n as u64 - 1) as usize;
        let c = match k % 3 {
            0 => r.upto(n as u64 - 1) as usize,
            1 => (a + r.upto(5000) as usize).min(n - 1),
            // whole blocks
            _ => (r.upto(n as u64 - 1) as usize / 128 * 128 + 127).min(n - 1),
        };
        let (i, j) = (a.min(c), a.max(c));
        check_range(&v, f.range_min(i, j), i, j, min(i, j), "FastRmq::range_min")?;
    }
    Ok(())
}
