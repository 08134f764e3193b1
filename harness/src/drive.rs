//! Drives an iterator through a drawn call history, against a slice.
use crate::engine::*;
use crate::gen::aligned;
use std::fmt::Debug;
use std::iter::FusedIterator;

/// how many items to skip, when the items lo..hi are left
pub fn gen_n(src: &mut Src, lo: usize, hi: usize, front: bool) -> usize {
    let remaining = hi - lo;
    match src.pick(&[6, 4, 3, 2, 1, 3]) {
        // to an item whose number is next to a multiple of a power of two
        5 if remaining > 0 => {
            let t = lo + aligned(&mut Rng::new(src.upto(0xFFFF)), hi - 1).saturating_sub(lo);
            if front { t - lo } else { hi - 1 - t }
        }
        0 => src.uupto(3),
        1 => src.logsize(remaining),
        2 => {
            let d = src.uupto(2);
            (remaining + d).saturating_sub(1)
        }
        3 => remaining + src.logsize(1000),
        _ => usize::MAX - src.uupto(3),
    }
}

/// Drive a double ended iterator against a slice: mixed calls from both ends.
pub fn drive<I, T>(src: &mut Src, ctx: &mut Ctx, it: I, model: &[T], what: &str, minmax: Option<fn(I) -> (Option<T>, Option<T>)>) -> Res
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + FusedIterator + Clone,
    T: PartialEq + Clone + Debug,
{
    let (mut lo, mut hi) = (0usize, model.len());
    let mut it = it;
    let ops = src.urange(1, 40);
    let mut hist = String::new();
    let mut both = (false, false);
    macro_rules! ck {
        ($g:expr, $e:expr, $($t:tt)*) => {{
            let (g, e) = ($g, $e);
            if g != e {
                let s = format!($($t)*);
                return Err(format!("{what} over {} items after [{hist}]: {s} gave {g:?}, expected {e:?}", model.len()));
            }
        }};
    }
    for _ in 0..ops {
        let rem = hi - lo;
        ck!(it.len(), rem, "len");
        ck!(it.size_hint(), (rem, Some(rem)), "size_hint");
        match src.pick(&[8, 8, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {
                let k = if src.chance(1, 6) { src.uupto(rem.min(200)) } else { 1 };
                for _ in 0..k.max(1) {
                    let e = if lo < hi { lo += 1; Some(model[lo - 1].clone()) } else { None };
                    ck!(it.next(), e, "next()");
                    hist.push_str("next ");
                }
                both.0 = true;
            }
            1 => {
                let k = if src.chance(1, 6) { src.uupto(rem.min(200)) } else { 1 };
                for _ in 0..k.max(1) {
                    let e = if lo < hi { hi -= 1; Some(model[hi].clone()) } else { None };
                    ck!(it.next_back(), e, "next_back()");
                    hist.push_str("next_back ");
                }
                both.1 = true;
            }
            2 => {
                let n = gen_n(src, lo, hi, true);
                let e = if n < rem { lo += n + 1; Some(model[lo - 1].clone()) } else { lo = hi; None };
                ck!(it.nth(n), e, "nth({n})");
                hist.push_str(&format!("nth({n}) "));
                both.0 = true;
            }
            3 => {
                let n = gen_n(src, lo, hi, false);
                let e = if n < rem { hi -= n + 1; Some(model[hi].clone()) } else { hi = lo; None };
                ck!(it.nth_back(n), e, "nth_back({n})");
                hist.push_str(&format!("nth_back({n}) "));
                both.1 = true;
            }
            4 => ck!(it.clone().count(), rem, "count"),
            5 => ck!(it.clone().last(), model[lo..hi].last().cloned(), "last"),
            6 => {
                let n = gen_n(src, lo, hi, true);
                let mut sk = it.clone().skip(n);
                for _ in 0..3 {
                    let _ = sk.len();
                }
                let e: Vec<T> = model[lo..hi].iter().skip(n).take(20).cloned().collect();
                ck!(sk.by_ref().take(20).collect::<Vec<_>>(), e.clone(), "skip({n}).take(20)");
                if e.len() < 20 {
                    ck!(sk.next(), None, "skip({n}) after its end");
                }
            }
            7 => {
                let n = src.logsize(rem.max(1)).max(1);
                let e: Vec<T> = model[lo..hi].iter().step_by(n).take(20).cloned().collect();
                ck!(it.clone().step_by(n).take(20).collect::<Vec<_>>(), e, "step_by({n}).take(20)");
                let e: Vec<T> = model[lo..hi].iter().rev().step_by(n).take(20).cloned().collect();
                ck!(it.clone().rev().step_by(n).take(20).collect::<Vec<_>>(), e, "rev().step_by({n}).take(20)");
            }
            8 if rem <= 3000 => {
                ck!(it.clone().collect::<Vec<_>>() == model[lo..hi], true, "collect of the rest equal");
                let r: Vec<T> = model[lo..hi].iter().rev().cloned().collect();
                ck!(it.clone().rev().collect::<Vec<_>>() == r, true, "rev().collect of the rest equal");
            }
            9 => {
                if let Some(f) = minmax {
                    let (mn, mx) = f(it.clone());
                    // only for sorted models
                    ck!(mn, model[lo..hi].first().cloned(), "min");
                    ck!(mx, model[lo..hi].last().cloned(), "max");
                }
            }
            10 => {
                // internal iteration: the provided methods an iterator may override
                let m = &model[lo..hi.min(lo + 3000)];
                match src.uupto(4) {
                    0 if rem <= 3000 => {
                        let f = it.clone().fold(Vec::new(), |mut a, x| { a.push(x); a });
                        ck!(f == m, true, "fold visits the rest in order");
                        let f = it.clone().rfold(Vec::new(), |mut a, x| { a.push(x); a });
                        ck!(f.iter().rev().eq(m.iter()), true, "rfold visits the rest in reverse order");
                    }
                    1 if rem <= 3000 => {
                        let mut f = Vec::new();
                        it.clone().for_each(|x| f.push(x));
                        ck!(f == m, true, "for_each visits the rest in order");
                    }
                    2 if rem > 0 => {
                        let i = src.uupto(m.len() - 1);
                        let e = m.iter().position(|x| *x == m[i]);
                        let mut c = it.clone();
                        ck!(c.position(|x| x == m[i]), e, "position of an item");
                        ck!(c.next(), model[lo..hi].get(e.unwrap() + 1).cloned(), "next() after position");
                        if rem <= 3000 {
                            let e = m.iter().rposition(|x| *x == m[i]);
                            let mut c = it.clone();
                            ck!(c.rposition(|x| x == m[i]), e, "rposition of an item");
                            ck!(c.next_back(), e.unwrap().checked_sub(1).map(|j| m[j].clone()), "next_back() after rposition");
                        }
                    }
                    3 => {
                        let k = src.uupto(rem.min(300));
                        let f: Vec<T> = it.by_ref().take(k).collect();
                        ck!(f == model[lo..lo + k], true, "by_ref().take({k})");
                        lo += k;
                        hist.push_str(&format!("take({k}) "));
                    }
                    _ => {
                        let k = src.uupto(rem.min(300));
                        let f: Vec<T> = it.by_ref().rev().take(k).collect();
                        ck!(f.iter().eq(model[hi - k..hi].iter().rev()), true, "by_ref().rev().take({k})");
                        hi -= k;
                        hist.push_str(&format!("rev.take({k}) "));
                    }
                }
            }
            _ => {
                // continue on the clone, so that its state must be complete
                it = it.clone();
                hist.push_str("clone ");
            }
        }
    }
    if hi - lo <= 20_000 && src.flag() {
        if src.flag() {
            let mut i = lo;
            for x in it.by_ref() {
                if i >= hi || x != model[i] {
                    return Err(format!("{what} over {} items after [{hist}]: draining gave {x:?} at {i}, end {hi}", model.len()));
                }
                i += 1;
            }
            ck!(i, hi, "number drained");
        } else {
            let mut i = hi;
            while let Some(x) = it.next_back() {
                if i <= lo || x != model[i - 1] {
                    return Err(format!("{what} over {} items after [{hist}]: draining backwards gave {x:?} at {i}, start {lo}", model.len()));
                }
                i -= 1;
            }
            ck!(i, lo, "number drained backwards");
        }
        for _ in 0..2 {
            ck!(it.next(), None, "next after the end");
            ck!(it.next_back(), None, "next_back after the end");
            ck!(it.len(), 0, "len after the end");
        }
    }
    ctx.label_if(both.0 && both.1, "both ends");
    ctx.nontrivial_if(model.len() > 1 && ops > 2);
    ctx.note(|| format!("{what} over {} items: {hist}", model.len()));
    Ok(())
}
