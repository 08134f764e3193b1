//! C23: queries are pure. The answer of a query depends on the content of the structure and the
//! arguments only: not on earlier queries, on queries to other structures, or on other threads.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::marker::PhantomData;
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, IsAncestor, LevelTree, RsVec, SparseRSVec, SubtreeSize, Tree, WaveletMatrix};

#[derive(Clone)]
enum Any {
    Bv(BitVec),
    Rs(RsVec),
    Ef(EliasFanoVec),
    Sparse(SparseRSVec),
    BRmq(BinaryRmq, Vec<u64>),
    FRmq(FastRmq, Vec<u64>),
    Bp(BpTree<64>, Vec<usize>, usize),
    Wm(WaveletMatrix, Vec<Sym>, usize),
}

/// what a query saw, as one number
#[derive(Default)]
struct Seen(u64);
impl Seen {
    fn u(&mut self, v: u64) {
        self.0 = mix(self.0 ^ mix(v.wrapping_add(0x9E37)));
    }
    fn s(&mut self, v: usize) {
        self.u(v as u64)
    }
    fn o(&mut self, v: Option<u64>) {
        match v {
            None => self.u(0xDEAD_0001),
            Some(x) => {
                self.u(0xDEAD_0002);
                self.u(x)
            }
        }
    }
    fn os(&mut self, v: Option<usize>) {
        self.o(v.map(|x| x as u64))
    }
    fn ob(&mut self, v: Option<BitVec>) {
        match v {
            None => self.u(0xDEAD_0003),
            Some(b) => {
                self.s(b.len());
                for x in b.iter() {
                    self.u(x);
                }
            }
        }
    }
}

/// a query: operation and two arguments, reduced to the domain of the structure
type Query = (u64, u64, u64);

fn at(x: u64, n: usize) -> usize {
    (x % (n as u64).max(1)) as usize
}

impl Any {
    fn draw(src: &mut Src, ctx: &mut Ctx) -> Any {
        let kind = src.pick(&[1, 6, 4, 3, 2, 3, 5, 5]);
        let big = src.chance(1, 60);
        match kind {
            0 | 1 => {
                let m = gen_bits(src, if big { 300_000 } else { 20_000 });
                ctx.note(|| format!("bits {}; ", show_bits(&m)));
                ctx.nontrivial_if(m.len() > 64);
                let bv = build_bv(src, &m);
                if kind == 0 {
                    ctx.label("bit vector");
                    Any::Bv(bv)
                } else {
                    ctx.label("rank/select vector");
                    Any::Rs(RsVec::from_bit_vec(bv))
                }
            }
            2 | 3 => {
                let mut v = gen_sorted(src, if big { 20_000 } else { 1500 }, true);
                ctx.note(|| format!("sorted {}; ", show_vals(&v)));
                ctx.nontrivial_if(v.len() > 1);
                if kind == 2 {
                    ctx.label("Elias-Fano vector");
                    Any::Ef(EliasFanoVec::from_slice(&v))
                } else {
                    ctx.label("sparse vector");
                    v.retain(|&x| x < u64::MAX);
                    let len = v.last().map_or(10, |x| x + 1);
                    Any::Sparse(SparseRSVec::new(&v, len))
                }
            }
            4 | 5 => {
                let n = src.logsize(if big { 30_000 } else { 1500 });
                let v = gen_values(src, n);
                ctx.note(|| format!("values {}; ", show_vals(&v)));
                ctx.nontrivial_if(v.len() > 1);
                ctx.label("range minimum");
                if kind == 4 {
                    Any::BRmq(BinaryRmq::from_vec(v.clone()), v)
                } else {
                    Any::FRmq(FastRmq::from_vec(v.clone()), v)
                }
            }
            6 => {
                let m = gen_tree_bits(src, if big { 100_000 } else { 4000 });
                ctx.note(|| format!("tree {}; ", show_bits(&m)));
                ctx.nontrivial_if(m.len() > 2);
                ctx.label("tree");
                let open = positions(&m, true);
                Any::Bp(BpTree::from_bit_vector(build_bv(src, &m)), open, m.len())
            }
            _ => {
                let k = gen_k(src, true);
                let v = gen_seq(src, if big { 5000 } else { 300 }, k);
                ctx.note(|| format!("symbols {}; ", show_seq(&v, k)));
                ctx.nontrivial_if(v.len() > 1);
                ctx.label("wavelet matrix");
                Any::Wm(build_wm(src, &v, k), v, k)
            }
        }
    }

    fn ask(&self, q: Query) -> u64 {
        let (op, x, y) = q;
        let mut o = Seen::default();
        match self {
            Any::Bv(b) => match op % 5 {
                0 => o.o(b.get(at(x, b.len() + 2))),
                1 => o.o(b.get_bits(at(x, b.len() + 1), at(y, 65))),
                2 => o.u(b.count_ones()),
                3 => b.iter().skip(at(x, b.len() + 1)).take(70).for_each(|v| o.u(v)),
                _ => o.u(b.iter().rev().fold(0, |a, v| mix(a ^ v))),
            },
            Any::Rs(r) => match op % 12 {
                0 => o.o(r.get(at(x, r.len() + 2))),
                1 => o.s(r.rank1(at(x, r.len() + 2))),
                2 => o.s(r.rank0(at(x, r.len() + 2))),
                3 | 4 => o.s(r.select1(at(x, r.rank1(r.len()) + 1))),
                5 | 6 => o.s(r.select0(at(x, r.rank0(r.len()) + 1))),
                7 => o.o(r.get_bits(at(x, r.len() + 1), at(y, 65))),
                8 => r.iter1().skip(at(x, r.rank1(r.len()) + 1)).take(40).for_each(|v| o.s(v)),
                9 => r.iter0().rev().skip(at(x, r.rank0(r.len()) + 1)).take(40).for_each(|v| o.s(v)),
                10 => {
                    let (mut a, mut b) = (r.iter1(), r.iter0());
                    for i in 0..40u64 {
                        if (y >> i) & 1 == 0 {
                            o.os(a.next());
                            o.os(b.next_back());
                        } else {
                            o.os(b.next());
                            o.os(a.next_back());
                        }
                    }
                }
                _ => r.iter().skip(at(x, r.len() + 1)).take(70).for_each(|v| o.u(v)),
            },
            Any::Ef(e) => {
                let v = e.get(at(x, e.len())).unwrap_or(0).wrapping_add(y % 7).wrapping_sub(3);
                match op % 7 {
                    0 => o.o(e.get(at(x, e.len() + 1))),
                    1 => o.o(e.predecessor(if y % 5 == 0 { x } else { v })),
                    2 => o.o(e.successor(if y % 5 == 0 { x } else { v })),
                    3 => o.u(e.rank(if y % 5 == 0 { x } else { v })),
                    4 => o.o(e.delta(at(x, e.len() + 1))),
                    5 => e.iter().skip(at(x, e.len() + 1)).take(30).for_each(|v| o.u(v)),
                    _ => e.iter().rev().skip(at(x, e.len() + 1)).take(30).for_each(|v| o.u(v)),
                }
            }
            Any::Sparse(s) => {
                let n = s.rank1(s.len()) as usize;
                let v = if n == 0 { x % s.len() } else { s.select1(at(x, n)).wrapping_add(y % 5).wrapping_sub(2) };
                match op % 5 {
                    0 => o.o(s.get(v)),
                    1 => o.u(s.rank1(v)),
                    2 => o.u(s.rank0(v)),
                    3 => o.u(s.select1(at(x, n + 1))),
                    _ => s.iter1().skip(at(x, n + 1)).take(30).for_each(|v| o.u(v)),
                }
            }
            Any::BRmq(r, v) => {
                if !v.is_empty() {
                    let (a, b) = (at(x, v.len()), at(y, v.len()));
                    o.u(v[r.range_min(a.min(b), a.max(b))]);
                    o.o(r.iter().nth(at(x, v.len())).copied());
                }
            }
            Any::FRmq(r, v) => {
                if !v.is_empty() {
                    let a = at(x, v.len());
                    let b = if op % 2 == 0 { at(y, v.len()) } else { (a + at(y, 400)).min(v.len() - 1) };
                    o.u(v[r.range_min(a.min(b), a.max(b))]);
                    o.o(r.iter().nth(at(x, v.len())).copied());
                }
            }
            Any::Bp(t, open, n) => {
                if open.is_empty() {
                    return o.0;
                }
                let (h, g) = (open[at(x, open.len())], open[at(y, open.len())]);
                match op % 14 {
                    0 => o.os(t.parent(h)),
                    1 => o.os(t.close(at(x, *n))),
                    2 => o.os(t.open(at(x, *n))),
                    3 => o.os(t.enclose(at(x, *n))),
                    4 => o.os(t.next_sibling(h)),
                    5 => o.os(t.previous_sibling(h)),
                    6 => o.os(t.last_child(h)),
                    7 => {
                        o.os(t.level_next(h));
                        o.os(t.level_prev(h));
                    }
                    8 => o.os(t.level_ancestor(h, y % (t.depth(h) + 2))),
                    9 => o.os(t.subtree_size(h)),
                    10 => o.u(t.is_ancestor(h, g).map_or(2, u64::from)),
                    11 => {
                        o.os(t.fwd_search(at(x, *n), (y % 21) as i64 - 10));
                        o.os(t.bwd_search(at(x, *n), (y % 21) as i64 - 10));
                    }
                    12 => {
                        o.s(t.node_index(h));
                        o.s(t.node_handle(at(y, open.len())));
                        o.u(t.excess(at(x, *n)) as u64);
                    }
                    _ => t.children(h).take(20).for_each(|c| o.s(c)),
                }
            }
            Any::Wm(w, v, k) => {
                let n = v.len();
                if n == 0 {
                    o.ob(w.get_value(0));
                    return o.0;
                }
                let (a, b) = (at(x, n), at(y, n));
                let (a, b) = (a.min(b), a.max(b) + 1);
                let sym = if op & 64 == 0 { v[at(mix(x ^ y), n)].clone() } else { (0..*k).map(|i| mix(x ^ i as u64) & 1 == 1).collect() };
                let s = BitVec::from_bools(&sym);
                match op % 11 {
                    0 => o.ob(w.get_value(at(x, n + 1))),
                    1 => o.os(w.rank(a, &s)),
                    2 => o.os(w.rank_range(a..b, &s)),
                    3 => o.os(w.select(at(y, 4), &s)),
                    4 => o.os(w.select_offset(a, at(y, 3), &s)),
                    5 => o.ob(w.quantile(a..b, at(x ^ y, b - a))),
                    6 => o.ob(w.predecessor(a..b, &s)),
                    7 => o.ob(w.successor(a..b, &s)),
                    8 => o.ob(w.range_median(a..b)),
                    9 => o.ob(w.get_sorted(at(x, n + 1))),
                    _ => w.iter().skip(at(x, n + 1)).take(10).for_each(|v| o.ob(Some(v))),
                }
            }
        }
        o.0
    }

    fn bytes(&self) -> Vec<u8> {
        match self {
            Any::Bv(b) => bincode::serialize(b),
            Any::Rs(b) => bincode::serialize(b),
            Any::Ef(b) => bincode::serialize(b),
            Any::Sparse(b) => bincode::serialize(b),
            Any::BRmq(b, _) => bincode::serialize(b),
            Any::FRmq(b, _) => bincode::serialize(b),
            Any::Bp(b, _, _) => bincode::serialize(b),
            Any::Wm(b, _, _) => bincode::serialize(b),
        }
        .unwrap_or_default()
    }
}

/// Whether a type may be shared between threads, without failing to compile when it may not.
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Fallback {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Fallback for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($($t:ty),*) => {
        $(ensure!(Probe::<$t>(PhantomData).shareable(), "{} cannot be shared between threads", stringify!($t));)*
    };
}

struct Shared<'a>(&'a [Any]);
// only used after `shareable!` has shown that the structures are Sync
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}
impl Shared<'_> {
    fn ask(&self, i: usize, q: Query) -> Result<u64, String> {
        guarded(|| self.0[i].ask(q))
    }
}

fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut r = Rng::new(seed);
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, r.upto(i as u64) as usize);
    }
    v
}

struct Setting {
    all: Vec<Any>,
    /// structure and query
    queries: Vec<(usize, Query)>,
    seed: u64,
}

fn setting(src: &mut Src, ctx: &mut Ctx) -> Result<Setting, String> {
    shareable!(BitVec, RsVec, EliasFanoVec, SparseRSVec, BinaryRmq, FastRmq, BpTree<64>, BpTree<512>, WaveletMatrix);
    let count = src.urange(1, 3);
    let mut all: Vec<Any> = vec![];
    for _ in 0..count {
        all.push(Any::draw(src, ctx));
    }
    let nq = src.urange(2, 60);
    let mut queries = vec![];
    let seed = src.upto(0xFFFF_FFFF);
    let mut r = Rng::new(seed);
    // arguments repeat and lie close together, so that a remembered position would be met again
    let mut x = r.next();
    for _ in 0..nq {
        x = match r.upto(3) {
            0 => r.next(),
            1 => x.wrapping_add(r.upto(3)).wrapping_sub(1),
            2 => x.wrapping_add(r.upto(3000)),
            _ => x,
        };
        queries.push((at(r.next(), count), (r.next() >> 8, x, r.next() >> 3)));
    }
    ctx.note(|| format!("{nq} queries"));
    Ok(Setting { all, queries, seed })
}

/// earlier queries, in whatever order and to whatever structure, change nothing
pub fn pure_order(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = setting(src, ctx)?;
    let fresh: Vec<Any> = s.all.clone();
    let bytes: Vec<Vec<u8>> = s.all.iter().map(Any::bytes).collect();
    let first: Vec<u64> = s.queries.iter().map(|&(i, q)| s.all[i].ask(q)).collect();
    for round in 0..2 {
        for k in shuffled(s.queries.len(), s.seed ^ round) {
            let (i, q) = s.queries[k];
            ensure_eq!(s.all[i].ask(q), first[k], "query {k} {q:?} of structure {i}, asked again in another order");
        }
    }
    for k in shuffled(s.queries.len(), s.seed ^ 9).into_iter().take(12) {
        let (i, q) = s.queries[k];
        ensure_eq!(fresh[i].clone().ask(q), first[k], "query {k} {q:?} of a copy of structure {i} nobody has asked before");
    }
    for (i, a) in s.all.iter().enumerate() {
        ensure!(a.bytes() == bytes[i], "queries changed what structure {i} serialises to");
        ensure!(fresh[i].bytes() == bytes[i], "a copy of structure {i} serialises differently");
    }
    Ok(())
}

/// several threads asking at the same time get the answers one thread gets
pub fn pure_threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = setting(src, ctx)?;
    let bytes: Vec<Vec<u8>> = s.all.iter().map(Any::bytes).collect();
    let fresh: Vec<Any> = s.all.clone();
    let first: Vec<u64> = s.queries.iter().map(|&(i, q)| fresh[i].ask(q)).collect();
    let shared = Shared(&s.all);
    let threads = src.urange(2, 4);
    let rounds = if ctx.want_note { 200 } else { 8 };
    let go = std::sync::Barrier::new(threads);
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, go, queries, first, seed) = (&shared, &go, &s.queries, &first, s.seed);
                sc.spawn(move || -> Res {
                    go.wait();
                    for round in 0..rounds {
                        for k in shuffled(queries.len(), seed ^ (t as u64 * 1000 + round)) {
                            let (i, q) = queries[k];
                            let got = shared.ask(i, q)?;
                            if got != first[k] {
                                return Err(format!("query {k} {q:?} of structure {i} answered differently while other threads asked"));
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in res {
        r?;
    }
    for (i, a) in s.all.iter().enumerate() {
        ensure!(a.bytes() == bytes[i], "queries changed what structure {i} serialises to");
    }
    Ok(())
}
