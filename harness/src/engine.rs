//! Generated-input search engine.
//!
//! A case is a pure function of a *choice tape*: every random choice a generator makes goes
//! through [`Src`], which records it. Shrinking edits the tape (delete, zero, minimise) and re-runs
//! the same generator, so a shrunk case is always one the generator could have produced, and the
//! tape is the replay file.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// Splitmix generator. Seeded either from the run's seed (to make tapes) or from a drawn value
/// (to expand a small drawn seed into bulk content).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn record(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn into_tape(mut self) -> Vec<u64> {
        self.tape.truncate(self.pos);
        self.tape
    }
    /// Draw a value in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.upto(max);
                self.tape.push(v);
                v
            }
            None => {
                if self.pos < self.tape.len() {
                    let v = self.tape[self.pos].min(max);
                    self.tape[self.pos] = v;
                    v
                } else {
                    self.tape.push(0);
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.upto(hi - lo)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn uupto(&mut self, max: usize) -> usize {
        self.upto(max as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn pick(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|&w| w as u64).sum();
        let mut v = self.upto(total - 1);
        for (i, &w) in weights.iter().enumerate() {
            if v < w as u64 {
                return i;
            }
            v -= w as u64;
        }
        unreachable!()
    }
    pub fn choose<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.uupto(xs.len() - 1);
        &xs[i]
    }
    /// Log-distributed size in `0..=max`.
    pub fn logsize(&mut self, max: usize) -> usize {
        let bits = usize::BITS - max.leading_zeros();
        let b = self.upto(bits as u64) as u32;
        if b == 0 {
            return 0;
        }
        let hi = if b >= usize::BITS { usize::MAX } else { (1usize << b) - 1 };
        self.uupto(hi.min(max))
    }
    /// Any u64, biased to structure: small, near powers of two, extremes, uniform.
    pub fn word(&mut self) -> u64 {
        match self.pick(&[3, 2, 3, 2, 2, 4]) {
            0 => self.upto(16),
            1 => u64::MAX - self.upto(16),
            2 => {
                let b = self.upto(63);
                let d = self.upto(2);
                (1u64 << b).wrapping_add(d).wrapping_sub(1)
            }
            3 => {
                let b = self.upto(64) as u32;
                let v = self.upto(u64::MAX);
                if b == 64 { v } else { v & ((1u64 << b) - 1) }
            }
            4 => *self.choose(&[0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555, u64::MAX, 1 << 63, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000, 0x8000_0000_0000_0001]),
            _ => self.upto(u64::MAX),
        }
    }
}

/// Per-case context: what the case turned out to be.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub want_note: bool,
    pub note: String,
    pub digest: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let mut s = f();
            s.truncate(s.char_indices().nth(1500).map_or(s.len(), |(i, _)| i));
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(&s);
        }
    }
    pub fn feed(&mut self, v: u64) {
        self.digest = mix(self.digest ^ v);
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

/// A generator + oracle pair.
pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    /// number of cases, quick and thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// enumerated sub-check: case `i` runs on the one-element-per-draw tape `[i]`
    pub enumerated: bool,
    /// at most this many at once (memory)
    pub max_threads: usize,
    /// configurations it runs in (empty: all)
    pub configs: &'static [&'static str],
}

impl Sub {
    pub const fn new(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Self {
        Sub { name, f, quick, thorough, enumerated: false, max_threads: 64, configs: &[] }
    }
    /// All of `0..n` is run in both tiers: the case function draws the index first.
    pub const fn enumerate(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Self {
        Sub { name, f, quick, thorough, enumerated: true, max_threads: 64, configs: &[] }
    }
    pub const fn threads(mut self, n: usize) -> Self {
        self.max_threads = n;
        self
    }
    pub const fn only(mut self, c: &'static [&'static str]) -> Self {
        self.configs = c;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic into an `Err`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_src(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

pub fn run_tape(f: CaseFn, tape: &[u64], note: bool) -> (Res, Vec<u64>, Ctx) {
    let mut src = Src::replay(tape.to_vec());
    let mut ctx = Ctx { want_note: note, ..Default::default() };
    let r = run_src(f, &mut src, &mut ctx);
    (r, src.into_tape(), ctx)
}

fn shortlex_less(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Shrink a failing tape. Bounded by executions and by time; neither affects the verdict.
pub fn shrink(f: CaseFn, tape: Vec<u64>) -> (Vec<u64>, String) {
    let start = std::time::Instant::now();
    let mut best = tape;
    let mut msg;
    let (r, t, _) = run_tape(f, &best, false);
    match r {
        Err(m) => {
            msg = m;
            if shortlex_less(&t, &best) {
                best = t;
            }
        }
        Ok(()) => return (best, "not reproduced from its tape".into()),
    }
    let mut execs = 0u32;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, msg: &mut String| -> Option<bool> {
        execs += 1;
        if execs > 6000 || start.elapsed().as_secs() > 40 {
            return None;
        }
        let (r, t, _) = run_tape(f, cand, false);
        if let Err(m) = r {
            let t = if shortlex_less(&t, cand) { t } else { cand.to_vec() };
            if shortlex_less(&t, best) {
                *best = t;
                *msg = m;
                return Some(true);
            }
        }
        Some(false)
    };
    loop {
        let before = best.clone();
        let mut k = best.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let end = (i + k).min(cand.len());
                cand.drain(i..end);
                match attempt(&cand, &mut best, &mut msg) {
                    None => return (best, msg),
                    Some(true) => {}
                    Some(false) => i += k,
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                match attempt(&cand, &mut best, &mut msg) {
                    None => return (best, msg),
                    Some(true) => {}
                    Some(false) => {
                        // binary search for a smaller value
                        let (mut lo, mut hi) = (0u64, best[i]);
                        while hi - lo > 1 {
                            let mid = lo + (hi - lo) / 2;
                            let mut cand = best.clone();
                            cand[i] = mid;
                            match attempt(&cand, &mut best, &mut msg) {
                                None => return (best, msg),
                                Some(true) => {
                                    if i >= best.len() {
                                        break;
                                    }
                                    hi = best[i].min(mid);
                                    if hi <= lo {
                                        break;
                                    }
                                }
                                Some(false) => lo = mid,
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, msg);
        }
    }
}

pub struct Failure {
    pub sub: &'static str,
    pub index: u64,
    pub tape: Vec<u64>,
    pub msg: String,
    pub note: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub per_sub: Vec<(String, u64, u64)>,
    /// hashes of the non-trivial cases; sorted and distinct in the final report
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub failures: Vec<Failure>,
    pub digest: Vec<(&'static str, u64, u64)>,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(seed ^ mix(hash_str(prop) ^ hash_str(sub).rotate_left(17)) ^ mix(idx.wrapping_mul(0xD6E8_FEB8_6659_FD93)))
}

pub fn make_src(sub: &Sub, seed: u64, prop: &str, idx: u64) -> Src {
    if sub.enumerated {
        Src::replay(vec![idx])
    } else {
        Src::record(case_seed(seed, prop, sub.name, idx))
    }
}

pub struct RunOpts {
    pub thorough: bool,
    pub seed: u64,
    pub config: String,
    pub only_sub: Option<String>,
    pub scale: f64,
    pub threads: usize,
    pub journal: Option<std::fs::File>,
    pub digests: bool,
    pub max_failures: usize,
    /// seconds; a safety valve on slow machines, shared evenly by the sub-checks
    pub budget: f64,
}

/// Run all sub-checks of a property.
pub fn run_prop(p: &Prop, o: &RunOpts) -> Report {
    let mut rep = Report::default();
    for sub in &p.subs {
        if !sub.configs.is_empty() && !sub.configs.contains(&o.config.as_str()) {
            continue;
        }
        if o.only_sub.as_ref().is_some_and(|s| s != sub.name) {
            continue;
        }
        let base = if o.thorough { sub.thorough } else { sub.quick };
        let n = if sub.enumerated { base } else { ((base as f64 * o.scale).ceil() as u64).max(1) };
        let next = AtomicU64::new(0);
        let fail_at = AtomicU64::new(u64::MAX);
        let acc: Mutex<(Report, Vec<(u64, Vec<u64>, String)>)> = Mutex::new(Default::default());
        let sample_every = (n / 4).max(1);
        let began = std::time::Instant::now();
        let limit = o.budget / p.subs.len() as f64;
        std::thread::scope(|s| {
            for t in 0..o.threads.min(sub.max_threads) {
                let (next, fail_at, acc) = (&next, &fail_at, &acc);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Report::default();
                        let mut fails = Vec::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || i > fail_at.load(Ordering::Relaxed) || began.elapsed().as_secs_f64() > limit {
                                break;
                            }
                            if let Some(j) = &o.journal {
                                use std::os::unix::fs::FileExt;
                                let line = format!("{:<40} {:>20}\n", sub.name, i);
                                let _ = j.write_at(line.as_bytes(), t as u64 * 62);
                            }
                            let mut src = make_src(sub, o.seed, p.id, i);
                            let mut ctx = Ctx { want_note: i % sample_every == 0, ..Default::default() };
                            let r = run_src(sub.f, &mut src, &mut ctx);
                            let tape = src.into_tape();
                            local.evaluations += 1;
                            if ctx.nontrivial {
                                let mut h = hash_str(sub.name);
                                for &v in &tape {
                                    h = mix(h ^ v).wrapping_add(0x1234_5677);
                                }
                                local.hashes.push(h);
                            }
                            for (k, v) in ctx.labels {
                                *local.labels.entry(format!("{}/{}", sub.name, k)).or_insert(0) += v;
                            }
                            if !ctx.note.is_empty() && ctx.nontrivial && i % sample_every == 0 {
                                local.samples.push((format!("{}#{}", sub.name, i), ctx.note));
                            }
                            if o.digests {
                                local.digest.push((sub.name, i, ctx.digest));
                            }
                            if let Err(m) = r {
                                fail_at.fetch_min(i, Ordering::Relaxed);
                                fails.push((i, tape, m));
                            }
                        }
                        if let Some(j) = &o.journal {
                            use std::os::unix::fs::FileExt;
                            let _ = j.write_at(format!("{:<61}\n", "").as_bytes(), t as u64 * 62);
                        }
                        let mut a = acc.lock().unwrap();
                        a.0.evaluations += local.evaluations;
                        a.0.hashes.extend(local.hashes);
                        for (k, v) in local.labels {
                            *a.0.labels.entry(k).or_insert(0) += v;
                        }
                        a.0.samples.extend(local.samples);
                        a.0.digest.extend(local.digest);
                        a.1.extend(fails);
                    })
                    .expect("spawn");
            }
        });
        let (mut r, mut fails) = acc.into_inner().unwrap();
        r.hashes.sort_unstable();
        r.hashes.dedup();
        rep.per_sub.push((sub.name.to_string(), r.evaluations, r.hashes.len() as u64));
        rep.evaluations += r.evaluations;
        rep.hashes.extend(r.hashes);
        for (k, v) in r.labels {
            *rep.labels.entry(k).or_insert(0) += v;
        }
        rep.samples.extend(r.samples);
        rep.digest.extend(r.digest);
        fails.sort_by_key(|f| f.0);
        if let Some((i, tape, m)) = fails.into_iter().next() {
            let (t, msg) = shrink(sub.f, tape.clone());
            let (t, msg) = if msg.starts_with("not reproduced") { (tape, m) } else { (t, msg) };
            let (_, _, c) = run_tape(sub.f, &t, true);
            rep.failures.push(Failure { sub: sub.name, index: i, tape: t, msg, note: c.note });
            if rep.failures.len() >= o.max_failures {
                break;
            }
        }
    }
    rep.samples.sort();
    rep.digest.sort_unstable();
    rep.hashes.sort_unstable();
    rep.hashes.dedup();
    rep
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b));
        }
    }};
}
