//! Bounded cross-check and counterexample search against the real crate.
//! harness <property> --seed N --secs S [--max N] [--lits FILE] [--only CASE]
//! Runs enumerated cases (E<n>) and random cases (R<n>, each determined by seed and n)
//! against reference implementations written from the property statements; prints one JSON line.
mod layers;
mod nets;
mod ops;
mod util;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
pub use util::*;

static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<String> = Mutex::new(String::new());
static INFO: Mutex<[u64; 4]> = Mutex::new([0; 4]); // evaluations, distinct nontrivial

pub struct Cx {
    pub prop: String, pub seed: u64, end: Instant, max: u64, only: Option<String>,
    evals: u64, distinct: HashSet<u64>, samples: Vec<String>, ecount: u64, pub lits: Lits, rcount: u64, stream: u64, trace: Option<std::fs::File>,
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn hash(s: &str) -> u64 { let mut h: u64 = 0xcbf29ce484222325; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
fn finish(evals: u64, distinct: u64, samples: &[String], fail: Option<(&str, &str, &str)>) -> ! {
    let s: Vec<String> = samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    let f = match fail { None => "null".to_string(), Some((id, d, m)) => format!("{{\"case\":\"{}\",\"input\":\"{}\",\"what\":\"{}\"}}", esc(id), esc(d), esc(m)) };
    nets::cleanup();
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failure\":{}}}", evals, distinct, s.join(","), f);
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}
impl Cx {
    fn run(&mut self, id: String, f: impl FnOnce(&mut String) -> Result<bool, String>) {
        *CURRENT.lock().unwrap() = id.clone();
        TICK.fetch_add(1, Ordering::SeqCst);
        // for a crash that kills the process: leave the current case behind
        if let Some(f) = &self.trace { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{:<32}", id).as_bytes(), 0); }
        let mut d = String::new();
        PANIC.lock().unwrap().clear();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut d)));
        self.evals += 1;
        { let mut i = INFO.lock().unwrap(); i[0] = self.evals; i[1] = self.distinct.len() as u64; }
        match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial { if self.distinct.len() < 2_000_000 { self.distinct.insert(hash(&d)); } if self.samples.len() < 3 && (self.samples.is_empty() || self.evals % 97 == 0) { let mut s = d.clone(); if s.len() > 300 { let mut n = 300; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push_str(".."); } self.samples.push(format!("{}: {}", id, s)); } }
                if self.only.is_some() { println!("case {}: {}\nheld", id, d); }
            }
            Ok(Err(m)) => finish(self.evals, self.distinct.len() as u64, &self.samples, Some((&id, &d, &m))),
            Err(_) => { let m = format!("panicked: {}", PANIC.lock().unwrap()); finish(self.evals, self.distinct.len() as u64, &self.samples, Some((&id, &d, &m))) }
        }
    }
    /// an enumerated case
    pub fn case(&mut self, f: impl FnOnce(&mut String) -> Result<bool, String>) {
        let id = format!("E{}", self.ecount); self.ecount += 1;
        if let Some(o) = &self.only { if *o != id { return; } }
        self.run(id, f);
    }
    /// `n` random cases in the quick tier or until the time share is used up
    pub fn random(&mut self, share: f64, f: impl Fn(&mut Rng, &Lits, &mut String) -> Result<bool, String>) {
        let now = Instant::now();
        let left = self.end.saturating_duration_since(now);
        let stop = now + left.mul_f64(share);
        self.stream += 1;
        let st = self.stream;
        let lits = std::mem::take(&mut self.lits);
        let mut n = 0;
        let base = hash(&self.prop) ^ self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (st << 56);
        if let Some(o) = self.only.clone() {
            if let Some(x) = o.strip_prefix(&format!("R{}.", st)) { let i: u64 = x.parse().unwrap(); let mut r = Rng::new(base.wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03))); self.run(o, |d| f(&mut r, &lits, d)); }
        } else {
            while n < self.max && (n < 200 || n % 16 != 0 || Instant::now() < stop) {
                let mut r = Rng::new(base.wrapping_add((n as u64).wrapping_mul(0xD1B54A32D192ED03)));
                self.run(format!("R{}.{}", st, n), |d| f(&mut r, &lits, d));
                n += 1; self.rcount += 1;
            }
        }
        self.lits = lits;
    }
}
/// The facts assumed about exp and powi in contracts/00_float.vrs, for every one of the 2^32 machine floats.
fn exp_axioms() {
    let n = 8u64;
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|t| sc.spawn(move || {
            let (mut bad, zero) = (vec![], 0f32.exp());
            for b in (t << 32) / n..((t + 1) << 32) / n {
                let x = f32::from_bits(b as u32);
                let e = std::hint::black_box(x).exp();
                let ok = [("ax_exp_unit", x.is_nan() || x > 0.0 || (e >= 0.0 && e <= 1.0)), ("ax_exp_zero", x != 0.0 || e == 1.0), ("ax_sim_exp", if x.is_nan() { e.is_nan() } else { x != 0.0 || e == zero }), ("ax_neg0_exp", !(e == 0.0 && e.is_sign_negative())),
                    // neighbouring floats in value order; -0 and +0 have the same exponential by ax_exp_zero
                    ("ax_exp_mono", x.is_nan() || x.is_infinite() || { let f = std::hint::black_box(f32::from_bits(b as u32 + 1)).exp(); if x.is_sign_negative() { f <= e } else { e <= f } })];
                let (p, q, m) = (x.powi(2), x.powi(std::hint::black_box(2)), x * std::hint::black_box(x));
                let ok = ok.into_iter().chain([("ax_powi2", if m.is_nan() { p.is_nan() && q.is_nan() } else { m.to_bits() == p.to_bits() && m.to_bits() == q.to_bits() })]);
                for (m, o) in ok { if !o && bad.len() < 4 { bad.push(format!("{} {:#x}", m, b)); } }
            }
            bad
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    println!("{{\"checked\": {}, \"refuted\": [{}]}}", 1u64 << 32, bad.iter().map(|b| format!("\"{}\"", b)).collect::<Vec<_>>().join(", "));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    if prop == "exp-axioms" { exp_axioms(); return; }
    let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(5.0);
    let lits = Lits::load(get("--lits"));
    let trace = get("--trace").map(|f| std::fs::File::create(f).unwrap());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() { *p = format!("{} at {}", m, l); }
    }));
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::SeqCst);
            if t != last { last = t; since = Instant::now(); }
            if since.elapsed() > Duration::from_secs(30) && t > 0 {
                let i = *INFO.lock().unwrap();
                let id = CURRENT.lock().unwrap().clone();
                finish(i[0], i[1], &[], Some((&id, "", "does not finish within 30 s")));
            }
        }
    });
    let mut cx = Cx { prop: prop.clone(), seed: get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1), end: Instant::now() + Duration::from_secs_f64(secs), max: get("--max").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX), only: get("--only"), evals: 0, distinct: HashSet::new(), samples: vec![], ecount: 0, lits, rcount: 0, stream: 0, trace };
    type F = fn(&mut Cx);
    let all: Vec<(&str, F)> = vec![("C01", ops::c01), ("C02", ops::c02), ("C03", ops::c03), ("C04", ops::c04), ("C05", ops::c05), ("C06", ops::c06), ("C07", ops::c07), ("C08", ops::c08), ("C09", ops::c09), ("C10", ops::c10), ("C11", ops::c11), ("C12", ops::c12), ("C13", ops::c13), ("C14", ops::c14),
        ("C15", layers::c15), ("C16", layers::c16), ("C17", layers::c17), ("C18", layers::c18), ("C19", layers::c19), ("C20", layers::c20), ("C25", layers::c25),
        ("C21", nets::c21), ("C22", nets::c22), ("C23", nets::c23), ("C24", nets::c24), ("C26", nets::c26), ("C27", nets::c27)];
    let f = all.iter().find(|(n, _)| *n == prop).expect("unknown property").1;
    f(&mut cx);
    finish(cx.evals, cx.distinct.len() as u64, &cx.samples, None);
}
