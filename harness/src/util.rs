//! Reference tensors, generators and comparison helpers (nothing here calls the operations under test).
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s ^ 0x5DEECE66D) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u32, b: u32) -> u32 { a + self.below((b - a + 1) as u64) as u32 }
    pub fn chance(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    pub fn unit(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
}
/// numbers that occur in the source, used as extra sizes and item values
#[derive(Default, Clone)]
pub struct Lits { pub ints: Vec<u32>, pub floats: Vec<f32> }
impl Lits {
    pub fn load(f: Option<String>) -> Lits {
        let mut l = Lits::default();
        if let Some(f) = f { if let Ok(t) = std::fs::read_to_string(f) { for w in t.split_whitespace() {
            if let Ok(x) = w.parse::<u64>() { for y in [x.wrapping_sub(1), x, x + 1] { if y <= u32::MAX as u64 { l.ints.push(y as u32); } } }
            if let Ok(x) = w.parse::<f32>() { l.floats.push(x); l.floats.push(-x); }
        } } }
        l.ints.sort(); l.ints.dedup();
        l
    }
}
pub const SIZES: &[u32] = &[7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 28, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300];
pub fn big(r: &mut Rng, l: &Lits, max: u32) -> u32 {
    let c: Vec<u32> = SIZES.iter().cloned().chain(l.ints.iter().cloned()).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 10000]).filter(|x| *x <= max).collect();
    if c.is_empty() { r.range(0, max) } else { *r.pick(&c) }
}
/// a dimension: mostly small, now and then zero, larger or a number from the source
pub fn dim(r: &mut Rng, l: &Lits, max: u32) -> u32 { match r.below(30) { 0 => 0, 1 | 2 => big(r, l, max), 3 | 4 => r.range(5, 9), _ => r.range(1, 4) } }
pub fn dim1(r: &mut Rng, l: &Lits, max: u32) -> u32 { dim(r, l, max).max(1) }
pub fn shape(r: &mut Rng, l: &Lits, total: u64) -> D {
    loop {
        let m = if r.chance(4) { total } else { total.min(300) } as u32;
        let d = [dim(r, l, m), dim(r, l, m), dim(r, l, m)];
        if d[0] as u64 * d[1] as u64 <= total && n3(d) as u64 <= total { return d; }
    }
}
pub type D = [u32; 3];
pub fn n3(d: D) -> u64 { d[0] as u64 * d[1] as u64 * d[2] as u64 }
pub fn sh(d: D) -> TensorShape { TensorShape { di: d[0], dj: d[1], dk: d[2] } }
pub fn dd(s: TensorShape) -> D { [s.di, s.dj, s.dk] }
pub fn ti(i: u32, j: u32, k: u32) -> TensorIndex { TensorIndex { i, j, k } }

/// reference tensor: column-major items
#[derive(Clone, PartialEq)]
pub struct R { pub d: D, pub v: Vec<f32> }
impl std::fmt::Debug for R {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.v.len() <= 24 { write!(f, "{}x{}x{}{:?}", self.d[0], self.d[1], self.d[2], self.v) } else { write!(f, "{}x{}x{}{:?}..({} items)", self.d[0], self.d[1], self.d[2], &self.v[..12], self.v.len()) }
    }
}
impl R {
    pub fn zero(d: D) -> R { R { d, v: vec![0.0; n3(d) as usize] } }
    pub fn ix(&self, i: u32, j: u32, k: u32) -> usize { i as usize + self.d[0] as usize * (j as usize + self.d[1] as usize * k as usize) }
    pub fn at(&self, i: u32, j: u32, k: u32) -> f32 { self.v[self.ix(i, j, k)] }
    pub fn set(&mut self, i: u32, j: u32, k: u32, x: f32) { let n = self.ix(i, j, k); self.v[n] = x; }
    pub fn gen(d: D, mut f: impl FnMut(u32, u32, u32) -> f32) -> R { let mut r = R::zero(d); if r.v.is_empty() { return r; } for k in 0..d[2] { for j in 0..d[1] { for i in 0..d[0] { let x = f(i, j, k); r.set(i, j, k, x); } } } r }
    pub fn t(&self) -> Tensor { let mut t = Tensor::new(sh(self.d)); t.fill_with_vec(self.v.clone()).expect("fill_with_vec"); t }
}
pub fn read(t: &Tensor) -> R {
    let d = dd(t.get_shape());
    R::gen(d, |i, j, k| t.get_item(&ti(i, j, k)))
}
pub fn ints(r: &mut Rng, d: D, m: i32) -> R { R::gen(d, |_, _, _| r.below((2 * m + 1) as u64) as f32 - m as f32) }
pub const SPECIAL: &[f32] = &[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40, -1e-40, 1e20, -1e20, 1.5e-45, 16777216.0, 0.1, -0.1, 1e-7, 1e-3];
pub fn special(r: &mut Rng, l: &Lits) -> f32 {
    match r.below(8) { 0 if !l.floats.is_empty() => *r.pick(&l.floats), 1 => (r.unit() - 0.5) * 20.0, 2 => f32::from_bits(r.next() as u32), 3 => r.below(9) as f32 - 4.0, _ => *r.pick(SPECIAL) }
}
pub fn specials(r: &mut Rng, l: &Lits, d: D) -> R { R::gen(d, |_, _, _| special(r, l)) }
/// small integers, with a few order-independent special values in one case out of ten
pub fn nums(r: &mut Rng, l: &Lits, d: D, m: i32) -> R {
    let mut x = ints(r, d, m);
    if r.chance(10) && !x.v.is_empty() { for _ in 0..r.range(1, 3) { let i = r.below(x.v.len() as u64) as usize; x.v[i] = *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -0.0]); } }
    if r.chance(12) && !x.v.is_empty() { let c: Vec<f32> = l.floats.iter().cloned().filter(|f| f.fract() == 0.0 && f.abs() < 4096.0).collect(); if !c.is_empty() { for _ in 0..r.range(1, 4) { let i = r.below(x.v.len() as u64) as usize; x.v[i] = *r.pick(&c); } } }
    x
}
pub fn reals(r: &mut Rng, d: D, m: f32) -> R { R::gen(d, |_, _, _| (r.unit() - 0.5) * 2.0 * m) }
pub fn eqf(a: f32, b: f32) -> bool { a == b || (a.is_nan() && b.is_nan()) }
pub fn eqb(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
/// all items equal as floats (any NaN equals any NaN)
pub fn expect(what: &str, t: &Tensor, r: &R) -> Res { cmp(what, t, r, eqf) }
/// all items bit-identical (any NaN equals any NaN)
pub fn exact(what: &str, t: &Tensor, r: &R) -> Res { cmp(what, t, r, eqb) }
pub fn cmp(what: &str, t: &Tensor, r: &R, f: impl Fn(f32, f32) -> bool) -> Res {
    let d = dd(t.get_shape());
    ck!(d == r.d, "{}: shape {:?}, expected {:?}", what, d, r.d);
    if n3(d) == 0 { return Ok(()); }
    for k in 0..d[2] { for j in 0..d[1] { for i in 0..d[0] {
        let (x, y) = (t.get_item(&ti(i, j, k)), r.at(i, j, k));
        ck!(f(x, y), "{}: item ({},{},{}) is {:?}, expected {:?}", what, i, j, k, x, y);
    } } }
    Ok(())
}
/// close up to rounding of `n` operations on values of size `m`
pub fn near(what: &str, t: &Tensor, r: &R, tol: f32) -> Res { cmp(what, t, r, |a, b| eqf(a, b) || (a - b).abs() <= tol) }
pub fn small_dims(m: u32) -> Vec<D> { let mut v = vec![]; for k in 0..=m { for j in 0..=m { for i in 0..=m { v.push([i, j, k]); } } } v }

/// shapes past the sizes narrower number types and fixed buffers can hold
pub const LARGE: [D; 7] = [[70001, 1, 1], [1, 70001, 1], [1, 1, 70001], [300, 301, 1], [257, 3, 258], [2, 65537, 2], [1200, 1000, 1]];
/// values where the order and grouping of additions matter
pub fn rough(r: &mut Rng, d: D) -> R { R::gen(d, |_, _, _| match r.below(4) { 0 => *r.pick(&[1e8, -1e8, 16777216.0, -16777216.0, 1e20, -1e20]), 1 => *r.pick(&[1.0, -1.0, 0.5, 1e-3, -1e-3]), _ => (r.unit() - 0.5) * 4.0 }) }
// ------------------------------------------------------------------ reference operations
pub fn mm(a: &R, b: &R) -> R { R::gen([a.d[0], b.d[1], a.d[2]], |i, j, k| { let mut s = 0.0f32; for n in 0..a.d[1] { s += a.at(i, n, k) * b.at(n, j, k); } s }) }
pub fn tr(a: &R) -> R { R::gen([a.d[1], a.d[0], a.d[2]], |i, j, k| a.at(j, i, k)) }
pub fn pos(x: f32) -> f32 { if x > 0.0 { x } else { 0.0 } }
pub fn relu(a: &R) -> R { R { d: a.d, v: a.v.iter().map(|x| pos(*x)).collect() } }
pub fn addr(a: &R, b: &R) -> R { R { d: a.d, v: a.v.iter().zip(&b.v).map(|(x, y)| x + y).collect() } }
pub fn mulr(a: &R, b: &R) -> R { R { d: a.d, v: a.v.iter().zip(&b.v).map(|(x, y)| x * y).collect() } }
pub fn window_ok(im: D, w: D, s: u32) -> bool { s > 0 && w[0] > 0 && w[1] > 0 && w[0] <= im[0] && w[1] <= im[1] && (im[0] - w[0]) % s == 0 && (im[1] - w[1]) % s == 0 }
pub fn window_count(im: D, w: D, s: u32) -> (u64, u64) { ((im[0] as u64 - w[0] as u64) / s as u64 + 1, (im[1] as u64 - w[1] as u64) / s as u64 + 1) }
pub fn pool_ok(im: D, w: D, s: u32, r: D) -> bool { window_ok(im, w, s) && window_count(im, w, s) == (r[0] as u64, r[1] as u64) && im[2] == r[2] }
pub fn conv_ok(im: D, w: D, s: u32, r: D, ch: u32) -> bool { window_ok(im, w, s) && window_count(im, w, s) == (r[0] as u64, r[1] as u64) && im[2] == w[2] && ch < r[2] }
/// one channel of a convolution without bias
pub fn conv(im: &R, ker: &R, s: u32, i: u32, j: u32) -> f32 { let mut x = 0.0f32; for c in 0..ker.d[2] { for b in 0..ker.d[1] { for a in 0..ker.d[0] { x += im.at(i * s + a, j * s + b, c) * ker.at(a, b, c); } } } x }
pub fn conv_back_out(g: &R, kers: &[R], s: u32, im: D) -> R {
    // scatter form: every output position sends its gradient to the positions its window covers
    let mut o = R::zero(im);
    for (k, ker) in kers.iter().enumerate() { for j in 0..g.d[1] { for i in 0..g.d[0] { for c in 0..ker.d[2] { for b in 0..ker.d[1] { for a in 0..ker.d[0] { let n = o.ix(i * s + a, j * s + b, c); o.v[n] += g.at(i, j, k as u32) * ker.at(a, b, c); } } } } } }
    o
}
pub fn conv_back_ker(g: &R, im: &R, s: u32, ch: u32, kd: D) -> R { R::gen(kd, |l, m, n| { let mut x = 0.0f32; for j in 0..g.d[1] { for i in 0..g.d[0] { x += im.at(l + s * i, m + s * j, n) * g.at(i, j, ch); } } x }) }
/// window maximum and, if some item is above -inf, the place of the first one attaining it
pub fn pool(im: &R, w: D, s: u32, i: u32, j: u32, k: u32) -> (f32, Option<usize>) {
    let (mut m, mut at) = (f32::NEG_INFINITY, None);
    for b in 0..w[1] { for a in 0..w[0] { let x = im.at(i * s + a, j * s + b, k); if x > m { m = x; at = Some(im.ix(i * s + a, j * s + b, k)); } } }
    (m, at)
}
pub fn softmax64(x: &R) -> Vec<f64> {
    let m = x.v.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    let e: Vec<f64> = x.v.iter().map(|v| ((*v as f64) - (m as f64)).exp()).collect();
    let s: f64 = e.iter().sum();
    e.iter().map(|v| v / s).collect()
}
pub fn check_softmax(what: &str, y: &R, x: &R) -> Res {
    ck!(y.d == x.d, "{}: shape {:?} for input shape {:?}", what, y.d, x.d);
    let e = softmax64(x);
    let mut sum = 0.0f64;
    for n in 0..e.len() {
        let (g, want) = (y.v[n] as f64, e[n]);
        ck!(g >= 0.0 && g <= 1.0, "{}: result {:?} of item {} ({:?}) is not between 0 and 1", what, y.v[n], n, x.v[n]);
        ck!((g - want).abs() <= 1e-4 * want + 1e-37, "{}: result {:?} of item {} ({:?}), expected {:?}", what, y.v[n], n, x.v[n], want);
        sum += g;
    }
    if !e.is_empty() { ck!((sum - 1.0).abs() <= e.len() as f64 / 8388608.0, "{}: results sum to {}", what, sum); }
    // larger items never get smaller results
    let mut o: Vec<usize> = (0..e.len()).collect();
    o.sort_by(|a, b| x.v[*a].partial_cmp(&x.v[*b]).unwrap());
    for p in o.windows(2) { ck!(y.v[p[0]] <= y.v[p[1]], "{}: order of items {:?} and {:?} is not kept: {:?} and {:?}", what, x.v[p[0]], x.v[p[1]], y.v[p[0]], y.v[p[1]]); }
    Ok(())
}
