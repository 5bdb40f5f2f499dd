//! C15 - C20, C25: layers against a reference model of their configuration, mode and gradients.
use crate::util::*;
use crate::{ck, Cx};
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;

#[derive(Clone, Debug)]
pub enum Cfg { Fc { w: R, b: R }, Conv { k: Vec<R>, b: Vec<R>, im: D, st: u32 }, Pool { im: D, w: D, st: u32 }, Soft { d: D } }
pub enum Any { Fc(FullyConnectedLayer), Conv(ConvolutionalLayer), Pool(MaxPoolLayer), Soft(SoftmaxLayer) }
pub const KINDS: [&str; 4] = ["fully connected", "convolutional", "max pool", "softmax"];
impl Any {
    pub fn l(&mut self) -> &mut dyn Layer { match self { Any::Fc(x) => x, Any::Conv(x) => x, Any::Pool(x) => x, Any::Soft(x) => x } }
    pub fn r(&self) -> &dyn Layer { match self { Any::Fc(x) => x, Any::Conv(x) => x, Any::Pool(x) => x, Any::Soft(x) => x } }
    pub fn empty(kind: usize) -> Any { match kind { 0 => Any::Fc(FullyConnectedLayer::empty()), 1 => Any::Conv(ConvolutionalLayer::empty()), 2 => Any::Pool(MaxPoolLayer::empty()), _ => Any::Soft(SoftmaxLayer::empty()) } }
    pub fn fill(&mut self, c: &Cfg, name: &String) -> Result<(), &'static str> {
        match (self, c) {
            (Any::Fc(l), Cfg::Fc { w, b }) => l.fill_from_state(w.t(), b.t(), name),
            (Any::Conv(l), Cfg::Conv { k, b, im, st }) => l.fill_from_state(k.iter().map(|x| x.t()).collect(), b.iter().map(|x| x.t()).collect(), sh(*im), *st, name),
            (Any::Pool(l), Cfg::Pool { im, w, st }) => l.fill_from_state(sh(*im), sh(*w), *st, name),
            (Any::Soft(l), Cfg::Soft { d }) => l.fill_from_state(sh(*d), name),
            _ => panic!("kind"),
        }
    }
}
fn fits(d: D) -> bool { d[0] as u128 * d[1] as u128 <= u32::MAX as u128 && d[0] as u128 * d[1] as u128 * d[2] as u128 <= u32::MAX as u128 }
impl Cfg {
    pub fn kind(&self) -> usize { match self { Cfg::Fc { .. } => 0, Cfg::Conv { .. } => 1, Cfg::Pool { .. } => 2, Cfg::Soft { .. } => 3 } }
    pub fn ish(&self) -> D { match self { Cfg::Fc { w, .. } => [w.d[1], 1, w.d[2]], Cfg::Conv { im, .. } | Cfg::Pool { im, .. } => *im, Cfg::Soft { d } => *d } }
    pub fn osh(&self) -> D {
        match self {
            Cfg::Fc { b, .. } => b.d,
            Cfg::Conv { k, im, st, .. } => { let n = window_count(*im, k[0].d, *st); [n.0 as u32, n.1 as u32, k.len() as u32] }
            Cfg::Pool { im, w, st } => { let n = window_count(*im, *w, *st); [n.0 as u32, n.1 as u32, im[2]] }
            Cfg::Soft { d } => *d,
        }
    }
    pub fn ok(&self) -> bool {
        match self {
            Cfg::Fc { w, b } => w.d[2] == b.d[2] && w.d[0] == b.d[0] && b.d[1] == 1 && fits(self.ish()),
            Cfg::Conv { k, b, im, st } => !k.is_empty() && k.iter().all(|x| x.d == k[0].d) && k[0].d[2] == im[2] && b.len() == k.len() && b.iter().all(|x| x.d == [1, 1, 1]) && window_ok(*im, k[0].d, *st) && fits(*im) && fits(self.osh()),
            Cfg::Pool { im, w, st } => window_ok(*im, *w, *st) && fits(*im),
            Cfg::Soft { d } => fits(*d),
        }
    }
    pub fn fwd(&self, x: &R) -> R {
        match self {
            Cfg::Fc { w, b } => relu(&addr(&mm(w, x), b)),
            Cfg::Conv { k, b, st, .. } => R::gen(self.osh(), |i, j, c| pos(conv(x, &k[c as usize], *st, i, j) + b[c as usize].v[0])),
            Cfg::Pool { w, st, .. } => R::gen(self.osh(), |i, j, c| pool(x, *w, *st, i, j, c).0),
            Cfg::Soft { .. } => panic!("softmax is checked by check_softmax"),
        }
    }
    pub fn check_fwd(&self, what: &str, x: &R, y: &Tensor) -> Res { if let Cfg::Soft { .. } = self { check_softmax(what, &read(y), x) } else { expect(what, y, &self.fwd(x)) } }
    /// parameters as they have to be stored
    pub fn check_serial(&self, name: &str, s: &SerializedLayer) -> Res {
        use rusty_network::layer::{convolutional::ConvolutionalSerialKeys as CK, fully_connected::FullyConnectedSerialKeys as FK, max_pool::MaxPoolSerialKeys as PK, softmax::SoftMaxSerialKeys as SK};
        fn g<'a, K: std::hash::Hash + Eq>(m: &'a std::collections::HashMap<K, Vec<u8>>, k: K) -> Result<&'a Vec<u8>, String> { m.get(&k).ok_or("an entry is missing".to_string()) }
        fn de<T: for<'a> serde::Deserialize<'a>>(b: &Vec<u8>) -> Result<T, String> { bincode::deserialize(b).map_err(|e| format!("stored entry: {}", e)) }
        let nm: String = match s { SerializedLayer::SerialFullyConnectedLayer(m) => de(g(m, FK::Name)?)?, SerializedLayer::SerialConvolutionalLayer(m) => de(g(m, CK::Name)?)?, SerializedLayer::SerialMaxPoolLayer(m) => de(g(m, PK::Name)?)?, SerializedLayer::SerialSoftMaxLayer(m) => de(g(m, SK::Name)?)? };
        ck!(nm == name, "stored name {:?}, expected {:?}", nm, name);
        match (self, s) {
            (Cfg::Fc { w, b }, SerializedLayer::SerialFullyConnectedLayer(m)) => { exact("stored weights", &de(g(m, FK::Weights)?)?, w)?; exact("stored bias", &de(g(m, FK::Bias)?)?, b) }
            (Cfg::Conv { k, b, im, st }, SerializedLayer::SerialConvolutionalLayer(m)) => {
                let ks: Vec<Tensor> = de(g(m, CK::Kernels)?)?; let bs: Vec<Tensor> = de(g(m, CK::Biases)?)?; let i: TensorShape = de(g(m, CK::InputShape)?)?; let t: u32 = de(g(m, CK::Stride)?)?;
                ck!(ks.len() == k.len() && bs.len() == b.len(), "stored {} kernels and {} biases, expected {} and {}", ks.len(), bs.len(), k.len(), b.len());
                for (x, y) in ks.iter().zip(k) { exact("stored kernel", x, y)?; }
                for (x, y) in bs.iter().zip(b) { exact("stored bias", x, y)?; }
                ck!(dd(i) == *im && t == *st, "stored input shape {:?} and stride {}, expected {:?} and {}", i, t, im, st);
                Ok(())
            }
            (Cfg::Pool { im, w, st }, SerializedLayer::SerialMaxPoolLayer(m)) => {
                let i: TensorShape = de(g(m, PK::InputShape)?)?; let k: TensorShape = de(g(m, PK::MaskShape)?)?; let t: u32 = de(g(m, PK::Stride)?)?;
                ck!(dd(i) == *im && dd(k) == *w && t == *st, "stored {:?} {:?} {}, expected {:?} {:?} {}", i, k, t, im, w, st);
                Ok(())
            }
            (Cfg::Soft { d }, SerializedLayer::SerialSoftMaxLayer(m)) => { let i: TensorShape = de(g(m, SK::Shape)?)?; ck!(dd(i) == *d, "stored shape {:?}, expected {:?}", i, d); Ok(()) }
            _ => Err("serialized as another layer kind".into()),
        }
    }
}
pub fn same_serial(a: &SerializedLayer, b: &SerializedLayer) -> bool {
    match (a, b) {
        (SerializedLayer::SerialFullyConnectedLayer(x), SerializedLayer::SerialFullyConnectedLayer(y)) => x == y,
        (SerializedLayer::SerialConvolutionalLayer(x), SerializedLayer::SerialConvolutionalLayer(y)) => x == y,
        (SerializedLayer::SerialMaxPoolLayer(x), SerializedLayer::SerialMaxPoolLayer(y)) => x == y,
        (SerializedLayer::SerialSoftMaxLayer(x), SerializedLayer::SerialSoftMaxLayer(y)) => x == y,
        _ => false,
    }
}
pub const NAMES: &[&str] = &["", "a", "Test layer", "layer 2", "naïve ✓ 层", "a much longer layer name, with spaces, \"quotes\"\nand a line break"];
pub fn name(r: &mut Rng) -> String { if r.chance(6) { "x".repeat(r.range(0, 300) as usize) } else { r.pick(NAMES).to_string() } }
pub fn mode(r: &mut Rng) -> NetworkRunState { if r.chance(2) { NetworkRunState::Training } else { NetworkRunState::Inference } }
pub fn switch(l: &mut dyn Layer, m: NetworkRunState) { match m { NetworkRunState::Training => l.switch_to_training(), NetworkRunState::Inference => l.switch_to_inference() } }
/// a consistent configuration; `special` fills parameters with arbitrary floats
pub fn gen_cfg(r: &mut Rng, l: &Lits, kind: usize, special: bool) -> Cfg {
    let v = |r: &mut Rng, d: D, m: i32| if special { specials(r, l, d) } else { nums(r, l, d, m) };
    match kind {
        0 => loop {
            let m = if r.chance(6) { 1200 } else { 40 };
            let (o, i, k) = (dim(r, l, m), dim(r, l, m), if r.chance(4) { dim(r, l, 4) } else { 1 });
            if o as u64 * i as u64 * k as u64 > 6000 || (i as u64) * (k as u64) > 3000 { continue; }
            return Cfg::Fc { w: v(r, [o, i, k], 4), b: v(r, [o, 1, k], 9) };
        },
        1 => { let (im, k, st, n) = conv_dims(r, l, 1500); let n2 = n[2].clamp(1, 12); return Cfg::Conv { k: (0..n2).map(|_| v(r, k, 4)).collect(), b: (0..n2).map(|_| v(r, [1, 1, 1], 9)).collect(), im, st }; }
        2 => { let (im, mut w, st, _) = conv_dims(r, l, 3000); w[2] = dim(r, l, 3); return Cfg::Pool { im, w, st }; }
        _ => { let n = dim(r, l, 600); let d = if r.chance(3) { shape(r, l, 200) } else { [n, 1, 1] }; return Cfg::Soft { d }; }
    }
}
use crate::ops::conv_dims;
pub fn gen_input(r: &mut Rng, l: &Lits, c: &Cfg) -> R {
    if c.kind() == 3 { let m = if r.chance(4) { 300.0 } else { 8.0 }; reals(r, c.ish(), m) }
    else if c.kind() == 2 { match r.below(4) { 0 => reals(r, c.ish(), 10.0), 1 => { let mut x = ints(r, c.ish(), 9); for v in x.v.iter_mut() { *v -= 12.0; } x } _ => nums(r, l, c.ish(), 9) } }
    else { nums(r, l, c.ish(), 4) }
}

#[derive(Clone)]
enum Grads { Fc(R, R), Conv(Vec<R>, Vec<f32>), None }
struct Model { c: Cfg, name: String, mode: NetworkRunState, g: Grads, fresh: Option<(R, R)> }
impl Model {
    fn zero(c: &Cfg) -> Grads { match c { Cfg::Fc { w, b } => Grads::Fc(R::zero(w.d), R::zero(b.d)), Cfg::Conv { k, .. } => Grads::Conv(k.iter().map(|x| R::zero(x.d)).collect(), vec![0.0; k.len()]), _ => Grads::None } }
    fn check(&self, what: &str, a: &Any, deep: bool) -> Res {
        let l = a.r();
        ck!(l.get_run_mode() == self.mode, "{}: mode is {:?}, expected {:?}", what, l.get_run_mode(), self.mode);
        ck!(l.get_name() == self.name, "{}: name is {:?}, expected {:?}", what, l.get_name(), self.name);
        ck!(dd(l.get_input_shape()) == self.c.ish(), "{}: input shape is {:?}, expected {:?}", what, l.get_input_shape(), self.c.ish());
        ck!(dd(l.get_output_shape()) == self.c.osh(), "{}: output shape is {:?}, expected {:?}", what, l.get_output_shape(), self.c.osh());
        if deep { self.c.check_serial(&self.name, &l.get_serialized()).map_err(|e| format!("{}: {}", what, e))?; }
        #[cfg(verif_hooks)]
        if self.mode == NetworkRunState::Training {
            match (a, &self.g) {
                (Any::Fc(x), Grads::Fc(w, b)) => { let (p, q, m) = x.verif_buffers(); expect(&format!("{}: weight gradients", what), p, w)?; expect(&format!("{}: bias gradients", what), q, b)?; ck!(dd(m.get_shape()) == self.c.osh(), "{}: relu mask shape {:?}", what, m.get_shape()); }
                (Any::Conv(x), Grads::Conv(k, b)) => {
                    let (p, q, m) = x.verif_buffers();
                    ck!(p.len() == k.len() && q.len() == b.len(), "{}: {} kernel gradients and {} bias gradients, expected {} and {}", what, p.len(), q.len(), k.len(), b.len());
                    for (n, (y, z)) in p.iter().zip(k).enumerate() { expect(&format!("{}: gradient of kernel {}", what, n), y, z)?; }
                    for (n, (y, z)) in q.iter().zip(b).enumerate() { expect(&format!("{}: gradient of bias {}", what, n), y, &R { d: [1, 1, 1], v: vec![*z] })?; }
                    ck!(dd(m.get_shape()) == self.c.osh(), "{}: relu mask shape {:?}", what, m.get_shape());
                }
                (Any::Pool(x), _) => { let o = self.c.osh(); ck!(x.verif_buffers().len() as u64 == n3(o), "{}: {} origins for output shape {:?}", what, x.verif_buffers().len(), o); }
                _ => {}
            }
        }
        Ok(())
    }
    /// expected results of a backward pass: outgoing gradient and new gradients
    fn back(&self, x: &R, y: &R, g: &R) -> Option<(R, Grads)> {
        match &self.c {
            Cfg::Fc { w, .. } => { let (_, y0) = self.fresh.as_ref()?; let m = mulr(&R { d: y0.d, v: y0.v.iter().map(|v| if *v > 0.0 { 1.0 } else { 0.0 }).collect() }, g); if let Grads::Fc(gw, gb) = &self.g { Some((mm(&tr(w), &m), Grads::Fc(addr(gw, &mm(&m, &tr(x))), addr(gb, &m)))) } else { None } }
            Cfg::Conv { k, im, st, .. } => {
                let (_, y0) = self.fresh.as_ref()?; let m = mulr(&R { d: y0.d, v: y0.v.iter().map(|v| if *v > 0.0 { 1.0 } else { 0.0 }).collect() }, g);
                let gk = k.iter().enumerate().map(|(n, q)| conv_back_ker(&m, x, *st, n as u32, q.d)).collect();
                let gb = (0..k.len()).map(|c| { let mut s = 0.0; for j in 0..m.d[1] { for i in 0..m.d[0] { s += m.at(i, j, c as u32); } } s }).collect();
                Some((conv_back_out(&m, k, *st, *im), Grads::Conv(gk, gb)))
            }
            Cfg::Pool { im, w, st } => {
                let (x0, _) = self.fresh.as_ref()?;
                let mut o = R::zero(*im);
                for k in 0..g.d[2] { for j in 0..g.d[1] { for i in 0..g.d[0] { let p = pool(x0, *w, *st, i, j, k).1?; o.v[p] += g.at(i, j, k); } } }
                Some((o, Grads::None))
            }
            Cfg::Soft { d } => {
                if d[1] != 1 || d[2] != 1 { return None; }
                let s: f32 = y.v.iter().zip(&g.v).map(|(a, b)| a * b).sum();
                Some((R { d: *d, v: y.v.iter().zip(&g.v).map(|(a, b)| a * (b - s)).collect() }, Grads::None))
            }
        }
    }
}
fn other(r: &mut Rng, l: &Lits, d: D) -> D { let mut e = d; loop { match r.below(5) { 0 => e = [d[1], d[0], d[2]], 1 => e = [n3(d).min(5000) as u32, 1, 1], 2 => e[r.below(3) as usize] = dim(r, l, 20), _ => { let p = r.below(3) as usize; e[p] = if r.chance(2) { e[p] + 1 } else { e[p].saturating_sub(1) }; } } if n3(e) > 20000 { e = d; } if e != d { return e; } } }
fn make(r: &mut Rng, c: &Cfg, nm: &String) -> Result<Any, String> {
    // through the constructor or by filling an empty layer
    let mut a = match (c, r.below(2)) {
        (Cfg::Pool { im, w, st }, 0) => Any::Pool(MaxPoolLayer::new(sh(*w), sh(*im), *st, nm)?),
        (Cfg::Soft { d }, 0) => Any::Soft(SoftmaxLayer::new(sh(*d), nm)?),
        (Cfg::Conv { k, im, st, .. }, 0) => { let mut l = ConvolutionalLayer::new(sh(k[0].d), sh(*im), *st, k.len() as u32, nm)?; let q = if let Cfg::Conv { b, .. } = c { b.clone() } else { vec![] }; l.fill_from_state(k.iter().map(|x| x.t()).collect(), q.iter().map(|x| x.t()).collect(), sh(*im), *st, nm)?; Any::Conv(l) }
        _ => Any::empty(c.kind()),
    };
    a.fill(c, nm)?;
    Ok(a)
}
fn history(kind: usize, switchy: bool, r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let c = gen_cfg(r, l, kind, false);
    let nm = name(r);
    *s = format!("{} layer {:?} named {:?}:", KINDS[kind], c, nm);
    let mut a = make(r, &c, &nm)?;
    let mut m = Model { g: Model::zero(&c), c, name: nm, mode: NetworkRunState::Inference, fresh: None };
    m.check("new layer", &a, true)?;
    if !switchy && r.chance(3) || switchy && r.chance(5) { } else { a.l().switch_to_training(); m.mode = NetworkRunState::Training; s.push_str(" training;"); m.check("after switching to training", &a, false)?; }
    let mut nontrivial = false;
    let mut last: Option<(R, R)> = None; // input and output of the last forward pass
    for step in 0..r.range(2, if switchy { 14 } else { 9 }) {
        let w = format!("step {}", step);
        let op = r.below(if switchy { 16 } else { 14 });
        match op {
            0..=3 => {
                let x = gen_input(r, l, &m.c);
                let o0 = ints(r, m.c.osh(), 9);
                s.push_str(&format!(" forward {:?};", x));
                let (t, mut o) = (x.t(), o0.t());
                let e = a.l().forward(&t, &mut o);
                ck!(e.is_ok(), "{}: forward reports {:?}", w, e);
                m.c.check_fwd(&format!("{}: forward", w), &x, &o)?;
                exact(&format!("{}: input", w), &t, &x)?;
                let y = read(&o);
                if m.mode == NetworkRunState::Training { m.fresh = Some((x.clone(), y.clone())); }
                last = Some((x, y));
                nontrivial = true;
            }
            4 => {
                let (di, dout) = if r.chance(2) { (other(r, l, m.c.ish()), m.c.osh()) } else { (m.c.ish(), other(r, l, m.c.osh())) };
                let (x, o0) = (ints(r, di, 4), ints(r, dout, 9));
                s.push_str(&format!(" forward with input {:?} and output {:?};", di, dout));
                let mut o = o0.t();
                let e = a.l().forward(&x.t(), &mut o);
                ck!(e.is_err(), "{}: forward with input shape {:?} and output shape {:?} succeeds", w, di, dout);
                exact(&format!("{}: output of a rejected forward pass", w), &o, &o0)?;
            }
            5..=8 => {
                let g = ints(r, m.c.osh(), 4);
                let (x, y) = match (&m.c, &last) { (Cfg::Soft { d }, _) => (ints(r, *d, 4), if r.chance(3) { let mut q = R::zero(*d); if !q.v.is_empty() { let n = r.below(q.v.len() as u64) as usize; q.v[n] = 1.0; } q } else { ints(r, *d, 4) }), (_, Some(p)) => p.clone(), _ => (ints(r, m.c.ish(), 4), ints(r, m.c.osh(), 4)) };
                let o0 = ints(r, m.c.ish(), 9);
                let mut o = o0.t();
                if m.mode == NetworkRunState::Inference {
                    s.push_str(" backward in inference;");
                    let e = a.l().backward(&x.t(), &y.t(), &g.t(), &mut o);
                    ck!(e.is_err(), "{}: backward in inference mode succeeds", w);
                    exact(&format!("{}: outgoing gradient of a refused backward pass", w), &o, &o0)?;
                } else {
                    let bad = matches!(&m.c, Cfg::Soft { d } if d[1] != 1 || d[2] != 1);
                    if bad { continue; }
                    let Some((wo, wg)) = m.back(&x, &y, &g) else { continue };
                    s.push_str(&format!(" backward gradient {:?}", g));
                    if kind == 3 { s.push_str(&format!(" output {:?}", y)); }
                    s.push(';');
                    let (tx, ty, tg) = (x.t(), y.t(), g.t());
                    let e = a.l().backward(&tx, &ty, &tg, &mut o);
                    ck!(e.is_ok(), "{}: backward reports {:?}", w, e);
                    expect(&format!("{}: outgoing gradient", w), &o, &wo)?;
                    exact(&format!("{}: input", w), &tx, &x)?; exact(&format!("{}: output", w), &ty, &y)?; exact(&format!("{}: incoming gradient", w), &tg, &g)?;
                    m.g = wg; m.fresh = None;
                    nontrivial = true;
                }
            }
            9 => {
                let mut d = [m.c.ish(), m.c.osh(), m.c.ish()]; // input, incoming, outgoing
                let used: &[usize] = match kind { 2 | 3 => &[1, 2], _ => &[0, 1, 2] };
                let p = *r.pick(used);
                d[p] = other(r, l, d[p]);
                s.push_str(&format!(" backward with input {:?}, incoming gradient {:?}, outgoing gradient {:?};", d[0], d[1], d[2]));
                let o0 = ints(r, d[2], 9);
                let mut o = o0.t();
                let e = a.l().backward(&ints(r, d[0], 4).t(), &ints(r, m.c.osh(), 4).t(), &ints(r, d[1], 4).t(), &mut o);
                ck!(e.is_err(), "{}: backward with input shape {:?}, incoming gradient shape {:?} and outgoing gradient shape {:?} succeeds", w, d[0], d[1], d[2]);
                exact(&format!("{}: outgoing gradient of a rejected backward pass", w), &o, &o0)?;
            }
            10 => { if !r.chance(2) { continue; } s.push_str(" clear;"); a.l().clear_gradients(); if m.mode == NetworkRunState::Training { m.g = Model::zero(&m.c); } m.fresh = None; }
            11 => {
                if !r.chance(2) { continue; }
                let c2 = gen_cfg(r, l, kind, false); let n2 = name(r);
                s.push_str(&format!(" refill {:?} {:?};", c2, n2));
                let e = a.fill(&c2, &n2);
                ck!(e.is_ok(), "{}: refilling reports {:?}", w, e);
                m.c = c2; m.name = n2; m.g = Model::zero(&m.c); m.fresh = None; last = None;
                m.check(&format!("{} (refill)", w), &a, true)?;
            }
            12 => if let (Any::Fc(f), Cfg::Fc { w: ww, b }) = (&mut a, &mut m.c) {
                let v = r.below(7) as f32 - 3.0;
                if r.chance(2) { s.push_str(&format!(" weights={};", v)); f.fill_weights_with_value(v); ww.v.iter_mut().for_each(|x| *x = v); } else { s.push_str(&format!(" bias={};", v)); f.fill_bias_with_value(v); b.v.iter_mut().for_each(|x| *x = v); }
            },
            _ => {
                let t = mode(r);
                s.push_str(if t == NetworkRunState::Training { " training;" } else { " inference;" });
                switch(a.l(), t);
                m.mode = t; m.g = Model::zero(&m.c); m.fresh = None;
            }
        }
        m.check(&w, &a, step % 3 == 2 || switchy)?;
    }
    m.check("at the end", &a, true)?;
    Ok(nontrivial)
}
/// small exhaustive forward/backward runs for one kind
fn sweep(cx: &mut Cx, kind: usize, n: u64) { for q in 0..n { cx.case(|s| { let mut r = Rng::new(q.wrapping_mul(7919) + kind as u64); history(kind, false, &mut r, &Lits::default(), s) }); } }
fn passes(cx: &mut Cx, kind: usize) {
    // forward and backward in training for enumerated small configurations
    let mut r = Rng::new(100 + kind as u64);
    let mut cfgs = vec![];
    match kind {
        0 => for dk in 1..=2 { for o in 1..=3 { for i in 1..=3 { for _ in 0..3 { cfgs.push(Cfg::Fc { w: ints(&mut r, [o, i, dk], 4), b: ints(&mut r, [o, 1, dk], 4) }); } } } },
        1 => for dk in 1..=2 { for st in 1..=3 { for ka in 1..=2 { for kb in 1..=3 { for na in 1..=3 { for nb in 1..=2 { for nk in 1..=2u32 { let k = [ka, kb, dk]; cfgs.push(Cfg::Conv { k: (0..nk).map(|_| ints(&mut r, k, 4)).collect(), b: (0..nk).map(|_| ints(&mut r, [1, 1, 1], 9)).collect(), im: [ka + (na - 1) * st, kb + (nb - 1) * st, dk], st }); } } } } } } },
        2 => for dk in 1..=2 { for st in 1..=3 { for ka in 1..=3 { for kb in 1..=2 { for na in 1..=3 { for nb in 1..=2 { cfgs.push(Cfg::Pool { w: [ka, kb, 1], im: [ka + (na - 1) * st, kb + (nb - 1) * st, dk], st }); } } } } } },
        _ => for n in 1..=6 { for _ in 0..4 { cfgs.push(Cfg::Soft { d: [n, 1, 1] }); } },
    }
    match kind {
        0 => for d in [[300u32, 301], [1, 70001], [70001, 1]] { cfgs.push(Cfg::Fc { w: ints(&mut r, [d[0], d[1], 1], 2), b: ints(&mut r, [d[0], 1, 1], 4) }); },
        1 => for (im, k, st, n) in crate::ops::WIDE { if n3(k) * n3(n) < 3_000_000 { cfgs.push(Cfg::Conv { k: (0..n[2]).map(|_| ints(&mut r, k, 2)).collect(), b: (0..n[2]).map(|_| ints(&mut r, [1, 1, 1], 4)).collect(), im, st }); } },
        2 => for (mut im, k, st, _) in crate::ops::WIDE { im[2] = 2; cfgs.push(Cfg::Pool { im, w: [k[0], k[1], 1], st }); },
        _ => {}
    }
    for c in cfgs { let seed = r.next(); cx.case(|s| {
        let mut r = Rng::new(seed);
        let l = Lits::default();
        *s = format!("{} layer {:?}: forward in both modes, two backward passes", KINDS[kind], c);
        let nm = "n".to_string();
        let mut a = Any::empty(kind); a.fill(&c, &nm)?;
        let mut m = Model { g: Model::zero(&c), c: c.clone(), name: nm, mode: NetworkRunState::Inference, fresh: None };
        for round in 0..2 {
            let x = gen_input(&mut r, &l, &c);
            s.push_str(&format!(" input {:?}", x));
            a.l().switch_to_inference(); m.mode = NetworkRunState::Inference;
            let mut o1 = ints(&mut r, c.osh(), 9).t();
            a.l().forward(&x.t(), &mut o1)?;
            c.check_fwd("forward in inference", &x, &o1)?;
            a.l().switch_to_training(); m.mode = NetworkRunState::Training; m.g = Model::zero(&c); m.fresh = None;
            m.check("after switching to training", &a, round == 0)?;
            for pass in 0..2 {
                let mut o2 = ints(&mut r, c.osh(), 9).t();
                a.l().forward(&x.t(), &mut o2)?;
                c.check_fwd("forward in training", &x, &o2)?;
                let y = if kind == 3 { ints(&mut r, c.osh(), 4) } else { read(&o2) };
                m.fresh = Some((x.clone(), y.clone()));
                let g = ints(&mut r, c.osh(), 4);
                s.push_str(&format!(" gradient {:?}", g));
                if let Some((wo, wg)) = m.back(&x, &y, &g) {
                    let mut og = ints(&mut r, c.ish(), 9).t();
                    a.l().backward(&x.t(), &y.t(), &g.t(), &mut og)?;
                    expect(&format!("outgoing gradient of pass {}", pass), &og, &wo)?;
                    m.g = wg; m.fresh = None;
                    m.check(&format!("after backward pass {}", pass), &a, false)?;
                }
            }
        }
        Ok(true)
    }); }
}
/// more passes, refusals and switches than 8 and 16 bit counters hold
fn long(cx: &mut Cx, kind: usize, switchy: bool) {
    let cfgs: Vec<Cfg> = match kind {
        0 => vec![Cfg::Fc { w: R { d: [1, 1, 1], v: vec![2.0] }, b: R { d: [1, 1, 1], v: vec![1.0] } }],
        1 => vec![Cfg::Conv { k: vec![R { d: [1, 1, 1], v: vec![2.0] }], b: vec![R { d: [1, 1, 1], v: vec![1.0] }], im: [2, 1, 1], st: 1 }],
        2 => vec![Cfg::Pool { w: [2, 1, 1], im: [2, 1, 1], st: 1 }],
        _ => vec![Cfg::Soft { d: [2, 1, 1] }],
    };
    for c in cfgs { for q in 0..2u64 { cx.case(|s| {
        let mut r = Rng::new(q + 3);
        let nm = "n".to_string();
        let mut a = Any::empty(kind); a.fill(&c, &nm)?;
        let mut m = Model { g: Model::zero(&c), c: c.clone(), name: nm.clone(), mode: NetworkRunState::Inference, fresh: None };
        a.l().switch_to_training(); m.mode = NetworkRunState::Training;
        let n = if q == 0 { 70_000 } else { 3_000 };
        for step in 0..n {
            *s = format!("{} layer {:?} in training, {} rounds of passes{}", KINDS[kind], c, step + 1, if q == 0 { "" } else { " with refused passes, switches, clearing and refilling in between" });
            if q == 1 || switchy && step % 7 < 4 { match r.below(if switchy { 3 } else { 10 }) {
                0 | 1 => { let t = mode(&mut r); switch(a.l(), t); m.mode = t; m.g = Model::zero(&c); m.fresh = None; m.check("after switching", &a, false)?; }
                2 => { let mut o = R::zero([9, 1, 1]).t(); ck!(a.l().forward(&R::zero([9, 1, 1]).t(), &mut o).is_err() && a.l().backward(&R::zero([9, 1, 1]).t(), &R::zero([9, 1, 1]).t(), &R::zero([9, 1, 1]).t(), &mut o).is_err(), "a pass with other shapes succeeds"); }
                3 => { a.l().clear_gradients(); m.g = Model::zero(&c); m.fresh = None; }
                4 => { a.fill(&c, &nm)?; m.g = Model::zero(&c); m.fresh = None; }
                _ => {}
            } }
            let x = match kind { 2 => R { d: c.ish(), v: vec![r.below(5) as f32, r.below(5) as f32] }, _ => ints(&mut r, c.ish(), 3) };
            let mut o = R::zero(c.osh()).t();
            a.l().forward(&x.t(), &mut o)?;
            c.check_fwd("forward", &x, &o)?;
            let y = read(&o);
            let g = ints(&mut r, c.osh(), 3);
            let mut og = ints(&mut r, c.ish(), 9).t();
            if m.mode == NetworkRunState::Inference { ck!(a.l().backward(&x.t(), &y.t(), &g.t(), &mut og).is_err(), "a backward pass in inference mode succeeds"); continue; }
            m.fresh = Some((x.clone(), y.clone()));
            let y = if kind == 3 { ints(&mut r, c.osh(), 4) } else { y };
            if let Some((wo, wg)) = m.back(&x, &y, &g) {
                a.l().backward(&x.t(), &y.t(), &g.t(), &mut og)?;
                expect("outgoing gradient", &og, &wo)?;
                m.g = wg; m.fresh = None;
            }
            if step % 16 == 0 || step < 2000 { m.check("after the backward pass", &a, step % 1024 == 0)?; }
        }
        m.check("at the end", &a, true)?;
        Ok(true)
    }); } }
}
pub fn c15(cx: &mut Cx) { passes(cx, 0); long(cx, 0, false); sweep(cx, 0, 100); cx.random(1.0, |r, l, s| history(0, false, r, l, s)); }
pub fn c16(cx: &mut Cx) { passes(cx, 1); long(cx, 1, false); sweep(cx, 1, 100); cx.random(1.0, |r, l, s| history(1, false, r, l, s)); }
pub fn c17(cx: &mut Cx) { passes(cx, 2); long(cx, 2, false); sweep(cx, 2, 100); cx.random(1.0, |r, l, s| history(2, false, r, l, s)); }
pub fn c18(cx: &mut Cx) { passes(cx, 3); long(cx, 3, false); sweep(cx, 3, 100); cx.random(1.0, |r, l, s| history(3, false, r, l, s)); }
pub fn c20(cx: &mut Cx) {
    for k in 0..4 { sweep(cx, k, 30); long(cx, k, true); }
    cx.random(1.0, |r, l, s| { let k = r.below(4) as usize; history(k, true, r, l, s) });
}

/// everything observable about a layer, for "left unchanged" comparisons
fn snap(a: &Any) -> (NetworkRunState, String, D, D, SerializedLayer, Vec<R>) {
    let l = a.r();
    #[allow(unused_mut)]
    let mut b: Vec<R> = vec![];
    #[cfg(verif_hooks)]
    match a { Any::Fc(x) => { let (p, q, m) = x.verif_buffers(); for t in [p, q, m] { b.push(read(t)); } } Any::Conv(x) => { let (p, q, m) = x.verif_buffers(); for t in p.iter().chain(q.iter()) { b.push(read(t)); } b.push(read(m)); } Any::Pool(x) => { b.push(R { d: [0, 0, 0], v: x.verif_buffers().iter().map(|v| *v as f32).collect() }); } _ => {} }
    (l.get_run_mode(), l.get_name(), dd(l.get_input_shape()), dd(l.get_output_shape()), l.get_serialized(), b)
}
fn same_snap(what: &str, a: &Any, b: &(NetworkRunState, String, D, D, SerializedLayer, Vec<R>)) -> Res {
    let c = snap(a);
    ck!(c.0 == b.0, "{}: mode {:?}, before {:?}", what, c.0, b.0);
    ck!(c.1 == b.1, "{}: name {:?}, before {:?}", what, c.1, b.1);
    ck!(c.2 == b.2 && c.3 == b.3, "{}: shapes {:?} {:?}, before {:?} {:?}", what, c.2, c.3, b.2, b.3);
    ck!(same_serial(&c.4, &b.4), "{}: parameters changed", what);
    ck!(c.5.len() == b.5.len() && c.5.iter().zip(&b.5).all(|(x, y)| x.d == y.d && x.v.iter().zip(&y.v).all(|(p, q)| eqb(*p, *q))), "{}: training buffers changed", what);
    Ok(())
}
/// a configuration that may be inconsistent in one place
fn any_cfg(r: &mut Rng, l: &Lits, kind: usize) -> Cfg {
    let mut c = gen_cfg(r, l, kind, false);
    if r.chance(3) { return c; }
    let bump = |r: &mut Rng, d: &mut D| { let p = r.below(3) as usize; d[p] = match r.below(4) { 0 => 0, 1 => d[p] + 1, 2 => d[p].saturating_sub(1), _ => r.range(0, 4) }; };
    match &mut c {
        Cfg::Fc { w, b } => { let (mut dw, mut db) = (w.d, b.d); match r.below(4) { 0 => bump(r, &mut dw), 1 => bump(r, &mut db), 2 => { db = [db[1], db[0], db[2]] } _ => { dw = [0, 70000, 70000]; db = [0, 1, 70000]; } } if n3(dw) < 30000 { *w = ints(r, dw, 3); } *b = ints(r, db, 3); }
        Cfg::Conv { k, b, im, st } => match r.below(8) {
            0 => bump(r, im), 1 => *st = r.range(0, 4), 2 => { k.clear(); if r.chance(2) { b.clear(); } } 3 => { b.pop(); } 4 => b.push(R { d: [1, 1, 1], v: vec![2.0] }),
            5 => { let n = r.below(b.len() as u64) as usize; let mut d = [1, 1, 1]; bump(r, &mut d); b[n] = ints(r, d, 3); }
            6 => { let n = r.below(k.len() as u64) as usize; let mut d = k[n].d; bump(r, &mut d); if n3(d) < 30000 { k[n] = ints(r, d, 3); } }
            _ => { let d = k[0].d; let mut e = d; bump(r, &mut e); if n3(e) < 3000 { for x in k.iter_mut() { *x = ints(r, e, 3); } } }
        },
        Cfg::Pool { im, w, st } => match r.below(5) { 0 => bump(r, im), 1 => bump(r, w), 2 => *st = r.range(0, 5), 3 => { *w = [w[1], w[0], w[2]]; } _ => { *im = [65536, 65536, r.range(0, 2)]; *w = [1, 1, 1]; *st = 1; } },
        Cfg::Soft { d } => *d = *r.pick(&[[65536, 65536, 1], [u32::MAX, 2, 1], [65536, 256, 256], [3, u32::MAX, 1], [1 << 31, 2, 0]]),
    }
    c
}
/// too large to run again and again (a dimension can be huge although there are no items)
pub fn huge(c: &Cfg) -> bool {
    let k: D = match c { Cfg::Fc { w, .. } => w.d, Cfg::Conv { k, .. } => k.first().map(|x| x.d).unwrap_or([0; 3]), Cfg::Pool { w, .. } => *w, Cfg::Soft { .. } => [0; 3] };
    [c.ish(), c.osh(), k].iter().any(|d| n3(*d) > 30000 || d.iter().any(|x| *x > 30000))
}
fn usable(a: &mut Any, c: &Cfg, r: &mut Rng, l: &Lits) -> Res {
    if huge(c) { return Ok(()); }
    let x = gen_input(r, l, c);
    let mut o = ints(r, c.osh(), 5).t();
    ck!(a.l().forward(&x.t(), &mut o).is_ok(), "a forward pass with the reported shapes fails");
    c.check_fwd("forward", &x, &o)
}
fn refill_case(kind: usize, r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let c0 = gen_cfg(r, l, kind, false);
    let n0 = name(r);
    let c1 = any_cfg(r, l, kind);
    let n1 = name(r);
    let m = mode(r);
    *s = format!("{} layer {:?} named {:?} in {:?}, refilled with {:?} named {:?}", KINDS[kind], c0, n0, m, c1, n1);
    let mut a = Any::empty(kind);
    a.fill(&c0, &n0).map_err(|e| format!("filling an empty layer: {}", e))?;
    switch(a.l(), m);
    let mut md = Model { g: Model::zero(&c0), c: c0.clone(), name: n0, mode: m, fresh: None };
    if m == NetworkRunState::Training && r.chance(2) { let x = ints(r, c0.ish(), 4); let mut o = R::zero(c0.osh()).t(); a.l().forward(&x.t(), &mut o)?; let mut g = R::zero(c0.ish()).t(); let _ = a.l().backward(&x.t(), &o, &ints(r, c0.osh(), 3).t(), &mut g); }
    if m == NetworkRunState::Training && c1.ok() && huge(&c1) { return Ok(false); }
    let before = snap(&a);
    let e = a.fill(&c1, &n1);
    ck!(e.is_ok() == c1.ok(), "fill_from_state reports {:?}", e);
    if c1.ok() {
        md.c = c1.clone(); md.name = n1; md.g = Model::zero(&c1);
        md.check("after refilling", &a, n3(c1.ish()) < 30000)?;
        usable(&mut a, &c1, r, l)?;
        md.check("after a forward pass", &a, false)?;
    } else { same_snap("after a rejected refill", &a, &before)?; usable(&mut a, &c0, r, l)?; }
    Ok(true)
}
fn new_case(r: &mut Rng, l: &Lits, s: &mut String, kind: usize) -> Result<bool, String> {
    let nm = name(r);
    let (a, c): (Result<Any, &'static str>, Cfg) = match kind {
        0 => { let (i, o) = loop { let q = (dim(r, l, 1000), dim(r, l, 1000)); if q.0 as u64 * q.1 as u64 <= 20000 { break q; } }; *s = format!("FullyConnectedLayer::new({}, {}, {:?})", i, o, nm); (Ok(Any::Fc(FullyConnectedLayer::new(i, o, &nm))), Cfg::Fc { w: R::zero([o.max(1), i.max(1), 1]), b: R::zero([o.max(1), 1, 1]) }) }
        1 => {
            let c = any_cfg(r, l, 1);
            let Cfg::Conv { k, im, st, .. } = &c else { return Ok(false) };
            let kd = if r.chance(15) { [65536, 65536, 1] } else { k.first().map(|x| x.d).unwrap_or([1, 1, 1]) };
            let n = if r.chance(10) { 0 } else { k.len() as u32 };
            *s = format!("ConvolutionalLayer::new({:?}, {:?}, {}, {}, {:?})", kd, im, st, n, nm);
            let a = ConvolutionalLayer::new(sh(kd), sh(*im), *st, n, &nm).map(Any::Conv);
            if !fits(kd) { ck!(a.is_err(), "succeeds"); return Ok(true); }
            (a, Cfg::Conv { k: vec![R::zero(kd); n as usize], b: vec![R::zero([1, 1, 1]); n as usize], im: *im, st: *st })
        }
        2 => { let c = any_cfg(r, l, 2); let Cfg::Pool { im, w, st } = &c else { return Ok(false) }; *s = format!("MaxPoolLayer::new({:?}, {:?}, {}, {:?})", w, im, st, nm); (MaxPoolLayer::new(sh(*w), sh(*im), *st, &nm).map(Any::Pool), c) }
        _ => { let c = any_cfg(r, l, 3); let Cfg::Soft { d } = &c else { return Ok(false) }; *s = format!("SoftmaxLayer::new({:?}, {:?})", d, nm); (SoftmaxLayer::new(sh(*d), &nm).map(Any::Soft), c) }
    };
    ck!(a.is_ok() == c.ok(), "creating reports {:?}", a.err());
    if let Ok(mut a) = a {
        let m = Model { g: Grads::None, c: c.clone(), name: nm, mode: NetworkRunState::Inference, fresh: None };
        m.check("new layer", &a, !huge(&c))?;
        usable(&mut a, &c, r, l)?;
        if !huge(&c) { a.l().switch_to_training(); Model { g: Model::zero(&c), mode: NetworkRunState::Training, ..m }.check("in training", &a, false)?; }
    }
    Ok(true)
}
pub fn c19(cx: &mut Cx) {
    for k in 0..4 { for q in 0..150u64 { cx.case(|s| refill_case(k, &mut Rng::new(q + 1000), &Lits::default(), s)); cx.case(|s| new_case(&mut Rng::new(q + 5000), &Lits::default(), s, k)); } }
    // every small pooling and convolution configuration
    for im in small_dims(4) { for w in small_dims(3) { if im[2] > 1 || w[2] > 1 { continue; } for st in 0..=3 { cx.case(|s| {
        *s = format!("pool and convolution layers: image {:?} window {:?} stride {}", im, w, st);
        let nm = "p".to_string();
        let c = Cfg::Pool { im, w, st };
        let p = MaxPoolLayer::new(sh(w), sh(im), st, &nm);
        ck!(p.is_ok() == c.ok(), "MaxPoolLayer::new accepts: {}", p.is_ok());
        if let Ok(p) = p { ck!(dd(p.get_output_shape()) == c.osh() && dd(p.get_input_shape()) == im, "pool shapes {:?} {:?}", p.get_input_shape(), p.get_output_shape()); }
        let c = Cfg::Conv { k: vec![R::zero(w)], b: vec![R::zero([1, 1, 1])], im, st };
        let p = ConvolutionalLayer::new(sh(w), sh(im), st, 1, &nm);
        ck!(p.is_ok() == c.ok(), "ConvolutionalLayer::new accepts: {}", p.is_ok());
        if let Ok(p) = p { ck!(dd(p.get_output_shape()) == c.osh() && dd(p.get_input_shape()) == im, "convolution shapes {:?} {:?}", p.get_input_shape(), p.get_output_shape()); }
        Ok(c.ok())
    }); } } }
    // a layer that was not filled yet is a layer too (the convolutional one has no kernels)
    cx.case(|s| {
        *s = "empty layers".into();
        fn one<L: Layer>(w: &str, mut l: L) -> Res {
            for train in [false, true] {
                if train { l.switch_to_training(); }
                let (i, o) = (l.get_input_shape(), l.get_output_shape());
                ck!(fits(dd(i.clone())) && fits(dd(o.clone())), "{}: shapes {:?} {:?}", w, i, o);
                let x = Tensor::new(i.clone()); let mut y = Tensor::new(o.clone());
                ck!(l.forward(&x, &mut y).is_ok() && dd(y.get_shape()) == dd(o.clone()), "{}: the forward pass between the reported shapes {:?} {:?} fails", w, i, o);
                let mut big = dd(o.clone()); big[0] += 1;
                ck!(l.forward(&x, &mut Tensor::new(sh(big))).is_err(), "{}: an output of another shape is accepted", w);
                if train { let mut g = Tensor::new(i.clone()); ck!(l.backward(&x, &y, &Tensor::new(o.clone()), &mut g).is_ok(), "{}: the backward pass fails", w); }
            }
            Ok(())
        }
        one("MaxPoolLayer::empty", MaxPoolLayer::empty())?;
        one("FullyConnectedLayer::empty", FullyConnectedLayer::empty())?;
        one("SoftmaxLayer::empty", SoftmaxLayer::empty())?;
        Ok(true)
    });
    cx.case(|s| {
        *s = "sizes beyond 32 bits".into();
        let nm = "big".to_string();
        for (im, ok) in [([65536u32, 65536u32, 1u32], false), ([65535, 65537, 1], true), ([65536, 65535, 1], true), ([65536, 32768, 2], false), ([u32::MAX, 1, 1], true), ([u32::MAX, 1, 2], false), ([1, u32::MAX, 1], true), ([2048, 2048, 1024], false), ([2048, 2048, 1023], true)] {
            ck!(MaxPoolLayer::new(sh([1, 1, 1]), sh(im), 1, &nm).is_ok() == ok, "MaxPoolLayer::new with input shape {:?} accepts: {}", im, !ok);
            ck!(SoftmaxLayer::new(sh(im), &nm).is_ok() == ok, "SoftmaxLayer::new with shape {:?} accepts: {}", im, !ok);
            if im[2] == 1 { ck!(ConvolutionalLayer::new(sh([1, 1, 1]), sh(im), 1, 1, &nm).is_ok() == ok, "ConvolutionalLayer::new with input shape {:?} accepts: {}", im, !ok); }
        }
        for (im, st, ok) in [([65536u32, 65536u32, 1u32], 65535, false), ([65536, 65535, 1], 65535, false), ([65536, 65537, 1], 65535, false), ([65536, 65536, 1], 21845, false), ([65536, 1, 1], 65535, true), ([32769, 32769, 1], 32768, true), ([32769, 32769, 3], 32768, true), ([32769, 32769, 5], 32768, false), ([65537, 65537, 1], 65536, false), ([1 << 31, 1, 1], (1 << 31) - 1, true), ([1 << 31, 1, 2], (1 << 31) - 1, false), ([u32::MAX, u32::MAX, 1], u32::MAX - 1, false), ([u32::MAX, 1, 1], u32::MAX - 1, true)] {
            ck!(MaxPoolLayer::new(sh([1, 1, 1]), sh(im), st, &nm).is_ok() == ok, "MaxPoolLayer::new with input shape {:?} and stride {} accepts: {}", im, st, !ok);
            let mut c = ConvolutionalLayer::new(sh([1, 1, 1]), sh([1, 1, 1]), 1, 1, &nm).unwrap();
            let got = c.fill_from_state(vec![R::zero([1, 1, im[2]]).t()], vec![R::zero([1, 1, 1]).t()], sh(im), st, &"other".to_string()).is_ok();
            ck!(got == ok, "a convolutional layer refilled with input shape {:?} and stride {} accepts: {}", im, st, got);
            ck!(dd(c.get_input_shape()) == if ok { im } else { [1, 1, 1] } && (c.get_name() == "other") == ok, "input shape {:?} and name {}", c.get_input_shape(), c.get_name());
        }
        for (im, ok) in [([65536u32, 65536u32], false), ([65535, 65537], true), ([65537, 65535], true), ([1 << 31, 1], true), ([u32::MAX, 1], true), ([1 << 31, 2], false), ([u32::MAX, 2], false), ([3, u32::MAX], false), ([1, u32::MAX], true), ([1 << 16, 1 << 15], true)] {
            let mut f = FullyConnectedLayer::new(1, 1, &nm);
            let got = f.fill_from_state(R::zero([0, im[0], im[1]]).t(), R::zero([0, 1, im[1]]).t(), &"other".to_string()).is_ok();
            ck!(got == ok, "a fully connected layer with input shape {}x1x{} and no outputs is accepted: {}", im[0], im[1], got);
            let want = if ok { [im[0], 1, im[1]] } else { [1, 1, 1] };
            ck!(dd(f.get_input_shape()) == want && (f.get_name() == "other") == ok, "input shape {:?} and name {}", f.get_input_shape(), f.get_name());
        }
        // the output can be larger than the input when there are many kernels
        ck!(ConvolutionalLayer::new(sh([1, 1, 1]), sh([65535, 65535, 1]), 1, 2, &nm).is_err(), "a layer with an output of more than 2^32 items is accepted");
        Ok(true)
    });
    cx.random(1.0, |r, l, s| { let k = r.below(4) as usize; if r.chance(3) { new_case(r, l, s, k) } else { refill_case(k, r, l, s) } });
}

fn trip(r: &mut Rng, l: &Lits, s: &mut String, kind: usize) -> Result<bool, String> {
    let sp = !r.chance(3);
    let c = gen_cfg(r, l, kind, sp);
    let nm = name(r);
    trip_of(r, l, s, kind, c, nm)
}
/// configurations with sizes, strides, counts and names that need more than 8 or 16 bits
fn wide_cfgs(r: &mut Rng) -> Vec<(usize, Cfg, String)> {
    let nm = |n: usize| "xyz".repeat(n);
    let mut v = vec![
        (0, Cfg::Fc { w: reals(r, [300, 301, 1], 1.0), b: reals(r, [300, 1, 1], 1.0) }, nm(100)),
        (0, Cfg::Fc { w: reals(r, [1, 70001, 1], 1.0), b: reals(r, [1, 1, 1], 1.0) }, nm(30000)),
        (0, Cfg::Fc { w: reals(r, [70001, 1, 1], 1.0), b: reals(r, [70001, 1, 1], 1.0) }, nm(0)),
        (1, Cfg::Conv { k: (0..300).map(|_| reals(r, [2, 3, 1], 1.0)).collect(), b: (0..300).map(|_| reals(r, [1, 1, 1], 1.0)).collect(), im: [4, 6, 1], st: 1 }, nm(100)),
        (2, Cfg::Pool { im: [70001, 1, 2], w: [1, 1, 1], st: 70000 }, nm(30000)),
        (3, Cfg::Soft { d: [300, 1, 1] }, nm(100)),
        (3, Cfg::Soft { d: [1, 70001, 2] }, nm(30000)),
        (3, Cfg::Soft { d: [1, 1, 70001] }, nm(1)),
    ];
    for st in [255, 256, 257, 300, 65535, 65536, 70000] {
        v.push((1, Cfg::Conv { k: vec![reals(r, [1, 1, 1], 1.0)], b: vec![reals(r, [1, 1, 1], 1.0)], im: [st + 1, 1, 1], st }, nm(2)));
        v.push((2, Cfg::Pool { im: [1, st + 1, 1], w: [1, 1, 1], st }, nm(2)));
    }
    v
}
fn trip_of(r: &mut Rng, l: &Lits, s: &mut String, kind: usize, c: Cfg, nm: String) -> Result<bool, String> {
    let (m1, m2) = (mode(r), mode(r));
    *s = format!("{} layer {:?} named {:?} in {:?}", KINDS[kind], c, nm, m1);
    let mut a = Any::empty(kind);
    a.fill(&c, &nm)?;
    switch(a.l(), m1);
    if r.chance(3) { let x = gen_input(r, l, &c); let mut o = R::zero(c.osh()).t(); a.l().forward(&x.t(), &mut o)?; }
    let ser = a.r().get_serialized();
    c.check_serial(&nm, &ser)?;
    // receiver of the same kind, empty or filled with something else
    let mut b = Any::empty(kind);
    let filled = r.chance(2);
    if filled { let c2 = gen_cfg(r, l, kind, false); s.push_str(&format!(" loaded into {:?}", c2)); b.fill(&c2, &name(r))?; }
    if filled || kind != 1 { switch(b.l(), m2); } // an unfilled convolutional layer stays in its initial mode
    let m2 = b.r().get_run_mode();
    s.push_str(&format!(" receiver in {:?}", m2));
    let e = b.l().load_from_serialized(&ser);
    ck!(e.is_ok(), "loading reports {:?}", e);
    Model { g: Model::zero(&c), c: c.clone(), name: nm, mode: m2, fresh: None }.check("loaded layer", &b, true)?;
    ck!(same_serial(&ser, &b.r().get_serialized()), "the loaded layer serializes differently");
    let x = gen_input(r, l, &c);
    let (mut o1, mut o2) = (ints(r, c.osh(), 9).t(), ints(r, c.osh(), 9).t());
    ck!(a.l().forward(&x.t(), &mut o1).is_ok() && b.l().forward(&x.t(), &mut o2).is_ok(), "forward fails");
    expect("forward of the loaded layer", &o2, &read(&o1))?;
    // another kind is refused
    let k2 = (kind + r.range(1, 3) as usize) % 4;
    let c3 = gen_cfg(r, l, k2, false);
    let mut d = Any::empty(k2);
    d.fill(&c3, &name(r))?;
    switch(d.l(), m2);
    let before = snap(&d);
    s.push_str(&format!("; loading it into a {} layer", KINDS[k2]));
    ck!(d.l().load_from_serialized(&ser).is_err(), "a {} layer loads a {} layer", KINDS[k2], KINDS[kind]);
    same_snap("after loading another kind", &d, &before)?;
    usable(&mut d, &c3, r, l)?;
    Ok(true)
}
pub fn c25(cx: &mut Cx) {
    for (n, (k, c, nm)) in wide_cfgs(&mut Rng::new(1)).into_iter().enumerate() { cx.case(|s| trip_of(&mut Rng::new(n as u64), &Lits::default(), s, k, c, nm)); }
    for q in 0..100u64 { for k in 0..4 { cx.case(|s| trip(&mut Rng::new(q + 77), &Lits::default(), s, k)); } }
    cx.random(1.0, |r, l, s| { let k = r.below(4) as usize; trip(r, l, s, k) });
}

// ------------------------------------------------------------------ C27: stored layer data
/// stored entries by name, with a view that the test decodes on its own
pub type Entry = (u8, Option<Vec<u8>>);
pub fn to_entries(s: &SerializedLayer) -> (usize, Vec<Entry>) {
    use rusty_network::layer::{convolutional::ConvolutionalSerialKeys as CK, fully_connected::FullyConnectedSerialKeys as FK, max_pool::MaxPoolSerialKeys as PK, softmax::SoftMaxSerialKeys as SK};
    match s {
        SerializedLayer::SerialFullyConnectedLayer(m) => (0, vec![(0, m.get(&FK::Weights).cloned()), (1, m.get(&FK::Bias).cloned()), (2, m.get(&FK::Name).cloned())]),
        SerializedLayer::SerialConvolutionalLayer(m) => (1, vec![(0, m.get(&CK::Kernels).cloned()), (1, m.get(&CK::Biases).cloned()), (2, m.get(&CK::InputShape).cloned()), (3, m.get(&CK::Stride).cloned()), (4, m.get(&CK::Name).cloned())]),
        SerializedLayer::SerialMaxPoolLayer(m) => (2, vec![(0, m.get(&PK::InputShape).cloned()), (1, m.get(&PK::MaskShape).cloned()), (2, m.get(&PK::Stride).cloned()), (3, m.get(&PK::Name).cloned())]),
        SerializedLayer::SerialSoftMaxLayer(m) => (3, vec![(0, m.get(&SK::Shape).cloned()), (1, m.get(&SK::Name).cloned())]),
    }
}
pub fn from_entries(kind: usize, e: &[Entry]) -> SerializedLayer {
    use rusty_network::layer::{convolutional::ConvolutionalSerialKeys as CK, fully_connected::FullyConnectedSerialKeys as FK, max_pool::MaxPoolSerialKeys as PK, softmax::SoftMaxSerialKeys as SK};
    let it = e.iter().filter_map(|(n, v)| v.clone().map(|v| (*n, v)));
    match kind {
        0 => SerializedLayer::SerialFullyConnectedLayer(it.map(|(n, v)| (match n { 0 => FK::Weights, 1 => FK::Bias, _ => FK::Name }, v)).collect()),
        1 => SerializedLayer::SerialConvolutionalLayer(it.map(|(n, v)| (match n { 0 => CK::Kernels, 1 => CK::Biases, 2 => CK::InputShape, 3 => CK::Stride, _ => CK::Name }, v)).collect()),
        2 => SerializedLayer::SerialMaxPoolLayer(it.map(|(n, v)| (match n { 0 => PK::InputShape, 1 => PK::MaskShape, 2 => PK::Stride, _ => PK::Name }, v)).collect()),
        _ => SerializedLayer::SerialSoftMaxLayer(it.map(|(n, v)| (match n { 0 => SK::Shape, _ => SK::Name }, v)).collect()),
    }
}
pub type RawT = (D, D, Vec<f32>);
pub fn tensor_of(x: RawT) -> Option<R> { let (st, d, v) = x; if fits(d) && st == [1, d[0], (d[0] as u64 * d[1] as u64) as u32] && v.len() as u64 == n3(d) { Some(R { d, v }) } else { None } }
/// what the stored entries describe, if they are complete, decodable and consistent
pub fn decode(kind: usize, e: &[Entry]) -> Option<(Cfg, String)> {
    fn de<T: for<'a> serde::Deserialize<'a>>(e: &[Entry], n: usize) -> Option<T> { bincode::deserialize(e[n].1.as_ref()?).ok() }
    let (c, n) = match kind {
        0 => (Cfg::Fc { w: tensor_of(de(e, 0)?)?, b: tensor_of(de(e, 1)?)? }, de(e, 2)?),
        1 => { let k: Vec<RawT> = de(e, 0)?; let b: Vec<RawT> = de(e, 1)?; (Cfg::Conv { k: k.into_iter().map(tensor_of).collect::<Option<_>>()?, b: b.into_iter().map(tensor_of).collect::<Option<_>>()?, im: de(e, 2)?, st: de(e, 3)? }, de(e, 4)?) }
        2 => (Cfg::Pool { im: de(e, 0)?, w: de(e, 1)?, st: de(e, 2)? }, de(e, 3)?),
        _ => (Cfg::Soft { d: de(e, 0)? }, de(e, 1)?),
    };
    if c.ok() { Some((c, n)) } else { None }
}
fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(7) {
        0 => { let n = r.below(v.len() as u64 + 1) as usize; v.truncate(n); }
        1 => { if !v.is_empty() { let n = r.below(v.len() as u64) as usize; v[n] ^= 1 << r.below(8); } }
        2 => { if v.len() >= 4 { let n = r.below(v.len() as u64 / 4) as usize * 4; let x = match r.below(6) { 0 => 0, 1 => u32::MAX, 2 => 1 << 31, 3 => 65536, 4 => r.next() as u32, _ => r.range(0, 5) }; v[n..n + 4].copy_from_slice(&x.to_le_bytes()); } }
        3 => { v.pop(); }
        4 => { let n = r.range(1, 9); for _ in 0..n { v.push(r.next() as u8); } }
        5 => { *v = (0..r.range(0, 40)).map(|_| r.next() as u8).collect(); }
        _ => { // change one of the first words by one (shapes and strides are stored first)
            if v.len() >= 4 { let n = r.below((v.len() as u64 / 4).min(10)) as usize * 4; let x = u32::from_le_bytes(v[n..n + 4].try_into().unwrap()); let y = if r.chance(2) { x.wrapping_add(1) } else { x.wrapping_sub(1) }; v[n..n + 4].copy_from_slice(&y.to_le_bytes()); } }
    }
}
pub fn corrupt(r: &mut Rng, l: &Lits, s: &mut String, kind: usize) -> (usize, Vec<Entry>) {
    let c = gen_cfg(r, l, kind, false);
    let mut a = Any::empty(kind);
    let _ = a.fill(&c, &name(r));
    let (k, mut e) = to_entries(&a.r().get_serialized());
    s.push_str(&format!("stored {} layer {:?}, ", KINDS[kind], c));
    let times = if r.chance(4) { 2 } else { 1 };
    for _ in 0..times {
        let n = r.below(e.len() as u64) as usize;
        match r.below(9) {
            0 => { e[n].1 = None; s.push_str(&format!("entry {} removed ", n)); }
            1 => { // an entry of another consistent layer
                let mut b = Any::empty(kind); let _ = b.fill(&gen_cfg(r, l, kind, false), &name(r)); e[n] = to_entries(&b.r().get_serialized()).1[n].clone(); s.push_str(&format!("entry {} taken from another layer ", n)); }
            2 => { let m = r.below(e.len() as u64) as usize; e[n].1 = e[m].1.clone(); s.push_str(&format!("entry {} replaced by entry {} ", n, m)); }
            3 => { // a well-formed entry with chosen values
                let d = |r: &mut Rng| -> D { let f = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => u32::MAX, 2 => 65536, _ => r.range(0, 4) }; [f(r), f(r), f(r)] };
                let x: Vec<u8> = if (kind == 2 && n == 2) || (kind == 1 && n == 3) { bincode::serialize(&r.range(0, 5)).unwrap() }
                    else if (kind == 2 && n < 2) || (kind == 1 && n == 2) || (kind == 3 && n == 0) { bincode::serialize(&d(r)).unwrap() }
                    else if kind < 2 && n < 2 { let q = [r.range(0, 3), r.range(0, 3), r.range(0, 3)]; let t: RawT = ([1, if r.chance(5) { q[1] } else { q[0] }, q[0] * q[1]], q, vec![1.0; n3(q) as usize + if r.chance(5) { 1 } else { 0 }]); if kind == 0 { bincode::serialize(&t).unwrap() } else { let z = r.range(0, 3) as usize; bincode::serialize(&vec![t; z]).unwrap() } }
                    else { bincode::serialize(&name(r)).unwrap() };
                s.push_str(&format!("entry {} replaced by {:?} ", n, &x[..x.len().min(60)])); e[n].1 = Some(x); }
            _ => if let Some(v) = &mut e[n].1 { mutate(r, v); s.push_str(&format!("entry {} changed to {:?} ", n, &v[..v.len().min(60)])); },
        }
    }
    (k, e)
}
pub fn stored_layer(r: &mut Rng, l: &Lits, s: &mut String) -> Result<bool, String> {
    let kind = r.below(4) as usize;
    let (k, e) = corrupt(r, l, s, kind);
    let want = decode(k, &e);
    let big = want.as_ref().map(|(c, _)| huge(c)).unwrap_or(false);
    // receiver: sometimes filled and in training mode
    let mut b = Any::empty(k);
    let filled = r.chance(2);
    let c0 = gen_cfg(r, l, k, false);
    if filled { b.fill(&c0, &name(r))?; if !big { switch(b.l(), mode(r)); } }
    let m = b.r().get_run_mode();
    let before = snap(&b);
    let res = b.l().load_from_serialized(&from_entries(k, &e));
    match want {
        None => { ck!(res.is_err(), "inconsistent or undecodable data is loaded"); same_snap("after a failed load", &b, &before)?; if filled { usable(&mut b, &c0, r, l)?; } }
        Some((c, n)) => {
            ck!(res.is_ok(), "consistent data is reported as {:?}", res);
            if !big { Model { g: Model::zero(&c), c: c.clone(), name: n, mode: m, fresh: None }.check("loaded layer", &b, true)?; usable(&mut b, &c, r, l)?; if m == NetworkRunState::Inference { b.l().switch_to_training(); usable(&mut b, &c, r, l)?; } else { let x = ints(r, c.ish(), 3); let mut o = R::zero(c.osh()).t(); b.l().forward(&x.t(), &mut o)?; let mut g = R::zero(c.ish()).t(); let _ = b.l().backward(&x.t(), &o, &ints(r, c.osh(), 3).t(), &mut g); } }
        }
    }
    Ok(true)
}
