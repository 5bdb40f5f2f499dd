pub mod lspec {
use vstd::prelude::*;
use crate::vspec::*;
pub use crate::sspec::{enc, dec};
use crate::tensor::Tensor;
use crate::tensor::helper::*;
use crate::network::*;
use crate::layer::*;
use crate::layer::fully_connected::*;
use crate::layer::convolutional::*;
use crate::layer::max_pool::*;
use crate::layer::softmax::*;

// ---------------------------------------------------------------- what a layer is: configuration and training state
pub enum LKind { Dense { w: Tensor, b: Tensor }, Conv { ks: Seq<Tensor>, bs: Seq<Tensor>, s: u32 }, Pool { mask: TensorShape, s: u32 }, Soft }
pub struct LCfg { pub name: Seq<char>, pub ish: TensorShape, pub osh: TensorShape, pub kind: LKind }
#[allow(inconsistent_fields)]
pub enum LAux { Dense { wg: Tensor, bg: Tensor, mask: Tensor }, Conv { kg: Seq<Tensor>, bg: Seq<Tensor>, mask: Tensor }, Pool { origin: Seq<u32> }, Soft }

pub open spec fn tag(k: LKind) -> int { match k { LKind::Dense { .. } => 0, LKind::Conv { .. } => 1, LKind::Pool { .. } => 2, LKind::Soft => 3 } }
pub open spec fn mk_dense(name: Seq<char>, w: Tensor, b: Tensor) -> LCfg { LCfg { name, ish: sh(w.shape.dj, 1, w.shape.dk), osh: b.shape, kind: LKind::Dense { w, b } } }
pub open spec fn win_out(ish: TensorShape, m: TensorShape, s: u32, d: u32) -> TensorShape { sh(outdim(ish.di as int, m.di as int, s as int) as u32, outdim(ish.dj as int, m.dj as int, s as int) as u32, d) }
pub open spec fn mk_conv(name: Seq<char>, ks: Seq<Tensor>, bs: Seq<Tensor>, ish: TensorShape, s: u32) -> LCfg {
    LCfg { name, ish, osh: win_out(ish, ks[0].shape, s, ks.len() as u32), kind: LKind::Conv { ks, bs, s } } }
pub open spec fn mk_pool(name: Seq<char>, ish: TensorShape, mask: TensorShape, s: u32) -> LCfg { LCfg { name, ish, osh: win_out(ish, mask, s, ish.dk), kind: LKind::Pool { mask, s } } }
pub open spec fn mk_soft(name: Seq<char>, shape: TensorShape) -> LCfg { LCfg { name, ish: shape, osh: shape, kind: LKind::Soft } }
pub open spec fn all_wf(t: Seq<Tensor>) -> bool { forall|n: int| 0 <= n < t.len() ==> (#[trigger] t[n]).wf() }
// exactly the consistent configurations
pub open spec fn cfg_ok(c: LCfg) -> bool {
    shape_ok(c.ish) && shape_ok(c.osh) && match c.kind {
        LKind::Dense { w, b } => w.wf() && b.wf() && w.shape.di == b.shape.di && w.shape.dk == b.shape.dk && b.shape.dj == 1 && c.ish == sh(w.shape.dj, 1, w.shape.dk) && c.osh == b.shape,
        LKind::Conv { ks, bs, s } => 1 <= ks.len() <= u32::MAX && bs.len() == ks.len() && all_wf(ks) && all_wf(bs)
            && (forall|n: int| 0 <= n < ks.len() ==> (#[trigger] ks[n]).shape == ks[0].shape) && (forall|n: int| 0 <= n < bs.len() ==> (#[trigger] bs[n]).shape == sh(1, 1, 1))
            && ks[0].shape.dk == c.ish.dk && win_fit(c.ish, ks[0].shape, s) && c.osh == win_out(c.ish, ks[0].shape, s, ks.len() as u32),
        LKind::Pool { mask, s } => win_fit(c.ish, mask, s) && c.osh == win_out(c.ish, mask, s, c.ish.dk),
        LKind::Soft => c.osh == c.ish,
    } }
pub open spec fn zero_like(t: Tensor, shape: TensorShape) -> bool { t.wf() && t.shape == shape && t.all_is(0.0f32) }
pub open spec fn sized(t: Tensor, shape: TensorShape) -> bool { t.wf() && t.shape == shape }
// training buffers fit the configuration
pub open spec fn aux_ok(c: LCfg, a: LAux) -> bool {
    match c.kind {
        LKind::Dense { w, b } => a matches LAux::Dense { wg, bg, mask } && sized(wg, w.shape) && sized(bg, b.shape) && sized(mask, c.osh),
        LKind::Conv { ks, bs, s } => a matches LAux::Conv { kg, bg, mask } && kg.len() == ks.len() && bg.len() == ks.len() && sized(mask, c.osh)
            && (forall|n: int| 0 <= n < kg.len() ==> sized(#[trigger] kg[n], ks[n].shape)) && (forall|n: int| 0 <= n < bg.len() ==> sized(#[trigger] bg[n], sh(1, 1, 1))),
        LKind::Pool { mask, s } => a matches LAux::Pool { origin } && origin.len() == items(c.osh) && (forall|n: int| 0 <= n < origin.len() ==> #[trigger] origin[n] < items(c.ish)),
        LKind::Soft => a is Soft,
    } }
// all accumulated gradients are zero
pub open spec fn zeroed(a: LAux) -> bool {
    match a {
        LAux::Dense { wg, bg, mask } => wg.all_is(0.0f32) && bg.all_is(0.0f32),
        LAux::Conv { kg, bg, mask } => (forall|n: int| 0 <= n < kg.len() ==> (#[trigger] kg[n]).all_is(0.0f32)) && (forall|n: int| 0 <= n < bg.len() ==> (#[trigger] bg[n]).all_is(0.0f32)),
        _ => true,
    } }

// ---------------------------------------------------------------- forward
pub open spec fn rect(mode: NetworkRunState, v: f32) -> f32 { match mode { NetworkRunState::Inference => fmax(v, 0.0f32), NetworkRunState::Training => relu(v) } }
pub open spec fn step(v: f32) -> f32 { if fgt(v, 0.0f32) { 1.0f32 } else { 0.0f32 } }
pub open spec fn dense_pre(w: Tensor, b: Tensor, x: Tensor, i: int, j: int, k: int) -> f32 { fadd(mm_sum(w, x, i, j, k, w.shape.dj as int), b.at(i, j, k)) }
pub open spec fn conv_pre(ks: Seq<Tensor>, bs: Seq<Tensor>, s: u32, x: Tensor, i: int, j: int, k: int) -> f32 { fadd(conv_at(x, ks[k], s as int, i, j), bias_val(bs[k])) }
// y is the layer's result on x
pub open spec fn fwd(c: LCfg, mode: NetworkRunState, x: Tensor, y: Tensor) -> bool {
    match c.kind {
        LKind::Dense { w, b } => forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> y.data@[#[trigger] lin(c.osh, i, j, k)] == rect(mode, dense_pre(w, b, x, i, j, k)),
        LKind::Conv { ks, bs, s } => forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> y.data@[#[trigger] lin(c.osh, i, j, k)] == rect(mode, conv_pre(ks, bs, s, x, i, j, k)),
        LKind::Pool { mask, s } => forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> wmax(x, mask, s as int, i, j, k, y.data@[#[trigger] lin(c.osh, i, j, k)]),
        LKind::Soft => softmax_of(x.data@, y.data@) && (finite(x.data@) ==> forall|n: int| 0 <= n < y.data@.len() ==> funit(#[trigger] y.data@[n])),
    } }
// what a forward pass remembers for the backward pass
pub open spec fn fwd_aux(c: LCfg, mode: NetworkRunState, x: Tensor, y: Tensor, a0: LAux, a1: LAux) -> bool {
    match mode {
        NetworkRunState::Inference => a1 == a0,
        NetworkRunState::Training => match (c.kind, a0, a1) {
            (LKind::Dense { w, b }, LAux::Dense { wg, bg, mask }, LAux::Dense { wg: wg1, bg: bg1, mask: mask1 }) => wg1 == wg && bg1 == bg
                && forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> mask1.data@[#[trigger] lin(c.osh, i, j, k)] == step(dense_pre(w, b, x, i, j, k)),
            (LKind::Conv { ks, bs, s }, LAux::Conv { kg, bg, mask }, LAux::Conv { kg: kg1, bg: bg1, mask: mask1 }) => kg1 == kg && bg1 == bg
                && forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> mask1.data@[#[trigger] lin(c.osh, i, j, k)] == step(conv_pre(ks, bs, s, x, i, j, k)),
            (LKind::Pool { mask, s }, LAux::Pool { origin }, LAux::Pool { origin: o1 }) =>
                forall|i: int, j: int, k: int| inr(c.osh, i, j, k) ==> worigin(x, mask, s as int, i, j, k, y.data@[lin(c.osh, i, j, k)], o1[#[trigger] lin(c.osh, i, j, k)] as int),
            (LKind::Soft, LAux::Soft, LAux::Soft) => true,
            _ => false,
        },
    } }

// ---------------------------------------------------------------- backward
pub open spec fn bwd_ok(c: LCfg, mode: NetworkRunState, x: TensorShape, y: TensorShape, g: TensorShape, og: TensorShape) -> bool {
    mode == NetworkRunState::Training && g == c.osh && og == c.ish && match c.kind {
        LKind::Dense { .. } | LKind::Conv { .. } => x == c.ish,
        LKind::Pool { .. } => true,
        LKind::Soft => y == c.osh && c.osh.dj == 1 && c.osh.dk == 1,
    } }
pub open spec fn dense_bwd(w: Tensor, x: Tensor, d: Tensor, og: Tensor, wg0: Tensor, bg0: Tensor, wg1: Tensor, bg1: Tensor) -> bool {
    &&& forall|n: int| 0 <= n < bg1.data@.len() ==> #[trigger] bg1.data@[n] == fadd(bg0.data@[n], d.data@[n])
    &&& forall|i: int, j: int, k: int| inr(wg1.shape, i, j, k) ==> wg1.data@[#[trigger] lin(wg1.shape, i, j, k)] == fadd(wg0.at(i, j, k), mt2_sum(d, x, i, j, k, d.shape.dj as int))
    &&& forall|i: int, j: int, k: int| inr(og.shape, i, j, k) ==> og.data@[#[trigger] lin(og.shape, i, j, k)] == mt1_sum(w, d, i, j, k, w.shape.di as int)
}
pub open spec fn bs_i(d: Tensor, ch: int, j: int, n: int, acc: f32) -> f32 decreases n { if n <= 0 { acc } else { fadd(bs_i(d, ch, j, n - 1, acc), d.at(n - 1, j, ch)) } }
pub open spec fn bs_j(d: Tensor, ch: int, n: int) -> f32 decreases n { if n <= 0 { 0.0f32 } else { bs_i(d, ch, n - 1, d.shape.di as int, bs_j(d, ch, n - 1)) } }
pub open spec fn conv_bwd(ks: Seq<Tensor>, s: u32, x: Tensor, d: Tensor, og: Tensor, kg: Seq<Tensor>, bg: Seq<Tensor>) -> bool {
    &&& forall|n: int| 0 <= n < bg.len() ==> (#[trigger] bg[n]).all_is(bs_j(d, n, d.shape.dj as int))
    &&& forall|n: int| 0 <= n < kg.len() ==> kgrad(d, x, s, n, #[trigger] kg[n])
    &&& forall|i: int, j: int, k: int| inr(og.shape, i, j, k) ==> og.data@[#[trigger] lin(og.shape, i, j, k)] == bo_at(d, ks, s as int, i, j, k)
}
pub open spec fn kgrad(d: Tensor, x: Tensor, s: u32, n: int, kg: Tensor) -> bool { forall|i: int, j: int, k: int| inr(kg.shape, i, j, k) ==> kg.data@[#[trigger] lin(kg.shape, i, j, k)] == kg_at(d, x, s as int, n, i, j, k) }
pub open spec fn soft_dot(y: Tensor, g: Tensor) -> f32 { mt1_sum(y, g, 0, 0, 0, y.shape.di as int) }
pub open spec fn soft_bwd_at(y: Tensor, g: Tensor, i: int) -> f32 { fadd(fmul(y.at(i, 0, 0), g.at(i, 0, 0)), fadd(0.0f32, fmul(y.at(i, 0, 0), fmul(soft_dot(y, g), -1.0f32)))) }
pub open spec fn bwd(c: LCfg, a0: LAux, x: Tensor, y: Tensor, g: Tensor, og: Tensor, a1: LAux) -> bool {
    match (c.kind, a0, a1) {
        (LKind::Dense { w, b }, LAux::Dense { wg, bg, mask }, LAux::Dense { wg: wg1, bg: bg1, mask: mask1 }) => exists|d: Tensor| #[trigger] masked(d, mask, g) && dense_bwd(w, x, d, og, wg, bg, wg1, bg1),
        (LKind::Conv { ks, bs, s }, LAux::Conv { kg, bg, mask }, LAux::Conv { kg: kg1, bg: bg1, mask: mask1 }) => exists|d: Tensor| #[trigger] masked(d, mask, g) && conv_bwd(ks, s, x, d, og, kg1, bg1),
        (LKind::Pool { mask, s }, LAux::Pool { origin }, LAux::Pool { origin: o1 }) => og.data@ == scat(konst(items(c.ish), 0.0f32), g.data@, origin, origin.len() as int),
        (LKind::Soft, LAux::Soft, LAux::Soft) => forall|i: int| 0 <= i < c.osh.di ==> og.data@[#[trigger] lin(c.osh, i, 0, 0)] == soft_bwd_at(y, g, i),
        _ => false,
    } }

// ---------------------------------------------------------------- serialized layers
pub open spec fn decode(sl: SerializedLayer) -> Option<LCfg> {
    match sl {
        SerializedLayer::SerialFullyConnectedLayer(m) => {
            if m@.contains_key(FullyConnectedSerialKeys::Weights) && m@.contains_key(FullyConnectedSerialKeys::Bias) && m@.contains_key(FullyConnectedSerialKeys::Name)
            && dec::<Tensor>(m@[FullyConnectedSerialKeys::Weights]@) is Some && dec::<Tensor>(m@[FullyConnectedSerialKeys::Bias]@) is Some && dec::<String>(m@[FullyConnectedSerialKeys::Name]@) is Some {
                let c = mk_dense(dec::<String>(m@[FullyConnectedSerialKeys::Name]@)->0@, dec::<Tensor>(m@[FullyConnectedSerialKeys::Weights]@)->0, dec::<Tensor>(m@[FullyConnectedSerialKeys::Bias]@)->0);
                if cfg_ok(c) { Some(c) } else { None }
            } else { None } },
        SerializedLayer::SerialConvolutionalLayer(m) => {
            if m@.contains_key(ConvolutionalSerialKeys::Kernels) && m@.contains_key(ConvolutionalSerialKeys::Biases) && m@.contains_key(ConvolutionalSerialKeys::InputShape) && m@.contains_key(ConvolutionalSerialKeys::Stride) && m@.contains_key(ConvolutionalSerialKeys::Name)
            && dec::<Vec<Tensor>>(m@[ConvolutionalSerialKeys::Kernels]@) is Some && dec::<Vec<Tensor>>(m@[ConvolutionalSerialKeys::Biases]@) is Some && dec::<TensorShape>(m@[ConvolutionalSerialKeys::InputShape]@) is Some && dec::<u32>(m@[ConvolutionalSerialKeys::Stride]@) is Some && dec::<String>(m@[ConvolutionalSerialKeys::Name]@) is Some {
                let c = mk_conv(dec::<String>(m@[ConvolutionalSerialKeys::Name]@)->0@, dec::<Vec<Tensor>>(m@[ConvolutionalSerialKeys::Kernels]@)->0@, dec::<Vec<Tensor>>(m@[ConvolutionalSerialKeys::Biases]@)->0@, dec::<TensorShape>(m@[ConvolutionalSerialKeys::InputShape]@)->0, dec::<u32>(m@[ConvolutionalSerialKeys::Stride]@)->0);
                if cfg_ok(c) { Some(c) } else { None }
            } else { None } },
        SerializedLayer::SerialMaxPoolLayer(m) => {
            if m@.contains_key(MaxPoolSerialKeys::InputShape) && m@.contains_key(MaxPoolSerialKeys::MaskShape) && m@.contains_key(MaxPoolSerialKeys::Stride) && m@.contains_key(MaxPoolSerialKeys::Name)
            && dec::<TensorShape>(m@[MaxPoolSerialKeys::InputShape]@) is Some && dec::<TensorShape>(m@[MaxPoolSerialKeys::MaskShape]@) is Some && dec::<u32>(m@[MaxPoolSerialKeys::Stride]@) is Some && dec::<String>(m@[MaxPoolSerialKeys::Name]@) is Some {
                let c = mk_pool(dec::<String>(m@[MaxPoolSerialKeys::Name]@)->0@, dec::<TensorShape>(m@[MaxPoolSerialKeys::InputShape]@)->0, dec::<TensorShape>(m@[MaxPoolSerialKeys::MaskShape]@)->0, dec::<u32>(m@[MaxPoolSerialKeys::Stride]@)->0);
                if cfg_ok(c) { Some(c) } else { None }
            } else { None } },
        SerializedLayer::SerialSoftMaxLayer(m) => {
            if m@.contains_key(SoftMaxSerialKeys::Shape) && m@.contains_key(SoftMaxSerialKeys::Name)
            && dec::<TensorShape>(m@[SoftMaxSerialKeys::Shape]@) is Some && dec::<String>(m@[SoftMaxSerialKeys::Name]@) is Some {
                let c = mk_soft(dec::<String>(m@[SoftMaxSerialKeys::Name]@)->0@, dec::<TensorShape>(m@[SoftMaxSerialKeys::Shape]@)->0);
                if cfg_ok(c) { Some(c) } else { None }
            } else { None } },
    } }
pub open spec fn stag(sl: SerializedLayer) -> int { match sl { SerializedLayer::SerialFullyConnectedLayer(_) => 0, SerializedLayer::SerialConvolutionalLayer(_) => 1, SerializedLayer::SerialMaxPoolLayer(_) => 2, SerializedLayer::SerialSoftMaxLayer(_) => 3 } }
pub open spec fn same_all(a: Seq<Tensor>, b: Seq<Tensor>) -> bool { a.len() == b.len() && forall|n: int| 0 <= n < a.len() ==> (#[trigger] a[n]).same(b[n]) }
// same configuration, bit-identical parameters
pub open spec fn cfg_same(a: LCfg, b: LCfg) -> bool {
    a.name == b.name && a.ish == b.ish && a.osh == b.osh && match (a.kind, b.kind) {
        (LKind::Dense { w, b }, LKind::Dense { w: w2, b: b2 }) => w.same(w2) && b.same(b2),
        (LKind::Conv { ks, bs, s }, LKind::Conv { ks: ks2, bs: bs2, s: s2 }) => same_all(ks, ks2) && same_all(bs, bs2) && s == s2,
        (LKind::Pool { mask, s }, LKind::Pool { mask: m2, s: s2 }) => mask == m2 && s == s2,
        (LKind::Soft, LKind::Soft) => true,
        _ => false,
    } }

// ---------------------------------------------------------------- the concrete layers
impl FullyConnectedLayer {
    pub open spec fn c(&self) -> LCfg { mk_dense(self.name@, self.weights, self.bias) }
    pub open spec fn a(&self) -> LAux { LAux::Dense { wg: self.weights_gradients, bg: self.bias_gradients, mask: self.relu_mask } }
    pub open spec fn ok(&self) -> bool { cfg_ok(self.c()) && (self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()) && sized(self.weights_gradients_intermediate, self.weights.shape)) }
}
impl ConvolutionalLayer {
    pub open spec fn c(&self) -> LCfg { LCfg { name: self.name@, ish: self.input_shape, osh: self.output_shape, kind: LKind::Conv { ks: self.kernels@, bs: self.biases@, s: self.stride } } }
    pub open spec fn a(&self) -> LAux { LAux::Conv { kg: self.kernel_gradients@, bg: self.bias_gradients@, mask: self.relu_mask } }
    pub open spec fn ok(&self) -> bool { cfg_ok(self.c()) && (self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a())) }
}
impl MaxPoolLayer {
    pub open spec fn c(&self) -> LCfg { LCfg { name: self.name@, ish: self.input_shape, osh: self.output_shape, kind: LKind::Pool { mask: self.mask_shape, s: self.stride } } }
    pub open spec fn a(&self) -> LAux { LAux::Pool { origin: self.max_pool_origin@ } }
    pub open spec fn ok(&self) -> bool { cfg_ok(self.c()) && (self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a())) }
}
impl SoftmaxLayer {
    pub open spec fn c(&self) -> LCfg { mk_soft(self.name@, self.shape) }
    pub open spec fn a(&self) -> LAux { LAux::Soft }
    pub open spec fn ok(&self) -> bool { cfg_ok(self.c()) && (self.run_state == NetworkRunState::Training ==> sized(self.intermediate1, sh(1, 1, 1)) && sized(self.intermediate2, self.shape)) }
}
pub proof fn lem_out_ok(ish: TensorShape, m: TensorShape, s: u32)
    requires shape_ok(ish), win_fit(ish, m, s)
    ensures shape_ok(win_out(ish, m, s, ish.dk)), items(win_out(ish, m, s, ish.dk)) > 0 ==> items(ish) > 0,
      outdim(ish.di as int, m.di as int, s as int) <= ish.di, outdim(ish.dj as int, m.dj as int, s as int) <= ish.dj, win_out(ish, m, s, ish.dk).di > 0, win_out(ish, m, s, ish.dk).dj > 0
{
    lem_out(ish.di as int, m.di as int, s as int); lem_out(ish.dj as int, m.dj as int, s as int);
    let o = win_out(ish, m, s, ish.dk);
    let (a, b, c, d, e) = (o.di as int, o.dj as int, ish.di as int, ish.dj as int, ish.dk as int);
    assert(a * b <= c * d) by(nonlinear_arith) requires 0 <= a <= c, 0 <= b <= d;
    assert(0 <= a * b) by(nonlinear_arith) requires 0 <= a, 0 <= b;
    assert((a * b) * e <= (c * d) * e) by(nonlinear_arith) requires 0 <= a * b <= c * d, 0 <= e;
}
// recorded origins are positions of the input
pub proof fn lem_origin(im: Tensor, m: TensorShape, s: u32, osh: TensorShape, y: Seq<f32>, o: Seq<u32>)
    requires win_fit(im.shape, m, s), shape_ok(im.shape), osh == win_out(im.shape, m, s, im.shape.dk), o.len() == items(osh),
      forall|a: int, b: int, c: int| inr(osh, a, b, c) ==> worigin(im, m, s as int, a, b, c, y[#[trigger] lin(osh, a, b, c)], o[lin(osh, a, b, c)] as int)
    ensures forall|n: int| 0 <= n < o.len() ==> #[trigger] o[n] < items(im.shape)
{
    lem_out_ok(im.shape, m, s);
    assert forall|n: int| 0 <= n < o.len() implies #[trigger] o[n] < items(im.shape) by {
        lem_surj(osh, n);
        let (i, j, k) = choose|i: int, j: int, k: int| inr(osh, i, j, k) && lin(osh, i, j, k) == n;
        assert(worigin(im, m, s as int, i, j, k, y[lin(osh, i, j, k)], o[lin(osh, i, j, k)] as int));
        let (a, b) = choose|a: int, b: int| #[trigger] win_in(m, a, b) && (wbefore(a, b, 0, m.dj as int) || (a == 0 && b == 0)) && o[n] as int == lin(im.shape, i * (s as int) + a, j * (s as int) + b, k)
            && (fgt(y[n], ninf()) ==> win_at(im, s as int, i, j, k, a, b) == y[n] && (forall|c: int, d: int| win_in(m, c, d) && wbefore(c, d, a, b) ==> fnan(#[trigger] win_at(im, s as int, i, j, k, c, d)) || fgt(y[n], win_at(im, s as int, i, j, k, c, d))));
        lem_win(im.shape.di as int, m.di as int, s as int, i, a); lem_win(im.shape.dj as int, m.dj as int, s as int, j, b);
        assert(inr(im.shape, i * (s as int) + a, j * (s as int) + b, k));
        lem_lin1(im.shape, i * (s as int) + a, j * (s as int) + b, k);
    }
}
}
