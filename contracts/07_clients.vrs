// Client programs: small uses of the crate across several calls.  They are verified against the
// callees' contracts only, so each one states what a property means over a whole history.
pub mod clients {
use vstd::prelude::*;
use crate::vspec::*;
use crate::lspec::*;
use crate::nspec::*;
use crate::sspec::*;
use crate::lemmas::*;
use crate::tensor::Tensor;
use crate::tensor::helper::*;
use crate::network::*;
use crate::layer::*;
use crate::layer::fully_connected::*;
use crate::layer::convolutional::*;
use crate::layer::max_pool::*;
use crate::layer::softmax::*;
broadcast use {crate::fax::fl};

pub open spec fn pos(x: TensorIndex, s: TensorShape) -> bool { inr(s, x.i as int, x.j as int, x.k as int) }
pub open spec fn item(t: Tensor, x: TensorIndex) -> f32 { t.at(x.i as int, x.j as int, x.k as int) }
// what was written is read back at its position and nowhere else
pub fn c01_write_read(t: &mut Tensor, p: &TensorIndex, v: f32, q: &TensorIndex) -> (r: f32)
    requires old(t).wf(), pos(*p, old(t).shape)
    ensures final(t).wf(), r == if !pos(*q, old(t).shape) { 0.0f32 } else if p.i == q.i && p.j == q.j && p.k == q.k { v } else { item(*old(t), *q) }
{ t.set_item(p, v); t.get_item(q) }
pub fn c01_out_of_range(t: &mut Tensor, p: &TensorIndex, v: f32) -> (r: f32)
    requires old(t).wf(), !pos(*p, old(t).shape)
    ensures r == 0.0f32, final(t).same(*old(t))
{ t.set_item(p, v); t.get_item(p) }
// writing every position once, in any order of the loops, gives exactly the written items
pub fn c01_write_all(t: &mut Tensor, v: &Vec<f32>)
    requires old(t).wf(), v@.len() == old(t).data@.len()
    ensures final(t).same_frame(*old(t)), forall|i: int, j: int, k: int| inr(old(t).shape, i, j, k) ==> #[trigger] final(t).at(i, j, k) == v@[lin(old(t).shape, i, j, k)]
{
    proof { lem_lin(t.shape); lem_inj(t.shape); }
    let s = t.get_shape();
    for k in 0..s.dk
        invariant t.wf(), t.same_frame(*old(t)), s == old(t).shape, v@.len() == old(t).data@.len(), forall|a: int, b: int, c: int| inr(s, a, b, c) ==> 0 <= #[trigger] lin(s, a, b, c) < items(s),
          forall|a: int, b: int, c: int| inr(s, a, b, c) && before(a, b, c, 0, 0, k as int) ==> t.data@[#[trigger] lin(s, a, b, c)] == v@[lin(s, a, b, c)],
    {
        for j in 0..s.dj
            invariant k < s.dk, t.wf(), t.same_frame(*old(t)), s == old(t).shape, v@.len() == old(t).data@.len(), forall|a: int, b: int, c: int| inr(s, a, b, c) ==> 0 <= #[trigger] lin(s, a, b, c) < items(s),
              forall|a: int, b: int, c: int| inr(s, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> t.data@[#[trigger] lin(s, a, b, c)] == v@[lin(s, a, b, c)],
        {
            for i in 0..s.di
                invariant k < s.dk, j < s.dj, t.wf(), t.same_frame(*old(t)), s == old(t).shape, v@.len() == old(t).data@.len(), forall|a: int, b: int, c: int| inr(s, a, b, c) ==> 0 <= #[trigger] lin(s, a, b, c) < items(s),
                  forall|a: int, b: int, c: int| inr(s, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> t.data@[#[trigger] lin(s, a, b, c)] == v@[lin(s, a, b, c)],
            {
                let p = TensorIndex { i, j, k };
                assert(inr(s, i as int, j as int, k as int));
                let n = t.get_data_index(&p);
                t.set_item(&p, v[n as usize]);
            }
        }
    }
}
pub fn c02_fill(s: TensorShape, a: f32, list: Vec<f32>) -> (r: (Tensor, bool))
    requires shape_ok(s)
    ensures r.0.wf(), r.0.shape == s, r.0.data@.len() == items(s), r.1 == (list@.len() == items(s)), r.1 ==> r.0.data@ == list@, !r.1 ==> r.0.all_is(a)
{
    let mut t = Tensor::new(s);
    t.fill_with_value(a);
    let n = list.len();
    match t.fill_with_vec(list) { Ok(_) => (t, true), Err(_) => (t, false) }
}
// rejected or mismatched arithmetic changes nothing, whatever is tried first
pub fn c03_mismatch(a: &Tensor, b: &mut Tensor, c: f32)
    requires a.wf(), old(b).wf(), a.shape != old(b).shape
    ensures final(b).same(*old(b))
{ Tensor::add_to_self(b, a); Tensor::scale(a, c, b); Tensor::multiply_elementwise_self(b, a); Tensor::multiply_elementwise(a, a, b); Tensor::add(a, a, b); }
// the transposed products are the products of the explicitly transposed factors
pub fn c04_transposed(a: &Tensor, b: &Tensor, at: &mut Tensor, r1: &mut Tensor, r2: &mut Tensor) -> (ok: bool)
    requires a.wf(), b.wf(), old(at).wf(), old(r1).wf(), old(r2).wf(), old(at).shape == tr(a.shape), old(r1).shape == old(r2).shape, mm_dims(tr(a.shape), b.shape, old(r1).shape)
    ensures ok, final(r1).data@ == final(r2).data@
{
    let x = Tensor::matrix_multiply_transpose_first(a, b, r1);
    let y = Tensor::transpose_ij(a, at);
    Tensor::matrix_multiply(at, b, r2);
    proof {
        let s = r1.shape;
        assert forall|n: int| 0 <= n < r1.data@.len() implies r1.data@[n] == r2.data@[n] by {
            lem_surj(s, n);
            let (i, j, k) = choose|i: int, j: int, k: int| inr(s, i, j, k) && lin(s, i, j, k) == n;
            c04_sums(*a, *b, *at, i, j, k, a.shape.di as int);
            assert(r1.data@[lin(s, i, j, k)] == mt1_sum(*a, *b, i, j, k, a.shape.di as int));
            assert(r2.data@[lin(s, i, j, k)] == mm_sum(*at, *b, i, j, k, at.shape.dj as int));
        }
        assert(r1.data@ =~= r2.data@);
    }
    x.is_ok() && y.is_ok()
}
pub proof fn c04_sums(a: Tensor, b: Tensor, at: Tensor, i: int, j: int, k: int, n: int)
    requires at.shape == tr(a.shape), 0 <= i < a.shape.dj, 0 <= k < a.shape.dk, n <= a.shape.di, forall|x: int, y: int, z: int| inr(at.shape, x, y, z) ==> at.data@[#[trigger] lin(at.shape, x, y, z)] == a.at(y, x, z)
    ensures mm_sum(at, b, i, j, k, n) == mt1_sum(a, b, i, j, k, n) decreases n
{ if n > 0 { c04_sums(a, b, at, i, j, k, n - 1); assert(inr(at.shape, i, n - 1, k)); assert(at.data@[lin(at.shape, i, n - 1, k)] == a.at(n - 1, i, k)); } }
// the fused operation gives what product, addition and rectification give one after the other
pub fn c05_fused_is_separate(x: &Tensor, w: &Tensor, b: &Tensor, r1: &mut Tensor, r2: &mut Tensor, mask: &mut Tensor)
    requires x.wf(), w.wf(), b.wf(), old(r1).wf(), old(r2).wf(), old(mask).wf(), mm_dims(w.shape, x.shape, old(r1).shape), b.shape == old(r1).shape, old(r2).shape == old(r1).shape, old(mask).shape == old(r1).shape
    ensures forall|n: int| 0 <= n < final(r1).data@.len() ==> feq(#[trigger] final(r1).data@[n], final(r2).data@[n])
{
    Tensor::matrix_multiply_add_relu(x, w, b, r1);
    Tensor::matrix_multiply(w, x, r2);
    let ghost p = *r2;
    Tensor::add_to_self(r2, b);
    let ghost q = *r2;
    let _ = Tensor::relu_self_and_store_mask(r2, mask);
    proof {
        let s = r1.shape;
        assert forall|n: int| 0 <= n < r1.data@.len() implies feq(#[trigger] r1.data@[n], r2.data@[n]) by {
            lem_surj(s, n);
            let (i, j, k) = choose|i: int, j: int, k: int| inr(s, i, j, k) && lin(s, i, j, k) == n;
            ax_relu(dense_pre(*w, *b, *x, i, j, k));
            assert(p.data@[lin(s, i, j, k)] == mm_sum(*w, *x, i, j, k, w.shape.dj as int));
            assert(q.data@[n] == dense_pre(*w, *b, *x, i, j, k));
            assert(r1.data@[lin(s, i, j, k)] == fmax(dense_pre(*w, *b, *x, i, j, k), 0.0f32));
        }
    }
}
// rectifying a rectified tensor changes nothing and gives the same mask
pub fn c06_twice(t: &mut Tensor, m: &mut Tensor, m2: &mut Tensor)
    requires old(t).wf(), old(m).wf(), old(m2).wf(), old(m).shape == old(t).shape, old(m2).shape == old(t).shape
    ensures final(m).data@ == final(m2).data@, forall|n: int| 0 <= n < final(t).data@.len() ==> #[trigger] final(t).data@[n] == relu(old(t).data@[n])
{
    let _ = Tensor::relu_self_and_store_mask(t, m);
    let ghost a = *t;
    let _ = Tensor::relu_self_and_store_mask(t, m2);
    proof {
        ax_gt_irrefl(0.0f32);
        assert forall|n: int| 0 <= n < t.data@.len() implies #[trigger] t.data@[n] == relu(old(t).data@[n]) by { assert(t.data@[n] == relu(a.data@[n])); }
        assert forall|n: int| 0 <= n < m.data@.len() implies m.data@[n] == m2.data@[n] by { assert(a.data@[n] == relu(old(t).data@[n])); assert(m2.data@[n] == (if fgt(a.data@[n], 0.0f32) { 1.0f32 } else { 0.0f32 })); }
        assert(m.data@ =~= m2.data@);
    }
}
// an accepted window: the last window position still lies inside, one more would not
pub fn c07_exact(im: &TensorShape, w: &TensorShape, s: u32) -> (r: Option<(u32, u32)>)
    ensures (r is Some) == win_fit(*im, *w, s), r is Some ==> ((r->0).0 - 1) * s + w.di == im.di && ((r->0).1 - 1) * s + w.dj == im.dj
{
    if Tensor::does_kernel_stride_fit_image(im, w, s) {
        let (a, b) = Tensor::get_convolution_dim_fit(im, w, s);
        proof { let (x, y, z, u, v) = (im.di as int, w.di as int, s as int, im.dj as int, w.dj as int);
            assert(((x - y) / z + 1 - 1) * z + y == x) by(nonlinear_arith) requires z > 0, (x - y) % z == 0;
            assert(((u - v) / z + 1 - 1) * z + v == u) by(nonlinear_arith) requires z > 0, (u - v) % z == 0; }
        Some((a, b))
    } else { None }
}
// both pooling operations agree
pub fn c09_same(im: &Tensor, m: &TensorShape, s: u32, r1: &mut Tensor, r2: &mut Tensor, o: &mut Vec<u32>) -> (ok: bool)
    requires im.wf(), old(r1).wf(), old(r2).wf(), old(r1).shape == old(r2).shape, pool_dims(im.shape, *m, s, old(r1).shape), old(o)@.len() == old(r1).data@.len()
    ensures ok, forall|n: int| 0 <= n < final(r1).data@.len() ==> feq(#[trigger] final(r1).data@[n], final(r2).data@[n])
{
    Tensor::max_pool(im, m, s, r1);
    let x = Tensor::max_pool_track_origin(im, m, s, r2, o);
    proof {
        let sh = r1.shape;
        assert forall|n: int| 0 <= n < r1.data@.len() implies feq(#[trigger] r1.data@[n], r2.data@[n]) by {
            lem_surj(sh, n);
            let (i, j, k) = choose|i: int, j: int, k: int| inr(sh, i, j, k) && lin(sh, i, j, k) == n;
            assert(wmax(*im, *m, s as int, i, j, k, r1.data@[lin(sh, i, j, k)]));
            assert(wmax(*im, *m, s as int, i, j, k, r2.data@[lin(sh, i, j, k)]));
            lem_wmax_unique(*im, *m, s as int, i, j, k, r1.data@[n], r2.data@[n]);
        }
    }
    x.is_ok()
}
pub fn c13_unit(x: &Tensor, y: &mut Tensor)
    requires x.wf(), old(y).wf(), x.shape == old(y).shape, finite(x.data@)
    ensures forall|n: int| 0 <= n < final(y).data@.len() ==> funit(#[trigger] final(y).data@[n]),
        forall|a: int, b: int| 0 <= a < x.data@.len() && 0 <= b < x.data@.len() && !#[trigger] fgt(x.data@[a], x.data@[b]) ==> !fgt(final(y).data@[a], final(y).data@[b]),
        x.data@.len() > 0 ==> -(2real * (x.data@.len() as real) * ulp1()) <= rsum(final(y).data@, x.data@.len() as int) - 1real <= 2real * (x.data@.len() as real) * ulp1()
{
    Tensor::softmax(x, y);
    proof {
        assert forall|a: int, b: int| 0 <= a < x.data@.len() && 0 <= b < x.data@.len() && !#[trigger] fgt(x.data@[a], x.data@[b]) implies !fgt(y.data@[a], y.data@[b]) by { lem_softmax_order(x.data@, y.data@, a, b); }
        if x.data@.len() > 0 { lem_softmax_sum(x.data@, y.data@); }
    }
}
pub fn c14_ne(a: &Tensor, b: &Tensor) -> (r: (bool, bool))
    requires a.wf(), b.wf()
    ensures r.0 == !r.1
{ (a.eq(b), a.ne(b)) }

// ---------------------------------------------------------------- layers
// gradients of two passes add up, starting from zero after clearing
pub open spec fn c15_sum(w: Tensor, b: Tensor, x: Tensor, g: Tensor, g2: Tensor, wg: Tensor, bg: Tensor, d: Tensor, d2: Tensor) -> bool {
    &&& d.shape == b.shape && d2.shape == b.shape
    &&& forall|i: int, j: int, k: int| inr(b.shape, i, j, k) ==> d.data@[#[trigger] lin(b.shape, i, j, k)] == fmul(step(dense_pre(w, b, x, i, j, k)), g.at(i, j, k)) && d2.data@[lin(b.shape, i, j, k)] == fmul(step(dense_pre(w, b, x, i, j, k)), g2.at(i, j, k))
    &&& forall|n: int| 0 <= n < bg.data@.len() ==> #[trigger] bg.data@[n] == fadd(fadd(0.0f32, d.data@[n]), d2.data@[n])
    &&& forall|i: int, j: int, k: int| inr(w.shape, i, j, k) ==> wg.data@[#[trigger] lin(w.shape, i, j, k)] == fadd(fadd(0.0f32, mt2_sum(d, x, i, j, k, 1)), mt2_sum(d2, x, i, j, k, 1))
}
pub fn c15_accumulate(l: &mut FullyConnectedLayer, x: &Tensor, y: &mut Tensor, g: &Tensor, og: &mut Tensor, g2: &Tensor) -> (ok: bool)
    requires old(l).inv(), old(l).mode() == NetworkRunState::Training, x.wf(), old(y).wf(), g.wf(), g2.wf(), old(og).wf(), x.shape == old(l).cfg().ish, old(y).shape == old(l).cfg().osh, g.shape == old(l).cfg().osh, g2.shape == g.shape, old(og).shape == old(l).cfg().ish
    ensures ok, final(l).cfg() == old(l).cfg(), exists|d: Tensor, d2: Tensor| #[trigger] c15_sum(old(l).weights, old(l).bias, *x, *g, *g2, final(l).weights_gradients, final(l).bias_gradients, d, d2)
{
    l.clear_gradients();
    let ghost l0 = *l;
    let a = l.forward(x, y);
    let ghost l1 = *l;
    let b = l.backward(x, y, g, og);
    let ghost l2 = *l; let ghost o2 = *og;
    let c = l.forward(x, y);
    let ghost l3 = *l;
    let d = l.backward(x, y, g2, og);
    proof {
        let (w, bi) = (old(l).weights, old(l).bias);
        let s = bi.shape;
        assert(mk_dense(l0.name@, l0.weights, l0.bias).kind == mk_dense(old(l).name@, w, bi).kind && mk_dense(l.name@, l.weights, l.bias).kind == mk_dense(old(l).name@, w, bi).kind);
        let d1 = choose|d: Tensor| #[trigger] masked(d, l1.relu_mask, *g) && dense_bwd(w, *x, d, o2, l1.weights_gradients, l1.bias_gradients, l2.weights_gradients, l2.bias_gradients);
        let d2 = choose|d: Tensor| #[trigger] masked(d, l3.relu_mask, *g2) && dense_bwd(w, *x, d, *og, l3.weights_gradients, l3.bias_gradients, l.weights_gradients, l.bias_gradients);
        lem_lin(s); lem_lin(w.shape);
        assert(l0.weights_gradients.all_is(0.0f32) && l0.bias_gradients.all_is(0.0f32));
        assert forall|i: int, j: int, k: int| inr(s, i, j, k) implies d1.data@[#[trigger] lin(s, i, j, k)] == fmul(step(dense_pre(w, bi, *x, i, j, k)), g.at(i, j, k)) && d2.data@[lin(s, i, j, k)] == fmul(step(dense_pre(w, bi, *x, i, j, k)), g2.at(i, j, k)) by {
            assert(l1.relu_mask.data@[lin(s, i, j, k)] == step(dense_pre(w, bi, *x, i, j, k)));
            assert(l3.relu_mask.data@[lin(s, i, j, k)] == step(dense_pre(w, bi, *x, i, j, k)));
        }
        assert forall|i: int, j: int, k: int| inr(w.shape, i, j, k) implies l.weights_gradients.data@[#[trigger] lin(w.shape, i, j, k)] == fadd(fadd(0.0f32, mt2_sum(d1, *x, i, j, k, 1)), mt2_sum(d2, *x, i, j, k, 1)) by {
            assert(l2.weights_gradients.data@[lin(w.shape, i, j, k)] == fadd(l1.weights_gradients.at(i, j, k), mt2_sum(d1, *x, i, j, k, d1.shape.dj as int)));
            assert(l1.weights_gradients.at(i, j, k) == 0.0f32);
            assert(l.weights_gradients.data@[lin(l.weights_gradients.shape, i, j, k)] == fadd(l3.weights_gradients.at(i, j, k), mt2_sum(d2, *x, i, j, k, d2.shape.dj as int)));
        }
        assert(c15_sum(w, bi, *x, *g, *g2, l.weights_gradients, l.bias_gradients, d1, d2));
    }
    a.is_ok() && b.is_ok() && c.is_ok() && d.is_ok()
}

// a training round: the gradients are those of the pre-activations of this very input
pub open spec fn c16_grads(ks: Seq<Tensor>, bs: Seq<Tensor>, s: u32, osh: TensorShape, x: Tensor, g: Tensor, og: Tensor, kg: Seq<Tensor>, bg: Seq<Tensor>, d: Tensor) -> bool {
    &&& d.wf() && d.shape == osh
    &&& forall|i: int, j: int, k: int| inr(osh, i, j, k) ==> d.data@[#[trigger] lin(osh, i, j, k)] == fmul(step(conv_pre(ks, bs, s, x, i, j, k)), g.at(i, j, k))
    &&& conv_bwd(ks, s, x, d, og, kg, bg)
}
pub fn c16_round(l: &mut ConvolutionalLayer, x: &Tensor, y: &mut Tensor, g: &Tensor, og: &mut Tensor) -> (ok: bool)
    requires old(l).inv(), x.wf(), old(y).wf(), g.wf(), old(og).wf(), x.shape == old(l).cfg().ish, old(y).shape == old(l).cfg().osh, g.shape == old(l).cfg().osh, old(og).shape == old(l).cfg().ish
    ensures ok, final(l).cfg() == old(l).cfg(), exists|d: Tensor| #[trigger] c16_grads(old(l).kernels@, old(l).biases@, old(l).stride, old(l).output_shape, *x, *g, *final(og), final(l).kernel_gradients@, final(l).bias_gradients@, d)
{
    l.switch_to_training();
    let ghost l0 = *l;
    let a = l.forward(x, y);
    let ghost l1 = *l;
    let b = l.backward(x, y, g, og);
    proof {
        let (ks, bs, s, o) = (old(l).kernels@, old(l).biases@, old(l).stride, old(l).output_shape);
        assert(l.cfg().kind == old(l).cfg().kind && l1.cfg().kind == old(l).cfg().kind && l0.cfg().kind == old(l).cfg().kind);
        let d = choose|d: Tensor| #[trigger] masked(d, l1.relu_mask, *g) && conv_bwd(ks, s, *x, d, *og, l.kernel_gradients@, l.bias_gradients@);
        lem_lin(o);
        assert forall|i: int, j: int, k: int| inr(o, i, j, k) implies d.data@[#[trigger] lin(o, i, j, k)] == fmul(step(conv_pre(ks, bs, s, *x, i, j, k)), g.at(i, j, k)) by {
            assert(l1.relu_mask.data@[lin(o, i, j, k)] == step(conv_pre(ks, bs, s, *x, i, j, k)));
        }
        assert(c16_grads(ks, bs, s, o, *x, *g, *og, l.kernel_gradients@, l.bias_gradients@, d));
    }
    a.is_ok() && b.is_ok()
}
// every incoming gradient is routed to a position that attains the maximum of its own window
pub open spec fn c17_routed(m: TensorShape, s: u32, ish: TensorShape, osh: TensorShape, x: Tensor, y: Tensor, g: Tensor, og: Tensor, o: Seq<u32>) -> bool {
    &&& og.data@ == scat(konst(items(ish), 0.0f32), g.data@, o, o.len() as int) && o.len() == items(osh)
    &&& forall|i: int, j: int, k: int| inr(osh, i, j, k) ==> wmax(x, m, s as int, i, j, k, y.data@[#[trigger] lin(osh, i, j, k)]) && worigin(x, m, s as int, i, j, k, y.data@[lin(osh, i, j, k)], o[lin(osh, i, j, k)] as int)
}
pub fn c17_round(l: &mut MaxPoolLayer, x: &Tensor, y: &mut Tensor, g: &Tensor, og: &mut Tensor) -> (ok: bool)
    requires old(l).inv(), x.wf(), old(y).wf(), g.wf(), old(og).wf(), x.shape == old(l).cfg().ish, old(y).shape == old(l).cfg().osh, g.shape == old(l).cfg().osh, old(og).shape == old(l).cfg().ish
    ensures ok, final(l).cfg() == old(l).cfg(), exists|o: Seq<u32>| #[trigger] c17_routed(old(l).mask_shape, old(l).stride, old(l).input_shape, old(l).output_shape, *x, *final(y), *g, *final(og), o)
{
    l.switch_to_training();
    let ghost l0 = *l;
    let a = l.forward(x, y);
    let ghost l1 = *l;
    let b = l.backward(x, y, g, og);
    proof {
        assert(l.cfg().kind == old(l).cfg().kind && l1.cfg().kind == old(l).cfg().kind && l0.cfg().kind == old(l).cfg().kind);
        let (m, s, o) = (old(l).mask_shape, old(l).stride, old(l).output_shape);
        assert forall|i: int, j: int, k: int| inr(o, i, j, k) implies wmax(*x, m, s as int, i, j, k, y.data@[#[trigger] lin(o, i, j, k)]) && worigin(*x, m, s as int, i, j, k, y.data@[lin(o, i, j, k)], l1.max_pool_origin@[lin(o, i, j, k)] as int) by {
            assert(wmax(*x, m, s as int, i, j, k, y.data@[lin(o, i, j, k)]));
            assert(l1.max_pool_origin@[lin(o, i, j, k)] == l1.max_pool_origin@[lin(o, i, j, k)]);
        }
        assert(c17_routed(m, s, old(l).input_shape, o, *x, *y, *g, *og, l1.max_pool_origin@));
    }
    a.is_ok() && b.is_ok()
}
// positions no window's maximum comes from keep a zero gradient
pub proof fn c17_rest_zero(n: int, g: Seq<f32>, o: Seq<u32>, m: int)
    requires 0 <= m < n, forall|q: int| 0 <= q < o.len() ==> o[q] != m
    ensures scat(konst(n, 0.0f32), g, o, o.len() as int)[m] == 0.0f32
{ lem_scat_frame(konst(n, 0.0f32), g, o, o.len() as int); assert(konst(n, 0.0f32)[m] == 0.0f32); }
// whatever was in the outgoing gradient, and however often: the same result
pub fn c18_repeat(l: &mut SoftmaxLayer, x: &Tensor, y: &Tensor, g: &Tensor, o1: &mut Tensor, o2: &mut Tensor) -> (ok: bool)
    requires old(l).inv(), old(l).mode() == NetworkRunState::Training, x.wf(), y.wf(), g.wf(), old(o1).wf(), old(o2).wf(), y.shape == old(l).cfg().osh, g.shape == y.shape, old(o1).shape == y.shape, old(o2).shape == y.shape, y.shape.dj == 1, y.shape.dk == 1
    ensures ok, final(o1).data@ == final(o2).data@, forall|i: int| 0 <= i < y.shape.di ==> #[trigger] final(o1).data@[i] == soft_bwd_at(*y, *g, i)
{
    let a = l.backward(x, y, g, o1);
    let ghost p = *o1;
    let b = l.backward(x, y, g, o1);
    let c = l.backward(x, y, g, o2);
    proof {
        reveal(lin);
        let s = y.shape;
        assert forall|i: int| 0 <= i < s.di implies #[trigger] o1.data@[i] == soft_bwd_at(*y, *g, i) && o2.data@[i] == soft_bwd_at(*y, *g, i) by {
            assert(lin(s, i, 0, 0) == i);
            assert(o1.data@[lin(s, i, 0, 0)] == soft_bwd_at(*y, *g, i)); assert(o2.data@[lin(s, i, 0, 0)] == soft_bwd_at(*y, *g, i));
        }
        assert(items(s) == s.di) by(nonlinear_arith) requires s.dj == 1, s.dk == 1;
        assert forall|i: int| 0 <= i < o1.data@.len() implies o1.data@[i] == o2.data@[i] by { assert(i < s.di); }
        assert(o1.data@ =~= o2.data@);
    }
    a.is_ok() && b.is_ok() && c.is_ok()
}
// a layer that was created reports what it was created with, and its forward pass accepts and gives those shapes
pub fn c19_created(m: TensorShape, i: TensorShape, s: u32, name: &String) -> (r: Option<(TensorShape, TensorShape)>)
    ensures (r is Some) == (shape_ok(i) && win_fit(i, m, s)), r is Some ==> (r->0).0 == i && (r->0).1 == win_out(i, m, s, i.dk)
{
    proof { if shape_ok(i) && win_fit(i, m, s) { lem_out_ok(i, m, s); } }
    match MaxPoolLayer::new(m, i, s, name) {
        Ok(l) => {
            let mut l = l;
            l.switch_to_training();
            let x = Tensor::new(l.get_input_shape());
            let mut y = Tensor::new(l.get_output_shape());
            let f = l.forward(&x, &mut y);
            assert(f is Ok);
            Some((l.get_input_shape(), l.get_output_shape()))
        },
        Err(_) => None,
    }
}
// any number of switches: only the mode changes, forward results stay the same
pub fn c20_switch(l: &mut Box<dyn Layer>, modes: &Vec<bool>, x: &Tensor, y1: &mut Tensor, y2: &mut Tensor) -> (ok: bool)
    requires old(l).inv(), cfg_ok(old(l).cfg()), x.wf(), old(y1).wf(), old(y2).wf(), x.shape == old(l).cfg().ish, old(y1).shape == old(l).cfg().osh, old(y2).shape == old(l).cfg().osh
    ensures ok, final(l).inv(), final(l).cfg() == old(l).cfg(), final(l).tag() == old(l).tag(), sim(*final(y1), *final(y2)),
        modes@.len() > 0 ==> final(l).mode() == (if modes@.last() { NetworkRunState::Training } else { NetworkRunState::Inference })
{
    let a = l.forward(x, y1);
    let ghost m0 = l.mode();
    for n in 0..modes.len()
        invariant l.inv(), l.cfg() == old(l).cfg(), l.tag() == old(l).tag(), n > 0 ==> l.mode() == (if modes@[n - 1] { NetworkRunState::Training } else { NetworkRunState::Inference }),
    { if modes[n] { l.switch_to_training(); } else { l.switch_to_inference(); } }
    let b = l.forward(x, y2);
    proof {
        assert(cfg_same(l.cfg(), l.cfg()));
        lem_self_sim(*x);
        lem_fwd_sim(l.cfg(), l.cfg(), m0, l.mode(), *x, *x, *y1, *y2);
    }
    a.is_ok() && b.is_ok()
}
pub proof fn lem_self_sim(x: Tensor) requires x.wf() ensures sim(x, x) { lem_same_sim(x, x); }
// in inference every backward pass is refused and nothing changes
pub fn c20_refused(l: &mut Box<dyn Layer>, x: &Tensor, y: &Tensor, g: &Tensor, og: &mut Tensor) -> (ok: bool)
    requires old(l).inv(), x.wf(), y.wf(), g.wf(), old(og).wf()
    ensures !ok, final(og).data@ == old(og).data@, final(l).cfg() == old(l).cfg(), final(l).inv()
{ l.switch_to_inference(); l.backward(x, y, g, og).is_ok() }

// ---------------------------------------------------------------- networks
// what a user may do with a network, in any order
pub enum Op { Train, Infer, Run(Tensor), Back(Tensor) }
pub open spec fn op_ok(o: Op) -> bool { match o { Op::Run(t) => t.wf(), Op::Back(t) => t.wf(), _ => true } }
pub open spec fn last_mode(ops: Seq<Op>, n: int, m: NetworkRunState) -> NetworkRunState decreases n
{ if n <= 0 { m } else { match ops[n - 1] { Op::Train => NetworkRunState::Training, Op::Infer => NetworkRunState::Inference, _ => last_mode(ops, n - 1, m) } } }
// any history keeps the layers, their parameters and the consistency of the network; the mode is the one last requested
pub fn c24_modes(net: &mut Network, ops: &Vec<Op>) -> (m: NetworkRunState)
    requires old(net).inv(), forall|n: int| 0 <= n < ops@.len() ==> op_ok(#[trigger] ops@[n])
    ensures final(net).inv(), final(net).same_layers(*old(net)), final(net).same_shapes(*old(net)), m == final(net).run_state, m == last_mode(ops@, ops@.len() as int, old(net).run_state),
        forall|i: int| 0 <= i < final(net).n() ==> (#[trigger] final(net).layers@[i]).mode() == m
{
    for n in 0..ops.len()
        invariant net.inv(), net.same_layers(*old(net)), net.same_shapes(*old(net)), net.run_state == last_mode(ops@, n as int, old(net).run_state), forall|q: int| 0 <= q < ops@.len() ==> op_ok(#[trigger] ops@[q]),
    {
        let ghost g0 = *net;
        assert(op_ok(ops@[n as int]));
        match &ops[n] {
            Op::Train => net.switch_to_training(),
            Op::Infer => net.switch_to_inference(),
            Op::Run(t) => { let _ = net.infer(t); },
            Op::Back(t) => { let _ = net.backward(t); },
        }
        proof { c24_trans(*old(net), g0, *net); }
    }
    net.get_run_state()
}
pub proof fn c24_trans(a: Network, b: Network, c: Network) requires b.same_layers(a), c.same_layers(b) ensures c.same_layers(a)
{ assert forall|i: int| 0 <= i < c.n() implies (#[trigger] c.layers@[i]).cfg() == a.layers@[i].cfg() && c.layers@[i].tag() == a.layers@[i].tag() by { assert(b.layers@[i].cfg() == a.layers@[i].cfg()); } }
// two layers offered one after the other: both are kept exactly when they chain
pub fn c21_chain<A: Layer + 'static, B: Layer + 'static>(net: &mut Network, a: A, b: B) -> (r: (bool, bool))
    requires old(net).inv(), a.inv(), b.inv(), cfg_ok(a.cfg()), cfg_ok(b.cfg())
    ensures final(net).inv(), r.0 == old(net).accepts(a.cfg()), r.0 ==> r.1 == (b.cfg().ish == a.cfg().osh), !r.0 ==> r.1 == old(net).accepts(b.cfg()),
        final(net).n() == old(net).n() + (if r.0 { 1int } else { 0 }) + (if r.1 { 1int } else { 0 }),
        final(net).n() > 0 ==> final(net).input_shape == final(net).lc(0).ish && final(net).output_shape == final(net).lc(final(net).n() - 1).osh && final(net).intermediate_states@.len() == final(net).n() + 1,
        forall|i: int| 0 <= i < old(net).n() ==> final(net).lc(i) == old(net).lc(i)
{ let x = net.add_layer(a).is_ok(); let y = net.add_layer(b).is_ok(); (x, y) }
// the result of inference does not depend on what happened in between, nor on the mode
pub fn c22_twice(net: &mut Network, x: &Tensor, ops: &Vec<Op>) -> (ok: bool)
    requires old(net).inv(), old(net).n() > 0, x.wf(), x.shape == old(net).input_shape, forall|n: int| 0 <= n < ops@.len() ==> op_ok(#[trigger] ops@[n])
    ensures ok, final(net).inv(), final(net).same_layers(*old(net)), exists|b: Network| #[trigger] ran(b, *old(net), *x) && forall|n: int| 0 <= n <= old(net).n() ==> sim(#[trigger] b.intermediate_states@[n], final(net).intermediate_states@[n])
{
    let a = net.infer(x);
    let ghost b = *net;
    let _ = c24_modes(net, ops);
    let ghost a2 = *net;
    let c = net.infer(x);
    proof {
        c24_trans(*old(net), b, a2); c24_trans(*old(net), a2, *net);
        assert(ran(b, *old(net), *x)); assert(ran(*net, a2, *x));
        assert forall|n: int| 0 <= n <= old(net).n() implies sim(#[trigger] b.intermediate_states@[n], net.intermediate_states@[n]) by {
            assert forall|i: int| 0 <= i < old(net).n() implies cfg_same(#[trigger] old(net).lc(i), a2.lc(i)) by { assert(a2.layers@[i].cfg() == old(net).layers@[i].cfg()); }
            lem_infer_sim(*old(net), b, a2, *net, *x, n);
        }
    }
    a.is_ok() && c.is_ok()
}
// one training step: every layer's gradient comes from this inference's states
pub fn c23_train(net: &mut Network, x: &Tensor, g: &Tensor) -> (r: (bool, bool))
    requires old(net).inv(), old(net).n() > 0, x.wf(), g.wf(), x.shape == old(net).input_shape, g.shape == old(net).output_shape
    ensures final(net).inv(), r.0, final(net).same_layers(*old(net)), r.1 ==> exists|a: Network, b: Network| #[trigger] ran(b, a, *x) && a.same_layers(*old(net)) && final(net).intermediate_states@ == b.intermediate_states@ && final(net).intermediate_gradients@[old(net).n()].same(*g)
        && (forall|i: int| 0 <= i < old(net).n() ==> #[trigger] final(net).backed(b, i))
{
    net.switch_to_training();
    let ghost a = *net;
    let p = net.infer(x);
    let ghost b = *net;
    let q = net.backward(g);
    proof { c24_trans(*old(net), a, b); c24_trans(*old(net), b, *net); assert(ran(b, a, *x)); }
    (p.is_ok(), q.is_ok())
}
// a layer loaded from another one's serialized form gives the same results
pub fn c25_reload(a: &mut Box<dyn Layer>, b: &mut Box<dyn Layer>, x: &Tensor, y1: &mut Tensor, y2: &mut Tensor) -> (r: bool)
    requires old(a).inv(), old(b).inv(), cfg_ok(old(a).cfg()), x.wf(), old(y1).wf(), old(y2).wf(), x.shape == old(a).cfg().ish, old(y1).shape == old(a).cfg().osh, old(y2).shape == old(a).cfg().osh
    ensures r == (old(a).tag() == old(b).tag()), final(a).cfg() == old(a).cfg(), final(b).mode() == old(b).mode(), !r ==> final(b).cfg() == old(b).cfg() && final(b).aux() == old(b).aux(),
        r ==> final(b).inv() && cfg_same(final(b).cfg(), final(a).cfg()) && sim(*final(y2), *final(y1))
{
    let s = a.get_serialized();
    match b.load_from_serialized(&s) {
        Ok(_) => {
            let _ = a.forward(x, y1);
            let _ = b.forward(x, y2);
            proof { lem_self_sim(*x); c25_sym(b.cfg(), a.cfg()); lem_fwd_sim(a.cfg(), b.cfg(), a.mode(), b.mode(), *x, *x, *y1, *y2); c25_simsym(*y1, *y2); }
            true
        },
        Err(_) => false,
    }
}
pub proof fn c25_sym(a: LCfg, b: LCfg) requires cfg_same(a, b) ensures cfg_same(b, a)
{
    match (a.kind, b.kind) { (LKind::Conv { ks, bs, s }, LKind::Conv { ks: k2, bs: b2, s: s2 }) => {
        assert forall|n: int| 0 <= n < k2.len() implies (#[trigger] k2[n]).same(ks[n]) by { assert(ks[n].same(k2[n])); }
        assert forall|n: int| 0 <= n < b2.len() implies (#[trigger] b2[n]).same(bs[n]) by { assert(bs[n].same(b2[n])); }
    }, _ => {} }
}
pub proof fn c25_simsym(a: Tensor, b: Tensor) requires sim(a, b) ensures sim(b, a)
{ assert forall|n: int| 0 <= n < b.data@.len() implies fsim(#[trigger] b.data@[n], a.data@[n]) by { ax_sim_sym(a.data@[n], b.data@[n]); } }
// a file gives back what was written to it last (the file system's part, assumed by this client)
pub open spec fn file_keeps(name: Seq<char>) -> bool { !crate::stubs::fs::read_fails(name) && forall|b: Seq<u8>, c: Seq<u8>| #[trigger] crate::stubs::fs::written(name, b) && #[trigger] crate::stubs::fs::readable(name, c) ==> b == c }
pub fn c26_reload(a: &mut Network, mode: NetworkRunState, file: &String, x: &Tensor) -> (r: Option<Network>)
    requires old(a).inv(), old(a).n() > 0, x.wf(), x.shape == old(a).input_shape, file_keeps(file@), crate::serde_facts::network_plain()
    ensures r is None ==> crate::stubs::fs::write_fails(file@),
        r is Some ==> final(a).inv() && (r->0).inv() && (r->0).run_state == mode && (r->0).n() == old(a).n() && sim(final(a).intermediate_states@[old(a).n()], (r->0).intermediate_states@[old(a).n()])
          && forall|i: int| 0 <= i < old(a).n() ==> cfg_same(#[trigger] (r->0).lc(i), old(a).lc(i))
{
    match a.save_to_file(file) { Err(_) => { return None; }, Ok(_) => {} }
    let ghost sn = choose|sn: SerializedNetwork| #[trigger] crate::stubs::fs::written(file@, enc(sn)) && a.serial_of(sn.serial_layers@);
    let mut e = Network::new(mode);
    let ghost e0 = e;
    proof { lem_save_load(*a, sn, e); }
    let l = e.load_from_file(file);
    assert(l is Ok);
    let ghost (a0, l0) = (*a, e);
    proof {
        let b = choose|b: Seq<u8>| #[trigger] crate::stubs::fs::readable(file@, b) && e0.loads(b) && e.loaded(e0, net_of(b), net_of(b).len() as int);
        assert(b == enc(sn));
        assert(cfg_same(e.lc(0), a.lc(0)));
        assert(e.layers@[0].inv() && a.layers@[0].inv());
    }
    let p = a.infer(x);
    let q = e.infer(x);
    proof {
        assert(p is Ok && q is Ok);
        assert(ran(*a, a0, *x)); assert(ran(e, l0, *x));
        assert forall|i: int| 0 <= i < a0.n() implies cfg_same(#[trigger] a0.lc(i), l0.lc(i)) by { assert(cfg_same(l0.lc(i), a0.lc(i))); c25_sym(l0.lc(i), a0.lc(i)); }
        assert forall|i: int| 0 <= i < a0.n() implies cfg_same(#[trigger] e.lc(i), a0.lc(i)) by { assert(e.layers@[i].cfg() == l0.layers@[i].cfg()); assert(cfg_same(l0.lc(i), a0.lc(i))); }
        lem_infer_sim(a0, *a, l0, e, *x, a0.n());
    }
    Some(e)
}
pub fn c26_tensor(t: &Tensor, file: &String) -> (r: Option<Tensor>)
    requires t.wf(), file_keeps(file@), crate::serde_facts::tensor_plain()
    ensures r is None ==> crate::stubs::fs::write_fails(file@), r is Some ==> (r->0).wf() && (r->0).same(*t)
{
    match t.save_to_file(file) { Err(_) => { return None; }, Ok(_) => {} }
    proof { ax_rt_tensor(*t); }
    let u = Tensor::from_file(file);
    proof { assert(crate::stubs::fs::written(file@, enc(*t))); assert(u is Ok); }
    match u { Ok(u) => Some(u), Err(_) => None }
}
// whatever the file holds: after loading, good or bad, the network can be used
pub fn c27_loaded_is_consistent(file: &String, mode: NetworkRunState) -> (r: (bool, Network))
    ensures r.1.inv(), r.1.run_state == mode
{
    let mut e = Network::new(mode);
    let ok = e.load_from_file(file).is_ok();
    if e.get_layers().len() > 0 {
        let x = Tensor::new(e.get_input_shape());
        let p = e.infer(&x);
        assert(p is Ok);
        let o = e.get_output();
        assert(o is Ok);
    }
    e.switch_to_training();
    e.switch_to_inference();
    match mode { NetworkRunState::Training => e.switch_to_training(), NetworkRunState::Inference => {} }
    (ok, e)
}
}
