pub mod lemmas {
use vstd::prelude::*;
use crate::vspec::*;
use crate::lspec::*;
use crate::nspec::*;
use crate::sspec::*;
use crate::tensor::Tensor;
use crate::tensor::helper::*;
use crate::network::*;
use crate::layer::*;

// ---------------------------------------------------------------- results depend on parameters and input only
// same shape, equal items (up to the sign of zero)
pub open spec fn sim(a: Tensor, b: Tensor) -> bool { a.wf() && b.wf() && a.shape == b.shape && forall|n: int| 0 <= n < a.data@.len() ==> fsim(#[trigger] a.data@[n], b.data@[n]) }
pub proof fn lem_same_sim(a: Tensor, b: Tensor) requires a.wf(), a.same(b) ensures b.wf(), sim(a, b)
{ assert forall|n: int| 0 <= n < a.data@.len() implies fsim(#[trigger] a.data@[n], b.data@[n]) by { ax_sim_refl(a.data@[n]); } }
pub proof fn lem_sim_at(a: Tensor, b: Tensor, i: int, j: int, k: int) requires sim(a, b), inr(a.shape, i, j, k) ensures fsim(a.at(i, j, k), b.at(i, j, k))
{ lem_lin1(a.shape, i, j, k); }
pub proof fn lem_sim_mm(a: Tensor, b: Tensor, a2: Tensor, b2: Tensor, i: int, j: int, k: int, n: int)
    requires sim(a, a2), sim(b, b2), 0 <= n <= a.shape.dj, a.shape.dj == b.shape.di, 0 <= i < a.shape.di, 0 <= j < b.shape.dj, 0 <= k < a.shape.dk, a.shape.dk == b.shape.dk
    ensures fsim(mm_sum(a, b, i, j, k, n), mm_sum(a2, b2, i, j, k, n)) decreases n
{
    if n <= 0 { ax_sim_refl(0.0f32); }
    else {
        lem_sim_mm(a, b, a2, b2, i, j, k, n - 1); lem_sim_at(a, a2, i, n - 1, k); lem_sim_at(b, b2, n - 1, j, k);
        ax_sim_mul(a.at(i, n - 1, k), b.at(n - 1, j, k), a2.at(i, n - 1, k), b2.at(n - 1, j, k));
        ax_sim_add(mm_sum(a, b, i, j, k, n - 1), fmul(a.at(i, n - 1, k), b.at(n - 1, j, k)), mm_sum(a2, b2, i, j, k, n - 1), fmul(a2.at(i, n - 1, k), b2.at(n - 1, j, k)));
    }
}
pub open spec fn cv_pre(im: Tensor, w: Tensor, s: int, i: int, j: int) -> bool { s > 0 && w.shape.dk == im.shape.dk && 0 < w.shape.di <= im.shape.di && 0 < w.shape.dj <= im.shape.dj && 0 <= i < outdim(im.shape.di as int, w.shape.di as int, s) && 0 <= j < outdim(im.shape.dj as int, w.shape.dj as int, s) }
pub proof fn lem_sim_cvi(im: Tensor, w: Tensor, im2: Tensor, w2: Tensor, s: int, i: int, j: int, kk: int, kj: int, n: int, acc: f32, acc2: f32)
    requires sim(im, im2), sim(w, w2), cv_pre(im, w, s, i, j), 0 <= n <= w.shape.di, 0 <= kj < w.shape.dj, 0 <= kk < w.shape.dk, fsim(acc, acc2)
    ensures fsim(cv_i(im, w, s, i, j, kk, kj, n, acc), cv_i(im2, w2, s, i, j, kk, kj, n, acc2)) decreases n
{
    if n > 0 {
        lem_sim_cvi(im, w, im2, w2, s, i, j, kk, kj, n - 1, acc, acc2);
        lem_win(im.shape.di as int, w.shape.di as int, s, i, n - 1); lem_win(im.shape.dj as int, w.shape.dj as int, s, j, kj);
        let (a, b) = (i * s + (n - 1), j * s + kj);
        lem_sim_at(im, im2, a, b, kk); lem_sim_at(w, w2, n - 1, kj, kk);
        ax_sim_mul(im.at(a, b, kk), w.at(n - 1, kj, kk), im2.at(a, b, kk), w2.at(n - 1, kj, kk));
        ax_sim_add(cv_i(im, w, s, i, j, kk, kj, n - 1, acc), fmul(im.at(a, b, kk), w.at(n - 1, kj, kk)), cv_i(im2, w2, s, i, j, kk, kj, n - 1, acc2), fmul(im2.at(a, b, kk), w2.at(n - 1, kj, kk)));
    }
}
pub proof fn lem_sim_cvj(im: Tensor, w: Tensor, im2: Tensor, w2: Tensor, s: int, i: int, j: int, kk: int, n: int, acc: f32, acc2: f32)
    requires sim(im, im2), sim(w, w2), cv_pre(im, w, s, i, j), 0 <= n <= w.shape.dj, 0 <= kk < w.shape.dk, fsim(acc, acc2)
    ensures fsim(cv_j(im, w, s, i, j, kk, n, acc), cv_j(im2, w2, s, i, j, kk, n, acc2)) decreases n
{
    if n > 0 { lem_sim_cvj(im, w, im2, w2, s, i, j, kk, n - 1, acc, acc2);
        lem_sim_cvi(im, w, im2, w2, s, i, j, kk, n - 1, w.shape.di as int, cv_j(im, w, s, i, j, kk, n - 1, acc), cv_j(im2, w2, s, i, j, kk, n - 1, acc2)); }
}
pub proof fn lem_sim_cvk(im: Tensor, w: Tensor, im2: Tensor, w2: Tensor, s: int, i: int, j: int, n: int)
    requires sim(im, im2), sim(w, w2), cv_pre(im, w, s, i, j), 0 <= n <= w.shape.dk
    ensures fsim(cv_k(im, w, s, i, j, n), cv_k(im2, w2, s, i, j, n)) decreases n
{
    if n <= 0 { ax_sim_refl(0.0f32); }
    else { lem_sim_cvk(im, w, im2, w2, s, i, j, n - 1); lem_sim_cvj(im, w, im2, w2, s, i, j, n - 1, w.shape.dj as int, cv_k(im, w, s, i, j, n - 1), cv_k(im2, w2, s, i, j, n - 1)); }
}
pub proof fn lem_sim_rect(m: NetworkRunState, m2: NetworkRunState, v: f32, v2: f32)
    requires fsim(v, v2) ensures fsim(rect(m, v), rect(m2, v2))
{
    ax_sim_sym(v, v2); ax_sim_max(v, v2); ax_sim_relu(v, v2); ax_sim_relu(v2, v); ax_sim_sym(fmax(v2, 0.0f32), relu(v)); ax_sim_refl(0.0f32); ax_sim_gt(v, 0.0f32, v2, 0.0f32);
}
pub proof fn lem_sim_wmax(im: Tensor, im2: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, r: f32, q: f32)
    requires sim(im, im2), wmax(im, w, s, i, j, k, r), wmax(im2, w, s, i, j, k, q), s > 0, 0 < w.di <= im.shape.di, 0 < w.dj <= im.shape.dj, 0 <= k < im.shape.dk,
      0 <= i < outdim(im.shape.di as int, w.di as int, s), 0 <= j < outdim(im.shape.dj as int, w.dj as int, s)
    ensures fsim(r, q)
{
    ax_ninf();
    if r != ninf() {
        let (a, b) = choose|a: int, b: int| win_in(w, a, b) && wbefore(a, b, 0, w.dj as int) && #[trigger] win_at(im, s, i, j, k, a, b) == r;
        lem_win(im.shape.di as int, w.di as int, s, i, a); lem_win(im.shape.dj as int, w.dj as int, s, j, b); lem_sim_at(im, im2, i * s + a, j * s + b, k);
        assert(!fgt(win_at(im2, s, i, j, k, a, b), q)); ax_sim_refl(q); ax_sim_gt(r, q, win_at(im2, s, i, j, k, a, b), q);
    }
    if q != ninf() {
        let (a, b) = choose|a: int, b: int| win_in(w, a, b) && wbefore(a, b, 0, w.dj as int) && #[trigger] win_at(im2, s, i, j, k, a, b) == q;
        lem_win(im.shape.di as int, w.di as int, s, i, a); lem_win(im.shape.dj as int, w.dj as int, s, j, b); lem_sim_at(im, im2, i * s + a, j * s + b, k);
        assert(!fgt(win_at(im, s, i, j, k, a, b), r)); ax_sim_refl(r); ax_sim_gt(win_at(im, s, i, j, k, a, b), r, q, r);
    }
    ax_tri(r, q);
}
pub proof fn lem_sim_esum(x: Seq<f32>, x2: Seq<f32>, m: f32, m2: f32, n: int)
    requires x.len() == x2.len(), 0 <= n <= x.len(), fsim(m, m2), forall|q: int| 0 <= q < x.len() ==> fsim(#[trigger] x[q], x2[q])
    ensures fsim(esum(x, m, n), esum(x2, m2, n)), !fneg0(esum(x, m, n)), forall|q: int| 0 <= q < n ==> fsim(sm_e(#[trigger] x[q], m), sm_e(x2[q], m2)) decreases n
{
    if n <= 0 { ax_sim_refl(0.0f32); ax_neg0_zero(); }
    else {
        lem_sim_esum(x, x2, m, m2, n - 1);
        ax_sim_sub(x[n - 1], m, x2[n - 1], m2); ax_sim_exp(fsub(x[n - 1], m), fsub(x2[n - 1], m2));
        ax_sim_add(esum(x, m, n - 1), sm_e(x[n - 1], m), esum(x2, m2, n - 1), sm_e(x2[n - 1], m2)); ax_neg0_add(esum(x, m, n - 1), sm_e(x[n - 1], m));
    }
}
pub proof fn lem_sim_softmax(x: Seq<f32>, x2: Seq<f32>, y: Seq<f32>, y2: Seq<f32>)
    requires x.len() == x2.len(), forall|q: int| 0 <= q < x.len() ==> fsim(#[trigger] x[q], x2[q]), softmax_of(x, y), softmax_of(x2, y2)
    ensures y.len() == y2.len(), forall|n: int| 0 <= n < y.len() ==> fsim(#[trigger] y[n], y2[n])
{
    let l = x.len() as int;
    let m = choose|m: f32| #[trigger] dmax(x, l, m) && forall|n: int| 0 <= n < x.len() ==> #[trigger] y[n] == fdiv(sm_e(x[n], m), esum(x, m, l));
    let m2 = choose|m: f32| #[trigger] dmax(x2, l, m) && forall|n: int| 0 <= n < x2.len() ==> #[trigger] y2[n] == fdiv(sm_e(x2[n], m), esum(x2, m, l));
    ax_ninf();
    if m != ninf() { let q = choose|q: int| 0 <= q < l && #[trigger] x[q] == m; assert(!fgt(x2[q], m2)); ax_sim_refl(m2); ax_sim_gt(x[q], m2, x2[q], m2); }
    if m2 != ninf() { let q = choose|q: int| 0 <= q < l && #[trigger] x2[q] == m2; assert(!fgt(x[q], m)); ax_sim_refl(m); ax_sim_gt(x[q], m, x2[q], m); }
    ax_tri(m, m2); ax_sim_sym(m, m2);
    assert forall|q: int| 0 <= q < l implies fsim(#[trigger] x2[q], x[q]) by { ax_sim_sym(x[q], x2[q]); }
    lem_sim_esum(x, x2, m, m2, l); lem_sim_esum(x2, x, m2, m, l);
    assert forall|n: int| 0 <= n < y.len() implies fsim(#[trigger] y[n], y2[n]) by {
        assert(fsim(sm_e(x[n], m), sm_e(x2[n], m2)));
        assert(y2[n] == fdiv(sm_e(x2[n], m2), esum(x2, m2, l)));
        ax_sim_div(sm_e(x[n], m), esum(x, m, l), sm_e(x2[n], m2), esum(x2, m2, l));
    }
}
// A layer's result depends only on its configuration, parameters and input: not on the mode.
pub proof fn lem_fwd_sim(c: LCfg, c2: LCfg, m: NetworkRunState, m2: NetworkRunState, x: Tensor, x2: Tensor, y: Tensor, y2: Tensor)
    requires cfg_ok(c), cfg_same(c, c2), sim(x, x2), x.shape == c.ish, sized(y, c.osh), sized(y2, c.osh), fwd(c, m, x, y), fwd(c2, m2, x2, y2)
    ensures sim(y, y2)
{
    let o = c.osh;
    assert forall|n: int| 0 <= n < y.data@.len() implies fsim(#[trigger] y.data@[n], y2.data@[n]) by {
        lem_surj(o, n);
        let (i, j, k) = choose|i: int, j: int, k: int| inr(o, i, j, k) && lin(o, i, j, k) == n;
        match (c.kind, c2.kind) {
            (LKind::Dense { w, b }, LKind::Dense { w: w2, b: b2 }) => {
                lem_same_sim(w, w2); lem_same_sim(b, b2);
                lem_sim_mm(w, x, w2, x2, i, j, k, w.shape.dj as int);
                lem_sim_at(b, b2, i, j, k);
                ax_sim_add(mm_sum(w, x, i, j, k, w.shape.dj as int), b.at(i, j, k), mm_sum(w2, x2, i, j, k, w.shape.dj as int), b2.at(i, j, k));
                lem_sim_rect(m, m2, dense_pre(w, b, x, i, j, k), dense_pre(w2, b2, x2, i, j, k));
                assert(y.data@[lin(o, i, j, k)] == rect(m, dense_pre(w, b, x, i, j, k)));
                assert(y2.data@[lin(o, i, j, k)] == rect(m2, dense_pre(w2, b2, x2, i, j, k)));
            },
            (LKind::Conv { ks, bs, s }, LKind::Conv { ks: ks2, bs: bs2, s: s2 }) => {
                assert(ks[k].wf() && bs[k].wf() && ks[k].same(ks2[k]) && bs[k].same(bs2[k]) && ks[k].shape == ks[0].shape && bs[k].shape == sh(1, 1, 1));
                lem_same_sim(ks[k], ks2[k]); lem_same_sim(bs[k], bs2[k]);
                lem_out(x.shape.di as int, ks[k].shape.di as int, s as int); lem_out(x.shape.dj as int, ks[k].shape.dj as int, s as int);
                lem_sim_cvk(x, ks[k], x2, ks2[k], s as int, i, j, ks[k].shape.dk as int);
                lem_sim_at(bs[k], bs2[k], 0, 0, 0);
                ax_sim_add(conv_at(x, ks[k], s as int, i, j), bias_val(bs[k]), conv_at(x2, ks2[k], s as int, i, j), bias_val(bs2[k]));
                lem_sim_rect(m, m2, conv_pre(ks, bs, s, x, i, j, k), conv_pre(ks2, bs2, s, x2, i, j, k));
                assert(y.data@[lin(o, i, j, k)] == rect(m, conv_pre(ks, bs, s, x, i, j, k)));
                assert(y2.data@[lin(o, i, j, k)] == rect(m2, conv_pre(ks2, bs2, s, x2, i, j, k)));
            },
            (LKind::Pool { mask, s }, LKind::Pool { mask: mask2, s: s2 }) => {
                lem_out(x.shape.di as int, mask.di as int, s as int); lem_out(x.shape.dj as int, mask.dj as int, s as int);
                assert(wmax(x, mask, s as int, i, j, k, y.data@[lin(o, i, j, k)]));
                assert(wmax(x2, mask, s as int, i, j, k, y2.data@[lin(o, i, j, k)]));
                lem_sim_wmax(x, x2, mask, s as int, i, j, k, y.data@[n], y2.data@[n]);
            },
            _ => { lem_sim_softmax(x.data@, x2.data@, y.data@, y2.data@); },
        }
    }
}
// Two inference runs over equally configured networks, in any modes and after any history, agree at every state.
pub open spec fn ran(b: Network, a: Network, x: Tensor) -> bool { a.inv() && b.inv() && a.n() > 0 && b.same_layers(a) && b.intermediate_states@[0].same(x) && x.wf() && x.shape == a.input_shape && forall|i: int| 0 <= i < b.n() ==> #[trigger] b.stepped(a, i) }
pub proof fn lem_infer_sim(a: Network, b: Network, a2: Network, b2: Network, x: Tensor, n: int)
    requires ran(b, a, x), ran(b2, a2, x), a.n() == a2.n(), forall|i: int| 0 <= i < a.n() ==> cfg_same(#[trigger] a.lc(i), a2.lc(i)), 0 <= n <= a.n()
    ensures sim(b.intermediate_states@[n], b2.intermediate_states@[n]) decreases n
{
    lem_same_sized(a, b); lem_same_sized(a2, b2);
    if n == 0 {
        let (s, t) = (b.intermediate_states@[0], b2.intermediate_states@[0]);
        assert forall|q: int| 0 <= q < s.data@.len() implies fsim(#[trigger] s.data@[q], t.data@[q]) by { ax_sim_refl(x.data@[q]); }
        assert(sized(s, b.bsh(0)) && sized(t, b2.bsh(0)));
    } else {
        lem_infer_sim(a, b, a2, b2, x, n - 1);
        assert(b.stepped(a, n - 1) && b2.stepped(a2, n - 1));
        assert(cfg_same(a.lc(n - 1), a2.lc(n - 1)));
        assert(a.layers@[n - 1].inv() && cfg_ok(a.layers@[n - 1].cfg()));
        assert(sized(b.intermediate_states@[n], b.bsh(n)) && sized(b2.intermediate_states@[n], b2.bsh(n)) && sized(b.intermediate_states@[n - 1], b.bsh(n - 1)));
        if n - 1 > 0 { assert(a.link(n - 1)); }
        lem_fwd_sim(a.lc(n - 1), a2.lc(n - 1), a.run_state, a2.run_state, b.intermediate_states@[n - 1], b2.intermediate_states@[n - 1], b.intermediate_states@[n], b2.intermediate_states@[n]);
    }
}

// ---------------------------------------------------------------- saving and loading
// A network saved and loaded into an empty one: loading succeeds and gives the same layers.
pub proof fn lem_save_load(a: Network, sn: SerializedNetwork, e: Network)
    requires a.inv(), a.serial_of(sn.serial_layers@), e.inv(), e.n() == 0, crate::serde_facts::network_plain()
    ensures e.loads(enc(sn)), forall|l: Network| #[trigger] l.loaded(e, net_of(enc(sn)), net_of(enc(sn)).len() as int) ==> l.n() == a.n() && l.run_state == e.run_state && forall|i: int| 0 <= i < a.n() ==> cfg_same(#[trigger] l.lc(i), a.lc(i)) && l.layers@[i].tag() == a.layers@[i].tag()
{
    ax_rt_network(sn);
    let sl = net_of(enc(sn));
    assert forall|i: int| 0 <= i < sl.len() implies #[trigger] e.link_ok(sl, i) by {
        assert(a.serial_at(sn.serial_layers@[i], i)); assert(sl_same(sl[i], sn.serial_layers@[i]));
        if i > 0 { assert(a.serial_at(sn.serial_layers@[i - 1], i - 1)); assert(sl_same(sl[i - 1], sn.serial_layers@[i - 1])); assert(a.link(i)); }
    }
    assert forall|l: Network| #[trigger] l.loaded(e, sl, sl.len() as int) implies l.n() == a.n() && l.run_state == e.run_state && forall|i: int| 0 <= i < a.n() ==> cfg_same(#[trigger] l.lc(i), a.lc(i)) && l.layers@[i].tag() == a.layers@[i].tag() by {
        assert forall|i: int| 0 <= i < a.n() implies cfg_same(#[trigger] l.lc(i), a.lc(i)) && l.layers@[i].tag() == a.layers@[i].tag() by {
            assert(l.loaded_at(e, sl[i], i)); assert(a.serial_at(sn.serial_layers@[i], i)); assert(sl_same(sl[i], sn.serial_layers@[i]));
        }
    }
}
}
