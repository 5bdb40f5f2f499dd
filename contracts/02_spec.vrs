pub mod vspec {
use vstd::prelude::*;
pub use crate::fax::*;
use crate::tensor::Tensor;
use crate::tensor::helper::*;

// equal tensors: the same shape and every item equal as a number
pub open spec fn teq(a: Tensor, b: Tensor) -> bool { a.shape == b.shape && a.data@.len() == b.data@.len() && forall|n: int| 0 <= n < a.data@.len() ==> feq(#[trigger] a.data@[n], b.data@[n]) }

// ---------------------------------------------------------------- shapes and addressing
pub open spec fn prod(a: int, b: int, c: int) -> int { a * b * c }
pub open spec fn items(s: TensorShape) -> int { prod(s.di as int, s.dj as int, s.dk as int) }
pub open spec fn shape_ok(s: TensorShape) -> bool { s.di * s.dj <= u32::MAX && items(s) <= u32::MAX }
#[verifier::opaque]
pub open spec fn lin(s: TensorShape, i: int, j: int, k: int) -> int { i + s.di * j + s.di * s.dj * k }
pub open spec fn inr(s: TensorShape, i: int, j: int, k: int) -> bool { 0 <= i < s.di && 0 <= j < s.dj && 0 <= k < s.dk }
pub open spec fn strides_of(s: TensorShape, t: TensorStride) -> bool { t.i == 1 && t.j == s.di && t.k == s.di * s.dj }
pub open spec fn sh(a: u32, b: u32, c: u32) -> TensorShape { TensorShape { di: a, dj: b, dk: c } }
pub open spec fn tr(s: TensorShape) -> TensorShape { TensorShape { di: s.dj, dj: s.di, dk: s.dk } }

impl Tensor {
    pub open spec fn wf(&self) -> bool { shape_ok(self.shape) && strides_of(self.shape, self.strides) && self.data@.len() == items(self.shape) }
    pub open spec fn at(&self, i: int, j: int, k: int) -> f32 { self.data@[lin(self.shape, i, j, k)] }
    // same shape and strides: what every operation on an existing tensor keeps
    pub open spec fn same_frame(&self, o: Tensor) -> bool { self.shape == o.shape && self.strides == o.strides && self.data@.len() == o.data@.len() }
    pub open spec fn same(&self, o: Tensor) -> bool { self.same_frame(o) && self.data@ == o.data@ }
    pub open spec fn all_is(&self, v: f32) -> bool { forall|n: int| 0 <= n < self.data@.len() ==> #[trigger] self.data@[n] == v }
}

pub proof fn lem_lin(s: TensorShape)
    ensures forall|i: int, j: int, k: int| inr(s, i, j, k) ==> 0 <= #[trigger] lin(s, i, j, k) < items(s),
{
    assert forall|i: int, j: int, k: int| inr(s, i, j, k) implies 0 <= #[trigger] lin(s, i, j, k) < items(s) by { lem_lin1(s, i, j, k); }
}
// the terms of an address, whichever way round they are multiplied
pub proof fn lem_terms(st: TensorStride, x: TensorIndex)
    ensures 0 <= st.i * x.i, 0 <= st.j * x.j, 0 <= st.k * x.k, st.i * x.i == x.i * st.i, st.j * x.j == x.j * st.j, st.k * x.k == x.k * st.k
{
    assert(0 <= st.i * x.i && st.i * x.i == x.i * st.i) by(nonlinear_arith) requires 0 <= st.i, 0 <= x.i;
    assert(0 <= st.j * x.j && st.j * x.j == x.j * st.j) by(nonlinear_arith) requires 0 <= st.j, 0 <= x.j;
    assert(0 <= st.k * x.k && st.k * x.k == x.k * st.k) by(nonlinear_arith) requires 0 <= st.k, 0 <= x.k;
}
pub proof fn lem_lin1(s: TensorShape, i: int, j: int, k: int)
    requires inr(s, i, j, k),
    ensures 0 <= lin(s, i, j, k) < items(s), lin(s, i, j, k) == i + s.di * j + s.di * s.dj * k, 0 <= s.di * j, 0 <= s.di * s.dj * k, i + s.di * j < s.di * s.dj, s.di * s.dj * (k + 1) <= items(s), s.di * j + s.di <= s.di * s.dj
{
    reveal(lin);
    let (a, b, c) = (s.di as int, s.dj as int, s.dk as int);
    assert(0 <= a * j) by(nonlinear_arith) requires 0 <= a, 0 <= j;
    assert(a * (j + 1) <= a * b) by(nonlinear_arith) requires 0 <= a, j + 1 <= b;
    assert(a * (j + 1) == a * j + a) by(nonlinear_arith);
    assert(0 <= a * b) by(nonlinear_arith) requires 0 <= a, 0 <= b;
    assert(0 <= (a * b) * k) by(nonlinear_arith) requires 0 <= a * b, 0 <= k;
    assert((a * b) * (k + 1) <= (a * b) * c) by(nonlinear_arith) requires 0 <= a * b, k + 1 <= c;
    assert((a * b) * (k + 1) == (a * b) * k + a * b) by(nonlinear_arith);
}
// Two in-range positions with the same address are the same position.
pub proof fn lem_inj(s: TensorShape)
    ensures forall|i: int, j: int, k: int, a: int, b: int, c: int| inr(s, i, j, k) && inr(s, a, b, c) && #[trigger] lin(s, i, j, k) == #[trigger] lin(s, a, b, c) ==> i == a && j == b && k == c
{
    assert forall|i: int, j: int, k: int, a: int, b: int, c: int| inr(s, i, j, k) && inr(s, a, b, c) && #[trigger] lin(s, i, j, k) == #[trigger] lin(s, a, b, c) implies i == a && j == b && k == c by { lem_inj1(s, i, j, k, a, b, c); }
}
pub proof fn lem_inj1(s: TensorShape, i: int, j: int, k: int, a: int, b: int, c: int)
    requires inr(s, i, j, k), inr(s, a, b, c), lin(s, i, j, k) == lin(s, a, b, c)
    ensures i == a, j == b, k == c
{
    lem_lin1(s, i, j, k); lem_lin1(s, a, b, c);
    let d = s.di * s.dj;
    let x = i + s.di * j; let y = a + s.di * b;
    assert(k == c) by(nonlinear_arith) requires x + d * k == y + d * c, 0 <= x < d, 0 <= y < d;
    assert(j == b) by(nonlinear_arith) requires i + s.di * j == a + s.di * b, 0 <= i < s.di, 0 <= a < s.di;
}
// Every address in range is the address of an in-range position.
pub proof fn lem_surj(s: TensorShape, n: int)
    requires 0 <= n < items(s),
    ensures exists|i: int, j: int, k: int| inr(s, i, j, k) && lin(s, i, j, k) == n
{
    let d = s.di as int; let p = s.di * s.dj;
    let (a, b, c) = (s.di as int, s.dj as int, s.dk as int);
    assert(p > 0 && d > 0) by(nonlinear_arith) requires 0 <= n < a * b * c, a >= 0, b >= 0, c >= 0, d == a, p == a * b;
    let k = n / p; let r = n % p; let j = r / d; let i = r % d;
    assert(n == p * k + r && 0 <= r < p && 0 <= k) by(nonlinear_arith) requires p > 0, k == n / p, r == n % p, n >= 0;
    assert(r == d * j + i && 0 <= i < d && 0 <= j) by(nonlinear_arith) requires d > 0, j == r / d, i == r % d, r >= 0;
    assert(k < c) by(nonlinear_arith) requires n == p * k + r, 0 <= r, n < p * c, p > 0;
    assert(j < b) by(nonlinear_arith) requires r == d * j + i, 0 <= i, r < d * b, d > 0;
    reveal(lin);
    assert(lin(s, i, j, k) == n);
    assert(inr(s, i, j, k));
}
// After one write at an in-range position every other position keeps its item.
pub proof fn lem_upd(s: TensorShape, old_d: Seq<f32>, new_d: Seq<f32>, i: int, j: int, k: int, v: f32)
    requires inr(s, i, j, k), old_d.len() == items(s), new_d == old_d.update(lin(s, i, j, k), v)
    ensures new_d.len() == items(s), new_d[lin(s, i, j, k)] == v,
        forall|a: int, b: int, c: int| inr(s, a, b, c) && !(a == i && b == j && c == k) ==> new_d[#[trigger] lin(s, a, b, c)] == old_d[lin(s, a, b, c)]
{
    lem_lin(s); lem_inj(s);
}
pub proof fn lem_prod0(a: int, b: int, c: int) requires a >= 0, b >= 0, c >= 0 ensures prod(a, b, c) >= 0, a * b >= 0
{ assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; assert((a * b) * c >= 0) by(nonlinear_arith) requires a * b >= 0, c >= 0; }
pub proof fn lem_tr(s: TensorShape) ensures items(tr(s)) == items(s), tr(s).di * tr(s).dj == s.di * s.dj
{ let (a, b, c) = (s.di as int, s.dj as int, s.dk as int); assert(b * a == a * b) by(nonlinear_arith); }
// the first number counts most
pub open spec fn lexi(a: int, b: int, c: int, x: int, y: int, z: int) -> bool { a < x || (a == x && (b < y || (b == y && c < z))) }
// lexicographic progress of the nested loops over (k, j, i)
pub open spec fn before(a: int, b: int, c: int, i: int, j: int, k: int) -> bool { c < k || (c == k && (b < j || (b == j && a < i))) }

// ---------------------------------------------------------------- elementwise
pub open spec fn relu(x: f32) -> f32 { if fgt(x, 0.0f32) { x } else { 0.0f32 } }

// d is the incoming gradient with the rectified positions masked out
pub open spec fn masked(d: Tensor, mask: Tensor, g: Tensor) -> bool { d.wf() && d.shape == mask.shape && d.data@.len() == mask.data@.len() && forall|n: int| 0 <= n < d.data@.len() ==> #[trigger] d.data@[n] == fmul(mask.data@[n], g.data@[n]) }
pub open spec fn konst(n: int, v: f32) -> Seq<f32> { Seq::new(n as nat, |i: int| v) }

// ---------------------------------------------------------------- matrix products (inner sums in index order)
pub open spec fn mm_sum(a: Tensor, b: Tensor, i: int, j: int, k: int, n: int) -> f32 decreases n
{ if n <= 0 { 0.0f32 } else { fadd(mm_sum(a, b, i, j, k, n - 1), fmul(a.at(i, n - 1, k), b.at(n - 1, j, k))) } }
pub open spec fn mt1_sum(a: Tensor, b: Tensor, i: int, j: int, k: int, n: int) -> f32 decreases n
{ if n <= 0 { 0.0f32 } else { fadd(mt1_sum(a, b, i, j, k, n - 1), fmul(a.at(n - 1, i, k), b.at(n - 1, j, k))) } }
pub open spec fn mt2_sum(a: Tensor, b: Tensor, i: int, j: int, k: int, n: int) -> f32 decreases n
{ if n <= 0 { 0.0f32 } else { fadd(mt2_sum(a, b, i, j, k, n - 1), fmul(a.at(i, n - 1, k), b.at(j, n - 1, k))) } }
pub open spec fn mm_dims(a: TensorShape, b: TensorShape, r: TensorShape) -> bool { a.dk == b.dk && a.dk == r.dk && a.dj == b.di && a.di == r.di && b.dj == r.dj }

// ---------------------------------------------------------------- sliding windows
pub open spec fn fit1(im: int, w: int, s: int) -> bool { s > 0 && 0 < w <= im && (im - w) % s == 0 }
pub open spec fn win_fit(im: TensorShape, w: TensorShape, s: u32) -> bool { fit1(im.di as int, w.di as int, s as int) && fit1(im.dj as int, w.dj as int, s as int) }
pub open spec fn outdim(im: int, w: int, s: int) -> int { (im - w) / s + 1 }
pub open spec fn pool_dims(im: TensorShape, w: TensorShape, s: u32, r: TensorShape) -> bool {
    win_fit(im, w, s) && r.dk == im.dk && r.di == outdim(im.di as int, w.di as int, s as int) && r.dj == outdim(im.dj as int, w.dj as int, s as int) }
pub open spec fn conv_dims(im: TensorShape, w: TensorShape, s: u32, r: TensorShape, ch: u32) -> bool {
    win_fit(im, w, s) && w.dk == im.dk && r.di == outdim(im.di as int, w.di as int, s as int) && r.dj == outdim(im.dj as int, w.dj as int, s as int) && ch < r.dk }
pub proof fn lem_out(im: int, w: int, s: int) requires s > 0, 0 < w <= im ensures 0 < outdim(im, w, s) <= im
{ assert(0 <= (im - w) / s <= im - w) by(nonlinear_arith) requires s > 0, 0 < w <= im; }
// window offset x inside the window at output position i stays inside the image
pub proof fn lem_win(im: int, w: int, s: int, i: int, x: int)
    requires s > 0, 0 < w <= im, 0 <= i < outdim(im, w, s), 0 <= x < w
    ensures 0 <= i * s, i * s + x < im, i * s <= im - w, s * i == i * s
{
    let q = (im - w) / s;
    assert(q * s <= im - w) by(nonlinear_arith) requires q == (im - w) / s, s > 0;
    assert(i * s <= q * s) by(nonlinear_arith) requires 0 <= i <= q, s > 0;
    assert(0 <= i * s) by(nonlinear_arith) requires 0 <= i, s > 0;
    assert(s * i == i * s) by(nonlinear_arith);
}

// ---------------------------------------------------------------- max pooling
pub open spec fn win_in(w: TensorShape, ii: int, jj: int) -> bool { 0 <= ii < w.di && 0 <= jj < w.dj }
pub open spec fn win_at(im: Tensor, s: int, i: int, j: int, k: int, ii: int, jj: int) -> f32 { im.at(i * s + ii, j * s + jj, k) }
pub open spec fn wbefore(a: int, b: int, ii: int, jj: int) -> bool { b < jj || (b == jj && a < ii) }
// r is the maximum of the window items that come before (pi, pj) in storage order
pub open spec fn pmax(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, pi: int, pj: int, r: f32) -> bool {
    &&& !fnan(r)
    &&& forall|a: int, b: int| win_in(w, a, b) && wbefore(a, b, pi, pj) ==> !fgt(#[trigger] win_at(im, s, i, j, k, a, b), r)
    &&& r == ninf() || (fgt(r, ninf()) && exists|a: int, b: int| win_in(w, a, b) && wbefore(a, b, pi, pj) && #[trigger] win_at(im, s, i, j, k, a, b) == r)
}
pub open spec fn wmax(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, r: f32) -> bool { pmax(im, w, s, i, j, k, 0, w.dj as int, r) }
pub open spec fn porigin(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, pi: int, pj: int, r: f32, o: int) -> bool {
    exists|a: int, b: int| #[trigger] win_in(w, a, b) && (wbefore(a, b, pi, pj) || (a == 0 && b == 0)) && o == lin(im.shape, i * s + a, j * s + b, k)
        && (fgt(r, ninf()) ==> win_at(im, s, i, j, k, a, b) == r && (forall|c: int, d: int| win_in(w, c, d) && wbefore(c, d, a, b) ==> fnan(#[trigger] win_at(im, s, i, j, k, c, d)) || fgt(r, win_at(im, s, i, j, k, c, d))))
}
pub open spec fn worigin(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, r: f32, o: int) -> bool { porigin(im, w, s, i, j, k, 0, w.dj as int, r, o) }
// one step of the running maximum
pub proof fn lem_pmax(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, ii: int, jj: int, m: f32, m2: f32)
    requires pmax(im, w, s, i, j, k, ii, jj, m), win_in(w, ii, jj),
        m2 == (if fgt(win_at(im, s, i, j, k, ii, jj), m) { win_at(im, s, i, j, k, ii, jj) } else { m })
    ensures pmax(im, w, s, i, j, k, ii + 1, jj, m2)
{
    let x = win_at(im, s, i, j, k, ii, jj);
    ax_ninf();
    if fgt(x, m) {
        ax_gt_nan(x, m); ax_gt_irrefl(x);
        if fgt(m, ninf()) { ax_gt_trans(x, m, ninf()); }
        assert forall|a: int, b: int| win_in(w, a, b) && wbefore(a, b, ii + 1, jj) implies !fgt(#[trigger] win_at(im, s, i, j, k, a, b), x) by {
            let y = win_at(im, s, i, j, k, a, b);
            if fgt(y, x) { ax_gt_trans(y, x, m); }
        }
        assert(win_in(w, ii, jj) && wbefore(ii, jj, ii + 1, jj) && win_at(im, s, i, j, k, ii, jj) == x);
    } else {
        assert forall|a: int, b: int| win_in(w, a, b) && wbefore(a, b, ii + 1, jj) implies !fgt(#[trigger] win_at(im, s, i, j, k, a, b), m) by {}
        if m != ninf() {
            let (a, b) = choose|a: int, b: int| win_in(w, a, b) && wbefore(a, b, ii, jj) && #[trigger] win_at(im, s, i, j, k, a, b) == m;
            assert(win_in(w, a, b) && wbefore(a, b, ii + 1, jj) && win_at(im, s, i, j, k, a, b) == m);
        }
    }
}
pub proof fn lem_porigin(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, ii: int, jj: int, m: f32, o: int, m2: f32, o2: int)
    requires pmax(im, w, s, i, j, k, ii, jj, m), win_in(w, ii, jj), porigin(im, w, s, i, j, k, ii, jj, m, o),
        fgt(win_at(im, s, i, j, k, ii, jj), m) ==> m2 == win_at(im, s, i, j, k, ii, jj) && o2 == lin(im.shape, i * s + ii, j * s + jj, k),
        !fgt(win_at(im, s, i, j, k, ii, jj), m) ==> m2 == m && o2 == o
    ensures porigin(im, w, s, i, j, k, ii + 1, jj, m2, o2)
{
    let x = win_at(im, s, i, j, k, ii, jj);
    if fgt(x, m) {
        assert forall|c: int, d: int| win_in(w, c, d) && wbefore(c, d, ii, jj) implies fnan(#[trigger] win_at(im, s, i, j, k, c, d)) || fgt(x, win_at(im, s, i, j, k, c, d)) by {
            let y = win_at(im, s, i, j, k, c, d);
            if !fnan(y) { ax_gt_mid(x, m, y); }
        }
        assert(win_in(w, ii, jj) && wbefore(ii, jj, ii + 1, jj));
    } else {
        let (a, b) = choose|a: int, b: int| #[trigger] win_in(w, a, b) && (wbefore(a, b, ii, jj) || (a == 0 && b == 0)) && o == lin(im.shape, i * s + a, j * s + b, k)
        && (fgt(m, ninf()) ==> win_at(im, s, i, j, k, a, b) == m && (forall|c: int, d: int| win_in(w, c, d) && wbefore(c, d, a, b) ==> fnan(#[trigger] win_at(im, s, i, j, k, c, d)) || fgt(m, win_at(im, s, i, j, k, c, d))));
        assert(win_in(w, a, b) && (wbefore(a, b, ii + 1, jj) || (a == 0 && b == 0)));
    }
}
// the maximum is unique up to the sign of zero
pub proof fn lem_wmax_unique(im: Tensor, w: TensorShape, s: int, i: int, j: int, k: int, r: f32, q: f32)
    requires wmax(im, w, s, i, j, k, r), wmax(im, w, s, i, j, k, q)
    ensures feq(r, q)
{
    ax_ninf();
    if r != ninf() { let (a, b) = choose|a: int, b: int| win_in(w, a, b) && wbefore(a, b, 0, w.dj as int) && #[trigger] win_at(im, s, i, j, k, a, b) == r; assert(!fgt(r, q)); }
    if q != ninf() { let (a, b) = choose|a: int, b: int| win_in(w, a, b) && wbefore(a, b, 0, w.dj as int) && #[trigger] win_at(im, s, i, j, k, a, b) == q; assert(!fgt(q, r)); }
    ax_tri(r, q);
}

// ---------------------------------------------------------------- scatter-add
pub open spec fn scat(t: Seq<f32>, src: Seq<f32>, l: Seq<u32>, n: int) -> Seq<f32> decreases n
{ if n <= 0 { t } else { let p = scat(t, src, l, n - 1); p.update(l[n - 1] as int, fadd(p[l[n - 1] as int], src[n - 1])) } }
pub proof fn lem_scat_frame(t: Seq<f32>, src: Seq<f32>, l: Seq<u32>, n: int)
    requires 0 <= n <= l.len()
    ensures scat(t, src, l, n).len() == t.len(), forall|m: int| 0 <= m < t.len() && (forall|q: int| 0 <= q < n ==> l[q] != m) ==> #[trigger] scat(t, src, l, n)[m] == t[m]
    decreases n
{ if n > 0 { lem_scat_frame(t, src, l, n - 1); } }

// ---------------------------------------------------------------- norm, softmax
pub open spec fn sqsum(d: Seq<f32>, n: int) -> f32 decreases n { if n <= 0 { 0.0f32 } else { fadd(sqsum(d, n - 1), fpowi(d[n - 1], 2)) } }
pub open spec fn dmax(d: Seq<f32>, n: int, m: f32) -> bool {
    !fnan(m) && (forall|q: int| 0 <= q < n ==> !fgt(#[trigger] d[q], m)) && (m == ninf() || (fgt(m, ninf()) && exists|q: int| 0 <= q < n && #[trigger] d[q] == m)) }
pub open spec fn sm_e(x: f32, m: f32) -> f32 { fexp(fsub(x, m)) }
pub open spec fn esum(d: Seq<f32>, m: f32, n: int) -> f32 decreases n { if n <= 0 { 0.0f32 } else { fadd(esum(d, m, n - 1), sm_e(d[n - 1], m)) } }
pub open spec fn finite(d: Seq<f32>) -> bool { forall|n: int| 0 <= n < d.len() ==> ffinite(#[trigger] d[n]) }
pub open spec fn softmax_of(x: Seq<f32>, y: Seq<f32>) -> bool {
    y.len() == x.len() && exists|m: f32| #[trigger] dmax(x, x.len() as int, m) && forall|n: int| 0 <= n < x.len() ==> #[trigger] y[n] == fdiv(sm_e(x[n], m), esum(x, m, x.len() as int)) }
pub proof fn lem_dmax(d: Seq<f32>, n: int, m: f32, m2: f32)
    requires 0 <= n < d.len(), dmax(d, n, m), m2 == (if fgt(d[n], m) { d[n] } else { m })
    ensures dmax(d, n + 1, m2)
{
    ax_ninf();
    if fgt(d[n], m) {
        ax_gt_nan(d[n], m); ax_gt_irrefl(d[n]);
        if fgt(m, ninf()) { ax_gt_trans(d[n], m, ninf()); }
        assert forall|q: int| 0 <= q < n + 1 implies !fgt(#[trigger] d[q], d[n]) by { if fgt(d[q], d[n]) { ax_gt_trans(d[q], d[n], m); } }
    } else if m != ninf() {
        let q = choose|q: int| 0 <= q < n && #[trigger] d[q] == m;
        assert(0 <= q < n + 1 && d[q] == m);
    }
}
pub proof fn lem_esum(d: Seq<f32>, m: f32, n: int)
    requires finite(d), dmax(d, d.len() as int, m), d.len() > 0, 0 <= n <= d.len()
    ensures !fnan(esum(d, m, n)), !fgt(0.0f32, esum(d, m, n)), ffinite(m),
        forall|q: int| 0 <= q < n ==> funit(sm_e(#[trigger] d[q], m)) && !fgt(sm_e(d[q], m), esum(d, m, n))
    decreases n
{
    ax_zero(); ax_gt_irrefl(0.0f32);
    lem_max_finite(d, m);
    if n > 0 {
        lem_esum(d, m, n - 1);
        let x = d[n - 1]; let s = esum(d, m, n - 1); let e = sm_e(x, m);
        ax_sub_le(x, m); ax_exp_unit(fsub(x, m)); ax_add_ge(s, e);
        assert forall|q: int| 0 <= q < n implies funit(sm_e(#[trigger] d[q], m)) && !fgt(sm_e(d[q], m), esum(d, m, n)) by {
            if q < n - 1 { ax_ge_trans(sm_e(d[q], m), s, fadd(s, e)); }
        }
    }
}
pub proof fn lem_max_finite(d: Seq<f32>, m: f32)
    requires finite(d), dmax(d, d.len() as int, m), d.len() > 0
    ensures ffinite(m)
{ ax_finite(d[0]); ax_ninf(); assert(!fgt(d[0], m)); if m == ninf() { assert(false); } }
// every output is in [0, 1] and is not NaN; the largest item's exponential is 1, so the sum is at least 1
pub proof fn lem_softmax_unit(x: Seq<f32>, y: Seq<f32>)
    requires softmax_of(x, y), finite(x), x.len() > 0
    ensures forall|n: int| 0 <= n < y.len() ==> funit(#[trigger] y[n])
{
    let m = choose|m: f32| #[trigger] dmax(x, x.len() as int, m) && forall|n: int| 0 <= n < x.len() ==> #[trigger] y[n] == fdiv(sm_e(x[n], m), esum(x, m, x.len() as int));
    lem_esum(x, m, x.len() as int);
    ax_finite(x[0]); ax_ninf(); assert(!fgt(x[0], m));
    assert(m != ninf());
    let q = choose|q: int| 0 <= q < x.len() && #[trigger] x[q] == m;
    let s = esum(x, m, x.len() as int);
    ax_sub_self(m); ax_exp_zero(fsub(m, m)); ax_eq_gt(sm_e(m, m), 1.0f32, s);
    assert(!fgt(1.0f32, s));
    assert forall|n: int| 0 <= n < y.len() implies funit(#[trigger] y[n]) by { assert(funit(sm_e(x[n], m))); ax_div_unit(sm_e(x[n], m), s); }
}

// a larger item never gets a smaller result
pub proof fn lem_softmax_order(x: Seq<f32>, y: Seq<f32>, a: int, b: int)
    requires softmax_of(x, y), finite(x), 0 <= a < x.len(), 0 <= b < x.len(), !fgt(x[a], x[b])
    ensures !fgt(y[a], y[b])
{
    let m = choose|m: f32| #[trigger] dmax(x, x.len() as int, m) && forall|n: int| 0 <= n < x.len() ==> #[trigger] y[n] == fdiv(sm_e(x[n], m), esum(x, m, x.len() as int));
    let s = esum(x, m, x.len() as int);
    lem_softmax_sum_ge1(x, m);
    lem_esum(x, m, x.len() as int);
    assert(funit(sm_e(x[a], m)) && funit(sm_e(x[b], m)));
    ax_sub_le(x[a], m); ax_sub_le(x[b], m);
    ax_sub_mono(x[a], x[b], m); ax_exp_mono(fsub(x[a], m), fsub(x[b], m));
    ax_div_mono(sm_e(x[a], m), sm_e(x[b], m), s);
}
pub proof fn lem_softmax_sum_ge1(x: Seq<f32>, m: f32)
    requires dmax(x, x.len() as int, m), finite(x), x.len() > 0
    ensures !fnan(esum(x, m, x.len() as int)), !fgt(1.0f32, esum(x, m, x.len() as int))
{
    lem_esum(x, m, x.len() as int);
    ax_finite(x[0]); ax_ninf(); assert(!fgt(x[0], m));
    let q = choose|q: int| 0 <= q < x.len() && #[trigger] x[q] == m;
    ax_sub_self(m); ax_exp_zero(fsub(m, m)); ax_eq_gt(sm_e(m, m), 1.0f32, esum(x, m, x.len() as int));
}
// the sum of the results, as real numbers, is 1 up to n * 2^-23
pub open spec fn rsum(y: Seq<f32>, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(y, n - 1) + rv(y[n - 1]) } }
pub open spec fn resum(x: Seq<f32>, m: f32, n: int) -> real decreases n { if n <= 0 { 0real } else { resum(x, m, n - 1) + rv(sm_e(x[n - 1], m)) } }
pub open spec fn ulp1() -> real { 1real / 16777216real }
pub proof fn lem_esum_real(x: Seq<f32>, m: f32, n: int)
    requires finite(x), dmax(x, x.len() as int, m), x.len() > 0, 0 <= n <= x.len()
    ensures ffinite(esum(x, m, n)), !fgt(esum(x, m, n), 16777216.0f32), rv(esum(x, m, n)) >= 0real,
        -((n as real) * ulp1() * rv(esum(x, m, n))) <= rv(esum(x, m, n)) - resum(x, m, n) <= (n as real) * ulp1() * rv(esum(x, m, n))
    decreases n
{
    ax_zero(); ax_rv_one(); ax_cap_zero();
    lem_esum(x, m, n);
    if n > 0 {
        lem_esum(x, m, n - 1); lem_esum_real(x, m, n - 1);
        let s = esum(x, m, n - 1); let e = sm_e(x[n - 1], m); let t = fadd(s, e);
        assert(funit(sm_e(x[n - 1], m)));
        ax_unit_finite(e);
        ax_add_cap(s, e); ax_add_ge(s, e); ax_add_err(s, e);
        ax_rv_order(s, t); ax_rv_order(0.0f32, t);
        let (k, u, rs, rt, re, r0) = ((n - 1) as real, ulp1(), rv(s), rv(t), rv(e), resum(x, m, n - 1));
        assert(n as real == k + 1real);
        assert(k * u * rs <= k * u * rt) by(nonlinear_arith) requires k >= 0real, u >= 0real, rs <= rt;
        assert((k + 1real) * u * rt == k * u * rt + u * rt) by(nonlinear_arith);
    } else {
        assert((0 as real) * ulp1() * rv(0.0f32) == 0real) by(nonlinear_arith);
    }
}
pub proof fn lem_rsum(x: Seq<f32>, y: Seq<f32>, m: f32, s: f32, n: int)
    requires finite(x), dmax(x, x.len() as int, m), x.len() > 0, 0 <= n <= x.len(), y.len() == x.len(), s == esum(x, m, x.len() as int),
        ffinite(s), !fgt(1.0f32, s), rv(s) >= 1real, forall|q: int| 0 <= q < x.len() ==> #[trigger] y[q] == fdiv(sm_e(x[q], m), s)
    ensures -((n as real) * ulp1()) <= rsum(y, n) - resum(x, m, n) / rv(s) <= (n as real) * ulp1()
    decreases n
{
    let rs = rv(s);
    if n > 0 {
        lem_rsum(x, y, m, s, n - 1);
        lem_esum(x, m, x.len() as int);
        let e = sm_e(x[n - 1], m);
        assert(funit(sm_e(x[n - 1], m)));
        assert(y[n - 1] == fdiv(e, s));
        ax_div_err(e, s);
        let (a, b) = (resum(x, m, n - 1), rv(e));
        assert((a + b) / rs == a / rs + b / rs) by(nonlinear_arith) requires rs >= 1real;
        assert((n as real) * ulp1() == ((n - 1) as real) * ulp1() + ulp1()) by(nonlinear_arith);
    } else {
        assert(0real / rs == 0real) by(nonlinear_arith) requires rs >= 1real;
    }
}
pub proof fn lem_softmax_sum(x: Seq<f32>, y: Seq<f32>)
    requires softmax_of(x, y), finite(x), x.len() > 0
    ensures -(2real * (x.len() as real) * ulp1()) <= rsum(y, y.len() as int) - 1real <= 2real * (x.len() as real) * ulp1()
{
    let n = x.len() as int;
    let m = choose|m: f32| #[trigger] dmax(x, x.len() as int, m) && forall|n: int| 0 <= n < x.len() ==> #[trigger] y[n] == fdiv(sm_e(x[n], m), esum(x, m, x.len() as int));
    let s = esum(x, m, n); let rs = rv(s); let r = resum(x, m, n); let nu = (n as real) * ulp1();
    lem_softmax_sum_ge1(x, m);
    lem_esum_real(x, m, n);
    ax_one(); ax_rv_one(); ax_rv_order(1.0f32, s);
    lem_rsum(x, y, m, s, n);
    let v = n as real;
    assert(2real * v * ulp1() == 2real * (v * ulp1())) by(nonlinear_arith);
    assert(1real - r / rs <= nu && r / rs - 1real <= nu) by(nonlinear_arith) requires rs >= 1real, -(nu * rs) <= rs - r, rs - r <= nu * rs;
}

// ---------------------------------------------------------------- convolution (sums in loop order: i fastest, then j, then depth)
pub open spec fn cv_i(im: Tensor, w: Tensor, s: int, i: int, j: int, kk: int, kj: int, n: int, acc: f32) -> f32 decreases n
{ if n <= 0 { acc } else { fadd(cv_i(im, w, s, i, j, kk, kj, n - 1, acc), fmul(im.at(i * s + (n - 1), j * s + kj, kk), w.at(n - 1, kj, kk))) } }
pub open spec fn cv_j(im: Tensor, w: Tensor, s: int, i: int, j: int, kk: int, n: int, acc: f32) -> f32 decreases n
{ if n <= 0 { acc } else { cv_i(im, w, s, i, j, kk, n - 1, w.shape.di as int, cv_j(im, w, s, i, j, kk, n - 1, acc)) } }
pub open spec fn cv_k(im: Tensor, w: Tensor, s: int, i: int, j: int, n: int) -> f32 decreases n
{ if n <= 0 { 0.0f32 } else { cv_j(im, w, s, i, j, n - 1, w.shape.dj as int, cv_k(im, w, s, i, j, n - 1)) } }
pub open spec fn conv_at(im: Tensor, w: Tensor, s: int, i: int, j: int) -> f32 { cv_k(im, w, s, i, j, w.shape.dk as int) }
pub open spec fn bias_val(b: Tensor) -> f32 { if inr(b.shape, 0, 0, 0) { b.at(0, 0, 0) } else { 0.0f32 } }
pub open spec fn bias_ok(b: TensorShape) -> bool { b.di <= 1 && b.dj <= 1 && b.dk <= 1 }

// covering output positions: position a of the image lies in the window of output position i
pub open spec fn covers(a: int, w: int, s: int, i: int) -> bool { i * s <= a && a < i * s + w }
pub open spec fn c_lo(a: int, w: int, s: int) -> int { if a < w { 0 } else { (a - w) / s + 1 } }
pub open spec fn c_hi(a: int, s: int, g: int) -> int { if a / s + 1 < g { a / s + 1 } else { g } }
pub proof fn lem_cov(a: int, w: int, s: int, g: int, im: int)
    requires s > 0, 0 < w <= im, (im - w) % s == 0, g == outdim(im, w, s), 0 <= a < im
    ensures 0 <= c_lo(a, w, s) <= c_hi(a, s, g) <= g, forall|i: int| 0 <= i < g ==> (#[trigger] covers(a, w, s, i) <==> c_lo(a, w, s) <= i < c_hi(a, s, g)), a / s <= a
{
    let lo = c_lo(a, w, s); let hi = c_hi(a, s, g);
    assert(0 <= a / s <= a) by(nonlinear_arith) requires s > 0, a >= 0;
    assert(im - w == (g - 1) * s) by(nonlinear_arith) requires g == (im - w) / s + 1, (im - w) % s == 0, s > 0;
    if a >= w {
        let q = (a - w) / s;
        assert(q >= 0 && q * s <= a - w < q * s + s) by(nonlinear_arith) requires q == (a - w) / s, s > 0, a >= w;
        assert(q < g - 1) by(nonlinear_arith) requires q * s <= a - w, a - w < (g - 1) * s, s > 0;
        assert(q <= a / s) by(nonlinear_arith) requires q == (a - w) / s, s > 0, w > 0, a >= w;
    }
    assert(g >= 1) by(nonlinear_arith) requires g == (im - w) / s + 1, im >= w, s > 0;
    let p = a / s;
    assert(p * s <= a < p * s + s) by(nonlinear_arith) requires p == a / s, s > 0, a >= 0;
    assert forall|i: int| 0 <= i < g implies (#[trigger] covers(a, w, s, i) <==> lo <= i < hi) by {
        assert(i * s <= a <==> i <= p) by(nonlinear_arith) requires p * s <= a < p * s + s, s > 0;
        if a >= w { let q = (a - w) / s;
            assert(q * s <= a - w < q * s + s) by(nonlinear_arith) requires q == (a - w) / s, s > 0;
            assert(a < i * s + w <==> i >= q + 1) by(nonlinear_arith) requires q * s <= a - w < q * s + s, s > 0; }
        else { assert(0 <= i * s) by(nonlinear_arith) requires i >= 0, s > 0; }
    }
}
pub proof fn lem_cov1(a: int, w: int, s: int, i: int)
    requires covers(a, w, s, i), i >= 0, s > 0 ensures 0 <= s * i <= a, 0 <= a - s * i < w
{ assert(s * i == i * s && 0 <= i * s) by(nonlinear_arith) requires i >= 0, s > 0; }
pub open spec fn bo_i(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, j: int, n: int, acc: f32) -> f32 decreases n
{ if n <= 0 { acc } else if covers(a, w.shape.di as int, s, n - 1) { fadd(bo_i(g, w, s, a, b, c, k, j, n - 1, acc), fmul(w.at(a - s * (n - 1), b - s * j, c), g.at(n - 1, j, k))) } else { bo_i(g, w, s, a, b, c, k, j, n - 1, acc) } }
pub open spec fn bo_j(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, n: int, acc: f32) -> f32 decreases n
{ if n <= 0 { acc } else if covers(b, w.shape.dj as int, s, n - 1) { bo_i(g, w, s, a, b, c, k, n - 1, g.shape.di as int, bo_j(g, w, s, a, b, c, k, n - 1, acc)) } else { bo_j(g, w, s, a, b, c, k, n - 1, acc) } }
pub open spec fn bo_k(g: Tensor, ws: Seq<Tensor>, s: int, a: int, b: int, c: int, n: int) -> f32 decreases n
{ if n <= 0 { 0.0f32 } else { bo_j(g, ws[n - 1], s, a, b, c, n - 1, g.shape.dj as int, bo_k(g, ws, s, a, b, c, n - 1)) } }
pub open spec fn bo_at(g: Tensor, ws: Seq<Tensor>, s: int, a: int, b: int, c: int) -> f32 { bo_k(g, ws, s, a, b, c, ws.len() as int) }
// below the first and above the last covering position nothing is added
pub proof fn lem_bo_i_lo(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, j: int, acc: f32, lo: int, n: int)
    requires 0 <= n <= lo, forall|i: int| 0 <= i < lo ==> !#[trigger] covers(a, w.shape.di as int, s, i)
    ensures bo_i(g, w, s, a, b, c, k, j, n, acc) == acc decreases n
{ if n > 0 { lem_bo_i_lo(g, w, s, a, b, c, k, j, acc, lo, n - 1); } }
pub proof fn lem_bo_i_hi(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, j: int, acc: f32, hi: int, n: int)
    requires 0 <= hi <= n, forall|i: int| hi <= i < n ==> !#[trigger] covers(a, w.shape.di as int, s, i)
    ensures bo_i(g, w, s, a, b, c, k, j, n, acc) == bo_i(g, w, s, a, b, c, k, j, hi, acc) decreases n
{ if n > hi { lem_bo_i_hi(g, w, s, a, b, c, k, j, acc, hi, n - 1); } }
pub proof fn lem_bo_j_lo(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, acc: f32, lo: int, n: int)
    requires 0 <= n <= lo, forall|i: int| 0 <= i < lo ==> !#[trigger] covers(b, w.shape.dj as int, s, i)
    ensures bo_j(g, w, s, a, b, c, k, n, acc) == acc decreases n
{ if n > 0 { lem_bo_j_lo(g, w, s, a, b, c, k, acc, lo, n - 1); } }
pub proof fn lem_bo_j_hi(g: Tensor, w: Tensor, s: int, a: int, b: int, c: int, k: int, acc: f32, hi: int, n: int)
    requires 0 <= hi <= n, forall|i: int| hi <= i < n ==> !#[trigger] covers(b, w.shape.dj as int, s, i)
    ensures bo_j(g, w, s, a, b, c, k, n, acc) == bo_j(g, w, s, a, b, c, k, hi, acc) decreases n
{ if n > hi { lem_bo_j_hi(g, w, s, a, b, c, k, acc, hi, n - 1); } }

// kernel gradient: image correlated with one channel of the gradient
pub open spec fn kg_i(g: Tensor, im: Tensor, s: int, ch: int, l: int, m: int, n: int, j: int, q: int, acc: f32) -> f32 decreases q
{ if q <= 0 { acc } else { fadd(kg_i(g, im, s, ch, l, m, n, j, q - 1, acc), fmul(im.at(l + (q - 1) * s, m + j * s, n), g.at(q - 1, j, ch))) } }
pub open spec fn kg_j(g: Tensor, im: Tensor, s: int, ch: int, l: int, m: int, n: int, q: int) -> f32 decreases q
{ if q <= 0 { 0.0f32 } else { kg_i(g, im, s, ch, l, m, n, q - 1, g.shape.di as int, kg_j(g, im, s, ch, l, m, n, q - 1)) } }
pub open spec fn kg_at(g: Tensor, im: Tensor, s: int, ch: int, l: int, m: int, n: int) -> f32 { kg_j(g, im, s, ch, l, m, n, g.shape.dj as int) }
}
