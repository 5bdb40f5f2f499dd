// Machine floats: the operations are uninterpreted; the facts below are all that is assumed
// about them.  `float_axioms.py` checks the ones marked [fp] against z3's IEEE-754 theory.
pub mod fax {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fneg(a: f32) -> f32;
pub uninterp spec fn fgt(a: f32, b: f32) -> bool;
pub uninterp spec fn feq(a: f32, b: f32) -> bool;
pub uninterp spec fn fmax(a: f32, b: f32) -> f32;
pub uninterp spec fn fexp(a: f32) -> f32;
pub uninterp spec fn fsqrt(a: f32) -> f32;
pub uninterp spec fn fpowi(a: f32, n: i32) -> f32;
pub uninterp spec fn ninf() -> f32;
pub uninterp spec fn fnan(a: f32) -> bool;
pub uninterp spec fn ffinite(a: f32) -> bool;
// connection of the executable operators to the spec functions above
pub broadcast axiom fn ax_add_req(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_add_obeys() ensures #[trigger] <f32 as AddSpec>::obeys_add_spec();
pub broadcast axiom fn ax_add_spec(a: f32, b: f32) ensures #[trigger] a.add_spec(b) == fadd(a, b);
pub broadcast axiom fn ax_sub_req(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_sub_obeys() ensures #[trigger] <f32 as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn ax_sub_spec(a: f32, b: f32) ensures #[trigger] a.sub_spec(b) == fsub(a, b);
pub broadcast axiom fn ax_mul_req(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_mul_obeys() ensures #[trigger] <f32 as MulSpec>::obeys_mul_spec();
pub broadcast axiom fn ax_mul_spec(a: f32, b: f32) ensures #[trigger] a.mul_spec(b) == fmul(a, b);
pub broadcast axiom fn ax_div_req(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_div_obeys() ensures #[trigger] <f32 as DivSpec>::obeys_div_spec();
pub broadcast axiom fn ax_div_spec(a: f32, b: f32) ensures #[trigger] a.div_spec(b) == fdiv(a, b);
pub broadcast axiom fn ax_neg_req(a: f32) ensures #[trigger] a.neg_req();
pub broadcast axiom fn ax_neg_obeys() ensures #[trigger] <f32 as NegSpec>::obeys_neg_spec();
pub broadcast axiom fn ax_neg_spec(a: f32) ensures #[trigger] a.neg_spec() == fneg(a);
pub broadcast axiom fn ax_cmp_obeys() ensures #[trigger] <f32 as PartialOrdSpec<f32>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_eq_obeys() ensures #[trigger] <f32 as PartialEqSpec<f32>>::obeys_eq_spec();
pub broadcast axiom fn ax_gt(a: f32, b: f32) ensures (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater)) == fgt(a, b);
pub broadcast axiom fn ax_lt(a: f32, b: f32) ensures (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less)) == fgt(b, a);
pub broadcast axiom fn ax_cmpeq(a: f32, b: f32) ensures (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal)) == feq(a, b);
pub broadcast axiom fn ax_eq(a: f32, b: f32) ensures #[trigger] a.eq_spec(&b) == feq(a, b);
pub assume_specification [f32::max] (a: f32, b: f32) -> (r: f32) ensures r == fmax(a, b);
pub assume_specification [f32::exp] (a: f32) -> (r: f32) ensures r == fexp(a);
pub assume_specification [f32::sqrt] (a: f32) -> (r: f32) ensures r == fsqrt(a);
pub assume_specification [f32::powi] (a: f32, n: i32) -> (r: f32) ensures r == fpowi(a, n);
// further methods code may use: no facts, so nothing can be concluded from them
pub uninterp spec fn fabs(a: f32) -> f32;
pub uninterp spec fn fmin(a: f32, b: f32) -> f32;
pub uninterp spec fn ffma(a: f32, b: f32, c: f32) -> f32;
pub uninterp spec fn fclamp(a: f32, b: f32, c: f32) -> f32;
pub uninterp spec fn fun1(n: int, a: f32) -> f32;
pub assume_specification [f32::abs] (a: f32) -> (r: f32) ensures r == fabs(a);
pub assume_specification [f32::min] (a: f32, b: f32) -> (r: f32) ensures r == fmin(a, b);
pub assume_specification [f32::mul_add] (a: f32, b: f32, c: f32) -> (r: f32) ensures r == ffma(a, b, c);
pub assume_specification [f32::clamp] (a: f32, b: f32, c: f32) -> (r: f32) ensures r == fclamp(a, b, c);
pub assume_specification [f32::is_nan] (a: f32) -> (r: bool) ensures r == fnan(a);
pub assume_specification [f32::is_finite] (a: f32) -> (r: bool) ensures r == ffinite(a);
pub assume_specification [f32::is_infinite] (a: f32) -> (r: bool) ensures r == (!ffinite(a) && !fnan(a));
pub assume_specification [f32::is_sign_negative] (a: f32) -> bool;
pub assume_specification [f32::is_sign_positive] (a: f32) -> bool;
pub assume_specification [f32::powf] (a: f32, b: f32) -> f32;
pub assume_specification [f32::ln] (a: f32) -> (r: f32) ensures r == fun1(1, a);
pub assume_specification [f32::exp2] (a: f32) -> (r: f32) ensures r == fun1(2, a);
pub assume_specification [f32::recip] (a: f32) -> (r: f32) ensures r == fdiv(1.0f32, a);
pub assume_specification [f32::floor] (a: f32) -> (r: f32) ensures r == fun1(3, a);
pub assume_specification [f32::ceil] (a: f32) -> (r: f32) ensures r == fun1(4, a);
pub assume_specification [f32::round] (a: f32) -> (r: f32) ensures r == fun1(5, a);
pub assume_specification [f32::trunc] (a: f32) -> (r: f32) ensures r == fun1(6, a);
pub assume_specification [f32::signum] (a: f32) -> (r: f32) ensures r == fun1(7, a);
pub assume_specification [f32::tanh] (a: f32) -> (r: f32) ensures r == fun1(8, a);
pub assume_specification [f32::exp_m1] (a: f32) -> (r: f32) ensures r == fun1(9, a);
// a float is its bit pattern
pub uninterp spec fn fbits(a: f32) -> u32;
pub uninterp spec fn fofbits(b: u32) -> f32;
pub assume_specification [f32::to_bits] (a: f32) -> (r: u32) ensures r == fbits(a);
pub assume_specification [f32::from_bits] (b: u32) -> (r: f32) ensures r == fofbits(b);
pub broadcast axiom fn ax_powi2(a: f32) ensures #[trigger] fpowi(a, 2) == fmul(a, a); // the square by powi is the product
pub broadcast axiom fn ax_bits(a: f32) ensures fofbits(#[trigger] fbits(a)) == a;
pub broadcast axiom fn ax_of_bits(b: u32) ensures fbits(#[trigger] fofbits(b)) == b;
pub broadcast group fl { ax_add_req, ax_add_obeys, ax_add_spec, ax_sub_req, ax_sub_obeys, ax_sub_spec, ax_mul_req, ax_mul_obeys, ax_mul_spec, ax_div_req, ax_div_obeys, ax_div_spec, ax_neg_req, ax_neg_obeys, ax_neg_spec, ax_cmp_obeys, ax_eq_obeys, ax_gt, ax_lt, ax_cmpeq, ax_eq, ax_bits, ax_of_bits, ax_powi2 }
// order facts
pub axiom fn ax_gt_trans(a: f32, b: f32, c: f32) requires fgt(a, b), fgt(b, c) ensures fgt(a, c); // [fp]
pub axiom fn ax_gt_irrefl(a: f32) ensures !fgt(a, a); // [fp]
pub axiom fn ax_gt_nan(a: f32, b: f32) requires fgt(a, b) ensures !fnan(a), !fnan(b); // [fp]
pub axiom fn ax_gt_mid(x: f32, m: f32, y: f32) requires fgt(x, m), !fgt(y, m), !fnan(y) ensures fgt(x, y); // [fp]
pub axiom fn ax_ninf() ensures !fnan(ninf()), forall|x: f32| !#[trigger] fgt(ninf(), x); // [fp]
pub axiom fn ax_tri(a: f32, b: f32) requires !fgt(a, b), !fgt(b, a), !fnan(a), !fnan(b) ensures feq(a, b); // [fp]
pub axiom fn ax_zero() ensures !fnan(0.0f32), ffinite(0.0f32), feq(0.0f32, 0.0f32); // [fp]
pub axiom fn ax_eq_refl(a: f32) requires !fnan(a) ensures feq(a, a); // [fp]
pub axiom fn ax_max_finite(a: f32, m: f32) requires ffinite(a), !fnan(m), !fgt(a, m), m != ninf() ensures fgt(m, ninf()); // [fp]
pub axiom fn ax_finite(a: f32) requires ffinite(a) ensures !fnan(a), fgt(a, ninf()); // [fp]
// rectification: max(x, 0) and `if x > 0 { x } else { 0 }` agree up to the sign of zero
pub axiom fn ax_relu(x: f32) ensures feq(fmax(x, 0.0f32), if fgt(x, 0.0f32) { x } else { 0.0f32 }); // [fp]
// commutativity
pub broadcast axiom fn ax_mul_comm(a: f32, b: f32) ensures #[trigger] fmul(a, b) == fmul(b, a); // [fp]
pub broadcast axiom fn ax_add_comm(a: f32, b: f32) ensures #[trigger] fadd(a, b) == fadd(b, a); // [fp]
// used only for functions whose obligations are not discharged without it
pub broadcast group comm { ax_mul_comm, ax_add_comm }
// softmax
pub open spec fn funit(x: f32) -> bool { !fnan(x) && !fgt(0.0f32, x) && !fgt(x, 1.0f32) }
pub axiom fn ax_sub_le(x: f32, m: f32) requires ffinite(x), ffinite(m), !fgt(x, m) ensures !fnan(fsub(x, m)), !fgt(fsub(x, m), 0.0f32); // [fp]
pub axiom fn ax_sub_self(x: f32) requires ffinite(x) ensures feq(fsub(x, x), 0.0f32); // [fp]
pub axiom fn ax_exp_unit(x: f32) requires !fnan(x), !fgt(x, 0.0f32) ensures funit(fexp(x)); // exp of a non-positive number
pub axiom fn ax_exp_zero(x: f32) requires feq(x, 0.0f32) ensures feq(fexp(x), 1.0f32); // exp(+-0) is exactly 1
pub axiom fn ax_add_ge(s: f32, e: f32) requires !fnan(s), !fgt(0.0f32, s), funit(e) ensures !fnan(fadd(s, e)), !fgt(0.0f32, fadd(s, e)), !fgt(s, fadd(s, e)), !fgt(e, fadd(s, e)); // [fp]
pub axiom fn ax_ge_trans(a: f32, b: f32, c: f32) requires !fnan(a), !fnan(b), !fnan(c), !fgt(a, b), !fgt(b, c) ensures !fgt(a, c); // [fp]
pub axiom fn ax_eq_gt(a: f32, b: f32, s: f32) requires feq(a, b) ensures fgt(a, s) == fgt(b, s), fgt(s, a) == fgt(s, b); // [fp]
pub axiom fn ax_div_unit(e: f32, s: f32) requires funit(e), !fnan(s), !fgt(e, s), !fgt(1.0f32, s) ensures funit(fdiv(e, s)); // [fp]
// equal results: equal as numbers (so up to the sign of zero) or both not a number
pub open spec fn fsim(a: f32, b: f32) -> bool { feq(a, b) || (fnan(a) && fnan(b)) }
pub uninterp spec fn fneg0(a: f32) -> bool; // negative zero
pub axiom fn ax_sim_refl(a: f32) ensures fsim(a, a); // [fp]
pub axiom fn ax_sim_sym(a: f32, b: f32) requires fsim(a, b) ensures fsim(b, a); // [fp]
pub axiom fn ax_sim_add(a: f32, b: f32, c: f32, d: f32) requires fsim(a, c), fsim(b, d) ensures fsim(fadd(a, b), fadd(c, d)); // [fp]
pub axiom fn ax_sim_sub(a: f32, b: f32, c: f32, d: f32) requires fsim(a, c), fsim(b, d) ensures fsim(fsub(a, b), fsub(c, d)); // [fp]
pub axiom fn ax_sim_mul(a: f32, b: f32, c: f32, d: f32) requires fsim(a, c), fsim(b, d) ensures fsim(fmul(a, b), fmul(c, d)); // [fp]
pub axiom fn ax_sim_div(a: f32, b: f32, c: f32, d: f32) requires fsim(a, c), fsim(b, d), !fneg0(b), !fneg0(d) ensures fsim(fdiv(a, b), fdiv(c, d)); // [fp]
pub axiom fn ax_sim_gt(a: f32, b: f32, c: f32, d: f32) requires fsim(a, c), fsim(b, d) ensures fgt(a, b) == fgt(c, d); // [fp]
pub axiom fn ax_sim_max(a: f32, b: f32) requires fsim(a, b) ensures fsim(fmax(a, 0.0f32), fmax(b, 0.0f32)); // [fp]
pub axiom fn ax_sim_relu(a: f32, b: f32) requires fsim(a, b) ensures fsim(fmax(a, 0.0f32), if fgt(b, 0.0f32) { b } else { 0.0f32 }); // [fp]
pub axiom fn ax_sim_exp(a: f32, b: f32) requires fsim(a, b) ensures fsim(fexp(a), fexp(b)); // exp(+0) = exp(-0), exp of NaN is NaN
pub axiom fn ax_neg0_exp(a: f32) ensures !fneg0(fexp(a)); // exp is never negative
pub axiom fn ax_neg0_add(a: f32, b: f32) requires !fneg0(a) ensures !fneg0(fadd(a, b)); // [fp]
pub axiom fn ax_neg0_zero() ensures !fneg0(0.0f32); // [fp]
// order of the results and rounding errors; rv is the real number a finite float stands for
pub uninterp spec fn rv(a: f32) -> real;
pub axiom fn ax_sub_mono(x: f32, y: f32, m: f32) requires ffinite(x), ffinite(y), ffinite(m), !fgt(x, y) ensures !fgt(fsub(x, m), fsub(y, m)); // [flocq]
pub axiom fn ax_div_mono(a: f32, b: f32, s: f32) requires funit(a), funit(b), !fgt(a, b), !fnan(s), !fgt(1.0f32, s) ensures !fgt(fdiv(a, s), fdiv(b, s)); // [flocq]
pub axiom fn ax_exp_mono(x: f32, y: f32) requires !fnan(x), !fnan(y), !fgt(x, y) ensures !fgt(fexp(x), fexp(y)); // exp is non-decreasing
pub axiom fn ax_rv_order(a: f32, b: f32) requires ffinite(a), ffinite(b) ensures fgt(a, b) == (rv(a) > rv(b)); // [flocq]
pub axiom fn ax_rv_one() ensures rv(0.0f32) == 0real, rv(1.0f32) == 1real; // [flocq]
pub axiom fn ax_unit_finite(a: f32) requires funit(a) ensures ffinite(a); // [fp]
pub axiom fn ax_one() ensures funit(1.0f32), ffinite(1.0f32); // [fp]
pub axiom fn ax_add_cap(s: f32, e: f32) requires !fnan(s), !fgt(0.0f32, s), !fgt(s, 16777216.0f32), funit(e) ensures ffinite(fadd(s, e)), !fgt(fadd(s, e), 16777216.0f32); // [fp]
pub axiom fn ax_cap_zero() ensures !fgt(0.0f32, 16777216.0f32); // [fp]
pub axiom fn ax_add_err(a: f32, b: f32) requires ffinite(a), ffinite(b), ffinite(fadd(a, b)), !fgt(0.0f32, fadd(a, b)) ensures -(1real / 16777216real) * rv(fadd(a, b)) <= rv(fadd(a, b)) - (rv(a) + rv(b)), rv(fadd(a, b)) - (rv(a) + rv(b)) <= (1real / 16777216real) * rv(fadd(a, b)); // [flocq]
pub axiom fn ax_div_err(a: f32, s: f32) requires funit(a), ffinite(s), !fgt(1.0f32, s) ensures -(1real / 16777216real) <= rv(fdiv(a, s)) - rv(a) / rv(s), rv(fdiv(a, s)) - rv(a) / rv(s) <= 1real / 16777216real; // [flocq]
}
