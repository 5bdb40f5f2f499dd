//// fn tensor::Tensor.clone(self) -> r
ensures r.same(*self)
//// fn tensor::Tensor.eq(self, other) -> r
ensures r == teq(*self, *other)
//// alt
//// loop 0 n
invariant self.shape == other.shape, self.data@.len() == other.data@.len(), forall|q: int| 0 <= q < n ==> feq(#[trigger] self.data@[q], other.data@[q]),
//// alt
//// local same int 0
//// loop 0 n
invariant self.shape == other.shape, self.data@.len() == other.data@.len(), same == (forall|q: int| 0 <= q < n ==> feq(#[trigger] self.data@[q], other.data@[q])),
//// fn tensor::Tensor.ne(self, other) -> r
ensures r == !teq(*self, *other)
//// fn tensor::Tensor.try_from(parts) -> r
ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.shape == parts.shape && r->Ok_0.data@ == parts.data@ && r->Ok_0.strides == parts.strides,
   r is Ok == (shape_ok(parts.shape) && strides_of(parts.shape, parts.strides) && parts.data@.len() == items(parts.shape))
//// fn tensor::Tensor.new(shape) -> r
requires shape_ok(shape)
ensures r.wf(), r.shape == shape, r.all_is(0.0f32), r.data@ == konst(r.data@.len() as int, 0.0f32)
//// proof
assert forall|s: Seq<f32>| (forall|q: int| 0 <= q < s.len() ==> s[q] == 0.0f32) implies s == #[trigger] konst(s.len() as int, 0.0f32) by { assert(s =~= konst(s.len() as int, 0.0f32)); }
lem_prod0(shape.di as int, shape.dj as int, shape.dk as int);
//// fn tensor::Tensor.empty() -> r
ensures r.wf(), r.shape == sh(1, 1, 1), r.all_is(0.0f32)
//// fn tensor::Tensor.total_items(self) -> r
requires self.wf()
ensures r == items(self.shape), r == self.data@.len()
//// fn tensor::Tensor.set_item(self, index, value)
requires old(self).wf()
ensures final(self).wf(), final(self).same_frame(*old(self)),
   !inr(old(self).shape, index.i as int, index.j as int, index.k as int) ==> final(self).data@ == old(self).data@,
   inr(old(self).shape, index.i as int, index.j as int, index.k as int) ==> final(self).data@ == old(self).data@.update(lin(old(self).shape, index.i as int, index.j as int, index.k as int), value),
   inr(old(self).shape, index.i as int, index.j as int, index.k as int) ==> final(self).at(index.i as int, index.j as int, index.k as int) == value,
   forall|a: int, b: int, c: int| inr(old(self).shape, a, b, c) && !(a == index.i && b == index.j && c == index.k) ==> final(self).data@[#[trigger] lin(old(self).shape, a, b, c)] == old(self).at(a, b, c)
//// proof
lem_lin(old(self).shape); lem_inj(old(self).shape);
//// fn tensor::Tensor.get_item(self, index) -> r
requires self.wf()
ensures r == if inr(self.shape, index.i as int, index.j as int, index.k as int) { self.at(index.i as int, index.j as int, index.k as int) } else { 0.0f32 }
//// proof
lem_lin(self.shape);
//// fn tensor::Tensor.get_data_index(self, index) -> r
requires self.wf(), inr(self.shape, index.i as int, index.j as int, index.k as int)
ensures r == lin(self.shape, index.i as int, index.j as int, index.k as int), r < self.data@.len(), r < items(self.shape)
//// proof
lem_lin(self.shape); lem_terms(self.strides, *index); lem_lin1(self.shape, index.i as int, index.j as int, index.k as int);
assert(strides_of(self.shape, self.strides));
assert(self.strides.k * index.k == self.shape.di * self.shape.dj * index.k);
//// fn tensor::Tensor.get_shape(self) -> r
ensures r == self.shape
//// fn tensor::Tensor.get_norm(self) -> r
ensures r == fsqrt(sqsum(self.data@, self.data@.len() as int))
//// local acc float 0
//// loop 0 n
invariant acc == sqsum(self.data@, n as int),
//// fn tensor::Tensor.fill_with_uniform(self, lo, hi)
requires old(self).wf(), ffinite(lo), ffinite(hi), !fgt(lo, hi), ffinite(fsub(hi, lo))
ensures final(self).wf(), final(self).same_frame(*old(self)), forall|n: int| 0 <= n < final(self).data@.len() ==> !fgt(lo, #[trigger] final(self).data@[n]) && !fgt(final(self).data@[n], hi)
//// loop 0 n
invariant self.same_frame(*old(self)), forall|q: int| 0 <= q < n ==> !fgt(lo, #[trigger] self.data@[q]) && !fgt(self.data@[q], hi),
//// fn tensor::Tensor.fill_with_gaussian(self, mean, dev)
requires old(self).wf(), ffinite(dev)
ensures final(self).wf(), final(self).same_frame(*old(self))
//// loop 0 n
invariant self.same_frame(*old(self)),
//// fn tensor::Tensor.fill_with_value(self, value)
ensures old(self).wf() ==> final(self).wf(), final(self).same_frame(*old(self)), final(self).all_is(value), final(self).data@ == konst(old(self).data@.len() as int, value)
//// loop 0 n
invariant self.same_frame(*old(self)), forall|q: int| 0 <= q < n ==> #[trigger] self.data@[q] == value,
//// exit
assert(self.data@ =~= konst(old(self).data@.len() as int, value));
//// fn tensor::Tensor.fill_with_vec(self, data) -> r
requires old(self).wf()
ensures final(self).wf(), final(self).same_frame(*old(self)), (r is Ok) == (data@.len() == items(old(self).shape)), r is Ok ==> final(self).data@ == data@, r is Err ==> final(self).data@ == old(self).data@
//// fn tensor::Tensor.add(tensor1, tensor2, result)
requires tensor1.wf(), tensor2.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   tensor1.shape == tensor2.shape && tensor1.shape == old(result).shape ==> forall|n: int| 0 <= n < final(result).data@.len() ==> #[trigger] final(result).data@[n] == fadd(tensor1.data@[n], tensor2.data@[n]),
   !(tensor1.shape == tensor2.shape && tensor1.shape == old(result).shape) ==> final(result).data@ == old(result).data@
//// loop 0 n
invariant result.same_frame(*old(result)), forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fadd(tensor1.data@[q], tensor2.data@[q]),
//// alt
//// loop 0 n
invariant result.shape == old(result).shape, result.strides == old(result).strides, result.data@.len() == n, forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fadd(tensor1.data@[q], tensor2.data@[q]),
//// fn tensor::Tensor.add_to_self(tensor1, tensor2)
requires old(tensor1).wf(), tensor2.wf()
ensures final(tensor1).wf(), final(tensor1).same_frame(*old(tensor1)),
   old(tensor1).shape == tensor2.shape ==> forall|n: int| 0 <= n < final(tensor1).data@.len() ==> #[trigger] final(tensor1).data@[n] == fadd(old(tensor1).data@[n], tensor2.data@[n]),
   old(tensor1).shape != tensor2.shape ==> final(tensor1).data@ == old(tensor1).data@
//// loop 0 n
invariant tensor1.same_frame(*old(tensor1)), forall|q: int| 0 <= q < n ==> #[trigger] tensor1.data@[q] == fadd(old(tensor1).data@[q], tensor2.data@[q]), forall|q: int| n <= q < tensor1.data@.len() ==> #[trigger] tensor1.data@[q] == old(tensor1).data@[q],
//// fn tensor::Tensor.add_from_index_list(tensor1, tensor2, index_list) -> r
requires tensor1.wf(), old(tensor2).wf()
ensures final(tensor2).wf(), final(tensor2).same_frame(*old(tensor2)),
   (r is Ok) == (index_list@.len() <= tensor1.data@.len() && forall|n: int| 0 <= n < index_list@.len() ==> #[trigger] index_list@[n] < old(tensor2).data@.len()),
   r is Ok ==> final(tensor2).data@ == scat(old(tensor2).data@, tensor1.data@, index_list@, index_list@.len() as int),
   index_list@.len() > tensor1.data@.len() ==> final(tensor2).data@ == old(tensor2).data@
//// loop 0 n
invariant tensor2.same_frame(*old(tensor2)), tensor2.data@ == scat(old(tensor2).data@, tensor1.data@, index_list@, n as int), forall|q: int| 0 <= q < n ==> #[trigger] index_list@[q] < tensor2.data@.len(),
//// begin 0
lem_scat_frame(old(tensor2).data@, tensor1.data@, index_list@, n as int);
//// alt
//// loop 0 n
invariant tensor2.data@ == old(tensor2).data@, tensor2.same_frame(*old(tensor2)), forall|q: int| 0 <= q < n ==> #[trigger] index_list@[q] < tensor2.data@.len(),
//// loop 1 n
invariant tensor2.same_frame(*old(tensor2)), tensor2.data@ == scat(old(tensor2).data@, tensor1.data@, index_list@, n as int), forall|q: int| 0 <= q < index_list@.len() ==> #[trigger] index_list@[q] < tensor2.data@.len(),
//// begin 1
lem_scat_frame(old(tensor2).data@, tensor1.data@, index_list@, n as int);
//// fn tensor::Tensor.scale(tensor, scalar, result)
requires tensor.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   tensor.shape == old(result).shape ==> forall|n: int| 0 <= n < final(result).data@.len() ==> #[trigger] final(result).data@[n] == fmul(tensor.data@[n], scalar),
   tensor.shape != old(result).shape ==> final(result).data@ == old(result).data@
//// loop 0 n
invariant result.same_frame(*old(result)), forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fmul(tensor.data@[q], scalar),
//// alt
//// loop 0 n
invariant result.shape == old(result).shape, result.strides == old(result).strides, result.data@.len() == n, forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fmul(tensor.data@[q], scalar),
//// fn tensor::Tensor.scale_self(tensor, scalar)
requires old(tensor).wf()
ensures final(tensor).wf(), final(tensor).same_frame(*old(tensor)), forall|n: int| 0 <= n < final(tensor).data@.len() ==> #[trigger] final(tensor).data@[n] == fmul(old(tensor).data@[n], scalar)
//// loop 0 n
invariant tensor.same_frame(*old(tensor)), forall|q: int| 0 <= q < n ==> #[trigger] tensor.data@[q] == fmul(old(tensor).data@[q], scalar), forall|q: int| n <= q < tensor.data@.len() ==> #[trigger] tensor.data@[q] == old(tensor).data@[q],
//// fn tensor::Tensor.multiply_elementwise_self(tensor1, tensor2)
requires old(tensor1).wf(), tensor2.wf()
ensures final(tensor1).wf(), final(tensor1).same_frame(*old(tensor1)),
   old(tensor1).shape == tensor2.shape ==> forall|n: int| 0 <= n < final(tensor1).data@.len() ==> #[trigger] final(tensor1).data@[n] == fmul(old(tensor1).data@[n], tensor2.data@[n]),
   old(tensor1).shape == tensor2.shape ==> masked(*final(tensor1), *old(tensor1), *tensor2),
   old(tensor1).shape != tensor2.shape ==> final(tensor1).data@ == old(tensor1).data@
//// loop 0 n
invariant tensor1.same_frame(*old(tensor1)), forall|q: int| 0 <= q < n ==> #[trigger] tensor1.data@[q] == fmul(old(tensor1).data@[q], tensor2.data@[q]), forall|q: int| n <= q < tensor1.data@.len() ==> #[trigger] tensor1.data@[q] == old(tensor1).data@[q],
//// fn tensor::Tensor.multiply_elementwise(tensor1, tensor2, result)
requires tensor1.wf(), tensor2.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   tensor1.shape == tensor2.shape && tensor1.shape == old(result).shape ==> forall|n: int| 0 <= n < final(result).data@.len() ==> #[trigger] final(result).data@[n] == fmul(tensor1.data@[n], tensor2.data@[n]),
   tensor1.shape == tensor2.shape && tensor1.shape == old(result).shape ==> masked(*final(result), *tensor1, *tensor2),
   !(tensor1.shape == tensor2.shape && tensor1.shape == old(result).shape) ==> final(result).data@ == old(result).data@
//// loop 0 n
invariant result.same_frame(*old(result)), forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fmul(tensor1.data@[q], tensor2.data@[q]),
//// alt
//// loop 0 n
invariant result.shape == old(result).shape, result.strides == old(result).strides, result.data@.len() == n, forall|q: int| 0 <= q < n ==> #[trigger] result.data@[q] == fmul(tensor1.data@[q], tensor2.data@[q]),
//// fn tensor::Tensor.relu_self_and_store_mask(input, mask) -> r
requires old(input).wf(), old(mask).wf()
ensures final(input).wf(), final(mask).wf(), final(input).same_frame(*old(input)), final(mask).same_frame(*old(mask)),
   (r is Ok) == (old(input).shape == old(mask).shape),
   r is Ok ==> forall|n: int| 0 <= n < final(input).data@.len() ==> #[trigger] final(input).data@[n] == relu(old(input).data@[n]),
   r is Ok ==> forall|n: int| 0 <= n < final(mask).data@.len() ==> #[trigger] final(mask).data@[n] == (if fgt(old(input).data@[n], 0.0f32) { 1.0f32 } else { 0.0f32 }),
   r is Err ==> final(input).data@ == old(input).data@ && final(mask).data@ == old(mask).data@
//// loop 0 n
invariant input.same_frame(*old(input)), mask.same_frame(*old(mask)),
   forall|q: int| 0 <= q < n ==> #[trigger] input.data@[q] == relu(old(input).data@[q]),
   forall|q: int| 0 <= q < n ==> #[trigger] mask.data@[q] == (if fgt(old(input).data@[q], 0.0f32) { 1.0f32 } else { 0.0f32 }),
   forall|q: int| n <= q < input.data@.len() ==> #[trigger] input.data@[q] == old(input).data@[q],
//// fn tensor::Tensor.transpose_ij(input, output) -> r
requires input.wf(), old(output).wf()
ensures final(output).wf(), final(output).same_frame(*old(output)), (r is Ok) == (input.shape == tr(old(output).shape)),
   r is Ok ==> forall|a: int, b: int, c: int| inr(old(output).shape, a, b, c) ==> final(output).data@[#[trigger] lin(old(output).shape, a, b, c)] == input.at(b, a, c),
   r is Err ==> final(output).data@ == old(output).data@
//// proof
lem_lin(old(output).shape); lem_inj(old(output).shape);
//// loop 0 k
invariant output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(output.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> output.data@[#[trigger] lin(output.shape, a, b, c)] == input.at(b, a, c),
//// loop 0.0 j
invariant output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(output.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> output.data@[#[trigger] lin(output.shape, a, b, c)] == input.at(b, a, c),
//// loop 0.0.0 i
invariant output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(output.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> output.data@[#[trigger] lin(output.shape, a, b, c)] == input.at(b, a, c),
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.check_matrix_multiply_dimensions(st1, st2, sr) -> r
ensures r == mm_dims(st1, st2, sr)
//// fn tensor::Tensor.matrix_multiply(tensor1, tensor2, result)
requires tensor1.wf(), tensor2.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   mm_dims(tensor1.shape, tensor2.shape, old(result).shape) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == mm_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
   !mm_dims(tensor1.shape, tensor2.shape, old(result).shape) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0
//// loop 0 k
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mm_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mm_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mm_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0.0.0 n
invariant acc == mm_sum(*tensor1, *tensor2, i as int, j as int, k as int, n as int),
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.matrix_multiply_transpose_first(tensor1, tensor2, result) -> r
requires tensor1.wf(), tensor2.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (r is Ok) == mm_dims(tr(tensor1.shape), tensor2.shape, old(result).shape),
   mm_dims(tr(tensor1.shape), tensor2.shape, old(result).shape) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == mt1_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.di as int),
   !mm_dims(tr(tensor1.shape), tensor2.shape, old(result).shape) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0
//// loop 0 k
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt1_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.di as int),
//// loop 0.0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt1_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.di as int),
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt1_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.di as int),
//// loop 0.0.0.0 n
invariant acc == mt1_sum(*tensor1, *tensor2, i as int, j as int, k as int, n as int),
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.matrix_multiply_transpose_second(tensor1, tensor2, result) -> r
requires tensor1.wf(), tensor2.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (r is Ok) == mm_dims(tensor1.shape, tr(tensor2.shape), old(result).shape),
   mm_dims(tensor1.shape, tr(tensor2.shape), old(result).shape) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == mt2_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
   !mm_dims(tensor1.shape, tr(tensor2.shape), old(result).shape) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0
//// loop 0 k
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt2_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt2_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == mt2_sum(*tensor1, *tensor2, a, b, c, tensor1.shape.dj as int),
//// loop 0.0.0.0 n
invariant acc == mt2_sum(*tensor1, *tensor2, i as int, j as int, k as int, n as int),
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.matrix_multiply_add_relu(input, weights, bias, result)
requires input.wf(), weights.wf(), bias.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (mm_dims(weights.shape, input.shape, old(result).shape) && bias.shape == old(result).shape) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == fmax(fadd(mm_sum(*weights, *input, a, b, c, weights.shape.dj as int), bias.at(a, b, c)), 0.0f32),
   !(mm_dims(weights.shape, input.shape, old(result).shape) && bias.shape == old(result).shape) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0
//// loop 0 k
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == fmax(fadd(mm_sum(*weights, *input, a, b, c, weights.shape.dj as int), bias.at(a, b, c)), 0.0f32),
//// loop 0.0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == fmax(fadd(mm_sum(*weights, *input, a, b, c, weights.shape.dj as int), bias.at(a, b, c)), 0.0f32),
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == fmax(fadd(mm_sum(*weights, *input, a, b, c, weights.shape.dj as int), bias.at(a, b, c)), 0.0f32),
//// loop 0.0.0.0 n
invariant acc == mm_sum(*weights, *input, i as int, j as int, k as int, n as int),
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.does_kernel_stride_fit_image(image_shape, kernel_shape, stride) -> r
ensures r == win_fit(*image_shape, *kernel_shape, stride)
//// fn tensor::Tensor.get_convolution_dim_fit(image_shape, kernel_shape, stride) -> r
requires stride > 0, 0 < kernel_shape.di <= image_shape.di, 0 < kernel_shape.dj <= image_shape.dj
ensures r.0 == outdim(image_shape.di as int, kernel_shape.di as int, stride as int), r.1 == outdim(image_shape.dj as int, kernel_shape.dj as int, stride as int)
//// proof
lem_out(image_shape.di as int, kernel_shape.di as int, stride as int); lem_out(image_shape.dj as int, kernel_shape.dj as int, stride as int);
//// fn tensor::Tensor.check_max_pooling_dimensions(image_shape, mask_shape, stride, result_shape) -> r
ensures r == pool_dims(*image_shape, *mask_shape, stride, *result_shape)
//// proof
if stride > 0 && 0 < mask_shape.di <= image_shape.di && 0 < mask_shape.dj <= image_shape.dj { lem_out(image_shape.di as int, mask_shape.di as int, stride as int); lem_out(image_shape.dj as int, mask_shape.dj as int, stride as int); }
//// fn tensor::Tensor.max_pool(image, mask_shape, stride, result)
requires image.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   pool_dims(image.shape, *mask_shape, stride, old(result).shape) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> wmax(*image, *mask_shape, stride as int, a, b, c, final(result).data@[#[trigger] lin(old(result).shape, a, b, c)]),
   !pool_dims(image.shape, *mask_shape, stride, old(result).shape) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape); lem_lin(image.shape); ax_ninf(); ax_gt_irrefl(ninf());
//// local acc float 0.0.0.0.0

//// loop 0 k
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]),
//// loop 0.0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]),
//// begin 0.0
lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, 0);
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]),
//// begin 0.0.0
lem_win(image.shape.di as int, mask_shape.di as int, stride as int, i as int, 0); lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, 0);

//// loop 0.0.0.0 jj
invariant pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj as int, acc),
//// loop 0.0.0.0.0 ii
invariant pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc),
//// begin 0.0.0.0.0
lem_win(image.shape.di as int, mask_shape.di as int, stride as int, i as int, ii as int); lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, jj as int);
lem_pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc, if fgt(win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int), acc) { win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int) } else { acc });

//// after 0.0.0.0.0

assert(pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj + 1, acc));

//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.max_pool_track_origin(image, mask_shape, stride, result, origin_list) -> r
requires image.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (pool_dims(image.shape, *mask_shape, stride, old(result).shape) && old(origin_list)@.len() == items(old(result).shape)) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> wmax(*image, *mask_shape, stride as int, a, b, c, final(result).data@[#[trigger] lin(old(result).shape, a, b, c)]),
   (pool_dims(image.shape, *mask_shape, stride, old(result).shape) && old(origin_list)@.len() == items(old(result).shape)) ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) ==> worigin(*image, *mask_shape, stride as int, a, b, c, final(result).data@[#[trigger] lin(old(result).shape, a, b, c)], final(origin_list)@[lin(old(result).shape, a, b, c)] as int),
   final(origin_list)@.len() == old(origin_list)@.len(),
   (r is Ok) == (pool_dims(image.shape, *mask_shape, stride, old(result).shape) && old(origin_list)@.len() == items(old(result).shape)),
   !(pool_dims(image.shape, *mask_shape, stride, old(result).shape) && old(origin_list)@.len() == items(old(result).shape)) ==> final(origin_list)@ == old(origin_list)@,
   !(pool_dims(image.shape, *mask_shape, stride, old(result).shape) && old(origin_list)@.len() == items(old(result).shape)) ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape); lem_lin(image.shape); ax_ninf(); ax_gt_irrefl(ninf());
//// local acc float 0.0.0.0.0
//// local idx int 0.0.0.0.0
//// loop 0 k
invariant result.same_frame(*old(result)), origin_list@.len() == old(origin_list)@.len(), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, 0, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]) && worigin(*image, *mask_shape, stride as int, a, b, c, result.data@[lin(result.shape, a, b, c)], origin_list@[lin(result.shape, a, b, c)] as int),
//// loop 0.0 j
invariant result.same_frame(*old(result)), origin_list@.len() == old(origin_list)@.len(), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, 0, j as int, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]) && worigin(*image, *mask_shape, stride as int, a, b, c, result.data@[lin(result.shape, a, b, c)], origin_list@[lin(result.shape, a, b, c)] as int),
//// begin 0.0
lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, 0);
//// loop 0.0.0 i
invariant result.same_frame(*old(result)), origin_list@.len() == old(origin_list)@.len(), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && before(a, b, c, i as int, j as int, k as int) ==> wmax(*image, *mask_shape, stride as int, a, b, c, result.data@[#[trigger] lin(result.shape, a, b, c)]) && worigin(*image, *mask_shape, stride as int, a, b, c, result.data@[lin(result.shape, a, b, c)], origin_list@[lin(result.shape, a, b, c)] as int),
//// begin 0.0.0
lem_win(image.shape.di as int, mask_shape.di as int, stride as int, i as int, 0); lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, 0);
assert(win_in(*mask_shape, 0, 0));
//// loop 0.0.0.0 jj
invariant pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj as int, acc), porigin(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj as int, acc, idx as int),
//// loop 0.0.0.0.0 ii
invariant pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc), porigin(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc, idx as int),
//// begin 0.0.0.0.0
lem_win(image.shape.di as int, mask_shape.di as int, stride as int, i as int, ii as int); lem_win(image.shape.dj as int, mask_shape.dj as int, stride as int, j as int, jj as int);
lem_pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc, if fgt(win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int), acc) { win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int) } else { acc });
lem_porigin(*image, *mask_shape, stride as int, i as int, j as int, k as int, ii as int, jj as int, acc, idx as int, if fgt(win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int), acc) { win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int) } else { acc }, if fgt(win_at(*image, stride as int, i as int, j as int, k as int, ii as int, jj as int), acc) { lin(image.shape, i * stride + ii, j * stride + jj, k as int) } else { idx as int });
//// after 0.0.0.0.0

assert(pmax(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj + 1, acc));
assert(porigin(*image, *mask_shape, stride as int, i as int, j as int, k as int, 0, jj + 1, acc, idx as int));
//// permute 0 0.0 0.0.0
//// fn tensor::Tensor.softmax(input, output)
requires input.wf(), old(output).wf()
ensures final(output).wf(), final(output).same_frame(*old(output)),
   input.shape == old(output).shape ==> softmax_of(input.data@, final(output).data@),
   input.shape == old(output).shape && finite(input.data@) ==> forall|n: int| 0 <= n < final(output).data@.len() ==> funit(#[trigger] final(output).data@[n]),
   input.shape != old(output).shape ==> final(output).data@ == old(output).data@
//// proof
ax_ninf();
//// local mx float 0
//// local acc float 1
//// loop 0 n
invariant dmax(input.data@, n as int, mx),
//// begin 0
lem_dmax(input.data@, n as int, mx, if fgt(input.data@[n as int], mx) { input.data@[n as int] } else { mx });
//// loop 1 n
invariant output.same_frame(*old(output)), acc == esum(input.data@, mx, n as int), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 2 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == fdiv(sm_e(input.data@[q], mx), acc), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// after 2
assert(softmax_of(input.data@, output.data@)) by { assert(dmax(input.data@, input.data@.len() as int, mx)); }
if finite(input.data@) && input.data@.len() > 0 { lem_softmax_unit(input.data@, output.data@); }
//// alt
//// proof
ax_ninf();
//// local mx float 0
//// local acc float 2
//// loop 0 n
invariant dmax(input.data@, n as int, mx),
//// begin 0
lem_dmax(input.data@, n as int, mx, if fgt(input.data@[n as int], mx) { input.data@[n as int] } else { mx });
//// loop 1 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 2 n
invariant acc == esum(input.data@, mx, n as int), output.same_frame(*old(output)), forall|q: int| 0 <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 3 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == fdiv(sm_e(input.data@[q], mx), acc), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// after 3
assert(softmax_of(input.data@, output.data@)) by { assert(dmax(input.data@, input.data@.len() as int, mx)); }
if finite(input.data@) && input.data@.len() > 0 { lem_softmax_unit(input.data@, output.data@); }
//// alt
//// proof
ax_ninf();
//// local mx float 0
//// local acc float 1
//// loop 0 n
invariant dmax(input.data@, n as int, mx),
//// begin 0
lem_dmax(input.data@, n as int, mx, if fgt(input.data@[n as int], mx) { input.data@[n as int] } else { mx });
//// loop 1 n
invariant forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == input.data@[q], output.same_frame(*old(output)), acc == esum(input.data@, mx, n as int), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 2 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == fdiv(sm_e(input.data@[q], mx), acc), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// after 2
assert(softmax_of(input.data@, output.data@)) by { assert(dmax(input.data@, input.data@.len() as int, mx)); }
if finite(input.data@) && input.data@.len() > 0 { lem_softmax_unit(input.data@, output.data@); }
//// alt
//// proof
ax_ninf();
//// local mx float 0
//// local acc float 2
//// loop 0 n
invariant dmax(input.data@, n as int, mx),
//// begin 0
lem_dmax(input.data@, n as int, mx, if fgt(input.data@[n as int], mx) { input.data@[n as int] } else { mx });
//// loop 1 n
invariant output.shape == old(output).shape, output.strides == old(output).strides, output.data@.len() == n, forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 2 n
invariant acc == esum(input.data@, mx, n as int), output.same_frame(*old(output)), forall|q: int| 0 <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 3 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == fdiv(sm_e(input.data@[q], mx), acc), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// after 3
assert(softmax_of(input.data@, output.data@)) by { assert(dmax(input.data@, input.data@.len() as int, mx)); }
if finite(input.data@) && input.data@.len() > 0 { lem_softmax_unit(input.data@, output.data@); }
//// alt
//// proof
ax_ninf();
//// local mx float 0
//// local acc float 2
//// loop 0 n
invariant dmax(input.data@, n as int, mx),
//// begin 0
lem_dmax(input.data@, n as int, mx, if fgt(input.data@[n as int], mx) { input.data@[n as int] } else { mx });
//// loop 1 n
invariant output.same_frame(*old(output)), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == input.data@[q], forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 2 n
invariant acc == esum(input.data@, mx, n as int), output.same_frame(*old(output)), forall|q: int| 0 <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// loop 3 n
invariant output.same_frame(*old(output)), forall|q: int| 0 <= q < n ==> #[trigger] output.data@[q] == fdiv(sm_e(input.data@[q], mx), acc), forall|q: int| n <= q < output.data@.len() ==> #[trigger] output.data@[q] == sm_e(input.data@[q], mx),
//// after 3
assert(softmax_of(input.data@, output.data@)) by { assert(dmax(input.data@, input.data@.len() as int, mx)); }
if finite(input.data@) && input.data@.len() > 0 { lem_softmax_unit(input.data@, output.data@); }
//// fn tensor::Tensor.save_to_file(self, filename) -> r
requires self.wf()
ensures r is Ok ==> crate::stubs::fs::written(filename@, enc(*self)), r is Err ==> crate::stubs::fs::write_fails(filename@)
//// fn tensor::Tensor.from_file(filename) -> r
ensures r is Ok ==> r->Ok_0.wf() && exists|b: Seq<u8>| #[trigger] crate::stubs::fs::readable(filename@, b) && dec::<Tensor>(b) == Some(r->Ok_0),
   r is Err ==> crate::stubs::fs::read_fails(filename@) || exists|b: Seq<u8>| #[trigger] crate::stubs::fs::readable(filename@, b) && dec::<Tensor>(b) is None
//// impl tensor::Tensor/eq
impl PartialEq for Tensor { fn eq(&self, other: &Tensor) -> (r: bool) { Tensor::eq(self, other) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Tensor {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Tensor) -> bool { teq(*self, *other) }
}
