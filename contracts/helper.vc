//// fn tensor::helper::TensorShape.new(di, dj, dk) -> r
ensures r.di == (if di > 1 { di } else { 1 }), r.dj == (if dj > 1 { dj } else { 1 }), r.dk == (if dk > 1 { dk } else { 1 })
//// fn tensor::helper::TensorShape.new_1d(di) -> r
ensures r == sh(di, 1, 1)
//// fn tensor::helper::TensorShape.new_2d(di, dj) -> r
ensures r == sh(di, dj, 1)
//// fn tensor::helper::TensorShape.total_size(self) -> r
requires shape_ok(*self)
ensures r == items(*self)
//// proof
lem_prod0(self.di as int, self.dj as int, self.dk as int);
//// fn tensor::helper::TensorShape.checked_total_size(self) -> r
ensures r is Some == shape_ok(*self), r is Some ==> r->0 == items(*self)
//// proof
lem_prod0(self.di as int, self.dj as int, self.dk as int);
//// fn tensor::helper::TensorShape.fits_index(self, index) -> r
ensures r == inr(*self, index.i as int, index.j as int, index.k as int)
//// fn tensor::helper::TensorShape.fits_window(self, window, stride) -> r
ensures r == (stride > 0 && 0 < window.di <= self.di && 0 < window.dj <= self.dj)
//// fn tensor::helper::TensorShape.get(self) -> r
ensures r.0 == self.di, r.1 == self.dj, r.2 == self.dk
//// fn tensor::helper::TensorShape.transpose_ij(self) -> r
ensures r == tr(*self)
//// fn tensor::helper::TensorIndex.index_1d(i) -> r
ensures r.i == i, r.j == 0, r.k == 0
//// fn tensor::helper::TensorIndex.index_2d(i, j) -> r
ensures r.i == i, r.j == j, r.k == 0
//// fn tensor::helper::TensorIndex.zero() -> r
ensures r.i == 0, r.j == 0, r.k == 0
//// fn tensor::helper::TensorStride.mul(self, rhs) -> r
requires exists|s: TensorShape| shape_ok(s) && #[trigger] strides_of(s, *self) && inr(s, rhs.i as int, rhs.j as int, rhs.k as int)
ensures forall|s: TensorShape| shape_ok(s) && #[trigger] strides_of(s, *self) && inr(s, rhs.i as int, rhs.j as int, rhs.k as int) ==> r == lin(s, rhs.i as int, rhs.j as int, rhs.k as int)
//// proof
let s0 = choose|s: TensorShape| shape_ok(s) && #[trigger] strides_of(s, *self) && inr(s, rhs.i as int, rhs.j as int, rhs.k as int);
lem_lin1(s0, rhs.i as int, rhs.j as int, rhs.k as int);
assert(self.k * rhs.k == s0.di * s0.dj * rhs.k);
lem_terms(*self, *rhs);
reveal(lin);
//// fn tensor::helper::TensorStride.new_from_shape(shape) -> r
requires shape.di * shape.dj <= u32::MAX
ensures strides_of(*shape, r)
//// proof
lem_prod0(shape.di as int, shape.dj as int, 1);
//// fn tensor::helper::TensorStride.clone(self) -> r
ensures r == *self
