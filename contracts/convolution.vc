//// fn tensor::operations::convolution::check_convolution_dimensions(image_shape, kernel_shape, stride, result_shape, result_channel) -> r
ensures (r is Ok) == conv_dims(*image_shape, *kernel_shape, stride, *result_shape, result_channel)
//// proof
if stride > 0 && 0 < kernel_shape.di <= image_shape.di && 0 < kernel_shape.dj <= image_shape.dj { lem_out(image_shape.di as int, kernel_shape.di as int, stride as int); lem_out(image_shape.dj as int, kernel_shape.dj as int, stride as int); }
//// fn tensor::operations::convolution::convolution_bias(image, kernel, bias, stride, result, result_channel) -> r
requires image.wf(), kernel.wf(), bias.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (r is Ok) == (conv_dims(image.shape, kernel.shape, stride, old(result).shape, result_channel) && bias_ok(bias.shape)),
   r is Ok ==> forall|a: int, b: int| inr(old(result).shape, a, b, result_channel as int) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, result_channel as int)] == fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)),
   r is Ok ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) && c != result_channel ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == old(result).at(a, b, c),
   r is Err ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0.0
//// loop 0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int| inr(result.shape, a, b, result_channel as int) && before(a, b, 0, 0, j as int, 0) ==> result.data@[#[trigger] lin(result.shape, a, b, result_channel as int)] == fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && c != result_channel ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == old(result).at(a, b, c),
//// begin 0
lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, 0);
//// loop 0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int| inr(result.shape, a, b, result_channel as int) && before(a, b, 0, i as int, j as int, 0) ==> result.data@[#[trigger] lin(result.shape, a, b, result_channel as int)] == fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && c != result_channel ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == old(result).at(a, b, c),
//// begin 0.0
lem_win(image.shape.di as int, kernel.shape.di as int, stride as int, i as int, 0); lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, 0);
//// loop 0.0.0 kk
invariant acc == cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int),
//// loop 0.0.0.0 kj
invariant acc == cv_j(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int)),
//// loop 0.0.0.0.0 ki
invariant acc == cv_i(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, ki as int, cv_j(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int))),
//// begin 0.0.0.0.0
lem_win(image.shape.di as int, kernel.shape.di as int, stride as int, i as int, ki as int); lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, kj as int);
//// permute 0 0.0
//// fn tensor::operations::convolution::convolution_bias_relu(image, kernel, bias, stride, result, result_channel) -> r
requires image.wf(), kernel.wf(), bias.wf(), old(result).wf()
ensures final(result).wf(), final(result).same_frame(*old(result)),
   (r is Ok) == (conv_dims(image.shape, kernel.shape, stride, old(result).shape, result_channel) && bias_ok(bias.shape)),
   r is Ok ==> forall|a: int, b: int| inr(old(result).shape, a, b, result_channel as int) ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, result_channel as int)] == fmax(fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)), 0.0f32),
   r is Ok ==> forall|a: int, b: int, c: int| inr(old(result).shape, a, b, c) && c != result_channel ==> final(result).data@[#[trigger] lin(old(result).shape, a, b, c)] == old(result).at(a, b, c),
   r is Err ==> final(result).data@ == old(result).data@
//// proof
lem_lin(old(result).shape); lem_inj(old(result).shape);
//// local acc float 0.0.0.0.0
//// loop 0 j
invariant result.same_frame(*old(result)), forall|a: int, b: int| inr(result.shape, a, b, result_channel as int) && before(a, b, 0, 0, j as int, 0) ==> result.data@[#[trigger] lin(result.shape, a, b, result_channel as int)] == fmax(fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)), 0.0f32), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && c != result_channel ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == old(result).at(a, b, c),
//// begin 0
lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, 0);
//// loop 0.0 i
invariant result.same_frame(*old(result)), forall|a: int, b: int| inr(result.shape, a, b, result_channel as int) && before(a, b, 0, i as int, j as int, 0) ==> result.data@[#[trigger] lin(result.shape, a, b, result_channel as int)] == fmax(fadd(conv_at(*image, *kernel, stride as int, a, b), bias_val(*bias)), 0.0f32), forall|a: int, b: int, c: int| inr(result.shape, a, b, c) && c != result_channel ==> result.data@[#[trigger] lin(result.shape, a, b, c)] == old(result).at(a, b, c),
//// begin 0.0
lem_win(image.shape.di as int, kernel.shape.di as int, stride as int, i as int, 0); lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, 0);
//// loop 0.0.0 kk
invariant acc == cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int),
//// loop 0.0.0.0 kj
invariant acc == cv_j(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int)),
//// loop 0.0.0.0.0 ki
invariant acc == cv_i(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, ki as int, cv_j(*image, *kernel, stride as int, i as int, j as int, kk as int, kj as int, cv_k(*image, *kernel, stride as int, i as int, j as int, kk as int))),
//// begin 0.0.0.0.0
lem_win(image.shape.di as int, kernel.shape.di as int, stride as int, i as int, ki as int); lem_win(image.shape.dj as int, kernel.shape.dj as int, stride as int, j as int, kj as int);
//// permute 0 0.0
//// fn tensor::operations::convolution::convolution_backprop_outgoing_gradient(incoming_gradients, kernels, stride, outgoing_gradients) -> r
requires incoming_gradients.wf(), old(outgoing_gradients).wf(), forall|n: int| 0 <= n < kernels@.len() ==> (#[trigger] kernels@[n]).wf()
ensures final(outgoing_gradients).wf(), final(outgoing_gradients).same_frame(*old(outgoing_gradients)),
   (r is Ok) == (kernels@.len() == incoming_gradients.shape.dk && forall|n: int| 0 <= n < kernels@.len() ==> conv_dims(old(outgoing_gradients).shape, (#[trigger] kernels@[n]).shape, stride, incoming_gradients.shape, n as u32)),
   r is Ok ==> forall|x: int, y: int, z: int| inr(old(outgoing_gradients).shape, x, y, z) ==> final(outgoing_gradients).data@[#[trigger] lin(old(outgoing_gradients).shape, x, y, z)] == bo_at(*incoming_gradients, kernels@, stride as int, x, y, z),
   r is Err ==> final(outgoing_gradients).data@ == old(outgoing_gradients).data@
//// proof
lem_lin(old(outgoing_gradients).shape); lem_inj(old(outgoing_gradients).shape);
//// local acc float 1.0.0.0
//// loop 0 n
invariant forall|q: int| 0 <= q < n ==> conv_dims(outgoing_gradients.shape, (#[trigger] kernels@[q]).shape, stride, incoming_gradients.shape, q as u32), n <= incoming_gradients.shape.dk,
//// loop 1 c
invariant outgoing_gradients.same_frame(*old(outgoing_gradients)), forall|x: int, y: int, z: int| inr(outgoing_gradients.shape, x, y, z) && before(x, y, z, 0, 0, c as int) ==> outgoing_gradients.data@[#[trigger] lin(outgoing_gradients.shape, x, y, z)] == bo_at(*incoming_gradients, kernels@, stride as int, x, y, z),
//// loop 1.0 b
invariant outgoing_gradients.same_frame(*old(outgoing_gradients)), forall|x: int, y: int, z: int| inr(outgoing_gradients.shape, x, y, z) && before(x, y, z, 0, b as int, c as int) ==> outgoing_gradients.data@[#[trigger] lin(outgoing_gradients.shape, x, y, z)] == bo_at(*incoming_gradients, kernels@, stride as int, x, y, z),
//// loop 1.0.0 a
invariant outgoing_gradients.same_frame(*old(outgoing_gradients)), forall|x: int, y: int, z: int| inr(outgoing_gradients.shape, x, y, z) && before(x, y, z, a as int, b as int, c as int) ==> outgoing_gradients.data@[#[trigger] lin(outgoing_gradients.shape, x, y, z)] == bo_at(*incoming_gradients, kernels@, stride as int, x, y, z),
//// loop 1.0.0.0 k
invariant acc == bo_k(*incoming_gradients, kernels@, stride as int, a as int, b as int, c as int, k as int),
//// begin 1.0.0.0
lem_cov(a as int, kernels@[k as int].shape.di as int, stride as int, incoming_gradients.shape.di as int, outgoing_gradients.shape.di as int);
lem_cov(b as int, kernels@[k as int].shape.dj as int, stride as int, incoming_gradients.shape.dj as int, outgoing_gradients.shape.dj as int);
lem_bo_j_lo(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, acc, c_lo(b as int, kernels@[k as int].shape.dj as int, stride as int), c_lo(b as int, kernels@[k as int].shape.dj as int, stride as int));
lem_bo_j_hi(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, acc, c_hi(b as int, stride as int, incoming_gradients.shape.dj as int), incoming_gradients.shape.dj as int);
//// loop 1.0.0.0.0 j
invariant acc == bo_j(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, j as int, bo_k(*incoming_gradients, kernels@, stride as int, a as int, b as int, c as int, k as int)),
//// begin 1.0.0.0.0
lem_cov1(b as int, kernels@[k as int].shape.dj as int, stride as int, j as int);
lem_bo_i_lo(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, j as int, acc, c_lo(a as int, kernels@[k as int].shape.di as int, stride as int), c_lo(a as int, kernels@[k as int].shape.di as int, stride as int));
lem_bo_i_hi(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, j as int, acc, c_hi(a as int, stride as int, incoming_gradients.shape.di as int), incoming_gradients.shape.di as int);
//// loop 1.0.0.0.0.0 i
invariant acc == bo_i(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, j as int, i as int, bo_j(*incoming_gradients, kernels@[k as int], stride as int, a as int, b as int, c as int, k as int, j as int, bo_k(*incoming_gradients, kernels@, stride as int, a as int, b as int, c as int, k as int))),
//// begin 1.0.0.0.0.0
lem_cov1(a as int, kernels@[k as int].shape.di as int, stride as int, i as int);
//// permute 1 1.0 1.0.0
//// fn tensor::operations::convolution::convolution_backprop_kernel(incoming_gradients, image, stride, kernel_channel, kernel_gradient) -> r
requires incoming_gradients.wf(), image.wf(), old(kernel_gradient).wf()
ensures final(kernel_gradient).wf(), final(kernel_gradient).same_frame(*old(kernel_gradient)),
   (r is Ok) == conv_dims(image.shape, old(kernel_gradient).shape, stride, incoming_gradients.shape, kernel_channel),
   r is Ok ==> forall|x: int, y: int, z: int| inr(old(kernel_gradient).shape, x, y, z) ==> final(kernel_gradient).data@[#[trigger] lin(old(kernel_gradient).shape, x, y, z)] == kg_at(*incoming_gradients, *image, stride as int, kernel_channel as int, x, y, z),
   r is Err ==> final(kernel_gradient).data@ == old(kernel_gradient).data@
//// proof
lem_lin(old(kernel_gradient).shape); lem_inj(old(kernel_gradient).shape);
//// local acc float 0.0.0.0.0
//// loop 0 n
invariant kernel_gradient.same_frame(*old(kernel_gradient)), forall|x: int, y: int, z: int| inr(kernel_gradient.shape, x, y, z) && before(x, y, z, 0, 0, n as int) ==> kernel_gradient.data@[#[trigger] lin(kernel_gradient.shape, x, y, z)] == kg_at(*incoming_gradients, *image, stride as int, kernel_channel as int, x, y, z),
//// loop 0.0 m
invariant kernel_gradient.same_frame(*old(kernel_gradient)), forall|x: int, y: int, z: int| inr(kernel_gradient.shape, x, y, z) && before(x, y, z, 0, m as int, n as int) ==> kernel_gradient.data@[#[trigger] lin(kernel_gradient.shape, x, y, z)] == kg_at(*incoming_gradients, *image, stride as int, kernel_channel as int, x, y, z),
//// loop 0.0.0 l
invariant kernel_gradient.same_frame(*old(kernel_gradient)), forall|x: int, y: int, z: int| inr(kernel_gradient.shape, x, y, z) && before(x, y, z, l as int, m as int, n as int) ==> kernel_gradient.data@[#[trigger] lin(kernel_gradient.shape, x, y, z)] == kg_at(*incoming_gradients, *image, stride as int, kernel_channel as int, x, y, z),
//// loop 0.0.0.0 j
invariant acc == kg_j(*incoming_gradients, *image, stride as int, kernel_channel as int, l as int, m as int, n as int, j as int),
//// begin 0.0.0.0
lem_win(image.shape.dj as int, kernel_gradient.shape.dj as int, stride as int, j as int, m as int); lem_win(image.shape.dj as int, kernel_gradient.shape.dj as int, stride as int, j as int, 0);
//// loop 0.0.0.0.0 i
invariant acc == kg_i(*incoming_gradients, *image, stride as int, kernel_channel as int, l as int, m as int, n as int, j as int, i as int, kg_j(*incoming_gradients, *image, stride as int, kernel_channel as int, l as int, m as int, n as int, j as int)),
//// begin 0.0.0.0.0
lem_win(image.shape.di as int, kernel_gradient.shape.di as int, stride as int, i as int, l as int); lem_win(image.shape.dj as int, kernel_gradient.shape.dj as int, stride as int, j as int, m as int);
//// permute 0 0.0 0.0.0
