//// fn layer::convolutional::ConvolutionalLayer.update_gradient_and_intermediate_tensors(self)
requires cfg_ok(old(self).c())
ensures final(self).ok(), final(self).c() == old(self).c(), final(self).run_state == old(self).run_state, final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a())
//// proof
assert(shape_ok(sh(1, 1, 1)));
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.run_state == NetworkRunState::Training, self.kernel_gradients@.len() == n, forall|q: int| 0 <= q < n ==> zero_like(#[trigger] self.kernel_gradients@[q], self.kernels@[q].shape),
//// alt
//// proof
assert(shape_ok(sh(1, 1, 1)));
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.run_state == NetworkRunState::Training, self.kernel_gradients@.len() == n, forall|q: int| 0 <= q < n ==> zero_like(#[trigger] self.kernel_gradients@[q], self.kernels@[q].shape),
//// loop 1 m
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.run_state == NetworkRunState::Training, self.kernel_gradients@.len() == self.kernels@.len(), forall|q: int| 0 <= q < self.kernels@.len() ==> zero_like(#[trigger] self.kernel_gradients@[q], self.kernels@[q].shape),
   self.bias_gradients@.len() == m, forall|q: int| 0 <= q < m ==> zero_like(#[trigger] self.bias_gradients@[q], sh(1, 1, 1)),
//// alt
//// proof
assert(shape_ok(sh(1, 1, 1)));
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.run_state == NetworkRunState::Training, self.kernel_gradients@.len() == n, forall|q: int| 0 <= q < n ==> zero_like(#[trigger] self.kernel_gradients@[q], self.kernels@[q].shape),
   self.bias_gradients@.len() == n, forall|q: int| 0 <= q < n ==> zero_like(#[trigger] self.bias_gradients@[q], sh(1, 1, 1)),
//// fn layer::convolutional::ConvolutionalLayer.new(kernel_shape, input_shape, stride, output_depth, name) -> r
ensures (r is Ok) == (shape_ok(kernel_shape) && output_depth >= 1 && kernel_shape.dk == input_shape.dk && win_fit(input_shape, kernel_shape, stride) && shape_ok(input_shape) && shape_ok(win_out(input_shape, kernel_shape, stride, output_depth))),
   r is Ok ==> r->Ok_0.ok() && r->Ok_0.run_state == NetworkRunState::Inference && r->Ok_0.name@ == name@ && r->Ok_0.input_shape == input_shape && r->Ok_0.output_shape == win_out(input_shape, kernel_shape, stride, output_depth) && r->Ok_0.stride == stride
      && r->Ok_0.kernels@.len() == output_depth && (forall|n: int| 0 <= n < output_depth ==> zero_like(#[trigger] r->Ok_0.kernels@[n], kernel_shape)) && (forall|n: int| 0 <= n < output_depth ==> zero_like(#[trigger] r->Ok_0.biases@[n], sh(1, 1, 1)))
//// proof
assert(shape_ok(sh(1, 1, 1)));
//// fn layer::convolutional::ConvolutionalLayer.empty() -> r
ensures r.run_state == NetworkRunState::Inference
//// fn layer::convolutional::ConvolutionalLayer.fill_from_state(self, kernels, biases, input_shape, stride, name) -> r
requires all_wf(kernels@), all_wf(biases@)
ensures (r is Ok) == cfg_ok(mk_conv(name@, kernels@, biases@, input_shape, stride)), final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == mk_conv(name@, kernels@, biases@, input_shape, stride),
   r is Ok && final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a()),
   r is Err ==> *final(self) == *old(self)
//// loop 0 n
invariant forall|q: int| 0 <= q < n ==> (#[trigger] kernels@[q]).shape == kernels@[0].shape,
//// loop 1 n
invariant forall|q: int| 0 <= q < n ==> (#[trigger] biases@[q]).shape == sh(1, 1, 1),
//// alt
//// loop 0 n
invariant forall|q: int| 0 <= q < n ==> (#[trigger] kernels@[q]).shape == kernels@[0].shape, forall|q: int| 0 <= q < n ==> (#[trigger] biases@[q]).shape == sh(1, 1, 1),
//// alt
//// loop 0 n
invariant forall|q: int| 0 <= q < n ==> (#[trigger] biases@[q]).shape == sh(1, 1, 1),
//// loop 1 n
invariant forall|q: int| 0 <= q < n ==> (#[trigger] kernels@[q]).shape == kernels@[0].shape,
//// fn layer::convolutional::ConvolutionalLayer.load_from_serialized_data(self, data) -> r
ensures (r is Ok) == decode(SerializedLayer::SerialConvolutionalLayer(*data)) is Some, final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == decode(SerializedLayer::SerialConvolutionalLayer(*data))->0,
   r is Ok && final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a()),
   r is Err ==> *final(self) == *old(self)
//// fn layer::convolutional::ConvolutionalLayer.forward(self, input, output) -> r
//// proof
lem_lin(self.output_shape);
lem_out(self.input_shape.di as int, self.kernels@[0].shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.kernels@[0].shape.dj as int, self.stride as int);
//// loop 0 n
invariant output.wf(), output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(old(self).output_shape, a, b, c) && c < n ==> output.data@[#[trigger] lin(old(self).output_shape, a, b, c)] == rect(NetworkRunState::Inference, conv_pre(old(self).kernels@, old(self).biases@, old(self).stride, *input, a, b, c)),
//// loop 1 n
invariant output.wf(), output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(old(self).output_shape, a, b, c) && c < n ==> output.data@[#[trigger] lin(old(self).output_shape, a, b, c)] == conv_pre(old(self).kernels@, old(self).biases@, old(self).stride, *input, a, b, c),
//// alt
//// proof
lem_lin(self.output_shape);
lem_out(self.input_shape.di as int, self.kernels@[0].shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.kernels@[0].shape.dj as int, self.stride as int);
//// loop 0 n
invariant output.wf(), output.same_frame(*old(output)), forall|a: int, b: int, c: int| inr(old(self).output_shape, a, b, c) && c < n ==> output.data@[#[trigger] lin(old(self).output_shape, a, b, c)] == (if old(self).run_state == NetworkRunState::Training { conv_pre(old(self).kernels@, old(self).biases@, old(self).stride, *input, a, b, c) } else { rect(NetworkRunState::Inference, conv_pre(old(self).kernels@, old(self).biases@, old(self).stride, *input, a, b, c)) }),
//// fn layer::convolutional::ConvolutionalLayer.backward(self, input, output, incoming_gradient, outgoing_gradient) -> r
//// proof
lem_lin(self.output_shape);
lem_out(self.input_shape.di as int, self.kernels@[0].shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.kernels@[0].shape.dj as int, self.stride as int);
//// local acc float 0.0.0
//// loop 0 ch
invariant self.c() == old(self).c(), self.run_state == NetworkRunState::Training, aux_ok(self.c(), self.a()), masked(self.relu_mask, old(self).relu_mask, *incoming_gradient),
   forall|n: int| 0 <= n < ch ==> (#[trigger] self.bias_gradients@[n]).all_is(bs_j(self.relu_mask, n, self.relu_mask.shape.dj as int)),
//// loop 0.0 j
invariant acc == bs_j(self.relu_mask, ch as int, j as int),
//// loop 0.0.0 i
invariant acc == bs_i(self.relu_mask, ch as int, j as int, i as int, bs_j(self.relu_mask, ch as int, j as int)),
//// loop 1 n
invariant self.c() == old(self).c(), self.run_state == NetworkRunState::Training, aux_ok(self.c(), self.a()), masked(self.relu_mask, old(self).relu_mask, *incoming_gradient),
   forall|q: int| 0 <= q < self.bias_gradients@.len() ==> (#[trigger] self.bias_gradients@[q]).all_is(bs_j(self.relu_mask, q, self.relu_mask.shape.dj as int)),
   forall|q: int| 0 <= q < n ==> kgrad(self.relu_mask, *input, self.stride, q, #[trigger] self.kernel_gradients@[q]),
//// alt
//// proof
lem_lin(self.output_shape);
lem_out(self.input_shape.di as int, self.kernels@[0].shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.kernels@[0].shape.dj as int, self.stride as int);
//// local acc float 0.0.0
//// loop 0 ch
invariant self.c() == old(self).c(), self.run_state == NetworkRunState::Training, aux_ok(self.c(), self.a()), masked(self.relu_mask, old(self).relu_mask, *incoming_gradient),
   forall|n: int| 0 <= n < ch ==> (#[trigger] self.bias_gradients@[n]).all_is(bs_j(self.relu_mask, n, self.relu_mask.shape.dj as int)),
   forall|q: int| 0 <= q < ch ==> kgrad(self.relu_mask, *input, self.stride, q, #[trigger] self.kernel_gradients@[q]),
//// loop 0.0 j
invariant acc == bs_j(self.relu_mask, ch as int, j as int),
//// loop 0.0.0 i
invariant acc == bs_i(self.relu_mask, ch as int, j as int, i as int, bs_j(self.relu_mask, ch as int, j as int)),
//// alt
//// proof
lem_lin(self.output_shape);
lem_out(self.input_shape.di as int, self.kernels@[0].shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.kernels@[0].shape.dj as int, self.stride as int);
//// local acc float 1.0.0
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == NetworkRunState::Training, aux_ok(self.c(), self.a()), masked(self.relu_mask, old(self).relu_mask, *incoming_gradient),
   forall|q: int| 0 <= q < n ==> kgrad(self.relu_mask, *input, self.stride, q, #[trigger] self.kernel_gradients@[q]),
//// loop 1 ch
invariant self.c() == old(self).c(), self.run_state == NetworkRunState::Training, aux_ok(self.c(), self.a()), masked(self.relu_mask, old(self).relu_mask, *incoming_gradient),
   forall|q: int| 0 <= q < self.kernel_gradients@.len() ==> kgrad(self.relu_mask, *input, self.stride, q, #[trigger] self.kernel_gradients@[q]),
   forall|n: int| 0 <= n < ch ==> (#[trigger] self.bias_gradients@[n]).all_is(bs_j(self.relu_mask, n, self.relu_mask.shape.dj as int)),
//// loop 1.0 j
invariant acc == bs_j(self.relu_mask, ch as int, j as int),
//// loop 1.0.0 i
invariant acc == bs_i(self.relu_mask, ch as int, j as int, i as int, bs_j(self.relu_mask, ch as int, j as int)),
//// fn layer::convolutional::ConvolutionalLayer.get_output_shape(self) -> r
//// fn layer::convolutional::ConvolutionalLayer.get_input_shape(self) -> r
//// fn layer::convolutional::ConvolutionalLayer.get_name(self) -> r
//// fn layer::convolutional::ConvolutionalLayer.get_run_mode(self) -> r
//// fn layer::convolutional::ConvolutionalLayer.switch_to_inference(self)
//// fn layer::convolutional::ConvolutionalLayer.switch_to_training(self)
//// fn layer::convolutional::ConvolutionalLayer.clear_gradients(self)
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.kernel_gradients@.len() == old(self).kernel_gradients@.len(), self.bias_gradients@.len() == old(self).bias_gradients@.len(), self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.kernel_gradients@[q]).all_is(0.0f32),
//// loop 1 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.kernel_gradients@.len() == old(self).kernel_gradients@.len(), self.bias_gradients@.len() == old(self).bias_gradients@.len(), self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
   forall|q: int| 0 <= q < self.kernel_gradients@.len() ==> (#[trigger] self.kernel_gradients@[q]).all_is(0.0f32),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.bias_gradients@[q]).all_is(0.0f32),
//// alt
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.kernel_gradients@.len() == old(self).kernel_gradients@.len(), self.bias_gradients@.len() == old(self).bias_gradients@.len(), self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.kernel_gradients@[q]).all_is(0.0f32),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.bias_gradients@[q]).all_is(0.0f32),
//// alt
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.kernel_gradients@.len() == old(self).kernel_gradients@.len(), self.bias_gradients@.len() == old(self).bias_gradients@.len(), self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.bias_gradients@[q]).all_is(0.0f32),
//// loop 1 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.kernel_gradients@.len() == old(self).kernel_gradients@.len(), self.bias_gradients@.len() == old(self).bias_gradients@.len(), self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
   forall|q: int| 0 <= q < self.bias_gradients@.len() ==> (#[trigger] self.bias_gradients@[q]).all_is(0.0f32),
   forall|q: int| 0 <= q < n ==> (#[trigger] self.kernel_gradients@[q]).all_is(0.0f32),
//// fn layer::convolutional::ConvolutionalLayer.get_serialized(self) -> r
//// fn layer::convolutional::ConvolutionalLayer.load_from_serialized(self, serial_data) -> r
