//// fn layer::max_pool::MaxPoolLayer.new(mask_shape, input_shape, stride, name) -> r
ensures (r is Ok) == cfg_ok(mk_pool(name@, input_shape, mask_shape, stride)), r is Ok ==> r->Ok_0.ok() && r->Ok_0.c() == mk_pool(name@, input_shape, mask_shape, stride) && r->Ok_0.run_state == NetworkRunState::Inference
//// fn layer::max_pool::MaxPoolLayer.empty() -> r
ensures r.ok(), r.run_state == NetworkRunState::Inference
//// fn layer::max_pool::MaxPoolLayer.update_gradient_and_intermediate_tensors(self)
requires cfg_ok(old(self).c())
ensures final(self).ok(), final(self).c() == old(self).c(), final(self).run_state == old(self).run_state
//// proof
if let LKind::Pool { mask, s } = self.c().kind { lem_out_ok(self.input_shape, self.mask_shape, self.stride); }
//// fn layer::max_pool::MaxPoolLayer.fill_from_state(self, input_shape, mask_shape, stride, name) -> r
ensures (r is Ok) == cfg_ok(mk_pool(name@, input_shape, mask_shape, stride)), final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == mk_pool(name@, input_shape, mask_shape, stride),
   r is Err ==> *final(self) == *old(self)
//// proof
if win_fit(input_shape, mask_shape, stride) && shape_ok(input_shape) { lem_out_ok(input_shape, mask_shape, stride); }
//// fn layer::max_pool::MaxPoolLayer.load_from_serialized_data(self, data) -> r
ensures (r is Ok) == decode(SerializedLayer::SerialMaxPoolLayer(*data)) is Some, final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == decode(SerializedLayer::SerialMaxPoolLayer(*data))->0,
   r is Err ==> *final(self) == *old(self)
//// fn layer::max_pool::MaxPoolLayer.forward(self, input, output) -> r
//// proof
lem_lin(self.output_shape); lem_out_ok(self.input_shape, self.mask_shape, self.stride);
lem_out(self.input_shape.di as int, self.mask_shape.di as int, self.stride as int); lem_out(self.input_shape.dj as int, self.mask_shape.dj as int, self.stride as int);
//// every
if self.run_state == NetworkRunState::Training { lem_origin(*input, self.mask_shape, self.stride, self.output_shape, output.data@, self.max_pool_origin@); }
//// fn layer::max_pool::MaxPoolLayer.backward(self, input, output, incoming_gradient, outgoing_gradient) -> r
//// fn layer::max_pool::MaxPoolLayer.get_output_shape(self) -> r
//// fn layer::max_pool::MaxPoolLayer.get_input_shape(self) -> r
//// fn layer::max_pool::MaxPoolLayer.get_name(self) -> r
//// fn layer::max_pool::MaxPoolLayer.get_run_mode(self) -> r
//// fn layer::max_pool::MaxPoolLayer.switch_to_inference(self)
//// fn layer::max_pool::MaxPoolLayer.switch_to_training(self)
//// fn layer::max_pool::MaxPoolLayer.clear_gradients(self)
//// proof
if let LKind::Pool { mask, s } = self.c().kind { lem_out_ok(self.input_shape, self.mask_shape, self.stride); }
//// loop 0 n
invariant self.c() == old(self).c(), self.run_state == old(self).run_state, self.max_pool_origin@.len() == old(self).max_pool_origin@.len(), forall|q: int| 0 <= q < n ==> #[trigger] self.max_pool_origin@[q] == 0,
   self.run_state == NetworkRunState::Training ==> aux_ok(self.c(), self.a()),
//// fn layer::max_pool::MaxPoolLayer.get_serialized(self) -> r
//// fn layer::max_pool::MaxPoolLayer.load_from_serialized(self, serial_data) -> r
