//// fn layer::fully_connected::FullyConnectedLayer.update_gradient_and_intermediate_tensors(self)
requires cfg_ok(old(self).c())
ensures final(self).ok(), final(self).c() == old(self).c(), final(self).run_state == old(self).run_state, final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a())
//// fn layer::fully_connected::FullyConnectedLayer.new(input_size, output_size, name) -> r
requires (if input_size > 1 { input_size as int } else { 1 }) * (if output_size > 1 { output_size as int } else { 1 }) <= u32::MAX
ensures r.ok(), r.run_state == NetworkRunState::Inference, r.name@ == name@,
   zero_like(r.weights, sh(if output_size > 1 { output_size } else { 1 }, if input_size > 1 { input_size } else { 1 }, 1)), zero_like(r.bias, sh(if output_size > 1 { output_size } else { 1 }, 1, 1))
//// proof
let (p, q) = (if input_size > 1 { input_size as int } else { 1 }, if output_size > 1 { output_size as int } else { 1 });
assert(q * p == p * q) by(nonlinear_arith);
assert(q * p * 1 == q * p) by(nonlinear_arith);
//// fn layer::fully_connected::FullyConnectedLayer.empty() -> r
ensures r.ok(), r.run_state == NetworkRunState::Inference
//// fn layer::fully_connected::FullyConnectedLayer.fill_from_state(self, weights, bias, name) -> r
requires weights.wf(), bias.wf()
ensures (r is Ok) == cfg_ok(mk_dense(name@, weights, bias)), final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == mk_dense(name@, weights, bias),
   r is Ok && final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a()),
   r is Err ==> *final(self) == *old(self)
//// fn layer::fully_connected::FullyConnectedLayer.fill_weights_with_value(self, value)
requires old(self).ok()
ensures final(self).ok(), final(self).run_state == old(self).run_state, final(self).a() == old(self).a(), final(self).name@ == old(self).name@, final(self).bias == old(self).bias, final(self).weights.same_frame(old(self).weights), final(self).weights.all_is(value)
//// fn layer::fully_connected::FullyConnectedLayer.fill_bias_with_value(self, value)
requires old(self).ok()
ensures final(self).ok(), final(self).run_state == old(self).run_state, final(self).a() == old(self).a(), final(self).name@ == old(self).name@, final(self).weights == old(self).weights, final(self).bias.same_frame(old(self).bias), final(self).bias.all_is(value)
//// fn layer::fully_connected::FullyConnectedLayer.load_from_serialized_data(self, data) -> r
ensures (r is Ok) == decode(SerializedLayer::SerialFullyConnectedLayer(*data)) is Some, final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == decode(SerializedLayer::SerialFullyConnectedLayer(*data))->0,
   r is Ok && final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).a()),
   r is Err ==> *final(self) == *old(self)
//// fn layer::fully_connected::FullyConnectedLayer.forward(self, input, output) -> r
//// proof
lem_lin(self.c().osh);
//// fn layer::fully_connected::FullyConnectedLayer.backward(self, input, output, incoming_gradient, outgoing_gradient) -> r
//// proof
lem_lin(self.weights.shape); lem_tr(self.weights.shape);
//// fn layer::fully_connected::FullyConnectedLayer.get_output_shape(self) -> r
//// fn layer::fully_connected::FullyConnectedLayer.get_input_shape(self) -> r
//// fn layer::fully_connected::FullyConnectedLayer.get_name(self) -> r
//// fn layer::fully_connected::FullyConnectedLayer.get_run_mode(self) -> r
//// fn layer::fully_connected::FullyConnectedLayer.switch_to_inference(self)
//// fn layer::fully_connected::FullyConnectedLayer.switch_to_training(self)
//// fn layer::fully_connected::FullyConnectedLayer.clear_gradients(self)
//// fn layer::fully_connected::FullyConnectedLayer.get_serialized(self) -> r
//// fn layer::fully_connected::FullyConnectedLayer.load_from_serialized(self, serial_data) -> r
