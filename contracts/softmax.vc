//// fn layer::softmax::SoftmaxLayer.new(shape, name) -> r
ensures (r is Ok) == shape_ok(shape), r is Ok ==> r->Ok_0.ok() && r->Ok_0.c() == mk_soft(name@, shape) && r->Ok_0.run_state == NetworkRunState::Inference
//// fn layer::softmax::SoftmaxLayer.empty() -> r
ensures r.ok(), r.run_state == NetworkRunState::Inference
//// fn layer::softmax::SoftmaxLayer.update_gradient_and_intermediate_tensors(self)
requires cfg_ok(old(self).c())
ensures final(self).ok(), final(self).c() == old(self).c(), final(self).run_state == old(self).run_state
//// fn layer::softmax::SoftmaxLayer.fill_from_state(self, shape, name) -> r
ensures (r is Ok) == cfg_ok(mk_soft(name@, shape)), final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == mk_soft(name@, shape), r is Err ==> *final(self) == *old(self)
//// fn layer::softmax::SoftmaxLayer.load_from_serialized_data(self, data) -> r
ensures (r is Ok) == decode(SerializedLayer::SerialSoftMaxLayer(*data)) is Some, final(self).run_state == old(self).run_state,
   r is Ok ==> final(self).ok() && final(self).c() == decode(SerializedLayer::SerialSoftMaxLayer(*data))->0,
   r is Err ==> *final(self) == *old(self)
//// fn layer::softmax::SoftmaxLayer.forward(self, input, output) -> r
//// fn layer::softmax::SoftmaxLayer.backward(self, input, output, incoming_gradient, outgoing_gradient) -> r
//// proof
lem_lin(self.shape); lem_tr(self.shape); lem_lin(sh(1, 1, 1));
assert(inr(sh(1, 1, 1), 0, 0, 0));
//// exit
assert forall|i: int| 0 <= i < self.shape.di implies outgoing_gradient.data@[#[trigger] lin(self.shape, i, 0, 0)] == soft_bwd_at(*output, *incoming_gradient, i) by {
   reveal_with_fuel(mm_sum, 2);
   assert(inr(self.shape, i, 0, 0));
   assert(lin(sh(1, 1, 1), 0, 0, 0) == 0) by { reveal(lin); }

   assert(self.intermediate1.at(0, 0, 0) == fmul(soft_dot(*output, *incoming_gradient), -1.0f32));
   assert(self.intermediate2.data@[lin(self.shape, i, 0, 0)] == mm_sum(*output, self.intermediate1, i, 0, 0, 1));
}
//// fn layer::softmax::SoftmaxLayer.get_output_shape(self) -> r
//// fn layer::softmax::SoftmaxLayer.get_input_shape(self) -> r
//// fn layer::softmax::SoftmaxLayer.get_name(self) -> r
//// fn layer::softmax::SoftmaxLayer.get_run_mode(self) -> r
//// fn layer::softmax::SoftmaxLayer.switch_to_inference(self)
//// fn layer::softmax::SoftmaxLayer.switch_to_training(self)
//// fn layer::softmax::SoftmaxLayer.clear_gradients(self)
//// fn layer::softmax::SoftmaxLayer.get_serialized(self) -> r
//// fn layer::softmax::SoftmaxLayer.load_from_serialized(self, serial_data) -> r
