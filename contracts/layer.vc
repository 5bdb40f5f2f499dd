//// trait layer::Layer
spec fn inv(&self) -> bool;
spec fn cfg(&self) -> LCfg;
spec fn aux(&self) -> LAux;
spec fn mode(&self) -> NetworkRunState;
spec fn tag(&self) -> int;
//// fn layer::Layer.forward(self, input, output) -> r
requires old(self).inv(), input.wf(), old(output).wf()
ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).mode() == old(self).mode(), final(self).tag() == old(self).tag(),
   final(output).wf(), final(output).same_frame(*old(output)),
   (r is Ok) == (input.shape == old(self).cfg().ish && old(output).shape == old(self).cfg().osh),
   r is Ok ==> fwd(old(self).cfg(), old(self).mode(), *input, *final(output)),
   r is Ok ==> fwd_aux(old(self).cfg(), old(self).mode(), *input, *final(output), old(self).aux(), final(self).aux()),
   r is Err ==> final(output).data@ == old(output).data@,
   r is Err ==> final(self).aux() == old(self).aux()
//// fn layer::Layer.backward(self, input, output, incoming_gradient, outgoing_gradient) -> r
requires old(self).inv(), input.wf(), output.wf(), incoming_gradient.wf(), old(outgoing_gradient).wf()
ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).mode() == old(self).mode(), final(self).tag() == old(self).tag(),
   final(outgoing_gradient).wf(), final(outgoing_gradient).same_frame(*old(outgoing_gradient)),
   (r is Ok) == bwd_ok(old(self).cfg(), old(self).mode(), input.shape, output.shape, incoming_gradient.shape, old(outgoing_gradient).shape),
   r is Ok ==> bwd(old(self).cfg(), old(self).aux(), *input, *output, *incoming_gradient, *final(outgoing_gradient), final(self).aux()),
   r is Err ==> final(outgoing_gradient).data@ == old(outgoing_gradient).data@,
   r is Err ==> final(self).aux() == old(self).aux()
//// fn layer::Layer.apply_gradients(self)
requires old(self).inv()
ensures final(self).inv(), final(self).mode() == old(self).mode(), final(self).tag() == old(self).tag(), final(self).cfg() == old(self).cfg()
//// fn layer::Layer.clear_gradients(self)
requires old(self).inv()
ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).mode() == old(self).mode(), final(self).tag() == old(self).tag(), final(self).mode() == NetworkRunState::Training ==> zeroed(final(self).aux())
//// fn layer::Layer.switch_to_training(self)
requires old(self).inv()
ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).mode() == NetworkRunState::Training, final(self).tag() == old(self).tag(), zeroed(final(self).aux())
//// fn layer::Layer.switch_to_inference(self)
requires old(self).inv()
ensures final(self).inv(), final(self).cfg() == old(self).cfg(), final(self).mode() == NetworkRunState::Inference, final(self).tag() == old(self).tag()
//// fn layer::Layer.get_run_mode(self) -> r
ensures r == self.mode()
//// fn layer::Layer.get_input_shape(self) -> r
ensures r == self.cfg().ish, self.inv() ==> shape_ok(r)
//// fn layer::Layer.get_output_shape(self) -> r
ensures r == self.cfg().osh, self.inv() ==> shape_ok(r)
//// fn layer::Layer.get_name(self) -> r
ensures r@ == self.cfg().name
//// fn layer::Layer.get_serialized(self) -> r
requires self.inv()
ensures decode(r) is Some, cfg_same(decode(r)->0, self.cfg()), stag(r) == self.tag()
//// fn layer::Layer.load_from_serialized(self, serial_data) -> r
ensures final(self).mode() == old(self).mode(), final(self).tag() == old(self).tag(),
   (r is Ok) == (stag(*serial_data) == old(self).tag() && decode(*serial_data) is Some),
   r is Ok ==> final(self).inv() && final(self).cfg() == decode(*serial_data)->0,
   r is Ok && final(self).mode() == NetworkRunState::Training ==> zeroed(final(self).aux()),
   r is Err ==> final(self).cfg() == old(self).cfg() && final(self).aux() == old(self).aux() && final(self).inv() == old(self).inv()
//// impl layer::fully_connected::FullyConnectedLayer
open spec fn inv(&self) -> bool { self.ok() }
open spec fn cfg(&self) -> LCfg { self.c() }
open spec fn aux(&self) -> LAux { self.a() }
open spec fn mode(&self) -> NetworkRunState { self.run_state }
open spec fn tag(&self) -> int { 0 }
//// impl layer::convolutional::ConvolutionalLayer
open spec fn inv(&self) -> bool { self.ok() }
open spec fn cfg(&self) -> LCfg { self.c() }
open spec fn aux(&self) -> LAux { self.a() }
open spec fn mode(&self) -> NetworkRunState { self.run_state }
open spec fn tag(&self) -> int { 1 }
//// impl layer::max_pool::MaxPoolLayer
open spec fn inv(&self) -> bool { self.ok() }
open spec fn cfg(&self) -> LCfg { self.c() }
open spec fn aux(&self) -> LAux { self.a() }
open spec fn mode(&self) -> NetworkRunState { self.run_state }
open spec fn tag(&self) -> int { 2 }
//// impl layer::softmax::SoftmaxLayer
open spec fn inv(&self) -> bool { self.ok() }
open spec fn cfg(&self) -> LCfg { self.c() }
open spec fn aux(&self) -> LAux { self.a() }
open spec fn mode(&self) -> NetworkRunState { self.run_state }
open spec fn tag(&self) -> int { 3 }
