//// fn layer::SerializedLayer.add_to_network(self, network) -> r
requires old(network).inv()
ensures final(network).inv(), (r is Ok) == (decode(*self) is Some && old(network).accepts(decode(*self)->0)),
   r is Ok ==> final(network).appended(*old(network), decode(*self)->0, stag(*self)),
   r is Err ==> *final(network) == *old(network)
//// fn network::SerializedNetwork.empty() -> r
ensures r.serial_layers@.len() == 0
//// fn network::SerializedNetwork.populate_network(self, network) -> r
requires old(network).inv()
ensures final(network).inv(), (r is Ok) == old(network).chain_ok(self.serial_layers@, self.serial_layers@.len() as int),
   r is Ok ==> final(network).loaded(*old(network), self.serial_layers@, self.serial_layers@.len() as int),
   r is Err ==> exists|n: int| 0 <= n < self.serial_layers@.len() && #[trigger] final(network).loaded(*old(network), self.serial_layers@, n)
//// loop 0 n
invariant network.inv(), network.loaded(*old(network), self.serial_layers@, n as int), old(network).chain_ok(self.serial_layers@, n as int), n == 0 ==> *network == *old(network),
//// ghost 0
let ghost g0 = *network;
//// begin 0
lem_link_next(*old(network), g0, self.serial_layers@, n as int);
//// end 0
lem_loaded_next(*old(network), g0, *network, self.serial_layers@, n as int);
//// fn network::SerializedNetwork.new_from_network(network) -> r
requires network.inv()
ensures r is Ok, network.serial_of(r->Ok_0.serial_layers@)
//// local sn obj 0
//// loop 0 n
invariant sn.serial_layers@.len() == n, forall|i: int| 0 <= i < n ==> network.serial_at(#[trigger] sn.serial_layers@[i], i),
//// alt
//// local list obj 0
//// loop 0 n
invariant list@.len() == n, forall|i: int| 0 <= i < n ==> network.serial_at(#[trigger] list@[i], i),
//// fn network::SerializedNetwork.to_byte_array(self) -> r
ensures r is Ok, r->Ok_0@ == enc(*self)
//// fn network::Network.new(run_state) -> r
ensures r.inv(), r.n() == 0, r.run_state == run_state, r.input_shape == sh(0, 0, 0), r.output_shape == sh(0, 0, 0)
//// fn network::Network.save_to_file(self, filename) -> r
requires self.inv()
ensures r is Ok ==> exists|sn: SerializedNetwork| #[trigger] crate::stubs::fs::written(filename@, enc(sn)) && self.serial_of(sn.serial_layers@),
   r is Err ==> crate::stubs::fs::write_fails(filename@)
//// fn network::Network.load_from_file(self, filename) -> r
requires old(self).inv()
ensures final(self).inv(),
   r is Ok ==> exists|b: Seq<u8>| #[trigger] crate::stubs::fs::readable(filename@, b) && old(self).loads(b) && final(self).loaded(*old(self), net_of(b), net_of(b).len() as int),
   r is Err ==> crate::stubs::fs::read_fails(filename@) || exists|b: Seq<u8>| #[trigger] crate::stubs::fs::readable(filename@, b) && !old(self).loads(b),
   r is Err ==> *final(self) == *old(self) || exists|b: Seq<u8>, n: int| #[trigger] crate::stubs::fs::readable(filename@, b) && 0 <= n < net_of(b).len() && #[trigger] final(self).loaded(*old(self), net_of(b), n)
//// fn network::Network.add_layer(self, layer) -> r
requires old(self).inv(), layer.inv(), cfg_ok(layer.cfg())
ensures final(self).inv(), (r is Ok) == old(self).accepts(layer.cfg()),
   r is Ok ==> final(self).appended(*old(self), layer.cfg(), layer.tag()),
   r is Ok && final(self).run_state == NetworkRunState::Training ==> zeroed(final(self).layers@[old(self).n()].aux()),
   r is Err ==> *final(self) == *old(self)
//// every
assert forall|i: int| 0 < i < self.n() implies #[trigger] self.link(i) by { if i < self.n() - 1 { assert(old(self).link(i)); } }
assert forall|i: int| 0 <= i < self.nb() implies sized(#[trigger] self.intermediate_states@[i], self.bsh(i)) by { if i < self.nb() - 1 && old(self).n() > 0 { assert(self.bsh(i) == old(self).bsh(i)); } }
assert forall|i: int| 0 <= i < self.intermediate_gradients@.len() implies sized(#[trigger] self.intermediate_gradients@[i], self.bsh(i)) by { if i < self.nb() - 1 && old(self).n() > 0 { assert(self.bsh(i) == old(self).bsh(i)); } }
//// fn network::Network.get_input_shape(self) -> r
ensures r == self.input_shape
//// fn network::Network.get_output_shape(self) -> r
ensures r == self.output_shape
//// fn network::Network.get_intermediate_state(self, id) -> r
ensures (r is Ok) == (id < self.intermediate_states@.len()), r is Ok ==> *(r->Ok_0) == self.intermediate_states@[id as int]
//// fn network::Network.get_layers(self) -> r
ensures *r == self.layers
//// fn network::Network.get_run_state(self) -> r
ensures r == self.run_state
//// fn network::Network.switch_to_training(self)
requires old(self).inv()
ensures final(self).inv(), final(self).run_state == NetworkRunState::Training, final(self).same_layers(*old(self)), final(self).same_shapes(*old(self)), final(self).intermediate_states@ == old(self).intermediate_states@,
   forall|i: int| 0 <= i < final(self).n() ==> zeroed((#[trigger] final(self).layers@[i]).aux()),
   forall|i: int| 0 <= i < final(self).nb() ==> zero_like(#[trigger] final(self).intermediate_gradients@[i], final(self).bsh(i))
//// entry 0
let ghost s0 = *self;
//// loop 0 n
invariant self.run_state == s0.run_state, self.intermediate_gradients@ == s0.intermediate_gradients@, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@, self.n() == old(self).n(),
   forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == old(self).layers@[i].cfg() && self.layers@[i].tag() == old(self).layers@[i].tag(),
   forall|i: int| 0 <= i < n ==> (#[trigger] self.layers@[i]).mode() == NetworkRunState::Training && zeroed(self.layers@[i].aux()),
//// entry 1
let ghost s1 = *self;
//// loop 1 n
invariant self.run_state == s1.run_state, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@, self.same_layers(*old(self)),
   forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].mode() == NetworkRunState::Training && zeroed(self.layers@[i].aux()),
   self.intermediate_gradients@.len() == n, forall|i: int| 0 <= i < n ==> zero_like(#[trigger] self.intermediate_gradients@[i], old(self).bsh(i)),
//// exit
lem_same_sized(*old(self), *self);
//// alt
//// entry 0
let ghost s0 = *self;
//// loop 0 n
invariant self.run_state == s0.run_state, self.layers@ == s0.layers@, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@,
   self.intermediate_gradients@.len() == n, forall|i: int| 0 <= i < n ==> zero_like(#[trigger] self.intermediate_gradients@[i], old(self).bsh(i)),
//// entry 1
let ghost s1 = *self;
//// loop 1 n
invariant self.run_state == s1.run_state, self.intermediate_gradients@ == s1.intermediate_gradients@, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@, self.n() == old(self).n(),
   forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == old(self).layers@[i].cfg() && self.layers@[i].tag() == old(self).layers@[i].tag(),
   forall|i: int| 0 <= i < n ==> (#[trigger] self.layers@[i]).mode() == NetworkRunState::Training && zeroed(self.layers@[i].aux()),
//// exit
lem_same_sized(*old(self), *self);
//// alt
//// local g list 0
//// loop 0 n
invariant g@.len() == n, forall|i: int| 0 <= i < n ==> zero_like(#[trigger] g@[i], old(self).bsh(i)),
//// entry 1
let ghost s1 = *self;
//// loop 1 n
invariant self.run_state == s1.run_state, self.intermediate_gradients@ == s1.intermediate_gradients@, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@, self.n() == old(self).n(),
   forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == old(self).layers@[i].cfg() && self.layers@[i].tag() == old(self).layers@[i].tag(),
   forall|i: int| 0 <= i < n ==> (#[trigger] self.layers@[i]).mode() == NetworkRunState::Training && zeroed(self.layers@[i].aux()),
//// exit
lem_same_sized(*old(self), *self);
//// fn network::Network.switch_to_inference(self)
requires old(self).inv()
ensures final(self).inv(), final(self).run_state == NetworkRunState::Inference, final(self).same_layers(*old(self)), final(self).same_shapes(*old(self)), final(self).intermediate_states@ == old(self).intermediate_states@
//// entry 0
let ghost s0 = *self;
//// loop 0 n
invariant self.run_state == s0.run_state, self.intermediate_gradients@ == s0.intermediate_gradients@, self.same_shapes(*old(self)), self.intermediate_states@ == old(self).intermediate_states@, self.n() == old(self).n(),
   forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == old(self).layers@[i].cfg() && self.layers@[i].tag() == old(self).layers@[i].tag(),
   forall|i: int| 0 <= i < n ==> (#[trigger] self.layers@[i]).mode() == NetworkRunState::Inference,
//// exit
lem_same_sized(*old(self), *self);
//// fn network::Network.infer(self, input) -> r
requires old(self).inv(), input.wf()
ensures final(self).inv(), (r is Ok) == (old(self).n() > 0 && input.shape == old(self).input_shape),
   r is Ok ==> final(self).intermediate_states@[0].same(*input) && (forall|i: int| 0 <= i < final(self).n() ==> #[trigger] final(self).stepped(*old(self), i)),
   final(self).run_state == old(self).run_state, final(self).same_layers(*old(self)), final(self).same_shapes(*old(self)), final(self).intermediate_gradients@ == old(self).intermediate_gradients@,
   r is Err ==> *final(self) == *old(self)
//// loop 0 n
invariant self.step_inv(*old(self), n as int), old(self).inv(), self.intermediate_gradients@ == old(self).intermediate_gradients@, self.intermediate_states@[0].same(*input),
   forall|i: int| 0 <= i < n ==> #[trigger] self.stepped(*old(self), i),
   forall|i: int| n <= i < self.n() ==> (#[trigger] self.layers@[i]).aux() == old(self).layers@[i].aux(),
//// ghost 0
let ghost g0 = *self;
//// begin 0
lem_same_sized_all(*old(self)); lem_bounds(*old(self), n as int);
assert(sized(g0.intermediate_states@[n as int], old(self).bsh(n as int)) && sized(g0.intermediate_states@[n + 1], old(self).bsh(n + 1)));
assert(g0.layers@[n as int].cfg() == old(self).layers@[n as int].cfg());
//// end 0
lem_step_kept(*old(self), g0, *self, n as int);
//// exit
lem_same_sized(*old(self), *self);
//// fn network::Network.backward(self, incoming_loss_gradient) -> r
requires old(self).inv(), incoming_loss_gradient.wf()
ensures final(self).inv(),
   (r is Ok) == (old(self).n() > 0 && old(self).run_state == NetworkRunState::Training && incoming_loss_gradient.shape == old(self).output_shape && forall|i: int| 0 <= i < old(self).n() ==> #[trigger] old(self).back_ok(i)),
   r is Ok ==> final(self).intermediate_gradients@[old(self).n()].same(*incoming_loss_gradient) && (forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).backed(*old(self), i)),
   final(self).run_state == old(self).run_state, final(self).same_layers(*old(self)), final(self).same_shapes(*old(self)), final(self).intermediate_states@ == old(self).intermediate_states@,
   !(old(self).n() > 0 && old(self).run_state == NetworkRunState::Training && incoming_loss_gradient.shape == old(self).output_shape) ==> *final(self) == *old(self)
//// loop 0 n
invariant self.back_inv(*old(self)), old(self).inv(), old(self).run_state == NetworkRunState::Training, incoming_loss_gradient.shape == old(self).output_shape, self.intermediate_gradients@[old(self).n()].same(*incoming_loss_gradient),
   forall|i: int| old(self).n() - n <= i < old(self).n() ==> #[trigger] self.backed(*old(self), i),
   forall|i: int| old(self).n() - n <= i < old(self).n() ==> #[trigger] old(self).back_ok(i),
   forall|i: int| 0 <= i < old(self).n() - n ==> (#[trigger] self.layers@[i]).aux() == old(self).layers@[i].aux(),
//// ghost 0
let ghost g0 = *self; let ghost c = old(self).n() - 1 - n;
//// begin 0
lem_same_sized_all(*old(self)); lem_bounds(*old(self), c);
assert(sized(g0.intermediate_gradients@[c], old(self).bsh(c)) && sized(g0.intermediate_gradients@[c + 1], old(self).bsh(c + 1)));
assert(sized(g0.intermediate_states@[c], old(self).bsh(c)) && sized(g0.intermediate_states@[c + 1], old(self).bsh(c + 1)));
assert(g0.layers@[c].cfg() == old(self).layers@[c].cfg());
assert(old(self).back_ok(c) == bwd_ok(old(self).lc(c), old(self).run_state, old(self).bsh(c), old(self).bsh(c + 1), old(self).bsh(c + 1), old(self).bsh(c)));
//// end 0
lem_back_kept(*old(self), g0, *self, c);
//// every
lem_same_sized(*old(self), *self);
//// fn network::Network.get_output(self) -> r
requires self.inv()
ensures (r is Ok) == (self.n() > 0), r is Ok ==> *(r->Ok_0) == self.intermediate_states@[self.n()]
